// SETS: t_dict
#include "spec_t_dict.h"
#define SETNAME t_dict
#include "h_tree.h"
