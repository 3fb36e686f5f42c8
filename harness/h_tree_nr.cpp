// SETS: t_nr
#include "spec_t_nr.h"
#define SETNAME t_nr
#include "h_tree.h"
