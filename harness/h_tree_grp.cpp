// SETS: t_grp
#include "spec_t_grp.h"
#define SETNAME t_grp
#include "h_tree.h"
