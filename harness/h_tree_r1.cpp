// SETS: t_r1
#define V1ONLY
#include "spec_t_r1.h"
#define SETNAME t_r1
#include "h_tree.h"
