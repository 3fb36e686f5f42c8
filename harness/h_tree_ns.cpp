// SETS: t_ns
#include "spec_t_ns.h"
#define SETNAME t_ns
#include "h_tree.h"
