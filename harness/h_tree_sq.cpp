// SETS: t_sq
#define SEQOPS
#include "spec_t_sq.h"
#define SETNAME t_sq
#include "h_tree.h"
