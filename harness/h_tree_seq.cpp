// SETS: t_seq
#include "spec_t_seq.h"
#define SETNAME t_seq
#include "h_tree.h"
