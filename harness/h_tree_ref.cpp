// SETS: t_ref
#include "spec_t_ref.h"
#define SETNAME t_ref
#include "h_tree.h"
