// SETS: t_pm
#include "spec_t_pm.h"
#define SETNAME t_pm
#include "h_tree.h"
