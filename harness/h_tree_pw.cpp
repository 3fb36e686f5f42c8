// SETS: t_pw
#include "spec_t_pw.h"
#define SETNAME t_pw
#include "h_tree.h"
