// SETS: t_pd
#include "spec_t_pd.h"
#define PMAPS
#define SETNAME t_pd
#include "h_tree.h"
