// SETS: m_bv
#include "msg.h"
#include "spec_m_bv.h"
#define SETNAME m_bv
#include "h_field.h"
