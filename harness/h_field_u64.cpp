// SETS: m_u64
#include "msg.h"
#include "spec_m_u64.h"
#define SETNAME m_u64
#include "h_field.h"
