// SETS: m_u32
#include "msg.h"
#include "spec_m_u32.h"
#define SETNAME m_u32
#include "h_field.h"
