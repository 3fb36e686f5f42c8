// SETS: m_i64
#include "msg.h"
#include "spec_m_i64.h"
#define SETNAME m_i64
#include "h_field.h"
