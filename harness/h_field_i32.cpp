// SETS: m_i32
#include "msg.h"
#include "spec_m_i32.h"
#define SETNAME m_i32
#include "h_field.h"
