// SETS: m_asc
#include "msg.h"
#include "spec_m_asc.h"
#define SETNAME m_asc
#include "h_field.h"
