// SETS: m_sdec
#include "msg.h"
#include "spec_m_sdec.h"
#define SETNAME m_sdec
#include "h_field.h"
