// SETS: m_dec
#include "msg.h"
#include "spec_m_dec.h"
#define SETNAME m_dec
#include "h_field.h"
