// SETS: m_uni
#include "msg.h"
#include "spec_m_uni.h"
#define SETNAME m_uni
#include "h_field.h"
