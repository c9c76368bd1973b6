#ifndef SHIM_KM_LOG_H
#define SHIM_KM_LOG_H
#include "KM_types.h"
#endif
