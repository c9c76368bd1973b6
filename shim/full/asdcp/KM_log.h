#ifndef SHIM_KM_LOG_H
#define SHIM_KM_LOG_H

#include "KM_types.h"

namespace Kumu {

i32_t const LOG_ALLOW_ALL = 0x0fff;
i32_t const LOG_ALLOW_NONE = 0;

class ILogSink
{
public:
	void SetFilterFlag(i32_t f) { _flags |= f; }
	void UnsetFilterFlag(i32_t f) { _flags &= ~f; }

private:
	i32_t _flags = LOG_ALLOW_ALL;
};

ILogSink& DefaultLogSink();

}

#endif
