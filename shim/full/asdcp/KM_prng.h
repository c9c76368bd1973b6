#ifndef SHIM_KM_PRNG_H
#define SHIM_KM_PRNG_H

#include "KM_types.h"

namespace Kumu {

extern bool dcpomatic_test;
void ResetTestRNG();

/** Not random at all, but never the same twice in a process */
class FortunaRNG
{
public:
	byte_t const* FillRandom(byte_t* buf, ui32_t len);
	void Reset();
};

}

#endif
