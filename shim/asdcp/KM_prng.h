#ifndef SHIM_KM_PRNG_H
#define SHIM_KM_PRNG_H

#include "KM_util.h"

namespace Kumu {

/** Not in asdcplib: somewhere else for random bytes to come from, if set (so that a run can be repeated exactly) */
extern void (*random_source)(byte_t*, ui32_t);

class FortunaRNG
{
public:
	byte_t const* FillRandom(byte_t* buf, ui32_t len);
	byte_t const* FillRandom(ByteString&);
};

}

#endif
