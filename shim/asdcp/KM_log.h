#ifndef SHIM_KM_LOG_H
#define SHIM_KM_LOG_H

#include "KM_error.h"

namespace Kumu {

const i32_t LOG_ALLOW_NONE = 0;
const i32_t LOG_ALLOW_ALL = 0x000fffff;

class ILogSink
{
public:
	void SetFilterFlag(i32_t) {}
	void UnsetFilterFlag(i32_t) {}
};

ILogSink& DefaultLogSink();

}

#endif
