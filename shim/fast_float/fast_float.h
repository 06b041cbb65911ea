/* The installed fast_float is older than the one libdcp wants; add what newer versions do for integers */
#ifndef SHIM_FAST_FLOAT_H
#define SHIM_FAST_FLOAT_H

#include_next <fast_float/fast_float.h>
#include <limits>
#include <type_traits>

namespace fast_float {

namespace shim {

template <class T>
from_chars_result parse_int(char const* first, char const* last, T& value)
{
	from_chars_result r;
	auto p = first;
	bool negative = false;
	if (std::is_signed<T>::value && p != last && *p == '-') {
		negative = true;
		++p;
	}
	auto const start = p;
	unsigned long long v = 0;
	bool over = false;
	for (; p != last && *p >= '0' && *p <= '9'; ++p) {
		unsigned const d = *p - '0';
		if (v > (std::numeric_limits<unsigned long long>::max() - d) / 10) {
			over = true;
		} else {
			v = v * 10 + d;
		}
	}
	if (p == start) {
		r.ptr = first;
		r.ec = std::errc::invalid_argument;
		return r;
	}
	r.ptr = p;
	unsigned long long const limit = static_cast<unsigned long long>(std::numeric_limits<T>::max()) + (negative ? 1 : 0);
	if (over || v > limit) {
		r.ec = std::errc::result_out_of_range;
		return r;
	}
	r.ec = std::errc();
	value = static_cast<T>(negative ? 0 - v : v);
	return r;
}

}

#define SHIM_FF(T) inline from_chars_result from_chars(char const* first, char const* last, T& value) { return shim::parse_int(first, last, value); }
SHIM_FF(unsigned char)
SHIM_FF(signed char)
SHIM_FF(short)
SHIM_FF(unsigned short)
SHIM_FF(int)
SHIM_FF(unsigned int)
SHIM_FF(long)
SHIM_FF(unsigned long)
SHIM_FF(long long)
SHIM_FF(unsigned long long)
#undef SHIM_FF

}

#endif
