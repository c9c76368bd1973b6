/* The installed fast_float is too old to convert integers, which libdcp expects: add that.  As from the later versions, a '-' is
 * accepted (for signed types), no '+' nor white space, and anything after the digits is ignored.
 */

#ifndef SHIM_FAST_FLOAT_H
#define SHIM_FAST_FLOAT_H

#include_next <fast_float/fast_float.h>
#include <limits>

namespace fast_float {

template <class T>
from_chars_result shim_integer(char const* first, char const* last, T& value)
{
	auto p = first;
	bool const negative = std::numeric_limits<T>::is_signed && p != last && *p == '-';
	if (negative) {
		++p;
	}
	auto const digits = p;
	unsigned long long limit = std::numeric_limits<T>::max();
	if (negative) {
		++limit;
	}
	unsigned long long v = 0;
	bool overflow = false;
	for (; p != last && *p >= '0' && *p <= '9'; ++p) {
		unsigned const d = *p - '0';
		if (overflow || v > (limit - d) / 10) {
			overflow = true;
		} else {
			v = v * 10 + d;
		}
	}
	if (p == digits) {
		return { first, std::errc::invalid_argument };
	}
	if (overflow) {
		return { p, std::errc::result_out_of_range };
	}
	value = negative ? static_cast<T>(-v) : static_cast<T>(v);
	return { p, std::errc() };
}

#define SHIM_INTEGER(T) inline from_chars_result from_chars(char const* first, char const* last, T& value) { return shim_integer<T>(first, last, value); }
SHIM_INTEGER(unsigned char)
SHIM_INTEGER(unsigned short)
SHIM_INTEGER(int)
SHIM_INTEGER(unsigned int)
SHIM_INTEGER(long)
SHIM_INTEGER(unsigned long)
SHIM_INTEGER(long long)
SHIM_INTEGER(unsigned long long)
#undef SHIM_INTEGER

}

#endif
