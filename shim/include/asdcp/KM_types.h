/* Stand-in for asdcplib: results and the basic types */

#ifndef SHIM_KM_TYPES_H
#define SHIM_KM_TYPES_H

#include <stdint.h>
#include <string>

typedef uint8_t ui8_t;
typedef uint16_t ui16_t;
typedef uint32_t ui32_t;
typedef uint64_t ui64_t;
typedef int8_t i8_t;
typedef int16_t i16_t;
typedef int32_t i32_t;
typedef int64_t i64_t;
typedef unsigned char byte_t;

namespace Kumu {

class Result_t
{
public:
	Result_t() : _value(0), _name("successful completion") {}
	Result_t(int value, std::string name) : _value(value), _name(name) {}
	bool operator==(Result_t const& other) const { return _value == other._value; }
	bool operator!=(Result_t const& other) const { return _value != other._value; }
	bool Success() const { return _value >= 0; }
	bool Failure() const { return _value < 0; }
	int Value() const { return _value; }
	char const* Label() const { return _name.c_str(); }
	char const* Message() const { return _name.c_str(); }

private:
	int _value;
	std::string _name;
};

}

#endif
