/* A stand-in for asdcplib, with the parts of its interface that libdcp uses.  It writes files of its own format rather than MXF
 * (see asdcp.cc), but behaves as asdcplib does towards its caller.
 */

#ifndef SHIM_KM_TYPES_H
#define SHIM_KM_TYPES_H

#include <stdint.h>
#include <string.h>
#include <string>

typedef uint8_t ui8_t;
typedef uint16_t ui16_t;
typedef uint32_t ui32_t;
typedef uint64_t ui64_t;
typedef int8_t i8_t;
typedef int16_t i16_t;
typedef int32_t i32_t;
typedef int64_t i64_t;
typedef unsigned char byte_t;

namespace Kumu {

class Result_t
{
public:
	Result_t() : _value(0), _os(0), _name("Successful Completion") {}
	Result_t(int value, char const* name, int os = 0) : _value(value), _os(os), _name(name) {}
	bool operator==(Result_t const& other) const { return _value == other._value; }
	bool operator!=(Result_t const& other) const { return _value != other._value; }
	bool Success() const { return _value >= 0; }
	bool Failure() const { return _value < 0; }
	int Value() const { return _value; }
	int OsError() const { return _os; }
	operator int() const { return _value; }
	char const* Label() const { return _name; }
	char const* Message() const { return _name; }

private:
	int _value;
	int _os;
	char const* _name;
};

extern const Result_t RESULT_FALSE;
extern const Result_t RESULT_OK;
extern const Result_t RESULT_FAIL;
extern const Result_t RESULT_PTR;
extern const Result_t RESULT_NULL_STR;
extern const Result_t RESULT_ALLOC;
extern const Result_t RESULT_PARAM;
extern const Result_t RESULT_SMALLBUF;
extern const Result_t RESULT_INIT;
extern const Result_t RESULT_NOT_FOUND;
extern const Result_t RESULT_STATE;
extern const Result_t RESULT_FILEOPEN;
extern const Result_t RESULT_READFAIL;
extern const Result_t RESULT_WRITEFAIL;
extern const Result_t RESULT_ENDOFFILE;
extern const Result_t RESULT_BADSEEK;

typedef ui64_t fsize_t;
typedef i64_t fpos_t;

ui32_t const Kilobyte = 1024;
ui32_t const Megabyte = 1024 * 1024;
ui32_t const UUID_Length = 16;

}

#define KM_SUCCESS(r) ((r).Success())
#define KM_FAILURE(r) ((r).Failure())

#endif
