#ifndef SHIM_KM_UTIL_H
#define SHIM_KM_UTIL_H

#include "KM_types.h"
#include <vector>

namespace Kumu {

i32_t hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count);
char const* bin2hex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);
char const* bin2UUIDhex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);
char const* base64encode(byte_t const* buf, ui32_t buf_len, char* strbuf, ui32_t strbuf_len);
i32_t base64decode(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count);

class ByteString
{
public:
	ByteString() {}
	explicit ByteString(ui32_t capacity) : _data(capacity) {}
	byte_t* Data() { return _data.data(); }
	byte_t const* RoData() const { return _data.data(); }
	ui32_t Capacity() const { return _data.size(); }

private:
	std::vector<byte_t> _data;
};

class UUID
{
public:
	UUID() { memset(_value, 0, sizeof(_value)); }
	explicit UUID(byte_t const* v) { memcpy(_value, v, sizeof(_value)); }
	void Set(byte_t const* v) { memcpy(_value, v, sizeof(_value)); }
	byte_t const* Value() const { return _value; }
	ui32_t Size() const { return UUID_Length; }
	bool operator==(UUID const& o) const { return memcmp(_value, o._value, sizeof(_value)) == 0; }
	bool DecodeHex(char const* s);
	char const* EncodeHex(char* buf, ui32_t len) const;
	char const* EncodeString(char* buf, ui32_t len) const { return EncodeHex(buf, len); }

private:
	byte_t _value[UUID_Length];
};

void GenRandomUUID(byte_t* buf);
void GenRandomValue(UUID&);

}

#endif
