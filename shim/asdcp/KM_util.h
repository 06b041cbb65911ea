#ifndef SHIM_KM_UTIL_H
#define SHIM_KM_UTIL_H

#include "KM_error.h"
#include <cstring>
#include <string>

namespace Kumu {

const ui32_t Kilobyte = 1024;
const ui32_t Megabyte = Kilobyte * Kilobyte;
const ui32_t Gigabyte = Megabyte * Kilobyte;

const ui32_t UUID_Length = 16;
const ui32_t SymmetricKey_Length = 16;

i32_t hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size);
char const* bin2hex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);
char const* bin2UUIDhex(byte_t const* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);
char const* base64encode(byte_t const* buf, ui32_t buf_len, char* strbuf, ui32_t strbuf_len);
i32_t base64decode(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count);
void GenRandomUUID(byte_t* buf);

template <ui32_t SIZE>
class Identifier
{
public:
	Identifier() : _has_value(false) { memset(_value, 0, SIZE); }
	explicit Identifier(byte_t const* value) : _has_value(true) { memcpy(_value, value, SIZE); }
	void Set(byte_t const* value) { memcpy(_value, value, SIZE); _has_value = true; }
	void Reset() { memset(_value, 0, SIZE); _has_value = false; }
	byte_t const* Value() const { return _value; }
	ui32_t Size() const { return SIZE; }
	bool HasValue() const { return _has_value; }
	bool DecodeHex(char const* str) {
		ui32_t c = 0;
		_has_value = hex2bin(str, _value, SIZE, &c) == 0 && c == SIZE;
		return _has_value;
	}
	char const* EncodeHex(char* buf, ui32_t len) const { return bin2hex(_value, SIZE, buf, len); }
	char const* EncodeString(char* buf, ui32_t len) const { return SIZE == 16 ? bin2UUIDhex(_value, SIZE, buf, len) : bin2hex(_value, SIZE, buf, len); }
	bool operator==(Identifier const& o) const { return memcmp(_value, o._value, SIZE) == 0; }
	bool operator!=(Identifier const& o) const { return !(*this == o); }
	bool operator<(Identifier const& o) const { return memcmp(_value, o._value, SIZE) < 0; }
protected:
	bool _has_value;
	byte_t _value[SIZE];
};

class UUID : public Identifier<UUID_Length>
{
public:
	UUID() {}
	explicit UUID(byte_t const* value) : Identifier<UUID_Length>(value) {}
	/* with dashes, unlike other identifiers */
	char const* EncodeHex(char* buf, ui32_t len) const { return bin2UUIDhex(_value, UUID_Length, buf, len); }
};

void GenRandomValue(UUID& id);

class SymmetricKey : public Identifier<SymmetricKey_Length>
{
public:
	SymmetricKey() {}
	explicit SymmetricKey(byte_t const* value) : Identifier<SymmetricKey_Length>(value) {}
};

void GenRandomValue(SymmetricKey& id);

class ByteString
{
public:
	ByteString() {}
	explicit ByteString(ui32_t capacity) { Capacity(capacity); }
	~ByteString() { delete[] _data; }
	ByteString(ByteString const&) = delete;
	ByteString& operator=(ByteString const&) = delete;
	Result_t Capacity(ui32_t capacity) {
		delete[] _data;
		_data = new byte_t[capacity];
		_capacity = capacity;
		_length = 0;
		return RESULT_OK;
	}
	ui32_t Capacity() const { return _capacity; }
	ui32_t Length() const { return _length; }
	ui32_t Length(ui32_t l) { return _length = l; }
	byte_t* Data() { return _data; }
	byte_t const* RoData() const { return _data; }
private:
	byte_t* _data = nullptr;
	ui32_t _capacity = 0;
	ui32_t _length = 0;
};

}

#endif
