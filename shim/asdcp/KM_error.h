/* Stand-in for asdcplib's Kumu error type (see AS_DCP.h in this directory) */
#ifndef SHIM_KM_ERROR_H
#define SHIM_KM_ERROR_H

#include <cstdint>
#include <string>

typedef unsigned char byte_t;
typedef int8_t i8_t;
typedef uint8_t ui8_t;
typedef int16_t i16_t;
typedef uint16_t ui16_t;
typedef int32_t i32_t;
typedef uint32_t ui32_t;
typedef int64_t i64_t;
typedef uint64_t ui64_t;

namespace Kumu {

class Result_t
{
public:
	constexpr Result_t() : _value(0), _os_error(0), _label("OK") {}
	constexpr Result_t(int value, char const* label, int os_error = 0) : _value(value), _os_error(os_error), _label(label) {}

	bool operator==(Result_t const& rhs) const { return _value == rhs._value; }
	bool operator!=(Result_t const& rhs) const { return _value != rhs._value; }
	bool Success() const { return _value >= 0; }
	bool Failure() const { return _value < 0; }
	int Value() const { return _value; }
	operator int() const { return _value; }
	char const* Label() const { return _label; }
	char const* Symbol() const { return _label; }
	std::string Message() const { return _label; }
	int OsError() const { return _os_error; }
	Result_t os(int e) const { return Result_t(_value, _label, e); }

private:
	int _value;
	int _os_error;
	char const* _label;
};

constexpr Result_t RESULT_FALSE(1, "RESULT_FALSE");
constexpr Result_t RESULT_OK(0, "RESULT_OK");
constexpr Result_t RESULT_FAIL(-1, "RESULT_FAIL");
constexpr Result_t RESULT_PTR(-2, "RESULT_PTR");
constexpr Result_t RESULT_NULL_STR(-3, "RESULT_NULL_STR");
constexpr Result_t RESULT_ALLOC(-4, "RESULT_ALLOC");
constexpr Result_t RESULT_PARAM(-5, "RESULT_PARAM");
constexpr Result_t RESULT_NOTIMPL(-6, "RESULT_NOTIMPL");
constexpr Result_t RESULT_SMALLBUF(-7, "RESULT_SMALLBUF");
constexpr Result_t RESULT_INIT(-8, "RESULT_INIT");
constexpr Result_t RESULT_NOT_FOUND(-9, "RESULT_NOT_FOUND");
constexpr Result_t RESULT_NO_PERM(-10, "RESULT_NO_PERM");
constexpr Result_t RESULT_STATE(-11, "RESULT_STATE");
constexpr Result_t RESULT_CONFIG(-12, "RESULT_CONFIG");
constexpr Result_t RESULT_FILEOPEN(-13, "RESULT_FILEOPEN");
constexpr Result_t RESULT_BADSEEK(-14, "RESULT_BADSEEK");
constexpr Result_t RESULT_READFAIL(-15, "RESULT_READFAIL");
constexpr Result_t RESULT_WRITEFAIL(-16, "RESULT_WRITEFAIL");
constexpr Result_t RESULT_ENDOFFILE(-17, "RESULT_ENDOFFILE");
constexpr Result_t RESULT_FILEEXISTS(-18, "RESULT_FILEEXISTS");
constexpr Result_t RESULT_NOTAFILE(-19, "RESULT_NOTAFILE");

}

#define KM_SUCCESS(v) (((v).Success()) ? 1 : 0)
#define KM_FAILURE(v) (((v).Failure()) ? 1 : 0)
#define ASDCP_SUCCESS(v) KM_SUCCESS(v)
#define ASDCP_FAILURE(v) KM_FAILURE(v)

#endif
