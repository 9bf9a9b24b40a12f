#include <cybozu/atoi.hpp>
namespace cybozu { namespace drv {
#define A(tag, T) \
	T dec_f_##tag(bool *b, const char *p, size_t n) { return cybozu::atoi(b, p, n); } \
	T dec_t_##tag(const char *p, size_t n) { return cybozu::atoi(p, n); } \
	T dec_s_##tag(const std::string& s) { return cybozu::atoi(s); } \
	T dec_g_##tag(bool *b, const std::string& s) { return cybozu::atoi(b, s); }
#define H(tag, T) \
	T hex_f_##tag(bool *b, const char *p, size_t n) { return cybozu::hextoi(b, p, n); } \
	T hex_t_##tag(const char *p, size_t n) { return cybozu::hextoi(p, n); } \
	T hex_s_##tag(const std::string& s) { return cybozu::hextoi(s); } \
	T hex_g_##tag(bool *b, const std::string& s) { return cybozu::hextoi(b, s); }
A(i8, signed char) A(u8, unsigned char) A(i16, short) A(u16, unsigned short) A(i32, int) A(u32, unsigned int) A(i64, long) A(u64, unsigned long) A(i64x, long long) A(u64x, unsigned long long)
H(i8, signed char) H(i8c, char) H(u8, unsigned char) H(i16, short) H(u16, unsigned short) H(i32, int) H(u32, unsigned int) H(i64, long) H(u64, unsigned long) H(i64x, long long) H(u64x, unsigned long long)
} }
