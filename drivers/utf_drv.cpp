#include <cybozu/string.hpp>
#include <vector>
namespace cybozu { namespace drv {
bool dec8(Char *c, const char *& begin, const char * const& end) { return string::GetCharFromUtf8(c, begin, end); }
bool dec16(Char *c, const Char16 *& begin, const Char16 * const& end) { return string::GetCharFromUtf16(*c, begin, end); }
int enc8(char *out, Char c) { return string::toUtf8(out, c); }
int enc16(Char16 *out, Char c) { return string::toUtf16(out, c); }
int size8(Char c) { return string::GetCharSize(c); }
bool valid(Char c) { return string::IsValidChar(c); }
bool app8(std::string& out, Char c) { return string::AppendUtf8(out, c); }
bool app16(String16& out, Char c) { return string::AppendUtf16(out, c); }
} }
namespace cybozu { namespace drv2 {
bool cv_p16to8(std::string *out, const Char16 *p, size_t n) { return ConvertUtf16ToUtf8(out, p, p + n); }
bool cv_p8to16(String16 *out, const char *p, size_t n) { return ConvertUtf8ToUtf16(out, p, p + n); }
bool cv_s16to8(std::string *out, const String16& s) { return ConvertUtf16ToUtf8(out, s); }
bool cv_s8to16(String16 *out, const std::string& s) { return ConvertUtf8ToUtf16(out, s); }
void th_s16to8(std::string *ret, const String16& s) { new (ret) std::string(ToUtf8(s)); }
void th_s8to16(String16 *ret, const std::string& s) { new (ret) String16(ToUtf16(s)); }
void ap_p8(String& out, const char *p, size_t n) { out.append(p, p + n); }
void ap_n8(String& out, const char *p, size_t n) { out.append(p, n); }
void ap_s8(String& out, const std::string& s) { out.append(s); }
void as_s8(String& out, const std::string& s) { out.assign(s); }
void ct_s8(String *out, const std::string& s) { new (out) String(s); }
void ct_n8(String *out, const char *p, size_t n) { new (out) String(p, n); }
void ap_p16(String& out, const Char16 *p, size_t n) { out.append(p, p + n); }
void ct_s16(String *out, const String16& s) { new (out) String(s); }
void to8(std::string& out, const String& s) { s.toUtf8(out); }
void to16(String16& out, const String& s) { s.toUtf16(out); }
} }
