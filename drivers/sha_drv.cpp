#include <string>
#include <algorithm>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <memory.h>
#include <assert.h>
#define private public
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#undef private
namespace cybozu { namespace drv {
#define SHA(tag, T, H) \
	size_t oh_##tag() { return offsetof(T, H); } \
	size_t ob_##tag() { return offsetof(T, roundBuf_); } \
	size_t on_##tag() { return offsetof(T, roundBufSize_); } \
	size_t ot_##tag() { return offsetof(T, totalSize_); } \
	void mk_##tag() { T h; use_##tag(h); }
void use_sha1(Sha1&); void use_sha256(Sha256&); void use_sha512(Sha512&);
#define S2(tag, T) \
	SHA(tag, T, h_) \
	void clr_##tag(T& h) { h.clear(); } \
	void up_##tag(T& h, const void *b, size_t n) { h.update(b, n); } \
	size_t dg_##tag(T& h, void *o, size_t on, const void *b, size_t n) { return h.digest(o, on, b, n); }
SHA(sha1, Sha1, H_)
S2(sha256, Sha256)
S2(sha512, Sha512)
void up_sha1(Sha1& h, const char *b, size_t n) { h.update(b, n); }
std::string dg_sha1(Sha1& h, const char *b, size_t n) { return h.digest(b, n); }
void hm_sha256(void *o, const void *k, size_t kn, const void *b, size_t n) { hmac256(o, k, kn, b, n); }
} }
