#include <cybozu/crypto.hpp>
#include <cybozu/sha2.hpp>
namespace cybozu { namespace drv {
typedef crypto::Hash H; typedef crypto::Hmac M; typedef crypto::Cipher C;
#define HASH(tag, N) \
	inline int hid_##tag() { return H::N; } \
	inline size_t hsize_##tag() { return H::getSize(H::N); } \
	inline const char *hname_##tag() { return H::getName(H::N); } \
	inline std::string hdig_##tag(const void *a, size_t an, const void *b, size_t bn) { H h(H::N); h.update(a, an); return h.digest(b, bn); } \
	inline size_t hstat_##tag(void *o, const void *a, size_t an) { return H::digest(o, H::N, a, an); } \
	inline std::string hmac_##tag(const std::string& k, const std::string& d) { M m(H::N); return m.eval(k, d); }
HASH(sha1, N_SHA1) HASH(sha224, N_SHA224) HASH(sha256, N_SHA256) HASH(sha384, N_SHA384) HASH(sha512, N_SHA512)
inline size_t hsizeany(H::Name n) { return H::getSize(n); }
inline const char *hnameany(H::Name n) { return H::getName(n); }
inline int hparse(const std::string& s) { return H::getName(s); }
inline void hctor(H::Name n) { H h(n); }
inline void mctor(H::Name n) { M h(n); }
inline void cctor(C::Name n) { C c(n); }
inline size_t csizeany(C::Name n) { return C::getSize(n); }
#define CIPH(tag, N) \
	inline int cid_##tag() { return C::N; } \
	inline size_t csize_##tag() { return C::getSize(C::N); } \
	inline void cenc_##tag(const std::string& k, const std::string& iv, bool pad) { C c(C::N); c.setup(C::Encoding, k, iv, pad); } \
	inline void cdec_##tag(const std::string& k, const std::string& iv, bool pad) { C c(C::N); c.setup(C::Decoding, k, iv, pad); }
CIPH(aes128cbc, N_AES128_CBC) CIPH(aes192cbc, N_AES192_CBC) CIPH(aes256cbc, N_AES256_CBC) CIPH(aes128ecb, N_AES128_ECB) CIPH(aes192ecb, N_AES192_ECB) CIPH(aes256ecb, N_AES256_ECB)
#define SHA(tag, T) \
	inline size_t sdig_##tag(void *o, size_t on, const void *a, size_t an, const void *b, size_t bn) { T h; h.update(a, an); return h.digest(o, on, b, bn); } \
	inline std::string sstr_##tag(const void *a, size_t an) { T h; return h.digest(a, an); }
SHA(sha256, Sha256) SHA(sha512, Sha512)
} }
using namespace cybozu::drv;
#define U(f) (void*)&f
#define HU(t) U(hid_##t), U(hsize_##t), U(hname_##t), U(hdig_##t), U(hstat_##t), U(hmac_##t)
#define CU(t) U(cid_##t), U(csize_##t), U(cenc_##t), U(cdec_##t)
void *tbl[] = { HU(sha1), HU(sha224), HU(sha256), HU(sha384), HU(sha512), U(hsizeany), U(hnameany), U(hparse), U(hctor), U(mctor), U(cctor), U(csizeany),
	CU(aes128cbc), CU(aes192cbc), CU(aes256cbc), CU(aes128ecb), CU(aes192ecb), CU(aes256ecb), U(sdig_sha256), U(sstr_sha256), U(sdig_sha512), U(sstr_sha512) };
