#include <cybozu/serializer.hpp>
namespace cybozu { namespace drv {
#define RT(tag, T) \
	void rt_##tag(T *y, T x, size_t *wrote, size_t *took) { \
		char buf[32]; \
		MemoryOutputStream os(buf, sizeof(buf)); \
		save(os, x); \
		*wrote = os.getPos(); \
		MemoryInputStream is(buf, sizeof(buf)); \
		load(*y, is); \
		*took = is.getPos(); \
	}
RT(i32, int) RT(u32, unsigned int) RT(i64, long) RT(u64, unsigned long) RT(i64x, long long) RT(u64x, unsigned long long)
RT(b, bool) RT(c, char) RT(s, short) RT(uc, unsigned char) RT(us, unsigned short) RT(w, wchar_t) RT(f, float) RT(d, double)
} }
