// Instantiation driver: makes the front end see every header of the library and concrete
// instantiations of every template.  Nothing here is ever executed.
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <sstream>
#include <fstream>
#include <cybozu/inttype.hpp>
#include <cybozu/array.hpp>
#include <cybozu/atoi.hpp>
#include <cybozu/atomic.hpp>
#include <cybozu/base64.hpp>
#include <cybozu/benchmark.hpp>
#include <cybozu/bit_operation.hpp>
#include <cybozu/bitvector.hpp>
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
#include <cybozu/config.hpp>
#include <cybozu/critical_section.hpp>
#include <cybozu/crypto.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/csv.hpp>
#include <cybozu/data_type.hpp>
#include <cybozu/endian.hpp>
#include <cybozu/env.hpp>
#include <cybozu/event.hpp>
#include <cybozu/exception.hpp>
#include <cybozu/file.hpp>
#include <cybozu/fmindex.hpp>
#include <cybozu/format.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/hash.hpp>
#include <cybozu/itoa.hpp>
#include <cybozu/json.hpp>
#include <cybozu/line_stream.hpp>
#include <cybozu/log.hpp>
#include <cybozu/minixml.hpp>
#include <cybozu/mmap.hpp>
#include <cybozu/mutex.hpp>
#include <cybozu/option.hpp>
#include <cybozu/parallel.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/process.hpp>
#include <cybozu/quit_signal_handler.hpp>
#include <cybozu/random_generator.hpp>
#include <cybozu/regex.hpp>
#include <cybozu/select8.hpp>
#include <cybozu/serializer.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/socket.hpp>
#include <cybozu/ssl.hpp>
#include <cybozu/stacktrace.hpp>
#include <cybozu/stream.hpp>
#include <cybozu/string.hpp>
#include <cybozu/string_operation.hpp>
#include <cybozu/sucvector.hpp>
#include <cybozu/thread.hpp>
#include <cybozu/time.hpp>
#include <cybozu/tls.hpp>
#include <cybozu/unordered_map.hpp>
#include <cybozu/unordered_set.hpp>
#ifdef __SSE4_1__
#include <cybozu/v128.hpp>
#endif
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/zlib.hpp>
#include <cybozu/nlp/mecab.hpp>
#include <cybozu/nlp/plsi.hpp>
#include <cybozu/nlp/random.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/tfidf.hpp>
#include <cybozu/nlp/top_score.hpp>

struct OutS { // opaque output stream
	void write(const void *buf, size_t size);
	void write(bool *pb, const void *buf, size_t size);
};
struct InS { // opaque input stream
	size_t readSome(void *buf, size_t size);
};
struct App { void quit(); };
struct Elem {
	bool operator()(size_t, size_t);
};

using namespace cybozu;
// ---- explicit class instantiations: all members get a body
template class cybozu::AlignedArray<int>;
template class cybozu::AlignedArray<uint64_t>;
template class cybozu::ScopedArray<int>;
template class cybozu::ScopedArray<std::string>;
template class cybozu::Base64Decoder<OutS>;
template class cybozu::Base64Decoder<std::ostream>;
template class cybozu::BitVectorT<uint8_t>;
template class cybozu::BitVectorT<uint32_t>;
template class cybozu::BitVectorT<uint64_t>;
template class cybozu::CsvReaderT<InS>;
template class cybozu::CsvWriterT<OutS>;
template class cybozu::CsvReaderT<cybozu::File>;
template class cybozu::CsvWriterT<cybozu::File>;
template class cybozu::LineStreamT<InS>;
template class cybozu::thread::AutoLockT<cybozu::Mutex>;
template class cybozu::SucVectorT<uint32_t, true>;
template class cybozu::SucVectorT<uint32_t, false>;
template class cybozu::SucVectorT<uint64_t, true>;
template class cybozu::WaveletMatrixT<true>;
template class cybozu::WaveletMatrixT<false>;
template class cybozu::FMindexT<uint8_t>;
template class cybozu::FMindexT<uint16_t>;
template class cybozu::ZlibCompressorT<OutS>;
template class cybozu::ZlibDecompressorT<InS>;
template class cybozu::StringT<cybozu::Char>;
template class cybozu::Utf8refT<const char*>;
template class cybozu::Frequency<uint8_t>;
template class cybozu::Frequency<uint16_t>;
template class cybozu::Frequency<int>;
template class cybozu::Frequency<std::string>;
template class cybozu::nlp::TopScore<size_t>;
template class cybozu::nlp::SparseVector<double>;
template class cybozu::nlp::SparseVector<int, cybozu::nlp::option::CompressedPositionTbl>;

template class cybozu::QuitSignalHandler<App>;
template class cybozu::parallel_util::Thread<Elem, size_t>;
// ---- function/member templates: use each one once
#define USE(...) (void)(__VA_ARGS__)
void inst_serializer(OutS& os, InS& is, std::ostream& sos)
{
#define SER(T) { typedef T TT; TT x = TT(); cybozu::load(x, is); cybozu::save(os, x); }
	SER(bool) SER(char) SER(short) SER(unsigned char) SER(unsigned short) SER(wchar_t) SER(float) SER(double)
	SER(int) SER(long) SER(long long) SER(unsigned int) SER(unsigned long) SER(unsigned long long) SER(std::string)
	typedef std::vector<int> VI; typedef std::list<int> LI; typedef std::deque<std::string> DS;
	typedef std::set<int> SI; typedef std::map<int, std::string> MI; typedef CYBOZU_NAMESPACE_STD::unordered_map<std::string, int> UM;
	SER(VI) SER(LI) SER(DS) SER(SI) SER(MI) SER(UM)
	SER(cybozu::String)
	save(os, "abc");
	std::vector<uint32_t> v; loadPodVec(v, is); savePodVec(os, v);
	{ std::vector<uint64_t> w; loadPodVec(w, is); savePodVec(os, w); }
	int a[4]; loadRange(a, 4, is); saveRange(os, a, 4);
	{ SucVectorT<uint32_t, true> s; s.load(is); s.save(os); }
	{ SucVectorT<uint64_t, true> s; s.load(is); s.save(os); }
	{ SucVectorT<uint32_t, false> s; s.load(is); s.save(os); }
	{ WaveletMatrixT<true> s; s.load(is); s.save(os); std::vector<uint32_t> vec; s.init(vec, 4); int x; s.get(&x, 0); }
	{ WaveletMatrixT<false> s; s.load(is); s.save(os); std::vector<uint32_t> vec; s.init(vec, 4); }
	{ FMindexT<uint8_t> s; uint32_t b0, e0; s.load(is); s.save(sos); std::string t; s.init(t.begin(), t.end(), 4); s.getRange(&b0, &e0, "x"); size_t b, e; s.getRange(&b, &e, t); std::string key; s.getPrevString(key, 0, 1); }
	{ CSucVector s; s.load(is); s.save(os); }
	{ Frequency<uint8_t> s; s.load(is); s.save(sos); }
	{ Frequency<uint16_t> s; s.load(is); s.save(os); }
	{ Frequency<int> s; s.load(is); s.save(os); std::vector<int> v; s.append(v[0]); s.init(v.begin(), v.end()); }
	{ Frequency<uint8_t> s; std::string v; s.append(v[0]); s.init(v.begin(), v.end()); }
	{ Frequency<std::string> s; s.load(is); s.save(os); }
	{ nlp::SparseVector<double> s; s.load(is); s.save(os); }
	{ nlp::SparseVector<int, nlp::option::CompressedPositionTbl> s; s.load(is); s.save(os); }
}
void inst_stream(OutS& os, InS& is, std::ostream& sos, std::istream& sis)
{
	char buf[8]; bool b; char c;
	cybozu::read(buf, 8, is); cybozu::read(&b, buf, 8, is); cybozu::write(os, buf, 8); cybozu::write(&b, os, buf, 8);
	cybozu::read(buf, 8, sis); cybozu::read(&b, buf, 8, sis); cybozu::write(sos, buf, 8); cybozu::write(&b, sos, buf, 8);
	cybozu::readSome(buf, 8, is); cybozu::readSome(buf, 8, sis); cybozu::readChar(&c, is); cybozu::writeChar(os, c); cybozu::writeChar(&b, os, c);
	InputStreamTag<InS>::readChar(&c, is); OutputStreamTag<OutS>::write(os, buf, 8);
	MemoryInputStream mis(buf, 8); MemoryOutputStream mos(buf, 8); std::string s; StringInputStream ss(s); StringOutputStream so(s);
	cybozu::read(buf, 8, mis); cybozu::write(mos, buf, 8); cybozu::read(buf, 8, ss); cybozu::write(so, buf, 8); cybozu::write(&b, mos, buf, 8); cybozu::write(&b, so, buf, 8);
	EncodeToBase64(os, is); DecodeFromBase64(os, is); EncodeToBase64(sos, sis); DecodeFromBase64(sos, sis);
	{ File f; cybozu::read(buf, 8, f); cybozu::write(f, buf, 8); cybozu::readSome(buf, 8, f); }
	{ Socket f; cybozu::read(buf, 8, f); cybozu::write(f, buf, 8); }
	{ ssl::ClientSocket f; cybozu::read(buf, 8, f); }
	LineStreamT<InS> ls(is); ls.next(s);
	{ CsvReaderT<InS> r(is); std::vector<std::string> v; r.read(v); CsvWriterT<OutS> w(os); w.write(v.begin(), v.end()); }
	{ CsvReader r("x"); std::vector<std::string> v; r.read(v); CsvWriter w("x"); w.write(v.begin(), v.end()); }
	{ MiniXml x; const char *p = 0; x.parse(p, p); MiniXml y(p, p);  }
	
}
void inst_num()
{
	bool b; std::string s; char buf[128];
#define NUM(T) { T x; x = cybozu::atoi("1"); x = cybozu::atoi(s); x = cybozu::atoi("1", 1); x = cybozu::atoi(&b, "1", 1); x = cybozu::hextoi("1"); x = cybozu::hextoi(s); x = cybozu::hextoi("1", 1); x = cybozu::hextoi(&b, "1", 1); s = cybozu::itoa(x); (void)x; }
#define NUMU(T) { T x = 1; itohex(s, x); s = itohex(x); itobin(s, x); s = itobin(x); itohex(buf, sizeof(buf), x); itobin(buf, sizeof(buf), x); itoa_local::uintToDec(buf, sizeof(buf), x); itoa_local::uintToHex(buf, sizeof(buf), x); itoa_local::uintToBin(buf, sizeof(buf), x); }
#define NUMS(T) { T x = 1; itoa_local::intToDec(buf, sizeof(buf), x); }
	NUM(short) NUM(unsigned short) NUM(int) NUM(unsigned int) NUM(long) NUM(unsigned long) NUM(long long) NUM(unsigned long long)
	NUMU(unsigned char) NUMU(unsigned short) NUMU(unsigned int) NUMU(unsigned long) NUMU(unsigned long long)
	NUMS(int) NUMS(long) NUMS(long long)
	{ signed char x = cybozu::atoi("1"); unsigned char y = cybozu::hextoi("1"); char z = cybozu::hextoi(s); USE(x); USE(y); USE(z); }
}
void inst_atomic(int *i, uint64_t *u)
{
	AtomicAdd(i, 1); AtomicExchange(i, 1); AtomicCompareExchange(i, 1, 2); AtomicAdd(u, (uint64_t)1); AtomicExchange(u, (uint64_t)1); AtomicCompareExchange(u, (uint64_t)1, (uint64_t)2);
}
void inst_misc(OutS& os, InS& is, std::ostream& sos)
{
	std::string s; std::vector<std::string> vs; cybozu::String us;
	Trim(s); TrimCopy(s); ToLower(s); ToUpper(s); ToLower(s, s); ToUpper(s, s); Strip(s); CaseCompare(s, s); CaseEqual(s, s); CaseEqual(s, "a"); CaseFind<char>(s, "a"); CaseEqualStartWith(s, "abc"); Split(vs, s); Split(s); SkipSpace(s.begin(), s.end());
	Trim(us); TrimCopy(us); ToLower(us); Strip(us); CaseCompare(us, us); CaseEqual(us, us);
	const char *p = s.c_str(); SkipSpace(p, p); CaseFind(p, p, "a"); CaseCompare(p, 1, p, 1);
	String16 s16; ConvertUtf16ToUtf8(&s, s16); ConvertUtf8ToUtf16(&s16, s); Char c; string::GetCharFromUtf8(&c, p, p); const Char16 *q = s16.c_str(); string::GetCharFromUtf16(c, q, q);
	{ std::string::iterator b = s.begin(); string::GetCharFromUtf8(&c, b, s.end()); }
	us.append(s); us.assign(s); us.append(p, p); us.insert(us.begin(), us.begin(), us.end()); us.replace(us.begin(), us.end(), us.begin(), us.end());
	{ XorShift rg; uint32_t a[4]; bool b; rg.read(&b, a, 4); rg.read(a, 4); }
	{ XorShift128Plus rg; uint32_t a[4]; bool b; rg.read(&b, a, 4); rg.read(a, 4); }
	{ Xoroshiro128Plus rg; uint32_t a[4]; bool b; rg.read(&b, a, 4); rg.read(a, 4); }
	{ RandomGenerator rg; uint32_t a[4]; bool b; rg.read(&b, a, 4); rg.read(a, 4); rg.get32(); rg.get64(); std::vector<int> v; cybozu::shuffle(v, rg); cybozu::shuffle(a, 4, rg); }
	{ Pcg32 rg; uint32_t a[4]; rg.read(a, 4); }
	{ Elem e; parallel_for(e, (size_t)10, (size_t)2); }
	{ option_local::convert((int*)0, ""); option_local::convert((double*)0, ""); option_local::convert(&s, ""); Option opt; int i; opt.appendOpt(&i, 1, "a"); opt.appendMust(&i, "b"); opt.appendParam(&i, "c"); opt.appendParamVec(&vs, "d"); opt.appendParamOpt(&i, 3, "e"); opt.appendVec(&vs, "f"); opt.appendBoolOpt((bool*)0, "g"); opt.isSet(&i);
	  uint64_t u; opt.appendOpt(&u, 1, "h"); opt.appendParam(&u, "i"); opt.appendMust(&u, "j"); opt.appendOpt(&s, "x", "k"); opt.appendParam(&s, "l"); opt.appendParamOpt(&s, "x", "m"); double d; opt.appendOpt(&d, 1, "n"); std::vector<int> vi; opt.appendVec(&vi, "o"); opt.appendParamVec(&vi, "p"); }
	{ hash32(p, 1); hash64(p, 1); hash32(s.begin(), s.end()); hash64(s.begin(), s.end()); }
	{ Exception e("a"); e << 1 << "x" << s << 3.0 << ErrorNo() << exception::makeString(p, 1); }
	{ CYBOZU_NAMESPACE_STD::unordered_map<cybozu::String, int> m; m[us] = 1; }
	{ bsf((uint32_t)1); bsf((uint64_t)1); bsr((uint32_t)1); bsr((uint64_t)1); popcnt((uint32_t)1); popcnt((uint64_t)1); makeBitMask64(3); }
	{ nlp::SparseVector<double> a, b; double r; nlp::InnerProduct(&r, a, b); std::map<int, double> m; a.set(m); typedef nlp::Intersection<nlp::SparseVector<double>, nlp::SparseVector<double> > I; I ii(a, b); for (I::const_iterator i = ii.begin(), ie = ii.end(); i != ie; ++i) {} }
	{ nlp::Plsi pl; pl.step(); nlp::Mecab mc; mc.parse(vs, "a"); }
	{ Mmap mm("x"); File ff; ff.isOpen(); }
	{ Time t; t.toString(s, "%Y", true); s = t.toString(); }
	{ s = cybozu::format("%d", 1); }
	{ BitVectorT<uint64_t> v; v.append(v); uint64_t a; v.append(&a, 64); v.append(1, 3); v.extract(&a, 0, 3); v.extract(0, 3); v.extract(v, 0, 3); cybozu::RoundupBit<uint64_t>(4); }
	{ Socket sk; int i; sk.setSocketOption(SO_SNDBUF, 1); sk.getSocketOption(SO_SNDBUF, &i); sk.getSocketOption(SO_SNDBUF); USE(i); }
}
