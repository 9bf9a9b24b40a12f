#include <iosfwd>
#include <istream>
#include <ostream>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <unordered_map>
#include <cybozu/serializer.hpp>
#include <cybozu/string.hpp>
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/fmindex.hpp>
namespace cybozu { namespace drv {
struct K { uint64_t v; K(); template<class S> void save(S&) const; template<class S> void load(S&); bool operator<(const K&) const; bool operator==(const K&) const; };
struct V { uint64_t v; V(); template<class S> void save(S&) const; template<class S> void load(S&); };
struct H { size_t operator()(const K&) const; };
typedef std::ostream O; typedef std::istream I;
#define RT(tag, ...) void s_##tag(O& os, const __VA_ARGS__& x) { save(os, x); } void l_##tag(__VA_ARGS__& x, I& is) { load(x, is); }
RT(vec, std::vector<K>)
RT(lst, std::list<K>)
RT(deq, std::deque<K>)
RT(set, std::set<K>)
RT(mset, std::multiset<K>)
RT(map, std::map<K, V>)
RT(mmap, std::multimap<K, V>)
RT(umap, std::unordered_map<K, V, H>)
RT(str, std::string)
RT(str16, cybozu::String)
void s_cstr(O& os, const char *x) { save(os, x); } void l_cstr(std::string& x, I& is) { load(x, is); }
void s_pv(O& os, const std::vector<V>& x) { savePodVec(os, x); } void l_pv(std::vector<V>& x, I& is) { loadPodVec(x, is); }
void s_pvs(O& os, const cybozu::String& x) { savePodVec(os, x); } void l_pvs(cybozu::String& x, I& is) { loadPodVec(x, is); }
#define RC(tag, ...) void s_##tag(O& os, const __VA_ARGS__& x) { x.save(os); } void l_##tag(__VA_ARGS__& x, I& is) { x.load(is); }
typedef SucVectorT<uint64_t, true> Suc1; typedef SucVectorT<uint32_t, false> Suc0;
RC(suc1, Suc1)
RC(suc0, Suc0)
RC(csuc, CSucVector)
typedef WaveletMatrixT<true> Wm1; typedef WaveletMatrixT<false> Wm0;
RC(wm1, Wm1)
RC(wm0, Wm0)
RC(freq, Frequency<int>)
typedef Frequency<int>::FreqIdx FreqIdx;
RC(freqidx, FreqIdx)
RC(freq8, Frequency<uint8_t>)
RC(freq16, Frequency<uint16_t>)
RC(fm8, FMindexT<uint8_t>)
RC(fm8r, FMindexT<uint8_t, true>)
} }
