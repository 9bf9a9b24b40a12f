#include <cybozu/parallel.hpp>
namespace cybozu { namespace drv {
template<class N> struct Target { bool operator()(N i, N idx); };
void pf_u(Target<size_t>& t, size_t n, size_t threadNum) { parallel_for(t, n, threadNum); }
void pf_i(Target<int>& t, int n, int threadNum) { parallel_for(t, n, threadNum); }
void pf_w(Target<uint32_t>& t, uint32_t n, uint32_t threadNum) { parallel_for(t, n, threadNum); }
#define WORK(name, N) bool name(parallel_util::Thread<Target<N>, N>& w, Target<N>& t, N begin, N end, N idx) { w.init(t, begin, end, idx); w.parallel_util::template Thread<Target<N>, N>::threadEntry(); return w.getErr().empty(); }
size_t stride_m() { return sizeof(parallel_util::Thread<Target<size_t>, size_t>); }
size_t stride_i() { return sizeof(parallel_util::Thread<Target<int>, int>); }
size_t stride_j() { return sizeof(parallel_util::Thread<Target<uint32_t>, uint32_t>); }
WORK(work_u, size_t)
WORK(work_i, int)
WORK(work_w, uint32_t)
bool join(ThreadBase& t) { return t.joinThread(); }
bool begin(ThreadBase& t) { return t.beginThread(); }
} }
