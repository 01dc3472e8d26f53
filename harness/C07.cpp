// split_n, offset_splitter, split_pair
#include "strtk.hpp"
#include "tok.hpp"
extern "C" std::size_t w_n(const char* b, const char* e, std::size_t k, std::size_t o) { return strtk::split_n(Pred(),b,e,k,Out(),o); }
extern "C" std::size_t w_ns(const std::string& s, std::size_t k, std::size_t o) { return strtk::split_n(Pred(),s,k,Out(),o); }
extern "C" std::size_t w_nc(char d, const std::string& s, std::size_t k, std::size_t o) { return strtk::split_n(d,s,k,Out(),o); }
extern "C" std::size_t w_ncs(const char* d, const std::string& s, std::size_t k, std::size_t o) { return strtk::split_n(d,s,k,Out(),o); }
extern "C" std::size_t w_nss(const std::string& d, const std::string& s, std::size_t k, std::size_t o) { return strtk::split_n(d,s,k,Out(),o); }
extern "C" std::size_t w_nsi(const std::string& d, const char* b, const char* e, std::size_t k, std::size_t o) { return strtk::split_n(d,b,e,k,Out(),o); }
struct Off { int next() const { return hook_next(); } };
extern "C" std::size_t w_off(const char* b, const char* e) { return strtk::offset_splitter(b,e,Off(),Out()); }
extern "C" std::size_t w_offs(const std::string& s) { return strtk::offset_splitter(s,Off(),Out()); }
extern "C" int w_next(const int* l, bool rot, std::size_t calls) { strtk::offset_predicate<5> p(l,rot); std::size_t i = 0; for (; i < calls; ++i) hook_val(p.next()); p.reset(); return p.next(); }
extern "C" int w_offsets(int a, int b, int c, int d, int e, bool rot, std::size_t calls) { strtk::offset_predicate<5> p = strtk::offsets(a,b,c,d,e,rot); std::size_t i = 0; for (; i < calls; ++i) hook_val(p.next()); p.reset(); return p.next(); }
#define OFFS(N,...) extern "C" int w_offsets##N(const int* l, bool rot, std::size_t calls) { strtk::offset_predicate<N> p = strtk::offsets(__VA_ARGS__,rot); std::size_t i = 0; for (; i < calls; ++i) hook_val(p.next()); p.reset(); return p.next(); }
OFFS(1,l[0])
OFFS(2,l[0],l[1])
OFFS(3,l[0],l[1],l[2])
OFFS(4,l[0],l[1],l[2],l[3])
OFFS(6,l[0],l[1],l[2],l[3],l[4],l[5])
OFFS(7,l[0],l[1],l[2],l[3],l[4],l[5],l[6])
OFFS(8,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7])
OFFS(9,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8])
OFFS(10,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9])
OFFS(11,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9],l[10])
OFFS(12,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9],l[10],l[11])
extern "C" bool w_pair(const char* b, const char* e, PR* x, PR* y) { return strtk::split_pair(b,e,Pred(),*x,*y); }
extern "C" bool w_pairs(const std::string& s, PR* x, PR* y) { return strtk::split_pair(Pred(),s,*x,*y); }
extern "C" bool w_pairc(char d, const std::string& s, PR* x, PR* y) { return strtk::split_pair(d,s,*x,*y); }
