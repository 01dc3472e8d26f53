// C14: text comparison and search
#include "strtk.hpp"
#include <new>
#include <string>
extern "C" { void hook_emit(const char*, const char*); }
typedef unsigned char uc; typedef const uc* up; typedef const char* cp; typedef const std::string& S;
struct Out {
  Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++(int) { return *this; }
  Out& operator=(const std::pair<cp,cp>& r) { hook_emit(r.first, r.second); return *this; }
};
template <typename T, typename A> struct Seq { typedef T value_type; typedef const T& const_reference; void push_back(const T& v) { hook_emit(v.first, v.second); } };
typedef Seq<std::pair<cp,cp>, int> SQ;
extern "C" {
bool w_imc(cp b, cp e, cp b2, cp e2) { return strtk::imatch(b,e,b2,e2); }
bool w_imr(cp b, cp e, cp b2, cp e2) { return strtk::imatch(strtk::range::adapter<const char>(b,e), strtk::range::adapter<const char>(b2,e2)); }
bool w_ims(S s, S t) { return strtk::imatch(s,t); }
bool w_imch(char a, char b) { return strtk::imatch_char(a,b); }
#define F(n,f) bool w_##n##c(cp b, cp e, cp b2, cp e2) { return strtk::f(b,e,b2,e2); } bool w_##n##s(S s, S t) { return strtk::f(s,t); }
F(bw,begins_with) F(ibw,ibegins_with) F(ew,ends_with) F(iew,iends_with)
bool w_bwu(up b, up e, up b2, up e2) { return strtk::begins_with(b,e,b2,e2); }
bool w_ewu(up b, up e, up b2, up e2) { return strtk::ends_with(b,e,b2,e2); }
std::size_t w_fac(cp b, cp e, cp b2, cp e2) { return strtk::find_all(b,e,b2,e2,Out()); }
std::size_t w_fas(S s, S t) { return strtk::find_all(s,t,Out()); }
std::size_t w_facq(cp b, cp e, cp b2, cp e2) { SQ q; return strtk::find_all(b,e,b2,e2,q); }
std::size_t w_fasq(S s, S t) { SQ q; return strtk::find_all(s,t,q); }
std::size_t w_ifac(cp b, cp e, cp b2, cp e2) { return strtk::ifind_all(b,e,b2,e2,Out()); }
std::size_t w_ifas(S s, S t) { return strtk::ifind_all(s,t,Out()); }
std::size_t w_ifasq(S s, S t) { SQ q; return strtk::ifind_all(s,t,q); }
std::size_t w_ifind(S s, S t) { return strtk::ifind(s,t); }
std::size_t w_idx(S s, S t) { return strtk::index_of(s,t); }
typedef strtk::string_condition SC;
#define C(n) bool w_sc_##n(S s, up b, up e) { SC c(SC::n,s); return c(b,e); } bool w_scs_##n(S s, S t) { SC c(SC::n,s); return c(t); } bool w_scc_##n(S s, S t, void* m) { SC* p = new (m) SC(SC::n,s); SC c(*p); p->~SC(); return c(t); } bool w_sca_##n(S s, S t, void* m) { SC* p = new (m) SC(SC::n,s); SC c(SC::like,t); c = *p; p->~SC(); return c(t); }
C(equal) C(notequal) C(begins_with) C(ends_with) C(within) C(notwithin) C(like)
}
