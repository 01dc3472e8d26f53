// C16: sequence summaries and generators
#include "strtk.hpp"
#include <string>
extern "C" { void hook_out(int); void hook_out8(char); void hook_outs(const std::string*); }
typedef unsigned char uc; typedef uc* up; typedef char* mp; typedef const char* cp; typedef const uc* cup; typedef const std::string& S; typedef std::string& M; typedef std::size_t sz;
template <typename T, void (*H)(T)> struct Out {
  Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++(int) { return *this; }
  Out& operator=(T c) { H(c); return *this; }
};
extern "C" {
sz w_cdc(cp b, cp e) { return strtk::count_consecutive_duplicates(b,e); }
sz w_cdi(const int* b, const int* e) { return strtk::count_consecutive_duplicates(b,e); }
void w_mmc(cp b, cp e, mp lo, mp hi) { strtk::min_max_of_range(b,e,*lo,*hi); }
void w_mmu(cup b, cup e, up lo, up hi) { strtk::min_max_of_range(b,e,*lo,*hi); }
void w_mmi(const int* b, const int* e, int* lo, int* hi) { strtk::min_max_of_range(b,e,*lo,*hi); }
cp w_fnc(cp b, cp e) { return strtk::first_non_repeated_char(b,e); }
cup w_fnu(cup b, cup e) { return strtk::first_non_repeated_char(b,e); }
sz w_fns(S s) { return strtk::first_non_repeated_char(s); }
void w_ioi(int* b, int* e, int v) { strtk::iota(b,e,v); }
void w_iou(unsigned int* b, unsigned int* e, unsigned int v) { strtk::iota(b,e,v); }
void w_ior(unsigned int* b, unsigned int* e, unsigned int v) { strtk::range::adapter<unsigned int> r(b,e); strtk::iota(r,v); }
void w_ioo(sz n, int v) { strtk::iota(n,v,Out<int,hook_out>()); }
void w_rep(sz n, S s, M o) { strtk::replicate(n,s,o); }
void w_repn(std::string* o, sz n, S s) { new (o) std::string(strtk::replicate(n,s)); }
void w_repi(sz n, M s) { strtk::replicate_inplace(n,s); }
sz w_ins(sz k, char t, cp b, cp e) { return strtk::inserter(strtk::interval_inserter<char>(k,t),b,e,Out<char,hook_out8>()); }
// the comparison loop is verified against std::rotate as an assumed contract
void w_can(mp b, mp e) { strtk::lexicographically_canonicalize(b,e); }
void w_cau(up b, up e) { strtk::lexicographically_canonicalize(b,e); }
void w_cas(M s) { strtk::lexicographically_canonicalize(s); }
}
