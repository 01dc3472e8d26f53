// C15: text transformation
#include "strtk.hpp"
#include <string>
extern "C" { void hook_put(char); }
typedef unsigned char uc; typedef uc* up; typedef char* mp; typedef const char* cp; typedef const std::string& S; typedef std::string& M;
struct Put {
  Put& operator*() { return *this; } Put& operator++() { return *this; } Put operator++(int) { return *this; }
  Put& operator=(char c) { hook_put(c); return *this; }
};
namespace std { template <> struct iterator_traits<Put> { typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; }; }
extern "C" {
void w_rpc(char a, char b, mp p, mp e) { strtk::replace(a,b,p,e); }
void w_rpu(uc a, uc b, up p, up e) { strtk::replace(a,b,p,e); }
void w_rpi(int a, int b, int* p, int* e) { strtk::replace(a,b,p,e); }
void w_rpr(char a, char b, mp p, mp e) { strtk::replace(a,b,strtk::range::adapter<char>(p,e)); }
void w_rps(char a, char b, M s) { strtk::replace(a,b,s); }
#define F(n,f) void w_##n##u(up p, up e) { strtk::f(p,e); } void w_##n##c(mp p, mp e) { strtk::f(p,e); } void w_##n##s(M s) { strtk::f(s); }
F(up,convert_to_uppercase) F(lo,convert_to_lowercase) F(pr,convert_to_printable_chars)
void w_loq(cp p, cp e) { strtk::convert_to_lowercase(p,e); }
void w_asl(std::string* o, S s) { new (o) std::string(strtk::as_lowercase(s)); }
void w_asu(std::string* o, S s) { new (o) std::string(strtk::as_uppercase(s)); }
typedef strtk::translation_table TT;
void w_ttnew(void* m, S i, S o) { new (m) TT(i,o); }
char w_ttc(const TT* t, char c) { return (*t)(c); }
uc w_ttu(const TT* t, uc c) { return (*t)(c); }
void w_tr(std::string* o, const TT* t, S s) { new (o) std::string(strtk::translate(*t,s)); }
void w_tri(const TT* t, M s) { strtk::translate_inplace(*t,s); }
void w_rpat(S s, S p, S r, M n) { strtk::replace_pattern(s,p,r,n); }
void w_rem(S s, S p, M n) { strtk::remove_pattern(s,p,n); }
std::size_t w_rpitp(cp s, cp se, cp p, cp pe, cp r, cp re, mp o) { return strtk::replace_pattern(s,se,p,pe,r,re,o); }
std::size_t w_rpith(cp s, cp se, cp p, cp pe, cp r, cp re) { return strtk::replace_pattern(s,se,p,pe,r,re,Put()); }
}
