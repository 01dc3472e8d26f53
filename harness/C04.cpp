// C04 integer -> text
#include "strtk.hpp"
#define W(N,T) \
extern "C" bool w_o_##N(T v, std::string& s) { return strtk::type_to_string<T>(v,s); } \
extern "C" void w_v_##N(T v, std::string& s) { s = strtk::type_to_string(v); }
W(s,short) W(us,unsigned short) W(i,int) W(ui,unsigned int) W(l,long) W(ul,unsigned long) W(ll,long long) W(ull,unsigned long long)
W(c,char) W(sc,signed char) W(uc,unsigned char) W(b,bool)
extern "C" bool w_o_str(const std::string& v, std::string& s) { return strtk::type_to_string(v,s); }
