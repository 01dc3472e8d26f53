// C03 text -> integer: every registered integer type through every overload of string_to_type_converter
#include "strtk.hpp"
#define W(N,T) \
extern "C" bool w_p_##N(const char* b, const char* e, T* r) { return strtk::string_to_type_converter(b,e,*r); } \
extern "C" bool w_u_##N(const unsigned char* b, const unsigned char* e, T* r) { return strtk::string_to_type_converter(b,e,*r); } \
extern "C" bool w_m_##N(char* b, char* e, T* r) { return strtk::string_to_type_converter(b,e,*r); } \
extern "C" bool w_r_##N(const char* b, const char* e, T* r) { return strtk::string_to_type_converter(std::make_pair(b,e),*r); } \
extern "C" bool w_s_##N(const std::string& s, T* r) { return strtk::string_to_type_converter(s,*r); } \
extern "C" T w_tp_##N(const char* b, const char* e) { return strtk::string_to_type_converter<T>(b,e); } \
extern "C" T w_ts_##N(const std::string& s) { return strtk::string_to_type_converter<T>(s); }
W(s,short) W(us,unsigned short) W(i,int) W(ui,unsigned int) W(l,long) W(ul,unsigned long) W(ll,long long) W(ull,unsigned long long)
W(c,char) W(sc,signed char) W(uc,unsigned char) W(b,bool)
