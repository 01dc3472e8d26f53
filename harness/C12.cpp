// C12: bit operations
#include "strtk.hpp"
#include <string>
typedef unsigned char uc; typedef const uc* up; typedef const char* cp; typedef const std::string& S; typedef std::string& SO;
extern "C" {
std::size_t w_hb8(uc c) { return strtk::high_bit_count(c); }
std::size_t w_hb16(const unsigned short& c) { return strtk::high_bit_count(c); }
std::size_t w_hb32(const unsigned int& c) { return strtk::high_bit_count(c); }
std::size_t w_hb64(const long long& c) { return strtk::high_bit_count(c); }
std::size_t w_hbu(up b, up e) { return strtk::high_bit_count(b,e); }
std::size_t w_hbc(cp b, cp e) { return strtk::high_bit_count(b,e); }
std::size_t w_hbs(S s) { return strtk::high_bit_count(s); }
bool w_bit(const std::size_t& i, up p) { return strtk::bit_state(i,p); }
void w_set(const std::size_t& i, uc* p) { strtk::set_bit_high(i,p); }
void w_clr(const std::size_t& i, uc* p) { strtk::set_bit_low(i,p); }
std::size_t w_hdu(up b, up e, up b2, up e2) { return strtk::hamming_distance(b,e,b2,e2); }
std::size_t w_hdc(cp b, cp e, cp b2, cp e2) { return strtk::hamming_distance(b,e,b2,e2); }
std::size_t w_hds(S s, S t) { return strtk::hamming_distance(s,t); }
std::size_t w_hec(cp b, cp e, cp b2, cp e2) { return strtk::hamming_distance_elementwise(b,e,b2,e2); }
std::size_t w_hei(const int* b, const int* e, const int* b2, const int* e2) { return strtk::hamming_distance_elementwise(b,e,b2,e2); }
std::size_t w_hes(S s, S t) { return strtk::hamming_distance_elementwise(s,t); }
bool w_ilu(up b, up e, up b2, up e2, uc* o) { return strtk::twoway_bitwise_interleave(b,e,b2,e2,o); }
bool w_ilc(cp b, cp e, cp b2, cp e2, char* o) { return strtk::twoway_bitwise_interleave(b,e,b2,e2,o); }
bool w_ils(S s, S t, SO o) { return strtk::twoway_bitwise_interleave(s,t,o); }
void w_nw2(unsigned short* t) { strtk::create_nway_interleave_table<2>(t); }
void w_nw4(unsigned int* t) { strtk::create_nway_interleave_table<4>(t); }
void w_nw8(unsigned long long* t) { strtk::create_nway_interleave_table<8>(t); }
typedef const strtk::bitwise_operation::type& op;
void w_btu(op p, up b, up e, up b2, uc* o) { strtk::bitwise_transform(p,b,e,b2,o); }
void w_btc(op p, cp b, cp e, cp b2, char* o) { strtk::bitwise_transform(p,b,e,b2,o); }
void w_bts(op p, S s, S t, SO o) { strtk::bitwise_transform(p,s,t,o); }
}
