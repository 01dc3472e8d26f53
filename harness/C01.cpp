#include "strtk.hpp"
typedef unsigned char uc;
extern "C" {
void w_b2h_u(const uc* b, const uc* e, uc* o) { strtk::convert_bin_to_hex(b, e, o); }
void w_b2h_c(const char* b, const char* e, char* o) { strtk::convert_bin_to_hex(b, e, o); }
void w_b2h_pu(uc* b, uc* e, uc* o) { strtk::convert_bin_to_hex(std::make_pair(b, e), o); }
void w_b2h_pcu(const uc* b, const uc* e, uc* o) { strtk::convert_bin_to_hex(std::make_pair(b, e), o); }
void w_b2h_pc(const char* b, const char* e, char* o) { strtk::convert_bin_to_hex(std::make_pair(b, e), o); }
void w_b2h_s(const std::string& b, std::string& o) { strtk::convert_bin_to_hex(b, o); }
void w_b2h_sr(const std::string& b, std::string& o) { o = strtk::convert_bin_to_hex(b); }
bool w_h2b_u(const uc* b, const uc* e, uc* o) { return strtk::convert_hex_to_bin(b, e, o); }
bool w_h2b_c(const char* b, const char* e, char* o) { return strtk::convert_hex_to_bin(b, e, o); }
bool w_h2b_pu(uc* b, uc* e, uc* o) { return strtk::convert_hex_to_bin(std::make_pair(b, e), o); }
bool w_h2b_pcu(const uc* b, const uc* e, uc* o) { return strtk::convert_hex_to_bin(std::make_pair(b, e), o); }
bool w_h2b_pmc(char* b, char* e, char* o) { return strtk::convert_hex_to_bin(std::make_pair(b, e), o); }
bool w_h2b_pc(const char* b, const char* e, char* o) { return strtk::convert_hex_to_bin(std::make_pair(b, e), o); }
bool w_h2b_s(const std::string& b, std::string& o) { return strtk::convert_hex_to_bin(b, o); }
}
