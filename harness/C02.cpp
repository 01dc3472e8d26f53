#include "strtk.hpp"
typedef unsigned char uc;
extern "C" {
std::size_t w_b2b_u(const uc* b, const uc* e, uc* o) { return strtk::convert_bin_to_base64(b, e, o); }
std::size_t w_b2b_c(const char* b, const char* e, char* o) { return strtk::convert_bin_to_base64(b, e, o); }
void w_b2b_s(const std::string& b, std::string& o) { strtk::convert_bin_to_base64(b, o); }
std::size_t w_d_u(const uc* b, const uc* e, uc* o) { return strtk::convert_base64_to_bin(b, e, o); }
std::size_t w_d_c(const char* b, const char* e, char* o) { return strtk::convert_base64_to_bin(b, e, o); }
void w_d_s(const std::string& b, std::string& o) { strtk::convert_base64_to_bin(b, o); }
}
