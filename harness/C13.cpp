// C13: wildcard matching
#include "strtk.hpp"
#include <string>
typedef unsigned char uc; typedef const uc* up; typedef const char* cp;
extern "C" {
bool w_mc(cp b, cp e, cp b2, cp e2, const char& z, const char& o) { return strtk::match(b,e,b2,e2,z,o); }
bool w_mu(up b, up e, up b2, up e2, const uc& z, const uc& o) { return strtk::match(b,e,b2,e2,z,o); }
bool w_mi(const int* b, const int* e, const int* b2, const int* e2, const int& z, const int& o) { return strtk::match(b,e,b2,e2,z,o); }
bool w_mx(cp b, cp e, cp b2, cp e2, const char& z, const char& o) { return strtk::details::match_impl<strtk::details::cis_match>(b,e,b2,e2,z,o); }
bool w_ms(const std::string& p, const std::string& t) { return strtk::match(p,t); }
}
