#include "common.hpp"
#include "strtk.hpp"
typedef unsigned char uc;
static const char* HX = "0123456789ABCDEF";
static std::string enc(const std::string& s) { std::string r; for (std::size_t i = 0; i < s.size(); ++i) { r += HX[(uc) s[i] >> 4]; r += HX[(uc) s[i] & 15]; } return r; }
static int v(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
static void t_enc(const std::string& s) {
  CUR("encode " + esc(s));
  const std::string x = enc(s); 
  { hbuf i(s), o(2 * s.size()); strtk::convert_bin_to_hex(i.ub(), i.ue(), o.ub()); CHECK(o.str() == x, "bin_to_hex(uchar*)"); CHECK(i.str() == s, "input changed"); }
  { hbuf i(s), o(2 * s.size()); strtk::convert_bin_to_hex(i.b(), i.e(), o.b()); CHECK(o.str() == x, "bin_to_hex(char*)"); }
  { hbuf i(s), o(2 * s.size()); strtk::convert_bin_to_hex(std::pair<uc*, uc*>(i.ub(), i.ue()), o.ub()); CHECK(o.str() == x, "bin_to_hex(pair uchar*)"); }
  { hbuf i(s), o(2 * s.size()); strtk::convert_bin_to_hex(std::pair<const uc*, const uc*>(i.ub(), i.ue()), o.ub()); CHECK(o.str() == x, "bin_to_hex(pair const uchar*)"); }
  { hbuf i(s), o(2 * s.size()); strtk::convert_bin_to_hex(std::pair<const char*, const char*>(i.b(), i.e()), o.b()); CHECK(o.str() == x, "bin_to_hex(pair const char*)"); }
  { std::string o("junk"); strtk::convert_bin_to_hex(s, o); CHECK(o == x, "bin_to_hex(string,string&)"); }
  { CHECK(strtk::convert_bin_to_hex(s) == x, "string bin_to_hex(string)"); }
  if (!s.empty()) { std::string o("junk"); CHECK(strtk::convert_hex_to_bin(x, o) && o == s, "hex_to_bin(bin_to_hex(x)) == x"); }
}
template <typename F> static void dec1(const std::string& s, const char* nm, F f) {
  hbuf i(s), o(s.size() / 2); bool r = f(i, o); bool ok = !s.empty() && s.size() % 2 == 0;
  CHECK(r == ok, std::string("hex_to_bin acceptance ") + nm);
  CHECK(i.str() == s, "input changed");
  for (std::size_t j = 0; j < s.size() / 2; ++j) {
    if (!r) CHECK(o.p[j] == 0x5A, "target touched on rejection");
    else if (v(s[2 * j]) >= 0 && v(s[2 * j + 1]) >= 0) CHECK((uc) o.p[j] == v(s[2 * j]) * 16 + v(s[2 * j + 1]), std::string("hex_to_bin value ") + nm);
  }
}
static void t_dec(const std::string& s) {
  CUR("decode " + esc(s));
  dec1(s, "uchar*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(i.ub(), i.ue(), o.ub()); });
  dec1(s, "char*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(i.b(), i.e(), o.b()); });
  dec1(s, "pair uchar*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(std::pair<uc*, uc*>(i.ub(), i.ue()), o.ub()); });
  dec1(s, "pair const uchar*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(std::pair<const uc*, const uc*>(i.ub(), i.ue()), o.ub()); });
  dec1(s, "pair char*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(std::pair<char*, char*>(i.b(), i.e()), o.b()); });
  dec1(s, "pair const char*", [](hbuf& i, hbuf& o) { return strtk::convert_hex_to_bin(std::pair<const char*, const char*>(i.b(), i.e()), o.b()); });
  std::string o("junk"); bool r = strtk::convert_hex_to_bin(s, o);
  CHECK(r == (!s.empty() && s.size() % 2 == 0), "hex_to_bin(string) acceptance");
  if (!r) CHECK(o == "junk", "string target touched on rejection");
  else { CHECK(o.size() == s.size() / 2, "hex_to_bin(string) length");
    for (std::size_t j = 0; j < o.size(); ++j) if (v(s[2 * j]) >= 0 && v(s[2 * j + 1]) >= 0) CHECK((uc) o[j] == v(s[2 * j]) * 16 + v(s[2 * j + 1]), "hex_to_bin(string) value"); }
}
int main(int c, char** a) {
  init(c, a);
  t_enc(""); t_dec("");
  for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; ++j) { std::string s; s += (char) i; t_enc(s); s += (char) j; t_enc(s); t_dec(s); }
  while (time_left()) {
    t_enc(rnd_str(rnd(10) ? 40 : 3000, "")); t_dec(rnd_str(40, "0123456789abcdefABCDEF")); t_dec(rnd_str(rnd(10) ? 40 : 3000, "")); t_dec(rnd_str(600, "0123456789abcdefABCDEF"));
  }
  return done();
}
