#include "common.hpp"
#include "strtk.hpp"
typedef unsigned char uc;
static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string& s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); i += 3) {
    unsigned b = (uc) s[i] << 16; if (i + 1 < s.size()) b |= (uc) s[i + 1] << 8; if (i + 2 < s.size()) b |= (uc) s[i + 2];
    r += A[b >> 18]; r += A[(b >> 12) & 63]; r += i + 1 < s.size() ? A[(b >> 6) & 63] : '='; r += i + 2 < s.size() ? A[b & 63] : '=';
  }
  return r;
}
static void t_enc(const std::string& s) {
  CUR("encode " + esc(s));
  const std::string x = enc(s);
  { hbuf i(s), o(x.size()); std::size_t n = strtk::convert_bin_to_base64(i.ub(), i.ue(), o.ub()); CHECK(n == x.size() && o.str() == x, "bin_to_base64(uchar*)"); CHECK(i.str() == s, "input changed"); }
  { hbuf i(s), o(x.size()); std::size_t n = strtk::convert_bin_to_base64(i.b(), i.e(), o.b()); CHECK(n == x.size() && o.str() == x, "bin_to_base64(char*)"); }
  { std::string o("junk"); strtk::convert_bin_to_base64(s, o); CHECK(o == x, "bin_to_base64(string)"); }
}
static void t_dec(const std::string& body, int pad, bool wf) {
  const std::string s = body + std::string(pad, '=');
  CUR("decode " + esc(s));
  std::size_t L = body.size();
  std::string x;
  if (wf) {
    std::vector<int> v; for (std::size_t i = 0; i < L; ++i) v.push_back((int) (strchr(A, body[i]) - A));
    while (v.size() % 4) v.push_back(0);
    for (std::size_t i = 0; i < v.size(); i += 4) { unsigned b = v[i] << 18 | v[i + 1] << 12 | v[i + 2] << 6 | v[i + 3]; x += (char) (b >> 16); x += (char) (b >> 8); x += (char) b; }
    x.resize(3 * L / 4);
  }
  for (int k = 0; k < 2; ++k) {
    hbuf i(s), o(3 * s.size() / 4);
    std::size_t n = k ? strtk::convert_base64_to_bin(i.b(), i.e(), o.b()) : strtk::convert_base64_to_bin(i.ub(), i.ue(), o.ub());
    CHECK(n <= 3 * s.size() / 4, "decoded length bound");
    if (wf) CHECK(n == x.size() && std::string(o.b(), n) == x, "base64_to_bin(ptr)");
  }
  std::string o("junk"); strtk::convert_base64_to_bin(s, o); CHECK(o.size() <= 3 * s.size() / 4, "decoded length bound (string)"); if (wf) CHECK(o == x, "base64_to_bin(string)");
}
int main(int c, char** a) {
  init(c, a);
  const std::string al(A);
  t_enc("");
  for (int p = 0; p < 3; ++p) t_dec("", p, true);
  for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; ++j) { std::string s; s += (char) i; t_enc(s); t_dec(s, 0, false); s += (char) j; t_enc(s); t_dec(s, 0, false); }
  for (int p = 0; p < 3; ++p) { for (int i = 0; i < 64; ++i) t_dec(std::string(1, al[i]), p, true); for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) { std::string s(1, al[i]); s += al[j]; t_dec(s, p, true); s += al[(i * 7 + j) % 64]; t_dec(s, p, true); s += al[(i + j * 5) % 64]; t_dec(s, p, true); } }
  while (time_left()) {
    t_enc(rnd_str(rnd(10) ? 40 : 5000, "")); t_dec(rnd_str(rnd(10) ? 40 : 5000, al), rnd(3), true); t_dec(rnd_str(40, ""), rnd(3), false);
    std::string s = rnd_str(60, ""), t, u; strtk::convert_bin_to_base64(s, t); strtk::convert_base64_to_bin(t, u); CUR("roundtrip " + esc(s)); CHECK(u == s, "decode(encode(x)) == x");
  }
  return done();
}
