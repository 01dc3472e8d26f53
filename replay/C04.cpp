#include "common.hpp"
#include <limits>
#include "strtk.hpp"
static std::string dec(__int128 v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : (unsigned __int128) v; std::string r; do { r.insert(r.begin(), (char) ('0' + (int) (u % 10))); u /= 10; } while (u); return n ? "-" + r : r; }
template <typename T> static void one(T v, const char* nm) {
  const std::string x = dec((__int128) v);
  CUR(std::string(nm) + " " + x);
  std::string s("junk"); CHECK(strtk::type_to_string<T>(v, s), "returns false"); CHECK(s == x, "type_to_string(v,s) gave " + esc(s));
  CHECK(strtk::type_to_string(v) == x, "type_to_string(v) gave " + esc(strtk::type_to_string(v)));
  T w = (T) 1; CHECK(strtk::string_to_type_converter(s, w) && w == v, "round trip");
}
template <typename T> static void byte(T v) { CUR("byte " + num((int) v)); std::string s("junk"); CHECK(strtk::type_to_string<T>(v, s) && s.size() == 1 && (T) s[0] == v, "byte"); CHECK(strtk::type_to_string(v) == std::string(1, (char) v), "byte value"); }
static void all(unsigned long long u) {
  one<short>((short) u, "short"); one<unsigned short>((unsigned short) u, "unsigned short"); one<int>((int) u, "int"); one<unsigned int>((unsigned int) u, "unsigned int");
  one<long>((long) u, "long"); one<unsigned long>((unsigned long) u, "unsigned long"); one<long long>((long long) u, "long long"); one<unsigned long long>(u, "unsigned long long");
}
int main(int c, char** a) {
  init(c, a);
  for (int i = 0; i < 256; ++i) { byte<char>((char) i); byte<signed char>((signed char) i); byte<unsigned char>((unsigned char) i); }
  CUR("bool"); CHECK(strtk::type_to_string(true) == "1" && strtk::type_to_string(false) == "0", "bool");
  for (unsigned i = 0; i < 65536; ++i) { one<short>((short) i, "short"); one<unsigned short>((unsigned short) i, "unsigned short"); }
  for (unsigned long long i = 0; i < 30000; ++i) { all(i); all(0 - i); all(i * 1000); all(i * 1000003); }
  unsigned long long p = 1; for (int k = 0; k < 20; ++k, p *= 10) for (long long d = -1100; d <= 1100; ++d) { all(p + d); all(0 - p + d); }
  for (int b = 0; b < 64; ++b) for (long long d = -300; d <= 300; ++d) all((1ULL << b) + d);
  while (time_left()) { unsigned long long r = rnd() >> rnd(64); all(r); all(0 - r); }
  return done();
}
