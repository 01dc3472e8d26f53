#include "common.hpp"
#include "strtk.hpp"
#include <set>
typedef strtk::binary::reader R; typedef strtk::binary::writer W; typedef unsigned char uc; typedef unsigned long long u64; typedef std::string S;
static S le(u64 v, int w) { S s; for (int i = 0; i < w; ++i) s += (char) (v >> 8 * i); return s; }
static S be(u64 v, int w) { S s = le(v, w); return S(s.rbegin(), s.rend()); }
static u64 val(const S& s, std::size_t p, int w, bool b = false) { u64 v = 0; for (int i = 0; i < w; ++i) v |= (u64) (uc) s[p + (b ? w - 1 - i : i)] << 8 * i; return v; }
struct Rd {   // a reader positioned at p over exactly s
  hbuf h; R r; std::size_t p; S s;
  Rd(const S& t, std::size_t k) : h(t), r(h.b(), t.size()), p(k), s(t) { r.seek((int) k); }
  void post(const char* nm, bool ok, bool want, std::size_t take, std::size_t pre = 0) {
    CHECK(ok == want, S(nm) + (ok ? " succeeded" : " failed"));
    std::size_t q = r.position();
    CHECK(ok ? q == p + take : (q == p || (pre && q == p + pre && p + pre <= s.size())), S(nm) + " position " + num(q));
    CHECK(r.position_ptr() == h.b() + q, S(nm) + " position_ptr"); CHECK(h.str() == s, S(nm) + " changed the buffer");
  }
};
static std::size_t left(const Rd& x) { return x.s.size() - x.p; }
template <typename T> static void rpod(const S& s, std::size_t k, const char* nm) {
  const int w = sizeof(T); T old = (T) 0x5A5A5A5A5A5A5A5AULL;
  CUR(S("reader ") + nm + " of " + esc(s) + " at " + num(k));
  { Rd x(s, k); T o = old; bool ok = x.r(o); x.post("read", ok, left(x) >= (std::size_t) w, w); CHECK(o == (ok ? (T) val(s, k, w) : old), "value"); }
  { Rd x(s, k); T o[3] = { old, old, old }; bool ok = x.r(o); x.post("read array", ok, left(x) >= 3u * w, 3 * w); for (int i = 0; i < 3; ++i) CHECK(o[i] == (ok ? (T) val(s, k + i * w, w) : old), "array element"); }
  { Rd x(s, k); std::vector<T> v(2, old); std::size_t n = left(x) >= 4 ? val(s, k, 4) : 0; bool want = left(x) >= 4 && left(x) - 4 >= n * w; bool ok = x.r(v); x.post("read vector", ok, want, 4 + n * w, 4); CHECK(v.size() == (ok ? n : 2), "vector size"); for (std::size_t i = 0; i < v.size(); ++i) CHECK(v[i] == (ok ? (T) val(s, k + 4 + i * w, w) : old), "vector element"); }
  { Rd x(s, k); std::deque<T> v; std::list<T> l; std::size_t n = left(x) >= 4 ? val(s, k, 4) : 0; bool want = left(x) >= 4 && left(x) - 4 >= n * w; bool ok = x.r(v); x.post("read deque", ok, want, 4 + n * w, 4); CHECK(v.size() == (ok ? n : 0), "deque size"); for (std::size_t i = 0; i < v.size(); ++i) CHECK(v[i] == (T) val(s, k + 4 + i * w, w), "deque element");
    Rd y(s, k); ok = y.r(l); y.post("read list", ok, want, 4 + n * w, 4); CHECK(std::deque<T>(l.begin(), l.end()) == v, "list elements"); }
  for (u64 m = 0; m < 4; ++m) for (int t = 0; t < 2; ++t) { Rd x(s, k); T d[4] = { old, old, old, old }; T* q = d; unsigned m4 = (unsigned) m; u64 m8 = m; bool ok = t ? x.r(q, m8, false) : x.r(q, m4, false); x.post("read into an array of given length", ok, left(x) >= m * w, m * w); CHECK(q == d && m4 == m && m8 == m, "length"); for (u64 i = 0; i < 4; ++i) CHECK(d[i] == (ok && i < m ? (T) val(s, k + i * w, w) : old), "given length: element " + num(i) + " of " + num(m)); }
  for (int t = 0; t < 2; ++t) { Rd x(s, k); T* q = 0; unsigned m4 = 77; u64 m8 = 77; std::size_t n = left(x) >= 4 ? val(s, k, 4) : 0; bool want = left(x) >= 4 && left(x) - 4 >= n * w; bool ok = t ? x.r(q, m8, true) : x.r(q, m4, true); x.post("read allocated array", ok, want, 4 + n * w, 4); if (ok) { CHECK((t ? m8 : m4) == n, "allocated length"); for (std::size_t i = 0; i < n; ++i) CHECK(q[i] == (T) val(s, k + 4 + i * w, w), "allocated element"); delete [] q; } else CHECK(q == 0, "allocated on failure"); }
}
template <typename T> static void rend(const S& s, std::size_t k) {
  const int w = sizeof(T); CUR("endian read (" + num(w) + " bytes) of " + esc(s) + " at " + num(k));
  { Rd x(s, k); T o = 7; bool ok = x.r.be_to_native(o); x.post("be_to_native", ok, left(x) >= (std::size_t) w, w); CHECK(o == (ok ? (T) val(s, k, w, true) : 7), "be_to_native gave " + num(o)); }
  { Rd x(s, k); T o = 7; bool ok = x.r.le_to_native(o); x.post("le_to_native", ok, left(x) >= (std::size_t) w, w); CHECK(o == (ok ? (T) val(s, k, w) : 7), "le_to_native gave " + num(o)); }
}
static void rstr(const S& s, std::size_t k) {
  CUR("reader text of " + esc(s) + " at " + num(k));
  for (int t = 0; t < 3; ++t) { std::size_t W = t == 0 ? 4 : t == 1 ? 2 : 1; Rd x(s, k); S o = "old"; std::size_t n = left(x) >= W ? val(s, k, (int) W) : 0; bool want = left(x) >= W && left(x) - W >= n; bool ok;
    if (t == 0) ok = x.r(o); else if (t == 1) { strtk::binary::short_string q(o); ok = x.r(q); } else { strtk::binary::pascal_string q(o); ok = x.r(q); }
    x.post(t == 0 ? "string" : t == 1 ? "short_string" : "pascal_string", ok, want, W + n, W); if (ok) CHECK(o == s.substr(k + W, n), "text"); else if (!t) CHECK(o == "old", "text on failure"); }
  std::size_t ns[] = { 0, 1, 2, 5, 40, (std::size_t) -1, (std::size_t) 0 - k, (std::size_t) 1 - k };
  for (int i = 0; i < 8; ++i) { Rd x(s, k); S o = "old"; bool ok = x.r(o, ns[i]); x.post("read of a given size", ok, ns[i] <= left(x), ns[i]); CHECK(o == (ok ? s.substr(k, ns[i]) : S("old")), "sized text"); }
  { Rd x(s, k); std::pair<int,short> o(0, 0); bool ok = x.r(o); x.post("pair", ok, left(x) >= 6, 6, 4); if (ok) CHECK(o.first == (int) val(s, k, 4) && o.second == (short) val(s, k + 4, 2), "pair values"); }
  int sk[] = { 0, 1, -1, 3, -3, 0x7fffffff, -0x7fffffff, -0x7fffffff - 1 };
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) {
    { Rd x(s, k); long long to = (long long) k + sk[i]; bool want = to >= 0 && to <= (long long) s.size(); bool ok = x.r.seek(sk[i]); CUR("seek " + num(sk[i]) + " from " + num(k) + " in " + num(s.size())); CHECK(ok == want && x.r.position() == (ok ? (std::size_t) to : k) && x.r.position_ptr() == x.h.b() + x.r.position(), "seek"); }
    { Rd x(s, k); std::size_t z = (std::size_t) (long long) sk[i]; bool ok = x.r.rewind(z); CUR("rewind"); CHECK(ok == (z <= k) && x.r.position() == (ok ? k - z : k) && x.r.position_ptr() == x.h.b() + x.r.position(), "rewind"); }
    { Rd x(s, k); CUR("marks"); x.r.mark(); x.r.seek(sk[i]); std::size_t p1 = x.r.position(); x.r.mark(); x.r.seek(sk[j]); CHECK(x.r.reset_to_mark() && x.r.position() == p1 && x.r.position_ptr() == x.h.b() + p1, "second mark"); CHECK(x.r.reset_to_mark() && x.r.position() == k && x.r.position_ptr() == x.h.b() + k, "first mark"); CHECK(!x.r.reset_to_mark() && x.r.position() == k, "no mark left"); }
  }
  { Rd x(s, k); CUR("reset"); x.r.reset(); CHECK(x.r.position() == 0 && x.r.position_ptr() == x.h.b() && x.h.str() == s, "reset"); x.r.seek((int) k); x.r.clear(); CHECK(x.r.position() == 0 && x.r.position_ptr() == x.h.b() && x.h.str() == S(s.size(), '\0'), "clear"); }
}
// a writer of L bytes of which k are already written
template <typename F> static void wr(const char* nm, std::size_t L, std::size_t k, const S& bytes, std::size_t pre, bool can, F f) {
  S base(L, '#'), head; for (std::size_t i = 0; i < k; ++i) head += (char) ('A' + i % 26);
  hbuf h(base); W w(h.b(), L); w(head.data(), (unsigned) k, false); head.copy(&base[0], k);
  bool ok = f(w), want = can && bytes.size() <= L - k; std::size_t q = w.position();
  CUR(S("writer ") + nm + " size " + num(L) + " at " + num(k) + " bytes " + esc(bytes));
  CHECK(ok == want, S(nm) + (ok ? " succeeded" : " failed"));
  CHECK(ok ? q == k + bytes.size() : (q == k || (pre && q == k + pre && q <= L)), S(nm) + " position " + num(q)); CHECK(w.position_ptr() == h.b() + q, S(nm) + " position_ptr");
  S exp = base; for (std::size_t i = k; i < q; ++i) exp[i] = bytes[i - k];
  CHECK(h.str() == exp, S(nm) + " wrote " + esc(h.str()) + " expected " + esc(exp));
}
template <typename T> static void wpod(std::size_t L, std::size_t k, u64 v) {
  const int w = sizeof(T); T a[3] = { (T) v, (T) (v * 3 + 1), (T) (v ^ 0xA5) }; S ab; for (int i = 0; i < 3; ++i) ab += le((u64) a[i], w);
  wr("value", L, k, le(v, w), 0, true, [&](W& x) { return x((const T&) a[0]); });
  wr("array", L, k, ab, 0, true, [&](W& x) { return x(*(const T(*)[3]) a); });
  wr("pointer and length", L, k, ab, 0, true, [&](W& x) { return x((const T*) a, 3u, false); });
  wr("pointer and length, prefixed", L, k, le(3, 4) + ab, 4, true, [&](W& x) { return x((const T*) a, 3u, true); });
  wr("pointer and 64-bit length", L, k, le(3, 4) + ab, 4, true, [&](W& x) { return x((const T*) a, 3ull, true); });
  wr("vector", L, k, le(3, 4) + ab, 4, true, [&](W& x) { return x(std::vector<T>(a, a + 3)); });
}
template <typename T> static void wend(std::size_t L, std::size_t k, u64 v) {
  wr("native_to_be", L, k, be(v, sizeof(T)), 0, true, [&](W& x) { return x.native_to_be((T) v); });
  wr("native_to_le", L, k, le(v, sizeof(T)), 0, true, [&](W& x) { return x.native_to_le((T) v); });
}
static void wstr(std::size_t L, std::size_t k, S s) {
  wr("string", L, k, le(s.size(), 4) + s, 4, true, [&](W& x) { return x(s); });
  wr("pair", L, k, le(0x12345678, 4) + le(0x9ABC, 2), 4, true, [&](W& x) { return x(std::make_pair((int) 0x12345678, (short) 0x9ABC)); });
  wr("short_string", L, k, le(s.size(), 2) + s, 2, s.size() < 65536, [&](W& x) { strtk::binary::short_string q(s); return x(q); });
  wr("pascal_string", L, k, le(s.size(), 1) + s, 1, s.size() < 256, [&](W& x) { strtk::binary::pascal_string q(s); return x(q); });
  for (std::size_t n = 0; n < 9; ++n) {
    S p = s.size() < n ? S(n - s.size(), '*') : S();
    wr("right padded", L, k, s.size() <= n ? s + p : S(n, '?'), 0, s.size() <= n, [&](W& x) { return x(s, n, W::right_padding, '*'); });
    wr("left padded", L, k, s.size() <= n ? p + s : S(n, '?'), 0, s.size() <= n, [&](W& x) { return x(s, n, W::left_padding, '*'); });
  }
  for (std::size_t z = 1; z <= k && z < 9; ++z) { hbuf h(L); W w(h.b(), L); S f(k, '-'); if (k > L) continue; w(f.data(), (unsigned) k, false); CUR("padded write of a huge size"); CHECK(!w(s, (std::size_t) 0 - z, W::left_padding, '*'), "padded write of a huge size succeeded"); }
}
int main(int c, char** a) {
  init(c, a);
  for (int m = 0; m < 3; ++m) { S x = m == 0 ? S("\x02\0\0\0\xff\x81\x03\x7f\x01\0\0\0\0\0\0\x80\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc", 28) : m == 1 ? S("\x01\x23\x45\x67\x89\xab\xcd\xef\x01\0\0\0hello", 17) : S("\x03\0\x02\0\0\0\0\0abcdefghij", 18);
    for (std::size_t n = 0; n <= x.size(); ++n) for (std::size_t k = 0; k <= n; ++k) { S s = x.substr(0, n); rpod<char>(s, k, "char"); rpod<short>(s, k, "short"); rpod<int>(s, k, "int"); rpod<long long>(s, k, "long long"); rpod<unsigned long>(s, k, "unsigned long"); rend<short>(s, k); rend<int>(s, k); rend<long long>(s, k); rend<unsigned short>(s, k); rend<unsigned>(s, k); rend<u64>(s, k); rstr(s, k); } }
  u64 vs[] = { 0, 1, 0x0102030405060708ULL, 0xfffefdfcfbfaf9f8ULL, 0x80ff7f0011223344ULL };
  for (std::size_t L = 0; L < 36; ++L) for (std::size_t k = 0; k <= L; ++k) {
    for (int i = 0; i < 5; ++i) { wpod<char>(L, k, vs[i]); wpod<short>(L, k, vs[i]); wpod<int>(L, k, vs[i]); wpod<long long>(L, k, vs[i]); wend<short>(L, k, vs[i]); wend<int>(L, k, vs[i]); wend<long long>(L, k, vs[i]); wend<unsigned>(L, k, vs[i]); wend<u64>(L, k, vs[i]); }
    const char* ts[] = { "", "a", "abc", "hello world" }; for (int i = 0; i < 4; ++i) wstr(L, k, ts[i]);
    hbuf h(L, '#'); W w(h.b(), L); S f(k, '-'); CUR("writer marks, reset, clear");
    w(f.data(), (unsigned) k, false); w.mark(); w(7); std::size_t p = w.position(); w.mark(); w('c'); CHECK(w.reset_to_mark() && w.position() == p && w.position_ptr() == h.b() + p && w.reset_to_mark() && w.position() == k && w.position_ptr() == h.b() + k && !w.reset_to_mark(), "writer marks");
    w.reset(); CHECK(w.position() == 0 && w.position_ptr() == h.b() && h.str().substr(0, k) == f, "writer reset"); w(f.data(), (unsigned) k, false); w.clear(); CHECK(w.position() == 0 && w.position_ptr() == h.b() && h.str() == S(L, '\0'), "writer clear");
  }
  { std::size_t ls[] = { 255, 256, 257, 65535, 65536, 70000 }; for (int i = 0; i < 6; ++i) { wstr(80000, 3, S(ls[i], 'q')); } }
  while (time_left()) { S s = rnd_str(40, ""); if (s.size() > 4 && rnd(2)) { std::size_t k = rnd(s.size() - 3); s[k] = (char) rnd(6); s[k + 1] = s[k + 2] = s[k + 3] = 0; } std::size_t k = rnd(s.size() + 1); rpod<char>(s, k, "char"); rpod<short>(s, k, "short"); rpod<int>(s, k, "int"); rpod<long long>(s, k, "long long"); rend<int>(s, k); rend<u64>(s, k); rend<short>(s, k); rstr(s, k); std::size_t L = rnd(60); wstr(L, rnd(L + 1), rnd_str(300, "")); wpod<int>(L, rnd(L + 1), rnd()); wend<int>(L, rnd(L + 1), rnd()); wend<u64>(L, rnd(L + 1), rnd()); }
  return done();
}
