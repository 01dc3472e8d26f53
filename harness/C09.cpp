#include "strtk.hpp"
typedef strtk::binary::reader R; typedef strtk::binary::writer W;
typedef unsigned int u32; typedef unsigned long long u64;
// one reader operation from an arbitrary position k
#define P(...) __VA_ARGS__
#define RD(nm, A, OP) bool nm(char* b, std::size_t L, int k, std::size_t& pos, const char*& ptr, A) { R r(b, L); r.seek(k); bool ok = OP; pos = r.position(); ptr = r.position_ptr(); return ok; }
// one writer operation after k arbitrary bytes p have been written
#define WR(nm, A, OP) bool nm(char* b, std::size_t L, const char* p, u32 k, std::size_t& pos, const char*& ptr, A) { W w(b, L); w(p, k, false); bool ok = OP; pos = w.position(); ptr = w.position_ptr(); return ok; }
extern "C" {
RD(w_rc, char& o, r(o)) RD(w_rh, short& o, r(o)) RD(w_ri, int& o, r(o)) RD(w_rl, long long& o, r(o)) RD(w_rul, unsigned long& o, r(o))
RD(w_rp, P(std::pair<int,short>& o), r(o))
RD(w_ra, int* o, (r(*(int(*)[3])o)))
RD(w_rs, std::string& o, r(o))
RD(w_rv, std::vector<int>& o, r(o))
RD(w_rvl, std::vector<u64>& o, r(o))
RD(w_rd, std::deque<int>& o, r(o))
RD(w_rli, std::list<int>& o, r(o))
RD(w_rn, P(char* d, u32& n), r(d, n, false))
RD(w_rni, P(int* d, u32& n), r(d, n, false))
RD(w_rm, P(int*& d, u32& n), r(d, n, true))
RD(w_rn8, P(int* d, u64& n), r(d, n, false))
RD(w_rm8, P(char*& d, u64& n), r(d, n, true))
RD(w_rt, P(std::string& o, const std::size_t& n), r(o, n))
RD(w_rbh, short& o, r.be_to_native(o)) RD(w_rbi, int& o, r.be_to_native(o)) RD(w_rbl, long long& o, r.be_to_native(o))
RD(w_rbuh, unsigned short& o, r.be_to_native(o)) RD(w_rbui, unsigned int& o, r.be_to_native(o)) RD(w_rbul, u64& o, r.be_to_native(o))
RD(w_rlh, short& o, r.le_to_native(o)) RD(w_rli4, int& o, r.le_to_native(o)) RD(w_rll, u64& o, r.le_to_native(o))
RD(w_rsh, P(std::string& o), ([&]() { strtk::binary::short_string s(o); return r(s); }()))
RD(w_rps, P(std::string& o), ([&]() { strtk::binary::pascal_string s(o); return r(s); }()))
RD(w_seek, int n, r.seek(n))
RD(w_rew, std::size_t n, r.rewind(n))
RD(w_reset, int, (r.reset(), true))
RD(w_clear, int, (r.clear(), true))
RD(w_mark, P(int a, int c, std::size_t* o), ([&]() { r.mark(); r.seek(a); o[0] = r.position(); r.mark(); r.seek(c); bool x = r.reset_to_mark(); o[1] = r.position(); o[2] = r.position_ptr() - b; bool y = r.reset_to_mark(); o[3] = r.position(); o[4] = r.position_ptr() - b; return x && y && !r.reset_to_mark(); }()))
WR(w_wc, const char& v, w(v)) WR(w_wh, const short& v, w(v)) WR(w_wi, const int& v, w(v)) WR(w_wl, const long long& v, w(v))
WR(w_wp, P(const std::pair<int,short>& v), w(v))
WR(w_wa, const int* v, (w(*(const int(*)[3])v)))
WR(w_ws, const std::string& v, w(v))
WR(w_wv, const std::vector<int>& v, w(v))
WR(w_wn, P(const char* d, u32 n), w(d, n, false))
WR(w_wm, P(const char* d, u32 n), w(d, n, true))
WR(w_wni, P(const int* d, u32 n), w(d, n, false))
WR(w_wmi, P(const int* d, u32 n), w(d, n, true))
WR(w_wn8, P(const int* d, u64 n), w(d, n, true))
WR(w_wbh, const short& v, w.native_to_be(v)) WR(w_wbi, const int& v, w.native_to_be(v)) WR(w_wbl, const long long& v, w.native_to_be(v))
WR(w_wlh, const short& v, w.native_to_le(v)) WR(w_wli, const int& v, w.native_to_le(v)) WR(w_wll, const u64& v, w.native_to_le(v))
WR(w_wpr, P(const std::string& v, const std::size_t& n, char c), w(v, n, W::right_padding, c))
WR(w_wpl, P(const std::string& v, const std::size_t& n, char c), w(v, n, W::left_padding, c))
WR(w_wsh, P(std::string& v), ([&]() { strtk::binary::short_string s(v); return w(s); }()))
WR(w_wps, P(std::string& v), ([&]() { strtk::binary::pascal_string s(v); return w(s); }()))
WR(w_wreset, int, (w.reset(), true))
WR(w_wclear, int, (w.clear(), true))
WR(w_wmark, P(const int& v, std::size_t* o), ([&]() { w.mark(); w(v); o[0] = w.position(); w.mark(); w(v); bool x = w.reset_to_mark(); o[1] = w.position(); o[2] = w.position_ptr() - b; bool y = w.reset_to_mark(); o[3] = w.position(); o[4] = w.position_ptr() - b; return x && y && !w.reset_to_mark(); }()))
// what was written is what is read back
bool w_rtrip(char* b, std::size_t L, const int& i, const std::string& s, const long long& l, int& i2, std::string& s2, long long& l2, std::size_t& n) {
  W w(b, L); bool ok = w(i) && w(s) && w(l); n = w.position();
  if (!ok) return false;
  R r(b, n); return r(i2) && r(s2) && r(l2) && r.position() == n;
}
bool w_rtripv(char* b, std::size_t L, const short& i, const std::vector<int>& v, short& i2, std::vector<int>& v2, std::size_t& n) {
  W w(b, L); bool ok = w(i) && w(v); n = w.position();
  if (!ok) return false;
  R r(b, n); return r(i2) && r(v2) && r.position() == n;
}
}
