#include "strtk.hpp"
#include "tok.hpp"
extern "C" { bool hook_predi(int); }
struct PredI { bool operator()(const int& c) const { return hook_predi(c); } };
template <typename T, typename A> struct Sq { T* b; T* e; T* begin() { return b; } T* end() { return e; } std::size_t size() const { return e - b; } void resize(std::size_t n) { e = b + n; } };
typedef std::allocator<int> AL;
extern "C" {
std::size_t w_r(char* b, char* e) { return strtk::remove_inplace(Pred(), b, e); }
std::size_t w_ri(int* b, int* e) { return strtk::remove_inplace(PredI(), b, e); }
std::size_t w_ra(char* b, char* e) { return strtk::remove_inplace(Pred(), strtk::range::adapter<char>(b, e)); }
std::size_t w_rq(Sq<int,AL>& s) { return strtk::remove_inplace(PredI(), s); }
void w_rs(std::string& s) { strtk::remove_inplace(Pred(), s); }
void w_rc(char c, std::string& s) { strtk::remove_inplace(c, s); }
std::size_t w_rx(const std::vector<std::size_t>& l, char* b, char* e) { return strtk::remove_inplace(strtk::index_remover(l), b, e); }
std::size_t w_c(char* b, char* e) { return strtk::remove_consecutives_inplace(Pred(), b, e); }
std::size_t w_ci(int* b, int* e) { return strtk::remove_consecutives_inplace(PredI(), b, e); }
std::size_t w_ca(char* b, char* e) { return strtk::remove_consecutives_inplace(Pred(), strtk::range::adapter<char>(b, e)); }
void w_cs(std::string& s) { strtk::remove_consecutives_inplace(Pred(), s); }
void w_cc(char c, std::string& s) { strtk::remove_consecutives_inplace(c, s); }
void w_css(const std::string& d, std::string& s) { strtk::remove_consecutives_inplace(d, s); }
void w_ccs(const char* d, std::string& s) { strtk::remove_consecutives_inplace(d, s); }
std::size_t w_e(char* b, char* e) { return strtk::remove_consecutives_inplace(b, e); }
std::size_t w_ei(int* b, int* e) { return strtk::remove_consecutives_inplace(b, e); }
std::size_t w_ea(char* b, char* e) { return strtk::remove_consecutives_inplace(strtk::range::adapter<char>(b, e)); }
void w_es(std::string& s) { strtk::remove_consecutives_inplace(s); }
void w_eq(Sq<int,AL>& s) { strtk::remove_consecutives_inplace(s); }
void w_d(const std::string& s, std::string& r) { r = strtk::remove_duplicates(s); }
void w_di(std::string& s, std::string& r) { r = strtk::remove_duplicates_inplace(s); }
std::size_t w_t(char* b, char* e) { return strtk::remove_trailing(Pred(), b, e); }
std::size_t w_ti(int* b, int* e) { return strtk::remove_trailing(PredI(), b, e); }
std::size_t w_ta(char* b, char* e) { return strtk::remove_trailing(Pred(), strtk::range::adapter<char>(b, e)); }
void w_ts(std::string& s) { strtk::remove_trailing(Pred(), s); }
void w_tc(char c, std::string& s) { strtk::remove_trailing(c, s); }
void w_tss(const std::string& d, std::string& s) { strtk::remove_trailing(d, s); }
void w_tcs(const char* d, std::string& s) { strtk::remove_trailing(d, s); }
std::size_t w_l(char* b, char* e) { return strtk::remove_leading(Pred(), b, e); }
std::size_t w_li(int* b, int* e) { return strtk::remove_leading(PredI(), b, e); }
std::size_t w_la(char* b, char* e) { return strtk::remove_leading(Pred(), strtk::range::adapter<char>(b, e)); }
void w_ls(std::string& s) { strtk::remove_leading(Pred(), s); }
void w_lc(char c, std::string& s) { strtk::remove_leading(c, s); }
void w_lss(const std::string& d, std::string& s) { strtk::remove_leading(d, s); }
void w_lcs(const char* d, std::string& s) { strtk::remove_leading(d, s); }
void w_lt(const std::string& d, std::string& s) { strtk::remove_leading_trailing(d, s); }
}
