// split: every overload and every option; emission and predicate are hooks, so the proof covers any predicate and any consumer
#include "strtk.hpp"
#include "tok.hpp"
extern "C" std::size_t w_pred(const char* b, const char* e, std::size_t o) { return strtk::split(Pred(),b,e,Out(),o); }
extern "C" std::size_t w_predr(const char* b, const char* e, std::size_t o) { return strtk::split(Pred(),std::make_pair(b,e),Out(),o); }
extern "C" std::size_t w_preds(const std::string& s, std::size_t o) { return strtk::split(Pred(),s,Out(),o); }
extern "C" std::size_t w_char(char d, const std::string& s, std::size_t o) { return strtk::split(d,s,Out(),o); }
extern "C" std::size_t w_cs(const char* d, const std::string& s, std::size_t o) { return strtk::split(d,s,Out(),o); }
extern "C" std::size_t w_ss(const std::string& d, const std::string& s, std::size_t o) { return strtk::split(d,s,Out(),o); }
extern "C" std::size_t w_csq(const char* d, const std::string& s, std::size_t o) { Seq<PR,std::allocator<PR> > q; return strtk::split(d,s,q,o); }
extern "C" std::size_t w_ssq(const std::string& d, const std::string& s, std::size_t o) { Seq<PR,std::allocator<PR> > q; return strtk::split(d,s,q,o); }
extern "C" std::size_t w_default(const char* b, const char* e) { return strtk::split(Pred(),b,e,Out()); }
extern "C" std::size_t w_fets(const std::string& s, const std::string& d) { return strtk::for_each_token(s,d,Fn()); }
extern "C" std::size_t w_fetc(const std::string& s, const char* d) { return strtk::for_each_token(s,d,Fn()); }
