// tokenizer: iteration emits every token through the hook; predicate and consumer are arbitrary
#include "strtk.hpp"
#include "tok.hpp"
extern "C" void hook_reset();
typedef strtk::tokenizer<const char*,Pred> TK;
static inline std::size_t walk(TK& t) {
  std::size_t c = 0;
  for (TK::iterator i = t.begin(); i != t.end(); ++i, ++c) { const std::pair<const char*,const char*> r = *i; hook_emit(r.first,r.second); }
  return c;
}
extern "C" std::size_t w_tok(const char* b, const char* e, std::size_t o) { Pred p; TK t(b,e,p,o); return walk(t); }
extern "C" std::size_t w_toks(const std::string& s, std::size_t o) { Pred p; TK t(s,p,o); return walk(t); }
extern "C" std::size_t w_post(const char* b, const char* e, std::size_t o) {
  Pred p; TK t(b,e,p,o); std::size_t c = 0; TK::iterator i = t.begin();
  while (i != t.end()) { const std::pair<const char*,const char*> r = *(i++); hook_emit(r.first,r.second); ++c; }
  return c;
}
extern "C" std::size_t w_assign(const char* b, const char* e, std::size_t o) { Pred p; TK t(b,b,p,o); t.assign(b,e); return walk(t); }
extern "C" std::size_t w_assigns(const std::string& a, const std::string& s, std::size_t o) { Pred p; TK t(a,p,o); t.assign(s); return walk(t); }
extern "C" std::size_t w_copy(const char* b, const char* e, std::size_t o, std::size_t o2) { Pred p; TK t(b,b,p,o2); TK u(b,e,p,o); t = u; return walk(t); }
extern "C" std::size_t w_char(const char* b, const char* e, char d, std::size_t o) {
  strtk::single_delimiter_predicate<char> p(d); typedef strtk::tokenizer<const char*,strtk::single_delimiter_predicate<char> > T; T t(b,e,p,o); std::size_t c = 0;
  for (T::iterator i = t.begin(); i != t.end(); ++i, ++c) { const std::pair<const char*,const char*> r = *i; hook_emit(r.first,r.second); }
  return c;
}
extern "C" std::size_t w_itas(const char* b, const char* e, std::size_t o, std::size_t o2) {
  Pred p; TK t(b,b,p,o2); TK u(b,e,p,o); std::size_t c = 0; TK::iterator i = t.begin();
  for (i = u.begin(); i != u.end(); ++i, ++c) { const std::pair<const char*,const char*> r = *i; hook_emit(r.first,r.second); }
  return c;
}
extern "C" std::size_t w_reuse(const char* b, const char* e, std::size_t o) {
  Pred p; TK t(b,e,p,o); std::size_t c = 0; TK::iterator i = t.begin();
  for (; i != t.end(); ++i) { const std::pair<const char*,const char*> r = *i; hook_emit(r.first,r.second); }
  hook_reset();
  for (i = t.begin(); i != t.end(); ++i, ++c) { const std::pair<const char*,const char*> r = *i; hook_emit(r.first,r.second); }
  return c;
}
