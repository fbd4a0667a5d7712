// Cases, properties and the search driver.
#pragma once
#include "kern.h"
#include <functional>
#include <memory>
#include <set>

struct Sx {                                   // S-expression: an atom or a list
  bool list = false; std::string a; std::vector<Sx> k;
  Sx() {}
  Sx(const char* s) : a(s) {}
  Sx(const std::string& s) : a(s) {}
  Sx(int v) : a(std::to_string(v)) {}
  const std::string& head() const { static const std::string e; return list && !k.empty() && !k[0].list ? k[0].a : e; }
  const Sx& operator[](size_t i) const { return k[i]; }
  Sx& operator[](size_t i) { return k[i]; }
  size_t n() const { return k.size(); }
  const std::string& s(size_t i) const { static const std::string e; return i<k.size()?k[i].a:e; }
  int i(size_t x) const { return x<k.size()?atoi(k[x].a.c_str()):0; }
};
template<class... T> Sx L(T... t) { Sx r; r.list=true; (r.k.push_back(Sx(t)),...); return r; }
std::string sx_str(const Sx& x);
Sx sx_parse(const std::string& s);

struct Case {
  std::map<std::string,std::string> par;
  std::vector<Sx> ops;
  SimConfig cfg;
  int pi(const char* k, int d=0) const { auto it=par.find(k); return it==par.end()?d:atoi(it->second.c_str()); }
  std::string ps(const char* k, const char* d="") const { auto it=par.find(k); return it==par.end()?d:it->second; }
  void set(const char* k, int v) { par[k]=std::to_string(v); }
  void set(const char* k, const std::string& v) { par[k]=v; }
};
struct Verdict { std::string cls, msg; bool ok() const { return cls.empty(); } };
struct Prop {
  const char* id; const char* rule;
  void (*gen)(Rng& r, Case& c);
  void (*setup)(const Case& c, RunSpec& rs);        // after kern_reset: files, stdin, expectations
  Verdict (*check)(const Case& c, int outcome);     // after the run
  bool (*nontrivial)(const Case& c);                // of a finished run
  const char* real_parts; const char* stub_parts;
};
extern std::vector<Prop> props;
struct Reg { Reg(Prop p) { props.push_back(p); } };

// run evaluation helpers
Verdict basic_outcome(int outcome);                 // violations every property shares (hang, crash)
std::string crash_fn();                             // function names on the crashing stack
std::string out_text(); std::string err_text();
std::string diff_msg(const char* what, const std::string& want, const std::string& got);
size_t count_log(const char* op);
void install_progs();
std::string esc(const std::string& s, size_t max=400);
