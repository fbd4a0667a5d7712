// Batch programs as syntax trees: rendering to script text, and a small
// sequential reference interpreter for them.
#pragma once
#include <set>
#include "case.h"

struct MFs { std::map<std::string,std::string> files; std::set<std::string> dirs; };
struct MIn { std::string data; size_t pos=0; };
struct MSt {                                   // interpreter state
  std::map<std::string,std::string> vars; std::string cwd="/w"; std::vector<std::string> dirst; int el=0;
  struct Sv { std::map<std::string,std::string> vars; bool delayed; std::set<std::string> inh, prev; }; std::vector<Sv> stack;
  std::vector<std::string> args; std::map<char,std::string> loc; bool delayed=true; std::string script="/w/t.bat"; std::map<std::string,std::string> defs; bool echo=false;
  std::vector<std::string> all, params;                 // %* and $1 $2 ...
  std::set<std::string> inh, prev;                      // inherited variables; local ones that exist outside the procedure
};
enum MFlow { F_NEXT, F_GOTO, F_RET, F_EXIT };
struct Model {
  MFs fs; std::map<std::string,const Sx*> subs; std::map<std::string,const std::vector<Sx>*> scripts; const std::vector<Sx>* main=nullptr;
  std::map<std::string,const Sx*> procs;
  std::string modval(const std::string& name, const std::string& mods, MSt& st);
  std::string label; int steps=0, maxsteps=20000; bool overrun=false; bool unsupported=false; bool cmdly=false; std::string why; int exit_code=0;
  std::vector<std::string> execs, execctx;              // external programs with arguments, in order (sequential scripts only)
  int depth=0, tasks=0; std::vector<std::string>* snap=nullptr;
  MFlow stmt(const Sx& s, MSt& st, MIn& in, std::string& out, std::string& err);
  MFlow lines(const Sx* v, size_t from, size_t n, MSt& st, MIn& in, std::string& out, std::string& err, size_t start=0);
  MFlow seq(const std::vector<Sx>& v, size_t from, MSt& st, MIn& in, std::string& out, std::string& err);
  void run(const std::vector<Sx>& ops, MSt& st, MIn& in, std::string& out, std::string& err);
  std::string text(const Sx& t, MSt& st); bool cond(const Sx& c, MSt& st); long long expr(const Sx& e, MSt& st); std::string path(const std::string& p, MSt& st); bool isdir(const std::string& p, MSt& st);
  int ext(const Sx& s, const std::vector<std::string>& av, MSt& st, MIn& in, std::string& out, std::string& err);
  MFlow callsub(const std::string& name, std::vector<std::string> args, MSt& st, MIn& in, std::string& out, std::string& err, bool isscript, const std::string& at="");
};
std::string render(const Sx& s, int depth=0, bool inl=false);
std::string render_script(const std::vector<Sx>& ops, bool prelude);        // main script with its subroutines
void put_scripts(const Case& c);                               // t.bat and (script name ...) files

// ---- generation ------------------------------------------------------------------
struct Gen {
  Rng& r; 
  bool pipes=true, forf=true, calls=true, gotos=true, scopes=false, redirs=true, exts=true, sets=true, conds=true, loops=true, els=false, scripts=false, dirs=false, bigdata=false, nested_pipes=true, err=false, findmore=true, mods=false;
  bool in_stage=false; int nsub=0, nfile=0, nlab=0, budget=30; int fbase=0; std::vector<std::string> vars={"va","vb","vc","vd"}; std::string forvars; int scope_depth=0; bool noread=false;
  std::vector<std::string> wfiles;   // files completely written by earlier top-level statements
  Gen(Rng& rr) : r(rr) {}
  std::string word(); Sx lit(); Sx text(int depth, bool allowvar=true); Sx expr(int d); Sx cond(int depth); Sx body(int depth);
  Sx stmt(int depth); Sx simple(int depth); Sx source(int depth); Sx filter(int depth); Sx flat(int depth); Sx pipeline(int depth); Sx sub(int id);
  std::vector<Sx> program(int n, int nsubs);
};
void swarm_schedule(Rng& r, SimConfig& c);            // schedule policy, preemption, pipe capacities, short transfers
