// F07: pipes, descriptors, threads, processes and programs that are refused.
#include "case.h"
#include "model.h"
#include <sstream>
static std::string n7(long v) { return std::to_string(v); }
static struct { bool ok; std::vector<std::string> want; std::map<std::string,int> execs; std::string out; } R7;
static std::string tag7(int i, const char* s="") { return "t"+n7(i)+s; }
// one command; everything it does goes to /w/x/f<i>, line by line, each line at most once for each turn of the loop
static std::string cmd7(Rng& r, int d, int i, const std::string& to, const std::string& q) {
  std::string t="t"+n7(i)+char('a'+d)+q;
  switch (r.below(d>1?8:15)) {
  case 0: return "echo "+t+to;
  case 1: return "emit "+n7(r.range(1,3))+" "+t+to;
  case 2: return "echo "+t+"|cat"+to;
  case 3: return "emit 2 "+t+"|upper"+to;
  case 4: return "echo "+t+"|cat|upper"+to;
  case 5: return "cat<x/in.txt"+to;
  case 6: return "(emit 2 "+t+")"+to;
  case 7: return "(echo "+t+"&emit 1 "+t+"x)"+to;
  case 8: { std::string v(1,"uvwxyz"[d]); return "(for /f %%"+v+" in ('"+(r.chance(0.5)?"emit 2 "+t:"echo "+t+" rest")+"') do echo %%"+v+"y)"+to; }
  case 9: { std::string v(1,"uvwxyz"[d]); return "(for /f %%"+v+" in (x/in.txt) do echo %%"+v+t+")"+to; }
  case 10: return "call :l1 "+t+to;
  case 11: return "call s1.bat "+t+to;
  case 12: return "("+cmd7(r,d+1,i,"",q)+"|"+(r.chance(0.5)?"cat":"find \"t\"")+")"+to;
  case 13: { std::string v(1,"uvwxyz"[d]); return "(for /f \"delims=\" %%"+v+" in ('"+cmd7(r,d+1,i,"",q)+"') do echo [%%"+v+"])"+to; }
  default: return "("+cmd7(r,d+1,i,"",q)+"&"+cmd7(r,d+1,i,"",q+"b")+")"+to; } }
static void gen_f07(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); int n=r.range(2,7); bool lim=r.chance(0.4); if (lim) c.set("fdlim",r.range(30,40)); bool faults=!lim||r.chance(0.4);
  for (int i=0;i<n;i++) { int reps=lim?r.range(8,30):r.chance(0.3)?r.range(2,4):1; c.ops.push_back(L("cmd",reps,cmd7(r,0,i,"",""))); }
  if (faults) { static const int k[]={D_EMFILE,D_PIPE_FAIL,D_THREAD_FAIL,D_FORK_FAIL,D_EXEC_FAIL}; static const double ps[]={0.01,0.03,0.1,0.3}; int m=r.range(1,3); for (int i=0;i<m;i++) { int x=k[r.below(5)]; c.cfg.p[x]=ps[r.below(4)]; c.cfg.max_faults[x]=r.range(1,3); } }
  c.cfg.max_steps=300000; }
static void files7(const Case& c) {
  install_progs(); vfs_mkdirs("/w/x"); vfs_put("/w/x/go",""); vfs_put("/w/x/in.txt","in0\nin1\nin2\n"); vfs_put("/w/s1.bat","@echo off\necho %1s\nemit 1 %1q\n");
  std::string s="@echo off\nrem>x/go\n"; int i=0;
  for (auto& op: c.ops) { std::string f=" >> x\\f"+n7(i); for (auto& ch: f) if (ch=='\\') ch='/';
    if (op.i(1)>1) s+="for /l %%i in (1,1,"+n7(op.i(1))+") do ("+op.s(2)+")"+f+"\n"; else s+="("+op.s(2)+")"+f+"\n";
    s+="set e"+n7(i)+"=!errorlevel!\n"; i++; }
  s+="echo here\n"; for (int k=0;k<i;k++) s+="echo el "+n7(k)+" !e"+n7(k)+"!\n";
  s+="echo done|cat\nemit 1 end\ngoto :eof\n:l1\necho %1l\nemit 1 %1m\ngoto :eof\n"; vfs_put("/w/t.bat",s); K->fault_root=vfs_get("/w/x"); K->fd_faults=true; K->fd_limit=c.pi("fdlim"); }
static std::string fkey7(int i) { return "/w/x/f"+n7(i); }
static void setup_f07(const Case& c, RunSpec& rs) {
  SimConfig cfg=K->cfg; bool tr=K->tracing; SimConfig q; q.seed=1; q.policy=0; q.p_switch=0.02; q.max_steps=cfg.max_steps; q.max_accesses=cfg.max_accesses; R7.want.clear(); R7.execs.clear(); R7.ok=!c.ops.empty();
  kern_reset(q); files7(c); K->fd_limit=0; int o=kern_run(rs,20000); if (o!=RES_OK) R7.ok=false;
  for (size_t i=0;i<c.ops.size();i++) { std::string t; if (!vfs_read(fkey7(i).c_str(),t)) t=""; R7.want.push_back(t); }
  for (auto& e: K->log) if (e.op=="exec"&&e.r==0) R7.execs[N(e.a)+" "+N(e.b)]++;
  R7.out=out_text(); if (R7.out.find("end0")==std::string::npos||!err_text().empty()) R7.ok=false;
  kern_reset(cfg); K->tracing=tr; files7(c); }
static std::vector<std::string> lines7(const std::string& s) { std::vector<std::string> v; std::istringstream in(s); std::string l; while (std::getline(in,l)) v.push_back(l); return v; }
static Verdict check_f07(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (!v.ok()) return v; if (!R7.ok||o!=RES_OK) return v;
  auto bad=[&](const char* cls, const std::string& m) { v.cls=cls; v.msg=m; return v; };
  int fired=count_log("rfault")+count_log("ffault"); int failed=0; std::string out=out_text();
  std::map<std::string,int> ex; for (auto& e: K->log) if (e.op=="exec"&&e.r==0) ex[N(e.a)+" "+N(e.b)]++;
  for (auto& e: ex) if (e.second>R7.execs[e.first]) { bool mod=e.first.find('\x1f')!=std::string::npos; (void)mod; return bad("twice","\""+esc(e.first)+"\" was run "+n7(e.second)+" times instead of "+n7(R7.execs[e.first])+" after "+n7(fired)+" refusals"); }
  for (size_t i=0;i<c.ops.size();i++) { std::string t; if (!vfs_read(fkey7(i).c_str(),t)) t=""; if (t==R7.want[i]) continue; failed++;
    std::string p="el "+n7(i)+" "; size_t at=out.find("\n"+p); std::string el=at==std::string::npos?"":out.substr(at+1+p.size(),out.find('\n',at+1)-at-1-p.size());
    if (!fired) return bad("differs","no call was refused, yet "+diff_msg(("the output of command "+n7(i)).c_str(),R7.want[i],t));
    std::map<std::string,int> have; for (auto& l: lines7(R7.want[i])) have[l]++;
    for (auto& l: lines7(t)) if (l.compare(0,5,"Error")&&l.compare(0,8,"\tReason:")&&--have[l]<0) return bad("extra","command "+n7(i)+" wrote \""+esc(l)+"\" once too often: "+diff_msg("its output",R7.want[i],t));
    if (err_text().empty()&&(el=="0"||el.empty())) return bad("silent","command "+n7(i)+" lost its output ("+diff_msg("it",R7.want[i],t)+"), without a message or an error level"); }
  if (failed>fired) return bad("spread",n7(failed)+" commands failed after "+n7(fired)+" refusals");
  size_t at=out.find("here"); if (at==std::string::npos) return bad("stopped","the script did not reach its last lines after "+n7(fired)+" refusals; exit "+n7(K->main_exit)+", "+esc(err_text().substr(0,200)));
  if (!fired&&out!=R7.out) return bad("differs",diff_msg("the output",R7.out,out));
  return v; }
static Reg rf7({"F07","two to seven commands (redirections, pipelines, captures, calls of labels and scripts, externals, blocks), each alone or in a loop, appending to a file of their own, while dup, pipe, thread creation, fork, exec and opens of data files are refused a few times, or under a limit of 30 to 40 descriptors that only leaks reach. A first run without faults says what each command writes: no program may run more often, no file may gain lines, at most as many commands as there were refusals may lose output, with a message or an error level, and the script must reach its end; non-trivial runs had a call refused or loops under the limit",gen_f07,setup_f07,check_f07,[](const Case& c){ return R7.ok&&(c.pi("fdlim")||count_log("rfault")+count_log("ffault")>0); },nullptr,nullptr});
