// C07: what several stages compute at once is what each computes alone.
#include "model.h"
#include <sstream>
static std::string num(int i) { return std::to_string(i); }
static struct { bool ok; std::vector<std::string> alone, names; } Q;
static const char* VN[]={"va","vb","vc","vd"};
static std::string lit7(Rng& r) { static const char* w[]={"alpha.txt","Hello world","some/dir/file.tar.gz","1234567890","a-b-c-d","xXyYzZ","the quick brown fox","k=v","/w/d1/data.log","0042","caf\xc3\xa9 cr\xc3\xa8me","q"}; return w[r.below(12)]; }
static std::string fl(Rng& r) { std::string s=num(r.range(0,40)); if (r.chance(0.6)) s+="."+num(r.range(0,999)); return s; }
static std::string aexpr(Rng& r, int d) {
  if (d>2||r.chance(0.3)) { switch (r.below(5)) { case 0: return VN[r.below(4)]; case 1: { static const char* c[]={"pi","e","sqrt2","ln2"}; return c[r.below(4)]; } default: return fl(r); } }
  switch (r.below(5)) { case 0: { static const char* f[]={"sqrt","abs","exp","sin","cos","atan","log"}; return std::string(f[r.below(7)])+"("+(r.chance(0.5)?fl(r):aexpr(r,d+1))+")"; } case 1: return "("+aexpr(r,d+1)+")";
  default: { static const char* o[]={"+","-","*","/","+","*"}; return aexpr(r,d+1)+o[r.below(6)]+aexpr(r,d+1); } } }
static std::string sub7(Rng& r, const char* q) { std::string v=VN[r.below(4)]; switch (r.below(6)) { case 0: return q+v+q; case 1: return q+v+":~"+num(r.range(0,5))+","+num(r.range(1,6))+q; case 2: return q+v+":~-"+num(r.range(1,5))+q; case 3: { static const char* a[]={"a","o","-","1","."}; return q+v+":"+a[r.below(5)]+"=<"[0]+std::string("_")+num(r.below(9))+q; } case 4: return q+v+":~"+num(r.range(0,4))+q; default: return q+v+q+"."; } }
static std::string cond7(Rng& r) { static const char* c[]={"LSS","LEQ","GTR","GEQ","EQU","NEQ"}; switch (r.below(5)) { case 0: return fl(r)+" "+c[r.below(6)]+" "+fl(r); case 1: return "\"!"+std::string(VN[r.below(4)])+"!\"==\""+lit7(r)+"\""; case 2: return "defined "+std::string(VN[r.below(4)]); case 3: return "!nn! "+std::string(c[r.below(6)])+" "+num(r.range(0,9)); default: return "not exist nofile.txt"; } }
static std::string line7(Rng& r, int depth, const std::string& pre, int& nl, bool inblk) {
  std::string q=(inblk||r.chance(0.5))?"!":"%";
  switch (r.below(inblk?9:14)) {
  case 0: case 1: { std::string v=VN[r.below(4)]; std::string e=aexpr(r,inblk?9:0); return "set /a "+v+"="+e+"\necho "+v+" !"+v+"!"; }
  case 2: return "set "+std::string(VN[r.below(4)])+"="+lit7(r);
  case 3: return "echo "+sub7(r,q.c_str())+" / "+sub7(r,q.c_str());
  case 4: return "set "+std::string(VN[r.below(4)])+"="+sub7(r,q.c_str())+sub7(r,q.c_str())+"\necho [!va!][!vb!]";
  case 5: return "if "+cond7(r)+" (echo yes) else (echo no)";
  case 6: if (depth<2) { std::string v(1,"ijk"[depth]); std::string b=line7(r,depth+1,pre,nl,true); for (auto& ch: b) if (ch=='\n') ch='&'; return "for /l %%"+v+" in ("+num(r.range(0,3))+","+num(r.range(1,2))+","+num(r.range(3,6))+") do ("+b+"&echo %%"+v+")"; } return "echo deep";
  case 7: if (depth<2) { std::string v(1,"lmn"[depth]); return "for %%"+v+" in (one.txt two/x.c three) do (echo %%"+v+" %%~n"+v+" %%~x"+v+")"; } return "echo deeper";
  case 8: { std::string v(1,"opq"[depth<3?depth:2]); return "for /f \"tokens=1,2* delims=-. \" %%"+v+" in (\""+lit7(r)+"\") do (echo %%"+v+"/%%"+std::string(1,char(v[0]+10-(v[0]-'o')*0))+".)"; }
  case 9: { int i=nl++; std::string v="c"+num(i); return "set "+v+"=0\n:"+pre+"l"+num(i)+"\nset /a "+v+"="+v+"+1\n"+line7(r,2,pre,nl,true)+"\nif !"+v+"! LSS "+num(r.range(2,5))+" (goto "+pre+"l"+num(i)+")"; }
  case 10: return "echo %1 %~n1 %~x1 %2 %*";
  case 11: return "call :h0 !nn! "+num(r.range(1,9))+"\necho back !hr!";
  case 12: return "setlocal\nset va=inner\n"+line7(r,2,pre,nl,true)+"\nendlocal\necho !va!";
  default: switch (r.below(5)) { case 0: return "cd d1\necho !cd!\ncd /w"; case 1: return "shift\necho %1 %2"; case 2: return "set /p vd=<in.txt\necho !vd!"; case 3: return "type in.txt|find \"e\""; default: { std::string g=pre+"g"+num(nl++); return "goto "+g+"\necho skipped\n:"+g+"\necho landed"; } }
  } }
static void gen_c07(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); if (r.chance(0.85)) { static const uint32_t m[]={10,30,100,300}; c.cfg.preempt_mean=m[r.below(4)]; if (c.cfg.policy==3) c.cfg.policy=0; }
  int n=r.range(2,4); bool cap=r.chance(0.3); c.set("cap",cap);
  for (int i=0;i<n;i++) { Sx s=L("stage"); int k=r.range(1,6), nl=0; std::string pre="s"+num(i); for (int j=0;j<k;j++) s.k.push_back(Sx(line7(r,0,pre,nl,false))); c.ops.push_back(s); } }
static std::string script7(const Case& c, int only, std::vector<std::string>& names) {
  std::string t="@echo off\nset va=start value\nset vb=12.5\nset vc=file.name.ext\nset nn=4\n", body, main; names.clear(); int n=0; bool cap=c.pi("cap");
  for (auto& op: c.ops) { std::string i=num(n), f="f"+i+".txt"; names.push_back("/w/"+f); bool last=n+1==(int)c.ops.size(); std::string s="call :s"+i+" dir/arg"+i+".x two three > "+f; if (last&&cap) s="(for /f \"delims=\" %%z in ('call :s"+i+" a b') do echo %%z>> "+f+")";
    if (only<0||only==n) main+=(main.empty()?"":"|")+s; body+=":s"+i+"\nset /a nn=nn+"+i+"\n"; for (size_t k=1;k<op.k.size();k++) body+=op.k[k].a+"\n"; body+="echo end !nn! el %errorlevel%\ngoto :eof\n"; n++; }
  return t+main+"\ngoto :eof\n"+body+":h0\nset /a hr=%1*%2+0.5\nexit /b 0\n"; }
static void setup_c07(const Case& c, RunSpec& rs) {
  SimConfig cfg=K->cfg; bool tr=K->tracing; Q.alone.clear(); Q.ok=!c.ops.empty(); SimConfig q; q.seed=1; q.policy=0; q.p_switch=0.01; q.max_steps=cfg.max_steps; q.max_accesses=cfg.max_accesses; const char* in="first line here\nsecond one\nthird\n";
  for (int i=0;i<(int)c.ops.size()&&Q.ok;i++) { kern_reset(q); install_progs(); vfs_mkdirs("/w/d1"); vfs_put("/w/in.txt",in); vfs_put("/w/t.bat",script7(c,i,Q.names)); int o=kern_run(rs,20000); if (o!=RES_OK) { Q.ok=false; break; } std::string t; if (!vfs_read(Q.names[i].c_str(),t)) t="(no file)"; Q.alone.push_back(t); }
  kern_reset(cfg); K->tracing=tr; install_progs(); vfs_mkdirs("/w/d1"); vfs_put("/w/in.txt",in); vfs_put("/w/t.bat",script7(c,-1,Q.names)); }
static Verdict check_c07(const Case&, int o) { Verdict v=basic_outcome(o); if (!Q.ok) return v.cls=="crash"||v.cls=="heap"||v.cls=="abort"?v:Verdict(); if (!v.ok()||o!=RES_OK) return v;
  for (size_t i=0;i<Q.alone.size();i++) { std::string t; if (!vfs_read(Q.names[i].c_str(),t)) t="(no file)"; if (t!=Q.alone[i]) { v.cls="differs"; v.msg="stage "+num(i)+" computed something else than alone: "+diff_msg("its output",Q.alone[i],t); return v; } } return v; }
static Reg r7({"C07","two to four stages, each a called label with arithmetic, comparisons, substitutions, loops, calls, jumps, scopes and nested pipelines writing to a file of its own; every stage first runs alone in a simulated run of its own, then all run at once under heavy preemption at memory accesses, and each file must be the same; non-trivial runs preempted a task",gen_c07,setup_c07,check_c07,[](const Case&){ return Q.ok&&K->switches>5; },nullptr,nullptr});
