// Properties decided by comparing generated programs with the reference interpreter.
#include "model.h"
#include <algorithm>
#include <sstream>
struct Expect { std::string out, err; std::map<std::string,std::string> files; bool ok=true; std::string why; int exit_code=0; std::vector<std::string> execs, execctx; std::vector<std::string> parts; };
static Expect E;
static void model_setup(const Case& c, RunSpec& rs) {
  put_scripts(c); for (const char* d: {"/w/d1","/w/d2","/w/d1/s"}) vfs_mkdirs(d);
  Model m; m.fs.dirs={"/","/w","/tmp","/w/d1","/w/d2","/w/d1/s"}; MSt st; MIn in; in.data=c.ps("stdin"); E=Expect();
  for (auto& p: c.par) if (p.first.compare(0,5,"file:")==0) { vfs_put(p.first.substr(5).c_str(),p.second); m.fs.files[p.first.substr(5)]=p.second; }
  for (auto& p: c.par) if (p.first.compare(0,4,"env:")==0) { rs.env.push_back(p.first.substr(4)+"="+p.second); st.vars[p.first.substr(4)]=p.second; }
  if (c.pi("pathw")&&!rs.env.empty()) rs.env[0]+=":/w";
  if (c.pi("cmdly")&&!rs.argv.empty()) rs.argv.insert(rs.argv.begin()+1,"/A:C");
  for (size_t i=1;i<20;i++) { auto a=c.ps(("arg"+std::to_string(i)).c_str()); if (a.empty()) break; rs.argv.push_back(a); st.args.push_back(a); st.all.push_back(a); }
  rs.stdin_data=in.data; rs.stdout_tty=c.pi("tty")!=0;
  m.cmdly=c.pi("cmdly")!=0; m.fs.files["/w/t.bat"]=""; for (auto& x: c.ops) if (x.head()=="script") m.fs.files["/w/"+x.s(1)+".bat"]=""; auto scr=m.fs.files;
  m.run(c.ops,st,in,E.out,E.err); for (auto& f: scr) if (f.second.empty()&&f.first.size()>4&&f.first.compare(f.first.size()-4,4,".bat")==0) m.fs.files.erase(f.first); E.ok=!m.overrun&&!m.unsupported; if (m.steps+(E.out.size()+E.err.size())/20>1500) K->skip=true; E.why=m.why; E.files=m.fs.files; E.exit_code=m.exit_code; E.execs=m.execs; E.execctx=m.execctx;
}
// What the interpreter itself says of an error, and what it sends to a terminal besides text, is not compared.
static std::string plain(const std::string& s) {
  std::string o; for (size_t i=0;i<s.size();) {
    if (s.compare(i,8,"Error : ")==0) { size_t e=s.find('\n',i); if (e==std::string::npos) break; i=e+1; if (s.compare(i,9,"\tReason: ")==0) { e=s.find('\n',i); if (e==std::string::npos) break; i=e+1; } continue; }
    if (s[i]=='\x1b'&&i+1<s.size()&&s[i+1]=='[') { i+=2; while (i<s.size()&&!isalpha((unsigned char)s[i])) i++; i++; continue; }
    if (s[i]=='\x1b'&&i+1<s.size()&&s[i+1]==']') { while (i<s.size()&&s[i]!=7) i++; i++; continue; }
    o+=s[i++]; }
  return o; }
static Verdict model_check(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (getenv("PSIM_STRICT")&&!v.ok()) return v; if (!E.ok||(v.ok()&&o==RES_STEPS)) return Verdict(); if (!v.ok()) return v;
  std::string got=plain(out_text());
  if (got!=E.out) { v.cls="output"; v.msg=diff_msg("standard output",E.out,got); return v; }
  for (auto& f: E.files) { std::string d; if (!vfs_read(f.first.c_str(),d)) { v.cls="file-missing"; v.msg="file "+f.first+" was not created"; return v; } d=plain(d); if (d!=f.second) { v.cls="file"; v.msg=diff_msg(("file "+f.first).c_str(),f.second,d); return v; } }
  return v;
}
static bool nontriv(const Case&) { return E.ok && K->threads_created+K->forks>0 && K->switches>2; }
static bool nontriv_seq(const Case&) { return E.ok && !E.out.empty(); }
static bool has(const std::vector<Sx>& ops, const char* what) { for (auto& x: ops) if (sx_str(x).find(what)!=std::string::npos) return true; return false; }
static std::string num(int i) { return std::to_string(i); }
static Sx V(const std::string& v) { return L("d",v); }
template<class... T> static Sx T_(T... t) { return L("t",t...); }
static Sx blk(const char* h, std::vector<Sx> v) { Sx b=L(h); for (auto& x: v) b.k.push_back(x); return b; }
static void add_subs(Gen& g, Case& c, int n) { std::vector<Sx> subs; for (int i=0;i<n;i++) subs.push_back(g.sub(i)); g.nsub=n; for (auto& s: subs) c.ops.push_back(s); }

// ---- C01 ------------------------------------------------------------------------------
static void gen_c01(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); Gen g(r); g.bigdata=r.chance(0.4); g.calls=r.chance(0.7); g.forf=r.chance(0.4); g.redirs=r.chance(0.5); g.sets=r.chance(0.6);
  c.ops=g.program(r.range(1,6),g.calls?r.range(0,2):0); if (!has(c.ops,"(pipe")) c.ops.insert(c.ops.begin(),g.pipeline(0));
}
static Reg r1({"C01","random batch programs with at least one pipeline, rendered to a script and compared with a sequential reference interpreter; a run is non-trivial when it started threads or processes and switched between them, counted once per distinct execution hash",gen_c01,model_setup,model_check,nontriv,nullptr,nullptr});

// ---- C02: everything ends ---------------------------------------------------------------
static Sx partial(Gen& g, int depth) {            // a stage that reads nothing or part of its input
  Rng& r=g.r;
  switch (r.below(9)) {
  case 0: return L("ext","head",(int)r.range(1,4)); case 1: return L("ext","noread"); case 2: return L("echo",g.text(depth+1)); case 3: return L("setp",g.vars[r.below(g.vars.size())]);
  case 4: return L("iblock",L("setp",g.vars[0]),L("ext","rd1"),L("echo",T_(V(g.vars[0])))); case 5: return L("iblock",L("ext","rd1"),L("ext","cat")); case 6: return L("iblock",L("setp",g.vars[1]),L("find","a"));
  case 7: return L("forl","j",1,1,(int)r.range(1,3),L("iblock",L("ext","rd1"))); default: return L("if",g.cond(depth+1),L("iblock",L("ext","cat")),L("iblock",L("ext","head",1)));
  }
}
static Sx anypipe(Gen& g, int depth) { Rng& r=g.r; Sx p=L("pipe",g.source(depth)); int n=depth==0&&r.chance(0.04)?r.range(4,14):r.range(1,3); bool w=g.in_stage; g.in_stage=true; for (int i=0;i<n;i++) p.k.push_back(r.chance(0.5)?partial(g,depth):g.filter(depth)); g.in_stage=w; return p; }
static Verdict hang_check(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (v.cls=="hang"||v.cls=="no-progress"||v.cls=="spin") return v; if (c.ps("hangonly")=="1") return Verdict(); return E.ok?model_check(c,o):Verdict(); }
static void gen_c02(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); Gen g(r); g.bigdata=r.chance(0.6); g.forf=true; g.redirs=r.chance(0.4); if (r.chance(0.7)) { static const uint32_t caps[]={16,64,512}; c.cfg.pipe_cap=caps[r.below(3)]; }
  add_subs(g,c,r.range(0,2)); int n=r.range(1,5); std::vector<Sx> body;
  bool ex=r.chance(0.2); if (ex) c.set("hangonly","1");
  auto big=[&]()->Sx { switch (r.below(4)) { case 0: return L("ext","emitz",(int)r.range(1,60),(int)r.range(1,90)); case 1: return L("pipe",L("ext","emitz",(int)r.range(1,60),(int)r.range(1,90)),L("ext","cat")); case 2: return L("forl","w",1,1,(int)r.range(1,30),L("iblock",L("echo",g.text(2)))); default: return g.nsub?L("call","s0"):g.flat(1); } };
  for (int i=0;i<n;i++) { g.budget=14; switch (r.below(ex?11:7)) {
    case 0: case 1: case 2: body.push_back(anypipe(g,0)); break;
    case 7: case 8: { Sx e=L("exit",(int)r.range(0,9)); Sx bd=L("iblock",L("echo",T_(L("f","m"))),e); if (r.chance(0.4)) bd=L("iblock",anypipe(g,2),r.chance(0.5)?L("if",g.cond(2),L("iblock",e)):e); if (r.chance(0.3)) bd=L("iblock",L("forfc","n","tokens=1,2",big(),L("iblock",e))); Sx f=L("forfc","m","tokens=1,2",big(),bd); switch (r.below(3)) { case 0: body.push_back(f); break; case 1: body.push_back(L("pipe",L("iblock",f),g.filter(1))); break; default: body.push_back(L("pipe",big(),L("iblock",f))); } break; }
    case 9: body.push_back(L("pipe",big(),L("iblock",L("ext","rd1"),L("exit",(int)r.range(0,9))))); break;
    case 10: body.push_back(L("pipe",L("iblock",big(),L("exit",3)),r.chance(0.5)?partial(g,0):g.filter(0))); break;
    case 3: { std::string l="L"+num(i); Sx p=g.flat(1); if (r.chance(0.5)) { Sx q=L("pipe",r.chance(0.5)?L("ext","emit",(int)r.range(1,60),"w"):L("ext","emitz",(int)r.range(1,40),(int)r.range(1,100)),r.chance(0.5)?L("ext","head",(int)r.range(1,3)):r.chance(0.5)?L("ext","noread"):L("ext","rd1")); p=q; }
        body.push_back(L("forfc","m","tokens=1,2",p,L("iblock",L("echo",T_(L("f","m"))),L("goto",l)))); body.push_back(L("label",l)); break; }
    case 4: body.push_back(L("forfc","m","tokens=1,2",L("pipe",L("ext","emitz",(int)r.range(1,60),(int)r.range(1,90)),L("ext","cat")),L("block",[&]{ g.forvars="m"; Sx x=anypipe(g,1); g.forvars=""; return x; }()))); break;
    case 5: { std::string l="L"+num(i); body.push_back(L("pipe",g.source(0),L("iblock",L("ext","rd1"),L("goto",l)))); body.push_back(L("label",l)); break; }
    default: body.push_back(g.stmt(0)); } }
  c.ops.insert(c.ops.begin(),body.begin(),body.end()); if (r.chance(0.3)) c.set("stdin","in1\nin2\nin3\n");
}
static Reg r2({"C02","random programs of pipelines whose stages read all, part or none of their input, of FOR /F captures left by GOTO, nested in each other, with pipes of 16 to 65536 bytes; a hang, livelock or step overrun is a violation, and so is output other than the reference interpreter's; non-trivial runs started tasks and switched between them",gen_c02,model_setup,hang_check,nontriv,nullptr,nullptr});

// ---- C03: left stages keep to themselves --------------------------------------------------
static const char* DIRS[]={"/w/d1","/w/d2","/w/d1/s","/w","/tmp"};
static const char* RDIRS[]={"..",".","../..","/","/w/..","/w/d1/..","/w/d1/../d2","/../w/d1","../d2","d1","s","./d1/s","/w//d1/","/w/./d1/.","../../w/d1","/w/../../w/d2","../d1/s/..","/tmp/../..","w/d1","/w/d1/s/../../d2/../d1","tmp/.","/w/nodir/..","d1//s///","/d1","/s","/d2","/w/"};
static Sx dirp(Rng& r) { return Sx(std::string(r.chance(0.6)?DIRS[r.below(5)]:RDIRS[r.below(27)])); }
static Sx pushdp(Rng& r) { Sx o=L("pushd"); int n=r.chance(0.15)?r.range(2,4):1; for (int i=0;i<n;i++) o.k.push_back(dirp(r)); return o; }
static const char* STARTB[]={"/b /wait","/wait /b","/W /B","\"\" /b /wait","/b /min /w","/b /normal /wait","/B /WAIT \"a title\""};
static Sx startb(Rng& r, const Sx& s, bool here=true) { return L("start",STARTB[r.below(7)],here||r.chance(0.6)?Sx("-"):dirp(r),s); }   // START of a command in an instance of its own, or of a program
static Sx mutation(Gen& g) { Rng& r=g.r; switch (r.below(12)) {
  case 0: case 1: case 2: return L("set",g.vars[r.below(g.vars.size())],T_(g.word(),num(r.below(100)))); case 3: return L("seta",r.chance(0.5)?"na":"nb",L("n",(int)r.range(0,99))); case 4: return L("seta","na",L("op","+",L("var","na"),L("n",1)));
  case 5: return L("cd",dirp(r)); case 6: return pushdp(r); case 7: return L("popd"); case 8: return r.chance(0.35)?L("setlocal",r.chance(0.5)?"disabledelayedexpansion":"enabledelayedexpansion"):L("setlocal"); case 9: return L("endlocal"); case 10: return L("def","dn"+num(r.below(2)),g.word()); default: return r.chance(0.3)?L("echoset",r.chance(0.5)?"on":"off"):L("set",g.vars[r.below(g.vars.size())],T_("")); } }
static Sx observe(Gen& g) { Rng& r=g.r; switch (r.below(7)) { case 6: return L("echo",T_("el ",L("el"))); case 0: case 1: return L("echo",T_(V("va")," ",V("vb")," ",V("vc")," ",V("vd"),".")); case 2: return L("echo",T_(V("na")," ",V("nb"))); case 3: return L("pwd"); case 4: return L("usedef","dn"+num(r.below(2)),g.word()); default: return L("echost"); } }
static Sx mutblock(Gen& g, int n, double pobs) { Rng& r=g.r; Sx b=L("iblock"); bool eon=false; for (int i=0;i<n;i++) { Sx s=r.chance(pobs)?observe(g):mutation(g); if (s.head()=="echoset") eon=s.s(1)=="on"; (void)eon;
    if (r.chance(0.08)) { Sx m=r.chance(0.3)?observe(g):mutation(g); if (m.head()!="echoset"&&m.head()!="usedef"&&m.head()!="def"&&m.head()!="setlocal"&&m.head()!="endlocal") s=startb(r,m); }
    if (r.chance(0.12)) s=L("if",L("def",g.vars[r.below(4)]),L("iblock",mutation(g)),L("iblock",mutation(g))); else if (r.chance(0.1)) s=L("forl","k",1,1,(int)r.range(2,4),L("iblock",observe(g),mutation(g))); b.k.push_back(s); } return b; }
static void strip_last_echo(Sx& b) { if (!b.list) return; if (b.head()=="echoset") { b=L("rem","x"); return; } for (auto& x: b.k) strip_last_echo(x); }
static void gen_c03(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); if (c.cfg.policy!=3&&r.chance(0.5)) c.cfg.preempt_mean=r.chance(0.5)?20:200; Gen g(r); std::vector<Sx> b; std::vector<Sx> subs;
  for (int i=0;i<2;i++) { Sx s=L("sub","s"+num(i)); Sx m=mutblock(g,r.range(1,4),0.3); strip_last_echo(m); for (size_t j=1;j<m.n();j++) s.k.push_back(m[j]); subs.push_back(s); }
  { Sx s=L("sub","sx"); Sx m=mutblock(g,r.range(0,3),0.3); strip_last_echo(m); for (size_t j=1;j<m.n();j++) s.k.push_back(m[j]); s.k.push_back(L("echo",T_(g.word()))); s.k.push_back(r.chance(0.3)?L("exit"):L("exit",(int)r.range(0,5))); s.k.push_back(L("echo",T_("never"))); subs.push_back(s); }
  int n=r.range(1,4); b.push_back(L("set","va",T_("base"))); b.push_back(L("cd","/w/d1")); if (r.chance(0.5)) b.push_back(L("def","dn0","orig"));
  for (int i=0;i<n;i++) {
    if (r.chance(0.3)) { Sx m=mutation(g); strip_last_echo(m); b.push_back(m); }
    switch (r.below(4)) {
    case 0: case 1: case 2: { Sx p=L("pipe"); int st=r.range(1,3); for (int j=0;j<st;j++) { Sx m=r.chance(0.15)?L("call","s"+num(r.below(2))):mutblock(g,r.range(2,6),0.4); if (m.list&&m.head()=="iblock"&&j>0) m.k.insert(m.k.begin()+1,L("ext","cat")); if (m.list&&m.head()=="iblock"&&r.chance(0.1)) { m.k.push_back(r.chance(0.5)?L("exit"):L("exit",(int)r.range(0,5))); m.k.push_back(L("echo",T_("never"))); } if (m.list&&m.head()=="iblock"&&r.chance(0.1)) { m.k.push_back(L("echoset","on")); m.k.push_back(L("pipe",L("echost"),L("ext","cat"))); } p.k.push_back(m); }
        Sx last=L("iblock"); Sx m=mutblock(g,r.range(0,5),0.3); strip_last_echo(m); bool early=r.chance(0.5); if (!early) last.k.push_back(L("ext","cat")); for (size_t j=1;j<m.n();j++) last.k.push_back(m[j]); if (early) last.k.push_back(L("ext","cat")); p.k.push_back(last); b.push_back(p); break; }
    default: { Sx cmd=r.chance(0.25)?L("call","sx"):r.chance(0.5)?L("call","s"+num(r.below(2))):L("seq","&",r.chance(0.5)?L("cd",dirp(r)):L("set","va",T_("captured")),L("echo",T_(V("va"),".",V("vb"))));
        if (cmd.head()=="seq") cmd=L("pipe",L("iblock",cmd[2],cmd[3]),L("ext","cat")); 
        if (cmd.head()=="call") b.push_back(L("forfc","m","tokens=1,2",cmd,L("iblock",L("echo",T_(L("f","m")))))); else b.push_back(cmd); } }
    for (int k=0;k<5;k++) { Sx o=observe(g); b.push_back(o); }
  }
  b.push_back(L("echo",T_(V("va")," ",V("vb")," ",V("vc")," ",V("vd")," ",V("na")," ",V("nb")))); b.push_back(L("pwd")); b.push_back(L("popd")); b.push_back(L("pwd")); b.push_back(L("endlocal")); b.push_back(L("echo",T_(V("va")," ",V("vb"),"."))); b.push_back(L("echost"));
  c.ops=b; for (auto& s: subs) c.ops.push_back(s);
}
static Reg r3({"C03","pipelines and captured commands whose stages set variables, change directory, push, define and open scopes while other stages read and change the same names, followed by observations of all of it, compared with a reference interpreter that runs each left stage on a copy of the state",gen_c03,model_setup,model_check,nontriv,nullptr,nullptr});

// ---- C04: streams restored, nothing left open -----------------------------------------------
static Sx redirected(Gen& g, Sx body, int lv=0) { Rng& r=g.r; std::string q=num(lv); Sx x=L("io",body); int n=r.range(1,2); bool i=false,o=false,e=false; for (int k=0;k<n;k++) switch (r.below(6)) {
    case 0: if (!o) { x.k.push_back(L("o",r.chance(0.5)?">":"1>","o"+q+num(r.below(3))+".txt")); o=true; } break; case 1: if (!o) { x.k.push_back(L("o",">>","a"+q+".txt")); o=true; } break; case 2: if (!e) { x.k.push_back(L("o","2>","e"+q+".txt")); e=true; } break;
    case 3: if (!i) { x.k.push_back(L("i","<",!g.err||r.chance(0.6)?"in.txt":"missing.txt")); i=true; } break; case 4: if (!o&&g.err) { x.k.push_back(L("o",">","/nodir/x.txt")); o=true; } break; default: if (!e&&n==1&&!g.err) { x.k.push_back(L("dup",r.chance(0.5)?"2>&1":"1>&2")); e=true; } }
  if (x.n()==2) x.k.push_back(L("o",">","o"+q+"0.txt")); return x; }
static Sx leaver(Gen& g, const std::string& label) { Rng& r=g.r; switch (r.below(4)) { case 0: return L("goto",label); case 1: return L("call","q0"); case 2: return L("call","q1"); default: return L("echo",g.text(2)); } }
static void gen_c04(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); Gen g(r); g.redirs=false; g.err=r.chance(0.6); g.bigdata=r.chance(0.2); g.els=true; std::vector<Sx> subs; c.set("file:/w/in.txt","i1\ni2\ni3\n");
  Sx q0=L("sub","q0",redirected(g,L("block",L("echo",g.text(1)),L("exitb",(int)r.range(0,3)),L("echo",T_("never"))),7)); Sx q1=L("sub","q1",L("pipe",L("iblock",L("echo",g.text(1)),L("ret")),L("ext","cat")),redirected(g,L("iblock",L("echo",g.text(1)),L("ret")),8)); subs={q0,q1};
  std::vector<Sx> b; int it=r.range(2,4), n=r.range(1,4); b.push_back(L("set","i",T_("0"))); b.push_back(L("label","top"));
  for (int i=0;i<n;i++) { std::string l="m"+num(i); g.budget=10; Sx inner; switch (r.below(6)) {
      case 0: inner=g.simple(1); break; case 1: inner=L("block",L("echo",g.text(1)),leaver(g,l),L("echo",T_("z"))); break; case 2: inner=L("iblock",L("ext","cat"),leaver(g,l)); break; case 3: inner=g.pipeline(1); break; case 4: inner=L("iblock",redirected(g,L("iblock",g.simple(2),leaver(g,l)),1),L("echo",T_("out"))); break; default: inner=L("block",g.stmt(2)); }
    switch (r.below(6)) { case 0: case 1: case 2: b.push_back(redirected(g,inner)); break; case 3: b.push_back(L("pipe",L("iblock",L("echo",g.text(1)),redirected(g,inner)),r.chance(0.5)||sx_str(inner).find("cat")!=std::string::npos?L("ext","cat"):L("iblock",L("ext","rd1"),r.chance(0.5)?L("goto",l):L("echo",T_("rd"))))); break;
      case 4: b.push_back(L("forfc","m","tokens=1",g.flat(1),r.chance(0.5)?L("iblock",L("echo",T_(L("f","m"))),L("goto",l)):L("iblock",redirected(g,L("echo",T_(L("f","m"))))))); break; default: b.push_back(L("forl","w",1,1,(int)r.range(1,3),L("iblock",redirected(g,inner),L("echo",T_("x")))));  }
    b.push_back(L("label",l)); b.push_back(L("echo",T_("after ",num(i)," el"))); if (r.chance(0.2)) b.push_back(L("ext","rd1")); }
  b.push_back(L("ext","probe","p")); b.push_back(L("seta","i",L("op","+",L("var","i"),L("n",1)))); b.push_back(L("if",L("cmp","LSS",L("t",V("i")),L("t",it)),L("iblock",L("goto","top"))));
  b.push_back(L("echo",T_("end"))); c.set("stdin","s1\ns2\ns3\ns4\ns5\ns6\n");
  c.ops=b; for (auto& s: subs) c.ops.push_back(s);
  if (r.chance(0.2)) { c.set("faults",1); c.cfg.p[D_EACCES_OPEN]=0.05; c.cfg.max_faults[D_EACCES_OPEN]=2; c.cfg.max_steps=60000; }
}
static Verdict check_c04(const Case& c, int o) {
  bool f=c.pi("faults"); if (f) { Verdict v=basic_outcome(o); if (o!=RES_OK) return v.cls=="no-progress"||v.cls=="spin"?Verdict():v; } else { Verdict v=model_check(c,o); if (!v.ok()||o!=RES_OK) return v; }
  if (!f&&!E.ok) return Verdict();
  Verdict v; std::string first; int n=0; for (auto& e: K->log) if (e.op=="probe") { std::string s=N(e.b); if (n++==0) first=s; else { int a[3],b[3]; sscanf(first.c_str(),"fds %d threads %d zombies %d",a,a+1,a+2); sscanf(s.c_str(),"fds %d threads %d zombies %d",b,b+1,b+2);
      if (b[0]>a[0]||b[1]>a[1]||b[2]>a[2]) { v.cls=b[0]>a[0]?"descriptors":b[1]>a[1]?"threads":"zombies"; v.msg="after one pass: "+first+", after "+num(n)+" passes of the same commands: "+s; return v; } } }
  for (auto& e: K->log) if (e.op=="badclose"||e.op=="badjoin"||e.op=="baddetach") { if (e.op=="badclose"&&e.r<0) continue; v.cls=N(e.op); v.msg=N(e.op)+" of "+num(e.r)+" (a descriptor or thread already given back)"; return v; }
  return v; }
static bool nt_c04(const Case&) { return count_log("probe")>=2; }
static Reg r4({"C04","a random body of commands with redirections, pipes and captures (some unopenable, some left by GOTO, EXIT /B or a failed open) run several times in a loop; output is compared with the reference interpreter, and descriptors, threads and zombies held at the end of each pass must not grow; non-trivial runs made at least two passes",gen_c04,model_setup,check_c04,nt_c04,nullptr,nullptr});

// ---- C05: FOR /F ----------------------------------------------------------------------------
static void gen_c05(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); Gen g(r); g.bigdata=r.chance(0.25); if (r.chance(0.2)) c.set("cmdly",1); std::vector<Sx> b; add_subs(g,c,2); int n=r.range(1,4);
  for (int i=0;i<n;i++) { g.budget=12; std::string o; char dl=' '; 
    std::vector<std::string> el; if (r.chance(0.2)) el.push_back("skip="+num(r.range(1,3))); if (r.chance(0.25)) { static const char* E_[]={"#","a","#a",";#","","ae"}; el.push_back(std::string("eol=")+E_[r.below(6)]); if (r.chance(0.15)) el.push_back("eol=#"); }
    int nv=1; { struct { const char* t; int n; } T[]={{"2",1},{"1,2",2},{"1-3",3},{"1*",2},{"*",1},{"3,1",2},{"1,2,*",3},{"2.3",1},{"1,2.*",2},{"2*",2},{"2-4,1",4},{"1.2,4",2},{"4",1}}; int k=r.below(15); if (k<13) { el.push_back(std::string("tokens=")+T[k].t); nv=T[k].n; } }
    if (r.chance(0.35)) { dl=",:-;"[r.below(4)]; el.push_back(std::string("delims=")+dl+(r.chance(0.3)?"_":r.chance(0.1)?" .":"")); } else if (r.chance(0.1)) el.push_back("delims=");
    bool ub=r.chance(0.2); if (ub) el.push_back("usebackq"); for (size_t k=el.size();k>1;k--) { size_t z=r.below(k); if (el[z].compare(0,4,el[k-1].substr(0,4))!=0) std::swap(el[z],el[k-1]); } for (auto& x: el) o+=(o.empty()?"":" ")+x;
    Sx src; switch (r.below(9)) { case 0: src=L("ext","lines"); { int k=r.range(1,6); for (int j=0;j<k;j++) { std::string w; if (r.chance(0.1)) w="#"; int q=r.range(1,5); for (int z=0;z<q;z++) { if (z) w+=dl==' '||dl==','||dl==';'?'.':dl; w+=g.word(); } src.k.push_back(T_(w)); } } break;
      case 1: src=L("ext","printn",T_(g.word()),T_(g.word()),T_(g.word())); break; case 2: { std::string f="s"+num(i)+".txt", d; int k=r.range(0,12); for (int j=0;j<k;j++) { if (r.chance(0.1)) { d+=r.chance(0.3)?"  \n":"\n"; continue; } if (r.chance(0.1)) d+=";#"[r.below(2)]; int q=r.range(1,5); for (int z=0;z<q;z++) { if (z) d+=std::string(r.chance(0.2)?2:1,r.chance(0.7)?dl:' '); d+=g.word(); } if (r.chance(0.05)) d+=std::string(r.range(100,3000),'x'); d+=j+1==k&&r.chance(0.3)?"":"\n"; } c.set(("file:/w/"+f).c_str(),d); g.wfiles.push_back(f); src=r.chance(0.5)?L("type",f):r.chance(0.5)?L("pipe",L("type",f),L("ext","cat")):L("ext","cat",f); break; }
      case 3: src=L("pipe",L("ext","emit",(int)r.range(1,g.bigdata?90:9),"w"),L("ext",r.chance(0.5)?"slurp":"upper")); break; case 4: src=L("call","s"+num(r.below(2))); break; case 5: src=L("pipe",L("call","s"+num(r.below(2))),L("find","a")); break; default: src=g.flat(1); }
    Sx e=L("t"); for (int v=0;v<nv;v++) { if (v) e.k.push_back(" "); e.k.push_back("["); e.k.push_back(L("f",std::string(1,'r'+v))); e.k.push_back("]"); }
    Sx body=L("iblock",L("echo",e)); if (r.chance(0.5)) body.k.push_back(L("seta","na",L("op","+",L("var","na"),L("n",1)))); if (r.chance(0.3)) body.k.push_back(L("set","va",T_(V("va"),L("f","r")))); g.forvars="r"; if (r.chance(g.bigdata?0.1:0.4)) body.k.push_back(g.stmt(2)); g.forvars="";
    if (!g.wfiles.empty()&&r.chance(0.3)) { std::string fl=g.wfiles[r.below(g.wfiles.size())]; if (r.chance(0.5)) fl+=" "+g.wfiles[r.below(g.wfiles.size())]; b.push_back(L("forff","r",o,fl,body)); } else b.push_back(L("forfc","r",o,src,body)); b.push_back(L("echo",T_(V("na")," ",V("va"),"."))); }
  if (r.chance(0.3)) { std::string d; int k=r.range(1,20); for (int j=0;j<k;j++) d+=g.word()+" "+g.word()+"\n"; c.set("file:/w/ff.txt",d); b.push_back(L("forff","r","tokens=1,2","ff.txt",L("iblock",L("echo",T_(L("f","s")," ",L("f","r")))))); }
  c.ops.insert(c.ops.begin(),b.begin(),b.end());
}
static Reg r5({"C05","FOR /F over external programs, builtins, calls and pipelines with random output (blank and comment lines, long lines, no final newline) and random tokens, delims, skip and eol options; the loop's own output and effects compared with the reference interpreter",gen_c05,model_setup,model_check,nontriv,nullptr,nullptr});

// ---- C06: lines stay whole ---------------------------------------------------------------------
static Sx tagged(Gen& g, const std::string& tag, int depth) { Rng& r=g.r; Sx t=g.text(depth); t.k.insert(t.k.begin()+1,Sx(tag+":")); if (r.chance(0.2)) t.k.push_back(std::string(r.range(50,600),'w')); return L("echo",t); }
static Sx stage6(Gen& g, const std::string& tag, int depth) { Rng& r=g.r; Sx b=L("iblock"); int n=r.range(1,4);
  for (int i=0;i<n;i++) { if (depth<3&&r.chance(0.5)) { std::string v(1,'a'+depth); g.forvars+=v; b.k.push_back(L("forl",v,1,1,(int)r.range(2,6),stage6(g,tag,depth+1))); g.forvars.pop_back(); } else if (r.chance(0.15)) b.k.push_back(L("set","va",T_(g.word()))); else b.k.push_back(tagged(g,tag,depth+1)); } return b; }
static Sx to_err_each(Sx s) { if (s.head()=="echo") return L("o2e",s); for (auto& x: s.k) if (x.list) x=to_err_each(x); return s; }
static void gen_c06(Rng& r, Case& c) { swarm_schedule(r,c.cfg); c.cfg.policy=c.cfg.policy==3?0:c.cfg.policy; if (!c.cfg.preempt_mean) c.cfg.preempt_mean=r.chance(0.5)?50:500; Gen g(r); g.bigdata=false;
  Sx p=L("pipe"); int n=r.range(2,4); for (int i=0;i<n;i++) { Sx s=stage6(g,"S"+num(i),1); if (i+1<n) s=r.chance(0.5)?to_err_each(s):L("o2e",s); else if (r.chance(0.3)) s=L("o2e",s); p.k.push_back(s); } c.ops.push_back(p); }
static void setup_c06(const Case& c, RunSpec& rs) { put_scripts(c); E=Expect(); rs.stdout_tty=true; rs.merge_err=true; if (c.ops.empty()||c.ops[0].head()!="pipe") { E.ok=false; return; }
  MSt st; st.vars["na"]="3"; st.vars["nb"]="5"; for (size_t i=1;i<c.ops[0].n();i++) { Model m; MSt s2=st; MIn in; std::string o; m.stmt(c.ops[0][i],s2,in,o,o); if (m.overrun||m.unsupported) E.ok=false; E.parts.push_back(o); } }
static Verdict check_c06(const Case&, int o) { Verdict v=basic_outcome(o); if (!E.ok) return Verdict(); if (!v.ok()||o==RES_STEPS) return v; std::string got=plain(out_text()); std::vector<std::string> per(E.parts.size()); std::istringstream is(got); std::string l;
  while (std::getline(is,l)) { size_t k; if (l.size()>2&&l[0]=='S'&&isdigit((unsigned char)l[1])&&(k=l[1]-'0')<per.size()) per[k]+=l+"\n"; else { v.cls="mixed"; v.msg="a line that no command echoed: "+esc(l,300); return v; } }
  for (size_t i=0;i<per.size();i++) if (per[i]!=E.parts[i]) { v.cls="mixed"; v.msg="lines of stage "+num(i)+": "+diff_msg("they",E.parts[i],per[i]); return v; } return v; }
static Reg r6({"C06","pipelines of two to four stages, each echoing lines of its own in nested loops to the terminal they share; every line must appear whole, once, and in its stage's order",gen_c06,setup_c06,check_c06,[](const Case&){ return E.ok&&K->switches>4; },nullptr,nullptr});

// ---- C08: program order --------------------------------------------------------------------------
static void gen_c08(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); Gen g(r); g.forf=false; g.els=false; std::vector<Sx> b; c.set("tty",r.chance(0.3)?1:0); if (c.pi("tty")) g.findmore=false; add_subs(g,c,2);
  { std::vector<Sx> x; int k=r.range(1,3); for (int i=0;i<k;i++) x.push_back(r.chance(0.5)?L("echo",g.text(1)):L("ext","emit",2,g.word())); x.push_back(L("exitb")); x.insert(x.begin(),Sx("z0")); x.insert(x.begin(),Sx("script")); Sx s; s.list=true; s.k=x; c.ops.push_back(s); }
  std::vector<std::string> files; auto leaf=[&](int d)->Sx { switch (r.below(9)) { case 0: case 1: case 2: return L("echo",g.text(d)); case 3: case 4: return L("ext","emit",(int)r.range(1,3),g.word()); case 5: return L("ext","args",T_(g.word())); case 6: return L("call","s"+num(r.below(2)),T_(g.word())); case 7: return r.chance(0.5)?L("callf","z0"):L("runf","z0"); default: return L("ext","printn",T_(g.word())); } };
  int n=r.range(3,9); for (int i=0;i<n;i++) { std::string f="w"+num(r.below(3))+".txt"; g.budget=8; switch (r.below(8)) {
      case 0: case 1: b.push_back(leaf(0)); break; case 2: { Sx x=L("iblock"); int k=r.range(2,4); for (int j=0;j<k;j++) x.k.push_back(leaf(2)); b.push_back(x); break; }
      case 3: case 4: { Sx x=L("block"); int k=r.range(1,4); for (int j=0;j<k;j++) x.k.push_back(leaf(2)); b.push_back(L("io",x,L("o",r.chance(0.5)?">":">>",f))); if (std::find(files.begin(),files.end(),f)==files.end()) files.push_back(f); break; }
      case 5: if (!files.empty()) { std::string q=files[r.below(files.size())]; switch (r.below(4)) { case 0: b.push_back(L("type",q)); break; case 1: b.push_back(L("ext","cat",q)); break; case 2: b.push_back(L("io",L("ext","cat"),L("i","<",q))); break; default: b.push_back(L("copy",q,"cp.txt")); b.push_back(L("type","cp.txt")); } } break;
      case 6: { Sx x=L("forl","k",1,1,(int)r.range(2,3),L("iblock",leaf(2),leaf(2))); b.push_back(x); break; }
      default: b.push_back(g.pipeline(0)); } }
  c.ops.insert(c.ops.begin(),b.begin(),b.end());
}
static Reg r8({"C08","sequences of builtins, external programs, calls of labels and scripts and pipelines writing to the same destination (terminal, pipe or file), and commands reading files written just before, compared with the sequential order",gen_c08,model_setup,model_check,nontriv,nullptr,nullptr});

// ---- E01: control flow ------------------------------------------------------------------------------
static Sx step(Gen& g, int depth) { Rng& r=g.r; Sx t=g.text(depth); static int n; n=(n+1)%1000; t.k.insert(t.k.begin()+1,Sx("#"+num(r.below(1000))+" ")); return L("echo",t); }
static Sx operand(Gen& g, int kind) { Rng& r=g.r; static const char* fl[]={"1.5","-0.25","1e3","2.5e-2","0.5","3.","10","-7","0","1000"}; static const char* in[]={"0x10","0X1f","010","-8","-0x3","2147483647","-2147483648","16","31","8","0","07","100000"}; static const char* ws[]={"alpha","Alpha","ALPHA","beta","Beta","a","A","z9","Z9","al","10x","9x","-","a.b","_"};
  switch (kind) { case 0: return r.chance(0.3)?L("t",V("na")):L("t",(int)r.range(0,12)); case 1: return L("t",in[r.below(13)]); case 2: return L("t",fl[r.below(10)]); case 3: return r.chance(0.2)?L("t",V("va")):L("t",ws[r.below(15)]); default: return L("t",r.chance(0.5)?fl[r.below(10)]:r.chance(0.5)?ws[r.below(15)]:"12"); } }
static Sx comparison(Gen& g) { static const char* o[]={"EQU","NEQ","LSS","LEQ","GTR","GEQ"}; int k=g.r.below(5); Sx a=operand(g,k), b=g.r.chance(0.15)?a:operand(g,k); std::string op=o[g.r.below(6)]; return L("cmp",op,a,b); }
static Sx cond1(Gen& g, int depth) { Rng& r=g.r; auto br1=[&]{ static const char* ex[]={"/w/d1","t.bat","nofile","d?","*.bat","q*.zz","/w/*","d1/*","d1/s"}; switch (r.below(6)) { case 0: return L("def",g.vars[r.below(4)]); case 1: return L("exist",ex[r.below(9)]); case 2: return L("el",(int)r.range(0,4)); default: return comparison(g); } }; auto br=[&]{ Sx c=br1(); if (r.chance(0.2)) c=L("not",c); return c; };
  if (r.chance(0.2)) { static const char* ws[]={"alpha","ALPHA","Alpha","beta","BETA","x1","X1"}; Sx c=r.chance(0.5)?comparison(g):L("eqb",L("t",ws[r.below(7)]),r.chance(0.3)?L("t",V("vb")):L("t",ws[r.below(7)])); if (r.chance(0.2)) c=L("not",c); if (r.chance(0.6)) c=L("ci",c); return c; }
  if (r.chance(0.25)) return L(r.chance(0.5)?"and":"or",br(),br()); if (r.chance(0.25)) { std::function<Sx(int)> fl=[&](int d){ Sx f=L("flat"); int n=r.range(1,4); for (int i=0;i<n;i++) { if (i) f.k.push_back(Sx(r.chance(0.5)?"and":"or")); if (d<3&&r.chance(0.15)) f.k.push_back(fl(d+1)); else f.k.push_back(br()); } return f; }; return fl(0); } if (r.chance(0.3)) return br(); return g.cond(depth); }
static Sx flow(Gen& g, int depth, const std::vector<std::string>& fwd, int lim) { Rng& r=g.r; if (depth>3||--g.budget<0) return step(g,depth);
  auto blk2=[&](int d){ Sx b=L(r.chance(0.6)?"block":"iblock"); int n=r.range(1,3); for (int i=0;i<n;i++) b.k.push_back(flow(g,d+1,fwd,lim)); return b; };
  auto bare=[&](int d){ if (r.chance(0.15)) { Sx t=L("tailed",r.chance(0.4)?"&":r.chance(0.5)?"&&":"||",blk2(d),r.chance(0.3)?L("ext","ret",(int)r.range(0,2)):step(g,d+1)); if (r.chance(0.3)) t=L("tailed",r.chance(0.4)?"&":r.chance(0.5)?"&&":"||",t,step(g,d+1)); return t; } return r.chance(0.3)?L("bare",flow(g,d+1,fwd,lim)):blk2(d); };
  switch (r.below(14)) { case 0: case 1: return step(g,depth); case 2: case 3: { Sx c=cond1(g,depth); if (r.chance(0.3)) return L("if",c,bare(depth)); Sx a=blk2(depth); if (r.chance(0.25)) { Sx e=L("if",cond1(g,depth),blk2(depth)); if (r.chance(0.3)) e=L("if",cond1(g,depth),blk2(depth),L("if",cond1(g,depth),blk2(depth))); if (r.chance(0.6)) (e.n()>3?e.k[3]:e).k.push_back(blk2(depth)); return L("if",c,a,e); } if (r.chance(0.6)) return L("if",c,a,bare(depth)); return L("if",c,a); }
  case 4: if (g.forvars.size()<3) { char v='a'+g.forvars.size(); Sx it=L("items"); int n=r.range(0,4); for (int i=0;i<n;i++) it.k.push_back(L("t",g.word())); if (it.n()==1) it.k.push_back(L("t",g.word())); g.forvars+=v; Sx b=bare(depth); g.forvars.pop_back(); return L("for",std::string(1,v),it,b); } break;
  case 5: if (g.forvars.size()<3) { char v='a'+g.forvars.size(); int a=r.range(0,4); g.forvars+=v; Sx b=bare(depth); g.forvars.pop_back(); return L("forl",std::string(1,v),a,(int)r.range(1,3),a+(int)r.range(0,5)-1,b); } break;
  case 6: case 7: if (!fwd.empty()&&r.chance(0.6)) return L("if",cond1(g,depth),L(r.chance(0.3)?"bare":"iblock",L("goto",fwd[r.below(fwd.size())]))); break;
  case 8: case 9: if (lim>0) { Sx x=L("call","s"+num(r.below(lim))); int n=r.range(0,4); for (int i=0;i<n;i++) x.k.push_back(r.chance(0.3)?L("t",V(g.vars[r.below(4)])):L("t",g.word())); return x; } break;
  case 10: return L("seq",r.chance(0.4)?"&":r.chance(0.5)?"&&":"||",r.chance(0.5)?L("ext","ret",(int)r.range(0,2)):step(g,depth),step(g,depth)); case 11: return L("set",g.vars[r.below(4)],L("t",g.word())); case 12: return L("seta","na",g.expr(2)); default: { Sx x=L(r.chance(0.7)?"callf":"runf","z"+num(r.below(2))); int n=r.range(0,3); for (int i=0;i<n;i++) x.k.push_back(L("t",g.word())); return x; } }
  return step(g,depth); }
static void flowlist(Gen& g, std::vector<Sx>& b, int n, const std::string& pre, int lim, bool loops) { Rng& r=g.r; std::vector<std::string> labs; for (int i=0;i<n;i++) labs.push_back(pre+num(i));
  for (int i=0;i<n;i++) { g.budget=10; std::vector<std::string> fwd(labs.begin()+i,labs.end()); if (r.chance(0.3)) b.push_back(L("shift")); if (loops&&r.chance(0.3)) { std::string c="c"+pre+num(i), l="l"+pre+num(i); b.push_back(L("set",c,T_("0"))); b.push_back(L("label",l)); b.push_back(flow(g,0,fwd,lim)); b.push_back(L("seta",c,L("op","+",L("var",c),L("n",1)))); b.push_back(L("if",L("cmp","LSS",L("t",V(c)),L("t",(int)r.range(1,4))),L("iblock",L("goto",l)))); }
    else b.push_back(flow(g,0,fwd,lim)); if (r.chance(0.1)) b.push_back(L("nop",r.chance(0.5)?"":r.chance(0.5)?":: a comment":"rem "+std::string(r.range(1,500),'c'))); b.push_back(L("label",labs[i])); if (r.chance(0.4)) b.push_back(step(g,0)); } }
static Sx esub(Gen& g, const std::string& name, const std::string& pre, int lim) { Rng& r=g.r; std::vector<Sx> b; flowlist(g,b,r.range(1,3),pre,lim,r.chance(0.5)); b.insert(b.begin(),L("echo",T_("in ",L("a",0)," ",L("a",1)," ",L("a",2)," ",L("a",3)))); if (r.chance(0.3)) b.insert(b.begin()+r.below(b.size()),L("if",cond1(g,0),L("iblock",r.chance(0.5)?L("ret"):L("exitb",(int)r.range(0,3))))); Sx s; s.list=true; s.k={Sx("sub"),Sx(name)}; for (auto& x: b) s.k.push_back(x); return s; }
// Label names that nearly match each other, in any case, indented, followed by remarks, given with and without
// a colon; later labels of the same name (the first counts), and scripts entered at a label.
static void restyle(Rng& r, Case& c) {
  bool cmdly=c.pi("cmdly"); static const char* stem[]={"a","ab","lab","x","eo","z0"}; std::string st=stem[r.below(6)]; std::map<std::string,std::string> nm; std::set<std::string> used={"eof"}; std::vector<std::string> all;
  auto fresh=[&](bool sub){ for (;;) { std::string n=st; static const char* suf[]={"","1","2","12","a","b","_","-","x","f","ab","A1","11","0","_1","1_","q"}; int k=r.range(0,3); for (int i=0;i<k;i++) n+=suf[r.below(17)]; if (!sub&&r.chance(0.1)) n="w"+n+(r.chance(0.5)?" one":" ONE two"); std::string l; for (char ch: n) l+=tolower(ch); bool bad=used.count(l); if (n[0]=='w'&&n.find(' ')!=std::string::npos) for (auto& u: used) if (u[0]=='w'&&u.find(' ')!=std::string::npos&&u.compare(0,l.find(' '),l,0,l.find(' '))==0) bad=true; if (bad) continue; used.insert(l); return n; } };
  auto cas=[&](std::string n){ if (r.chance(0.2)) for (auto& ch: n) ch=r.chance(0.5)?toupper(ch):tolower(ch); return n; };
  std::function<void(Sx&)> names=[&](Sx& s){ if (!s.list) return; if ((s.head()=="label"||s.head()=="sub")&&!nm.count(s.s(1))) { nm[s.s(1)]=fresh(s.head()=="sub"); all.push_back(s.s(1)); } for (auto& k: s.k) names(k); };
  std::map<std::string,std::string> entry; std::function<void(Sx&)> go=[&](Sx& s){ if (!s.list) return; const std::string h=s.head();
    if (h=="label") { std::string n=s.s(1); s=L("label",cas(nm[n]),(int)(r.chance(0.3)?r.below(8):0)); return; } if (h=="goto") { std::string n=s.s(1); s=L("goto",cas(nm[n]),(int)(r.below(cmdly?4:8))); return; }
    if (h=="sub") { s.k[1]=Sx(cas(nm[s.s(1)])); } else if (h=="call"&&nm.count(s.s(1))) s.k[1]=Sx(cas(nm[s.s(1)])); else if (h=="callf"&&!cmdly&&entry.count(s.s(1))&&nm[entry[s.s(1)]].find(' ')==std::string::npos&&r.chance(0.4)) { Sx x=L("calle",s.s(1),cas(nm[entry[s.s(1)]])); for (size_t i=2;i<s.n();i++) x.k.push_back(s.k[i]); s=x; }
    for (auto& k: s.k) go(k); };
  for (auto& s: c.ops) { names(s); if (s.head()=="script") for (auto& k: s.k) if (k.list&&k.head()=="label"&&(entry[s.s(1)].empty()||r.chance(0.3))) entry[s.s(1)]=k.s(1); } for (auto it=entry.begin();it!=entry.end();) if (it->second.empty()) it=entry.erase(it); else ++it;
  for (auto& s: c.ops) go(s);
  // the same names again, after the end of the routines
  std::vector<std::string> mine; for (auto& s: c.ops) if (s.head()=="label") mine.push_back(s.s(1)); for (auto& s: c.ops) if (s.head()=="sub"&&r.chance(0.5)) { if (!mine.empty()) s.k.push_back(L("label",mine[r.below(mine.size())],(int)r.below(8))); mine.push_back(s.s(1)); }
  if (r.chance(0.3)) for (auto& s: c.ops) if (s.head()=="script"&&r.chance(0.5)) { std::string n=fresh(false), v="cz"+s.s(1); std::vector<Sx> b={L("label",n),L("seta",v,L("op","+",L("var",v),L("n",1))),L("if",L("cmp","LSS",L("t",V(v)),L("t",(int)r.range(2,4))),L("iblock",L("goto",n))),L("set",v,T_("0"))}; s.k.insert(s.k.begin()+2,b.begin(),b.end()); c.ops.insert(c.ops.begin(),L("set",v,T_("0"))); break; }
}
static void layout(Rng& r, Case& c) { if (r.chance(0.4)) c.set("form",(int)r.below(1<<20)); }
static void gen_e01(Rng& r, Case& c) { layout(r,c); if (r.chance(0.2)) c.set("cmdly",1);
  c.cfg.p_switch=0.1; if (r.chance(0.7)) c.cfg.p[D_SHORT_READ]=r.chance(0.5)?0.3:0.95; Gen g(r); g.pipes=false; g.redirs=false; g.els=true; g.mods=r.chance(0.5); int ns=r.range(0,3); std::vector<Sx> subs; for (int i=0;i<ns;i++) subs.push_back(esub(g,"s"+num(i),"t"+num(i)+"_",i));
  for (int i=0;i<2;i++) { std::vector<Sx> b; bool was=g.calls; flowlist(g,b,r.range(1,3),"z"+num(i)+"_",0,r.chance(0.4)); g.calls=was; for (auto& x: b) { std::string s=sx_str(x); if (s.find("(callf")!=std::string::npos||s.find("(runf")!=std::string::npos) x=step(g,0); } Sx s; s.list=true; s.k={Sx("script"),Sx("z"+num(i)),L("echo",T_("script ",L("a",1)," ",L("a",2)))}; for (auto& x: b) s.k.push_back(x); if (r.chance(0.5)) s.k.push_back(L("exitb",(int)r.range(0,4))); subs.push_back(s); }
  flowlist(g,c.ops,r.range(2,6),"e",ns,true); if (r.chance(0.15)) c.ops.insert(c.ops.begin()+r.below(c.ops.size()),L("if",cond1(g,0),L("iblock",L("exit"))));
  for (auto& s: subs) c.ops.push_back(s); for (int i=1;i<=(int)r.below(4);i++) c.set(("arg"+num(i)).c_str(),g.word());
  if (r.chance(0.2)) { std::vector<Sx> b={L("setbang","vx",g.word(),g.vars[r.below(4)],g.word())}; for (int i=0,k=r.range(1,4);i<k;i++) { Sx x; switch (r.below(9)) {   // values with signs in them are not expanded again
    case 0: x=L("echo",T_(L("d","vx"),r.chance(0.5)?" end":"")); break; case 1: x=L("ext","args",T_("a",L("d","vx"),"b"),T_(L("d","vx"))); break; case 2: x=L("ext","args",L("t",L("q",L("d","vx")))); break; case 3: x=L("if",L("eq",T_(L("d","vx")),T_(L("d","vx"))),L("iblock",L("echo",T_("eq ",L("d","vx"))))); break; case 4: x=L("set","vy",T_(L("d","vx"),"z")); break;
    case 5: x=L("iblock",L("echo",T_(L("d","vx"))),L("ext","args",T_(L("d","vx")))); break; case 6: x=L("ext","getenv",T_("vx")); break; case 7: x=L("ext","args",T_(L("d","vy"))); break; default: x=L("ext","emit",2,L("t",L("d","vx"))); } b.push_back(x); } c.ops.insert(c.ops.begin(),b.begin(),b.end()); }
  if (r.chance(0.6)) restyle(r,c);
}
static Reg re1({"E01","random programs of jumps, labels, loops, conditions, subroutines and scripts with arguments, with reads of the script split at random places, compared with the reference interpreter",gen_e01,model_setup,model_check,nontriv_seq,nullptr,nullptr});

static Sx qarg(Rng& r) { static const char* q[]={"a b","c;d","e,f","","g=h","i j k","l\tm"}; return L("t",L("q",q[r.below(7)])); }
static void inherit(Gen& g, Case& c) { Rng& r=g.r; for (auto& v: g.vars) if (r.chance(0.5)) c.set(("env:"+v).c_str(),r.chance(0.15)?std::string():r.chance(0.3)?g.word()+(r.chance(0.5)?" ":"\t"):r.chance(0.2)?" "+g.word():r.chance(0.2)?"a=b":g.word()); }
// ---- E02: scopes ----------------------------------------------------------------------------------------
// SET "name=value": up to the last quote of the line
static Sx setq(Gen& g) { Rng& r=g.r; static const char* vs[]={"a b","x\"y","\"in\"","e & f","g | h","<i>","j #k","l)","(m"," n "," ","o,p;q=r","\"","s\" \"t"}; return L("setq","vq",r.chance(0.7)?T_(vs[r.below(14)]):T_(g.word()),r.chance(0.7)?"":r.chance(0.5)?" ":" trailing"); }
static Sx show(Gen& g) { if (g.r.chance(0.1)) return L("echo",T_(V("vq"),".")); uint32_t k=g.r.below(6); if (k==0) return L("setd",g.r.chance(0.5)?"_":g.r.chance(0.5)?"v":"zz"); return k<3?L("echo",T_(V("_a"),"/",V("_b"),"/",V("_c"),"/",V("_d"),".")):L("echo",T_(V("va"),"/",V("vb"),"/",V("vc"),"/",V("vd"),"/",V("na"),".")); }
static const char* UV[]={"_a","_b","_c","_d"};
static Sx proc(Gen& g, int id) { Rng& r=g.r; Sx s=L("deff","p"+num(id)); auto val=[&]{ return r.chance(0.3)?L("t",L("p",(int)r.range(1,3)),g.word()):r.chance(0.3)?L("t",V(UV[r.below(4)]),"x"):r.chance(0.15)?T_(""):T_(g.word(),num(r.below(50))); };
  int n=r.range(1,6); for (int i=0;i<n;i++) switch (r.below(10)) { case 0: case 1: case 2: s.k.push_back(L(r.chance(0.25)?"setx":"set",UV[r.below(4)],val())); break; case 3: s.k.push_back(L("set",g.vars[r.below(4)],val())); break; case 4: case 5: s.k.push_back(L("echo",T_("p",num(id)," ",L("p",1),"-",L("p",2),"-",L("p","*")," ",L("p",(int)r.range(4,9)),L("p",9)," ",V("_a"),"/",V("_b"),"/",V("_c"),"/",V("_d"),"."))); break;
    case 6: if (id>0) { Sx u=L("usef","p"+num(r.below(id))); int k=r.range(0,3); for (int j=0;j<k;j++) u.k.push_back(r.chance(0.3)?L("t",L("p",(int)r.range(1,3)),"q"):L("t",g.word())); s.k.push_back(u); } break;
    case 7: s.k.push_back(L("setlocal")); s.k.push_back(L("set",UV[r.below(4)],val())); s.k.push_back(show(g)); s.k.push_back(L("endlocal")); break; case 8: s.k.push_back(L("if",L("def",UV[r.below(4)]),L("iblock",L("set",UV[r.below(4)],val())),L("iblock",L("echo",T_("no ",V(UV[r.below(4)]),"."))))); break; default: s.k.push_back(show(g)); }
  return s; }
static bool has_procs, many_vars; static int max_depth=4;
static void scope(Gen& g, std::vector<Sx>& b, int depth, int lim, bool insub) { Rng& r=g.r; int n=r.range(2,5);
  for (int i=0;i<n;i++) { switch (r.below(15)) { case 12: if (has_procs) { Sx u=L("usef","p"+num(r.below(3))); int k=r.chance(0.3)?r.range(4,12):r.range(0,3); for (int j=0;j<k;j++) u.k.push_back(L("t",k>3?"w"+num(j+1):g.word())); if (r.chance(0.15)) { Sx d=proc(g,0); b.push_back(d); } b.push_back(u); b.push_back(show(g)); } break; case 13: b.push_back(L("set",UV[r.below(4)],r.chance(0.15)?T_(""):T_(g.word(),num(r.below(50))))); break;
    case 14: if (insub) { b.push_back(r.chance(0.5)?L("shift",(int)r.below(10)):L("shift",(int)r.below(10),(int)r.range(0,4))); b.push_back(L("echo",T_(L("a",0),"-",L("a",1),"-",L("a",2),"-",L("a",5),"-",L("a",8),"-",L("a",9),"."))); b.push_back(L("exta",r.chance(0.5)?"*":"+")); } break;
    case 0: case 1: if (many_vars) { for (int q=0,k=r.range(1,25);q<k;q++) b.push_back(L("set","w"+num(r.below(90)),r.chance(0.2)?T_(""):T_(g.word(),num(r.below(50))))); b.push_back(L("setd","w")); break; } b.push_back(L("set",g.vars[r.below(4)],r.chance(0.15)?T_(""):T_(g.word(),num(r.below(50))))); break; case 2: b.push_back(L("seta","na",g.expr(1))); break; case 3: if (r.chance(0.25)) b.push_back(setq(g)); b.push_back(show(g)); break;
    case 4: case 5: if (depth<max_depth) { { static const char* o[]={"disabledelayedexpansion","enabledelayedexpansion","enableextensions disabledelayedexpansion","enabledelayedexpansion disableextensions","DISABLEEXTENSIONS","enableextensions"}; b.push_back(r.chance(0.4)?L("setlocal",o[r.below(6)]):L("setlocal")); } scope(g,b,depth+1,lim,insub); b.push_back(L("endlocal")); b.push_back(show(g)); } break;
    case 6: case 7: if (depth<max_depth) { b.push_back(pushdp(r)); scope(g,b,depth+1,lim,insub); b.push_back(L("popd")); b.push_back(L("pwd")); } break;
    case 8: case 9: if (lim>0&&(insub||r.chance(0.6))) { Sx x=L("call","s"+num(r.below(lim))); int k=r.chance(0.4)?r.range(8,13):r.range(0,3); for (int j=0;j<k;j++) x.k.push_back(r.chance(0.15)?qarg(r):L("t",k>4?"w"+num(j+1):g.word())); b.push_back(x); b.push_back(L("echo",T_("back ",L("a",1)," ",L("a",2)," ",L("a",0)))); b.push_back(show(g)); } else if (!insub) { { Sx x=L(r.chance(0.4)?"runf":"callf","z0",T_(g.word())); if (r.chance(0.4)) for (int j=0,k=r.range(6,11);j<k;j++) x.k.push_back(r.chance(0.15)?qarg(r):L("t","w"+num(j+2))); b.push_back(x); } b.push_back(L("echo",T_("back ",L("a",1)))); b.push_back(show(g)); } break;
    case 10: if (insub&&depth==0&&r.chance(0.5)) b.push_back(L("if",g.cond(0),L("iblock",r.chance(0.5)?L("ret"):L("exitb",(int)r.range(0,2))))); else b.push_back(L("cd",dirp(r))); break;
    default: if (insub) b.push_back(L("shift")); b.push_back(L("echo",T_(L("a",1),"-",L("a",2)))); } } }
// A script calling itself (or the main script), once.
static void selfcall(Rng& r, std::vector<Sx>& b, size_t from, const char* me) { Sx x=L(r.chance(0.2)?"runf":"callf",r.chance(0.2)?"t":me,T_("again"),T_("w2")); Sx s=L("if",L("eq",T_("x",V("cs")),T_("x")),L("iblock",L("set","cs",T_("1")),x)); size_t p=from+r.below(b.size()-from+1); b.insert(b.begin()+p,s); b.insert(b.begin()+p+1,L("echo",T_("came back ",L("a",1)," ",L("a",0)))); }
static void gen_e02(Rng& r, Case& c) { max_depth=r.chance(0.08)?14:4; many_vars=r.chance(0.08); if (many_vars) for (int i=0,k=r.range(0,70);i<k;i++) c.set(("env:w"+num(r.below(90))).c_str(),"i"+num(i)); layout(r,c); c.set("pathw",1); if (r.chance(0.2)) c.set("cmdly",1); c.cfg.p_switch=0.1; Gen g(r); if (r.chance(0.4)) inherit(g,c); has_procs=r.chance(0.6); if (has_procs) for (int i=0;i<3;i++) c.ops.push_back(proc(g,i)); int ns=r.chance(0.08)?r.range(4,12):r.range(1,3); std::vector<Sx> subs; for (int i=0;i<ns;i++) { Sx s=L("sub","s"+num(i)); if (ns>3&&i&&r.chance(0.8)) s.k.push_back(L("call","s"+num(i-1),T_("dn"+num(i)))); std::vector<Sx> b; scope(g,b,0,i,true); for (auto& x: b) s.k.push_back(x); subs.push_back(s); }
  { Sx s=L("script","z0"); std::vector<Sx> b; scope(g,b,1,0,true); if (r.chance(0.3)) selfcall(r,b,0,"z0"); for (auto& x: b) s.k.push_back(x); subs.push_back(s); }
  { size_t at=c.ops.size(); scope(g,c.ops,0,ns,false); if (r.chance(0.3)) selfcall(r,c.ops,at,"t"); } c.ops.push_back(show(g)); c.ops.push_back(L("pwd")); c.ops.push_back(L("ext","getenv",T_("va"),T_("vb"),T_("na"))); for (auto& s: subs) c.ops.push_back(s); if (r.chance(0.6)) for (int i=1,k=r.chance(0.5)?2:r.range(7,13);i<=k;i++) c.set(("arg"+num(i)).c_str(),"A"+num(i)); if (r.chance(0.3)) c.ops.insert(c.ops.begin(),L("exta",r.chance(0.5)?"*":"+")); if (r.chance(0.3)) c.cfg.p[D_SHORT_READ]=0.5; }
static Reg re2({"E02","random nestings of SETLOCAL/ENDLOCAL (with and without options), PUSHD/POPD, CALL of labels and scripts with up to 13 arguments, scripts run directly, SHIFT /n, DEF procedures with local variables, left by their end, GOTO :EOF or EXIT /B, with variables, directory and arguments printed on the way, compared with the reference interpreter",gen_e02,model_setup,model_check,nontriv_seq,nullptr,nullptr});

// ---- E03: error levels --------------------------------------------------------------------------------------
static Sx coder(Gen& g, int depth) { Rng& r=g.r; static const char* bad[]={"missing.txt","/nodir/x"}; switch (r.below(13)) { case 0: case 1: case 2: return L("ext","ret",r.chance(0.4)?0:(int)r.range(1,255)); case 3: return L("del",bad[0]); case 4: return L("cd","/nodir"); case 5: return L("pipe",L("ext","emit",2,"q"),L("ext","ret",(int)r.range(0,4))); case 6: return L("pipe",L("ext","ret",(int)r.range(1,4)),L("ext","cat")); case 7: return L("pipe",L("echo",T_(g.word())),L("find",r.chance(0.5)?"a":"zq")); case 8: return L("call","s"+num(r.below(2))); case 9: return L("callf","z0"); case 10: return L("io",L("echo",T_("x")),L("o",">","/nodir/f")); case 11: return L("copy",bad[0],"x.txt"); default: return depth<3?L("iblock",coder(g,depth+1),coder(g,depth+1)):L("ext","ret",(int)r.range(0,3)); } }
static Sx ecod(Gen& g, int depth);
static Sx eobs(Gen& g, int depth) { Rng& r=g.r; switch (r.below(4)) { case 0: case 1: return L("echo",T_("el ",L("el"))); case 2: return L("if",L("el",(int)r.range(0,4)),L("iblock",L("echo",T_("ge"))),L("iblock",L("echo",T_("lt")))); default: return depth<3?L("seq",r.chance(0.5)?"&&":"||",ecod(g,depth+1),L("echo",T_("then ",g.word()))):L("echo",T_("el ",L("el"))); } }
static Sx ecod(Gen& g, int depth) { Rng& r=g.r; if (depth<3&&r.chance(0.25)) return L("seq",r.chance(0.34)?"&":r.chance(0.5)?"&&":"||",ecod(g,depth+1),r.chance(0.5)?coder(g,depth):L("echo",T_("w ",L("el")))); if (depth<3&&r.chance(0.12)) return L("if",g.cond(1),L("iblock",coder(g,depth+1)),L("iblock",coder(g,depth+1))); if (depth<3&&r.chance(0.1)) return L("forl","k",1,1,2,L("iblock",coder(g,depth+1))); return coder(g,depth); }
static void gen_e03(Rng& r, Case& c) { layout(r,c); if (r.chance(0.2)) c.set("cmdly",1); swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; Gen g(r); std::vector<Sx> subs; int n=r.range(2,7);
  for (int i=0;i<2;i++) { Sx s=L("sub","s"+num(i)); if (r.chance(0.5)) s.k.push_back(L("ext","ret",(int)r.range(0,9))); if (r.chance(0.3)) s.k.push_back(L("echo",T_("sub ",L("el")))); int k=r.below(4); if (k==0) s.k.push_back(L("exitb",r.chance(0.3)?(int)r.range(-300,70000):(int)r.range(0,9))); if (k==1) s.k.push_back(L("exitb")); if (k==2) s.k.push_back(L("ret")); s.k.push_back(L("ext","ret",(int)r.range(0,5))); subs.push_back(s); }
  { Sx s=L("script","z0",L("ext","ret",(int)r.range(0,5))); if (r.chance(0.6)) s.k.push_back(L("exitb",(int)r.range(0,9))); subs.push_back(s); }
  for (int i=0;i<n;i++) { c.ops.push_back(r.chance(0.6)?ecod(g,0):L("iblock",ecod(g,1),eobs(g,1))); c.ops.push_back(eobs(g,0)); if (r.chance(0.5)) c.ops.push_back(L("echo",T_("el ",L("el")))); }
  if (r.chance(0.6)) { Sx e=L("exit",(int)r.range(0,200)); switch (r.below(4)) { case 0: c.ops.push_back(e); break; case 1: c.ops.push_back(L("iblock",L("ext","ret",3),e,L("echo",T_("never")))); break; case 2: { Sx s=L("sub","s9",L("echo",T_("last")),e); subs.push_back(s); c.ops.push_back(L("call","s9")); break; } default: c.ops.push_back(L("if",L("eq",T_("a"),T_("a")),L("iblock",e))); } c.ops.push_back(L("echo",T_("never"))); }
  for (auto& s: subs) c.ops.push_back(s); }
static Verdict check_e03(const Case& c, int o) { Verdict v=model_check(c,o); if (!v.ok()||!E.ok||o!=RES_OK) return v; int code=K->main_exit>>8; if (code!=(E.exit_code&255)) { v.cls="exit-code"; v.msg="the interpreter exited with "+num(code)+" instead of "+num(E.exit_code&255); } return v; }
static Reg re3({"E03","random nests of commands that succeed and fail in every documented way, && and || chains, IF ERRORLEVEL, calls, blocks, pipelines and EXIT, with the error level printed in between and the interpreter's exit code at the end, compared with the reference interpreter",gen_e03,model_setup,check_e03,nontriv_seq,nullptr,nullptr});

// ---- F05: redirections -------------------------------------------------------------------------------------------
static Sx writer(Gen& g, int depth, bool infile) { Rng& r=g.r; switch (r.below(infile?10:8)) { case 0: case 1: return L("echo",g.text(depth)); case 2: return L("ext","err",T_(g.word())); case 3: return L("ext","emit",(int)r.range(1,4),g.word()); case 4: return L("call","s0",T_(g.word())); case 5: return L("pipe",L("ext","emit",3,"p"),L("ext","cat")); case 6: return L("iblock",L("echo",g.text(2)),L("ext","both",(int)r.range(1,2))); case 7: return L("forl","k",1,1,2,L("iblock",L("ext","err",T_("k")),L("echo",T_(L("f","k"))))); case 8: return L("ext","cat"); default: return L("iblock",L("setp","va"),L("ext","rd1"),L("echo",T_(V("va"),"."))); } }
static Sx fio(Gen& g, Sx body, int& nf, bool in, bool nest=false) { Rng& r=g.r; Sx x=L("io",body); std::vector<Sx> v; auto fn=[&]{ return !nest&&r.chance(0.5)?"x"+num(r.below(3))+".txt":"y"+num(nf++)+".txt"; }; std::string o=fn(), e=fn(); if (e==o) e="z"+num(nf++)+".txt"; bool out=r.chance(0.7), er=r.chance(0.4);
  if (out) v.push_back(L("o",r.chance(0.4)?">":r.chance(0.5)?">>":r.chance(0.5)?"1>":"1>>",r.chance(0.05)?"/nodir/a":r.chance(0.05)?"nul":r.chance(0.04)?"/w/d1":o)); if (er) v.push_back(L("o",r.chance(0.5)?"2>":"2>>",r.chance(0.05)?"/nodir/b":r.chance(0.1)?"nul":e)); if (in) v.push_back(L("i","<",r.chance(0.85)?"in.txt":"missing.txt")); if ((!out||!er)&&r.chance(0.4)) v.push_back(L("dup",!er?"2>&1":"1>&2")); if (v.empty()) v.push_back(L("o",">",o)); for (size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); for (auto& q: v) x.k.push_back(q); return x; }
static void gen_f05(Rng& r, Case& c) { swarm_schedule(r,c.cfg); if (r.chance(0.5)) c.cfg.p[D_SHORT_WRITE]=0.4; Gen g(r); int nf=0; std::string d; int k=r.range(2,8); for (int i=0;i<k;i++) d+=g.word()+num(i)+"\n"; c.set("file:/w/in.txt",d); c.set("stdin","s1\ns2\ns3\n");
  int n=r.range(2,7); for (int i=0;i<n;i++) { bool in=r.chance(0.35); Sx b=writer(g,1,in); if (r.chance(0.3)) b=L("iblock",b,fio(g,writer(g,2,false),nf,false,true),writer(g,2,in)); if (r.chance(0.2)) b=L("if",g.cond(1),L("iblock",b),L("iblock",writer(g,2,false))); if (r.chance(0.12)) { std::string f="a"+num(nf++)+".txt"; Sx q=L("iblock"); int m=r.range(2,4); for (int j=0;j<m;j++) { Sx w=r.chance(0.5)?L("echo",g.text(2)):r.chance(0.5)?L("ext","emit",(int)r.range(1,2),g.word()):L("iblock",L("echo",g.text(2)),L("echo",T_(g.word()))); q.k.push_back(r.chance(0.45)?L("io",w,L("o",">>",f)):w); } c.ops.push_back(L("io",q,L("o",r.chance(0.6)?">":">>",f))); }   // appended to by its own commands
    c.ops.push_back(fio(g,b,nf,in)); c.ops.push_back(r.chance(0.5)?L("echo",T_("el ",L("el"))):L("ext","err",T_("mark"))); if (r.chance(0.15)) c.ops.push_back(L("ext","rd1")); }
  c.ops.push_back(L("sub","s0",L("echo",T_("sub ",L("a",1))),L("ext","err",T_("insub")))); }
static Verdict check_f05(const Case& c, int o) { Verdict v=model_check(c,o); if (!v.ok()||!E.ok||o!=RES_OK) return v; std::vector<std::string> l; vfs_list(l,"/w"); for (auto& f: l) if (f.back()!='/'&&f!="/w/t.bat"&&!E.files.count(f)) { v.cls="extra-file"; v.msg="file "+f+" was created although nothing was directed to it"; return v; } std::string t; return v; }
static Reg rf5({"F05","random combinations and nestings of > >> < 1> 2> 2>> 2>&1 1>&2 on builtins, blocks, loops, calls, pipelines and external programs, some of them on files that cannot be opened; output and every file compared with the reference interpreter",gen_f05,model_setup,check_f05,nontriv_seq,nullptr,nullptr});

// ---- X01: what external programs get -------------------------------------------------------------------------------
static void gen_x01(Rng& r, Case& c) { swarm_schedule(r,c.cfg); Gen g(r); inherit(g,c); bool many=r.chance(0.1); if (many) for (int i=0,k=r.range(5,120);i<k;i++) c.set(("env:w"+num(i)).c_str(),r.chance(0.05)?std::string(r.range(100,2500),'v'):g.word()+num(i)); std::vector<Sx> b; int n=r.range(2,7); auto prog0=[&](int d)->Sx { switch (r.below(4)) { case 0: { Sx x=L("ext","args"); int k=r.chance(0.05)?r.range(6,70):r.range(0,5); for (int i=0;i<k;i++) { Sx t=L("t"); if (r.chance(0.03)) t.k.push_back(std::string(r.range(100,3000),"abz"[r.below(3)])); if (r.chance(0.4)) t.k.push_back(V(g.vars[r.below(4)])); t.k.push_back(g.word()); if (r.chance(0.2)) { static const char* q[]={"a b","c;d","e,f","","g=h","p&q","<r>","s|t","(u)","v>w"," x "}; t=L("t",L("q",q[r.below(11)])); } x.k.push_back(t); } return x; } case 1: { Sx x=L("ext","getenv"); for (auto& v: g.vars) if (r.chance(0.6)) x.k.push_back(T_(v)); x.k.push_back(T_("na")); return x; } case 2: return L("ext","emit",(int)r.range(1,3),g.word()); default: (void)d; return L("ext","ret",(int)r.range(0,9)); } }; auto prog=[&](int d)->Sx { Sx x=prog0(d); return r.chance(0.15)?startb(r,x,false):x; };
  bool conc=r.chance(0.6); c.set("conc",conc);
  for (int i=0;i<n;i++) switch (r.below(conc?10:7)) { case 0: if (many) for (int q=0,k=r.range(1,40);q<k;q++) b.push_back(L("set","w"+num(r.below(150)),r.chance(0.2)?T_(""):T_(g.word()))); b.push_back(L("set",g.vars[r.below(4)],r.chance(0.2)?T_(""):T_(g.word()))); break; case 1: b.push_back(L("cd",dirp(r))); break; case 2: case 3: b.push_back(prog(0)); break; case 4: b.push_back(L("io",prog(1),L("o",">","/w/o"+num(i)+".txt"))); break; case 5: b.push_back(L("forl","k",1,1,2,L("iblock",L("seta","na",L("op","+",L("var","na"),L("n",1))),prog(2)))); break; case 6: b.push_back(L("seta","nb",g.expr(1))); break;
    default: { Sx p=L("pipe"); int k=r.range(2,4); for (int j=0;j<k;j++) { Sx s=L("iblock"); if (j) s.k.push_back(L("ext","cat")); int m=r.range(1,3); for (int q=0;q<m;q++) { if (r.chance(0.4)) s.k.push_back(r.chance(0.5)?L("set",g.vars[r.below(4)],T_(g.word())):L("cd",dirp(r))); s.k.push_back(prog(2)); } p.k.push_back(s); } b.push_back(p); } }
  b.push_back(L("ext","getenv",T_("va"),T_("vb"),T_("vc"),T_("vd"))); c.ops=b; if (r.chance(0.2)) { c.cfg.p[D_EXEC_FAIL]=0.15; c.cfg.max_faults[D_EXEC_FAIL]=2; } }
static Verdict check_x01(const Case& c, int o) { bool f=c.cfg.p[D_EXEC_FAIL]>0; Verdict v=basic_outcome(o); if (!E.ok) return Verdict(); if (!v.ok()||o!=RES_OK) return v; size_t nfail=count_log("fault");
  if (!f||nfail==0) { v=model_check(c,o); if (!v.ok()) return v; }
  struct X { std::string argv, cwd, fds, env; int task; }; std::vector<X> xs; std::map<int,size_t> cur; size_t failed=0;
  for (auto& e: K->log) { if (e.op=="exec") { if (e.r<0) { failed++; continue; } X x; x.task=e.task; std::string a=N(e.a); size_t s=a.rfind('/'); if (s!=std::string::npos) a=a.substr(s+1); x.argv=N(e.b); cur[e.task]=xs.size(); xs.push_back(x); } else if (e.op=="execcwd") xs[cur[e.task]].cwd=N(e.a); else if (e.op=="execfds") xs[cur[e.task]].fds=N(e.a); else if (e.op=="execenv") xs[cur[e.task]].env=N(e.a); }
  std::multiset<std::string> want, got; static const std::set<std::string> ours={"va","vb","vc","vd","na","nb"};
  for (auto& x: xs) { std::istringstream is(x.fds); std::string q; std::vector<std::string> fl; while (std::getline(is,q,';')) fl.push_back(q.substr(0,q.find(':'))); if (fl!=std::vector<std::string>{"0","1","2"}) { v.cls="descriptors"; v.msg="program "+esc(x.argv)+" was started with descriptors "+x.fds; return v; }
    std::map<std::string,std::string> env; std::istringstream es(x.env); while (std::getline(es,q,'\x1f')) { size_t k=q.find('='); if (ours.count(q.substr(0,k))||(q[0]=='w'&&isdigit((unsigned char)q[1]))) { if (env.count(q.substr(0,k))) { v.cls="environment"; v.msg="variable given twice: "+q; return v; } env[q.substr(0,k)]=q.substr(k+1); } if (q.compare(0,5,"HOME=")==0&&q!="HOME=/w") { v.cls="environment"; v.msg="inherited variable changed: "+q; return v; } }
    std::string s=x.argv+" | "+x.cwd; for (auto& kv: env) s+="\x1f"+kv.first+"="+kv.second; got.insert(s); }
  for (size_t i=0;i<E.execs.size();i++) { std::string s=E.execs[i]+" | "+E.execctx[i]; want.insert(s); }
  if (nfail==0&&got!=want) { v.cls="exec"; for (auto& s: want) if (!got.count(s)) { v.msg="no program was started as: "+esc(s,300); break; } for (auto& s: got) if (!want.count(s)) { v.msg+=" but one was as: "+esc(s,300); break; } if (v.msg.empty()) v.msg="a program was started another number of times"; return v; }
  if (nfail) { for (auto& s: got) if (!want.count(s)&&E.execs.size()) { (void)s; } std::multiset<std::string> w; for (auto& s: E.execs) w.insert(s); std::multiset<std::string> gg; for (auto& x: xs) gg.insert(x.argv); for (auto& s: gg) if (gg.count(s)>w.count(s)) { v.cls="exec-repeated"; v.msg="after a failed start, a program was started more often than written: "+esc(s,300); return v; } }
  return v; }
static Reg rx1({"X01","sequences and pipelines of external programs with arguments from variables, changed variables, directories and redirections, and failing exec calls, on top of inherited variables; the simulated kernel's record of every exec (arguments, directory, environment, descriptors) is compared with the reference interpreter",gen_x01,model_setup,check_x01,[](const Case&){ return E.ok&&K->execs>0; },nullptr,nullptr});

// ---- X02: exit codes and reaping -------------------------------------------------------------------------------------
static void gen_x02(Rng& r, Case& c) { swarm_schedule(r,c.cfg); if (r.chance(0.3)) { c.cfg.p[D_EXEC_FAIL]=0.2; } Gen g(r); std::vector<Sx> b; int n=r.range(1,4); int opens=r.chance(0.3)?1+(int)r.chance(0.3):0; auto prog=[&]()->Sx { if (opens&&r.chance(0.4)) return L("opens",r.chance(0.7)?"/wait":"/max /w",(int)r.range(0,99)); Sx x=r.chance(0.5)?L("ext","pause_ms",(int)r.range(0,30),(int)r.range(0,99)):L("ext","ret",(int)r.range(0,255)); return r.chance(0.15)?startb(r,x):x; }; auto rep=[&](int i){ return L("echo",T_("s"+num(i)+" ",L("el"))); };
  if (opens) b.push_back(L("set","PBAT_START_SCRIPT",T_(opens==1?"/bin/opener":"/bin/nosuch")));
  for (int i=0;i<n;i++) { Sx p=L("pipe"); int k=r.range(1,4); int fn=0; for (int j=0;j<k;j++) { Sx s=L("iblock"); int m=r.range(1,4); bool cat=j&&r.chance(0.7); if (cat) s.k.push_back(L("ext","cat")); for (int q=0;q<m;q++) { if (r.chance(0.15)) { s.k.push_back(L("pipe",prog(),prog())); s.k.push_back(rep(j)); continue; } if (r.chance(0.1)&&j+1==k) { s.k.push_back(L("forfc","m","tokens=1",L("ext","emit",2,"c"),L("iblock",prog(),rep(j)))); continue; } s.k.push_back(prog()); s.k.push_back(rep(j)); } if (j+1<k&&r.chance(0.3)) s=L("io",s,L("o",">","f"+num(i)+num(fn++)+".txt")); p.k.push_back(s); } b.push_back(p.n()==2?p[1]:p); b.push_back(rep(9)); b.push_back(L("ext","probe","p")); }
  c.ops=b; }
static Verdict check_x02(const Case& c, int o) { bool ef=c.cfg.p[D_EXEC_FAIL]>0; Verdict v=ef?basic_outcome(o):model_check(c,o); if (!v.ok()||!E.ok||o!=RES_OK) return v; for (auto& e: K->log) if (e.op=="probe") { int a[3]; sscanf(e.b.c_str(),"fds %d threads %d zombies %d",a,a+1,a+2); if (a[2]) { v.cls="zombies"; v.msg=num(a[2])+" children that had ended were not waited for when the script moved on"; return v; } }
  std::map<int64_t,int> rp; for (auto& e: K->log) if (e.op=="reap") rp[e.r]++; for (auto p: K->procs) if (p!=K->mainp&&p->ppid==K->mainp->pid&&rp[p->pid]!=1) { v.cls="reaped"; v.msg="child "+num(p->pid)+" was waited for "+num(rp[p->pid])+" times"; return v; } return v; }
static Reg rx2({"X02","external programs with random run times and exit codes in several stages at once, each code printed by its own stage, zombies counted after each pipeline and waits counted per child",gen_x02,model_setup,check_x02,nontriv,nullptr,nullptr});
// ---- I01: Ctrl-C ------------------------------------------------------------------------
static const char* Q01="Do you really want to exit command script ?";
static void gen_i01(Rng& r, Case& c) {
  int mode=r.below(8); mode=mode<5?0:mode<7?1:2; if (mode==1&&r.chance(0.35)) mode=3; c.set("mode",mode);              // 0 no, 1 yes, 2 with external programs, 3 yes in a known state
  swarm_schedule(r,c.cfg); static const double ps[]={0.05,0.01,0.002,0.3}; c.cfg.p[D_SIGINT]=ps[r.below(4)]; c.cfg.max_faults[D_SIGINT]=mode&1?r.range(1,3):r.range(1,5);
  if (mode==3) { Gen g(r); if (r.chance(0.2)) c.set("cmdly",1); auto add=[&](Sx s){ c.ops.push_back(s); }; if (r.chance(0.6)) add(L("cd",dirp(r))); for (int i=0;i<3;i++) if (r.chance(0.6)) add(L("set",g.vars[r.below(4)],T_(g.word(),num(r.below(50))))); if (r.chance(0.3)) add(L("seta","na",g.expr(1))); if (r.chance(0.5)) { bool d=r.chance(0.7); add(L("setlocal",d?"disabledelayedexpansion":"enabledelayedexpansion")); c.set("nodelay",d); } if (r.chance(0.4)) add(pushdp(r)); if (r.chance(0.4)) add(L("set",g.vars[r.below(4)],r.chance(0.3)?T_(""):T_(g.word())));
    add(L("ext","probe","st")); for (int i=0,n=r.range(3,20);i<n;i++) add(r.chance(0.2)?L("forl","i",1,1,(int)r.range(2,9),L("iblock",L("echo",g.text(0)),L("echo",g.text(0)))):r.chance(0.2)?L("pipe",L("echo",g.text(0)),L("ext","cat")):L("echo",g.text(0))); add(L("ext","probe","st")); c.set("tty",r.chance(0.5)); c.set("nans",r.below(1000)); return; }
  Gen g(r); g.exts=mode==2; g.noread=true; g.forf=r.chance(0.5); g.pipes=r.chance(0.7); g.redirs=r.chance(0.6); g.scopes=r.chance(0.4); g.bigdata=r.chance(0.2); g.scripts=r.chance(0.3); g.els=r.chance(0.3);
  if (r.chance(0.3)) { static const uint32_t caps[]={16,64,512}; c.cfg.pipe_cap=caps[r.below(3)]; }
  c.ops=g.program(r.range(1,6),g.calls?r.range(0,2):0); c.set("tty",!has(c.ops,"(more")&&r.chance(0.5)); c.set("nans",r.below(1000)); }
static void setup_i01(const Case& c, RunSpec& rs) {
  model_setup(c,rs); rs.stdin_data=""; rs.stdin_tty=true; vfs_prog("/opt/pbat/pbat","pbat"); if (!E.ok||(c.pi("mode")<2&&!E.execs.empty())) { K->skip=true; return; }
  static const char* no[]={"n\n","no\n","N\n","No\n","\n","maybe\nn\n","yess\n\n"}; Rng q(c.pi("nans")*7919+13); int n=c.pi("mode")&1?(int)q.below(2):40;
  for (int i=0;i<n;i++) rs.tty.push_back({0,no[q.below(7)]}); if (c.pi("mode")&1) for (int i=0;i<8;i++) rs.tty.push_back({0,q.chance(0.5)?"yes\n":"Y\n"}); }
static Verdict check_i01(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (!E.ok||(v.ok()&&o==RES_STEPS)) return Verdict(); if (!v.ok()) return v;
  size_t asked=0, entered=0, yes=0, depth=0; bool nested=false; std::string err=err_text(); for (size_t p=0;(p=err.find(Q01,p))!=std::string::npos;p++) asked++;
  for (auto& e: K->log) if (e.op=="handler"&&e.a=="enter") { entered++; if (depth++) nested=true; } else if (e.op=="handler") depth--; else if (e.op=="tty_input"&&(e.a=="yes\n"||e.a=="Y\n")) yes++;
  if (!nested&&(yes?!asked||asked>entered:asked!=entered)) { v.cls="question"; v.msg="Ctrl-C "+std::to_string(entered)+" times, but the question was asked "+std::to_string(asked)+" times on the terminal"; return v; }
  if (!yes) { if (c.pi("mode")<2) return model_check(c,o); return v; }
  bool ex=false; for (auto& e: K->log) if (e.op=="exec"&&e.a=="/opt/pbat/pbat") ex=true; std::string out=plain(out_text());
  if (!ex) { v.cls="not-ended"; v.msg="the answer was yes but the script went on"; return v; }
  if (c.pi("mode")==3) { bool known=false, at=false; std::string argv, cwd, env; for (auto& e: K->log) { if (e.op=="probe") known=true; if (e.op=="exec") { at=e.a=="/opt/pbat/pbat"; if (at) argv=N(e.b); } else if (at&&e.op=="execcwd") cwd=N(e.a); else if (at&&e.op=="execenv") env=N(e.a); }
    if (!known||E.execctx.empty()) return v; std::string got=cwd; { static const std::set<std::string> ours={"va","vb","vc","vd","na","nb"}; std::map<std::string,std::string> m; std::istringstream es(env); std::string q; while (std::getline(es,q,'\x1f')) { size_t k=q.find('='); if (ours.count(q.substr(0,k))) m[q.substr(0,k)]=q.substr(k+1); } for (auto& kv: m) got+="\x1f"+kv.first+"="+kv.second; }
    if (got!=E.execctx.back()) { v.cls="state"; v.msg="the interpreter that took over was not started in the state of the script: "+diff_msg("directory and variables",E.execctx.back(),got); return v; }
    std::string fl; size_t k=argv.find('\x1f'); if (k!=std::string::npos) for (char ch: argv.substr(k+1)) fl+=(char)tolower(ch); if (fl.compare(0,3,"/a:")!=0||(fl.find('e',3)==std::string::npos)||(fl.find('v',3)!=std::string::npos)!=!c.pi("nodelay")||(fl.find('c',3)!=std::string::npos)!=!!c.pi("cmdly")) { v.cls="options"; v.msg="the interpreter that took over was started with the options "+esc(fl); return v; }
    return v; }
  if (E.out.compare(0,out.size(),out)!=0) { v.cls="output"; v.msg=diff_msg("output up to the answer",E.out,out); return v; }
  return v; }
static bool nt_i01(const Case&) { return E.ok && count_log("signal")>0; }
static Reg ri1({"I01","random programs of builtins (pipelines, captures, calls, redirections, scopes) interrupted by Ctrl-C one to five times at random system calls of any thread, answered no, by default, after invalid answers, or yes; with no, the whole output and every file must be those of the undisturbed program, with yes the interpreter must be replaced at once, in the script's directory and with its variables and options, and have put out a prefix of it; the question must be asked on the terminal, once per Ctrl-C",gen_i01,setup_i01,check_i01,nt_i01,nullptr,nullptr});
