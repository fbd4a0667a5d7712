// I01 (Ctrl-C), I02 (prompted input), I03 (TIMEOUT): the interpreter and its terminal.
#include "model.h"
#include <sstream>
#include <cmath>
#include <algorithm>
static std::string num(int i) { return std::to_string(i); }
static const uint64_t MS=1000000ull, SEC=1000000000ull;
static std::string strip9(const std::string& t) { std::string o; for (size_t i=0;i<t.size();i++) { if (t[i]!=27) { o+=t[i]; continue; } if (i+1<t.size()&&t[i+1]==']') { while (i<t.size()&&t[i]!=7) i++; } else if (i+1<t.size()&&t[i+1]=='[') { i+=2; while (i<t.size()&&!isalpha((unsigned char)t[i])) i++; } } return o; }
// ---- I03 ----------------------------------------------------------------------
static void gen_i03(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; c.cfg.max_steps=300000; int in=r.below(10); c.set("in",in<6?0:in-5);   // 0 terminal, 1 /dev/null, 2 ended pipe, 3 pipe nobody writes to, 4 redirected from a file
  if (r.chance(0.5)) { c.cfg.p[D_CLOCK_JUMP]=r.chance(0.5)?0.3:0.02; c.cfg.max_faults[D_CLOCK_JUMP]=~0u; }
  if (r.chance(0.5)) { static const double ps[]={0.002,0.02,0.1}; c.cfg.p[D_SLOW]=ps[r.below(3)]; }
  int n=r.range(1,3); static const char* d[]={"1","2","3","0.3","0.05","1.25","0","5","10","0.75","0.1","60","-1"};
  bool key=in<6&&r.chance(0.6), sig=in<6&&!key&&r.chance(0.7);
  for (int i=0;i<n;i++) { std::string s=d[r.below(key?13:12)]; std::string o=r.chance(0.3)&&s!="-1"?"/nobreak":"-"; if (r.chance(0.15)) o=o=="-"?"/t":"/t /nobreak"; c.ops.push_back(L("timeout",s,o,!sig&&r.chance(0.15)?(r.chance(0.5)?"piped":"captured"):r.chance(0.2)?"block":"plain")); }
  if (key||sig) { int k=r.range(1,5); for (int i=0;i<k;i++) { int dl=r.chance(0.2)?r.range(1,5000):r.range(1,2500); if (sig&&r.chance(0.5)) c.ops.push_back(L("ctrlc",dl,r.range(1,400),r.chance(0.7)?"n":"No")); else if (key) { static const char* ks[]={"k","x","\n","\033[A","\033[3~","q"}; c.ops.push_back(L("key",dl,ks[r.below(6)])); } } } }
static void setup_i03(const Case& c, RunSpec& rs) {
  std::string s="@echo off\nret 0\n"; int i=0; int in=c.pi("in");
  for (auto& o: c.ops) if (o.head()=="timeout") { std::string t="timeout "+(o.s(2)=="-"?"":o.s(2)+" ")+o.s(1); if (in==4) t+="<in.txt"; if (o.s(3)=="piped") t+="|ret 100"; else if (o.s(3)=="captured") t="for /f \"delims=\" %%a in ('"+t+"') do (echo %%a)"; else if (o.s(3)=="block") t="(\n"+t+"\n)"; s+=t+"\nret "+num(++i)+"\n"; }
  s+="rd1\nset /p rest=Line: \necho [!rest!]\n"; vfs_put("/w/t.bat",s); vfs_put("/w/in.txt","data\n");
  rs.stdin_tty=in==0; if (in==1) rs.stdin_null=true;
  if (in==0) for (auto& o: c.ops) { if (o.head()=="key") rs.tty.push_back({(uint64_t)o.i(1)*MS,o.s(2)}); else if (o.head()=="ctrlc") { rs.tty.push_back({(uint64_t)o.i(1)*MS,"\x03"}); rs.tty.push_back({(uint64_t)o.i(2)*MS,o.s(3)+"\n"}); } }
  if (in==3) rs.tty.push_back({200*SEC,""}); if (in==0) { for (auto& o: c.ops) if (o.head()=="timeout") rs.tty.push_back({70*SEC,"k"}); rs.tty.push_back({0,"the rest\n"}); rs.tty.push_back({0,"more\r"}); } }
static Verdict check_i03(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (!v.ok()||o==RES_STEPS) return v; int in=c.pi("in");
  std::vector<uint64_t> at; std::vector<std::pair<uint64_t,std::string>> keys; std::vector<std::pair<uint64_t,uint64_t>> slow; std::vector<std::pair<uint64_t,uint64_t>> ask; std::vector<uint64_t> sigs, slept; bool asking=false, answer=false;
  for (auto& e: K->log) { if (e.op=="exec"&&e.a=="/bin/ret"&&!(N(e.b)=="ret\x1f" "100")) at.push_back(e.time); else if (e.op=="handler"&&e.a=="enter") { ask.push_back({e.time,~0ull}); asking=true; } else if (e.op=="handler"&&e.a=="leave") { for (size_t i=ask.size();i--;) if (ask[i].second==~0ull) { ask[i].second=e.time; break; } asking=false; } else if (e.op=="sleep") slept.push_back(e.time); else if (e.op=="slow") slow.push_back({e.time,(uint64_t)e.r}); else if (e.op=="signal") { answer=true; sigs.push_back(e.time); if (at.empty()) return v; } else if (e.op=="tty_input") { if (answer) { if (!asking) return v; answer=false; continue; } keys.push_back({e.time,N(e.a)}); } }
  (void)asking; size_t n=0, used=0; std::vector<const Sx*> t; for (auto& x: c.ops) if (x.head()=="timeout") t.push_back(&x);
  if (at.size()!=t.size()+1) { if (!sigs.empty()) return v; /* the signal ended a marking command */ v.cls="lost"; v.msg="the commands after "+num(at.size()-1)+" TIMEOUTs were not run"; return v; }
  std::string tail; bool exact=true;
  for (auto x: t) { uint64_t a=at[n], b=at[n+1]; n++; double sec=atof(x->s(1).c_str()); bool inf=sec<0; uint64_t d=inf?~0ull/4:(uint64_t)llround(sec*1e9); bool nob=x->s(2).find("nobreak")!=std::string::npos||in!=0;
    // keys typed and not yet consumed when it started, and the first one typed while it ran
    size_t had=0; for (auto& k: keys) if (k.first<=a+300000) had++; uint64_t kt=~0ull; if (!nob) { if (had>used) kt=a; else for (auto& k: keys) if (k.first>a) { kt=k.first; break; } }
    uint64_t ts=b; for (auto z: slept) if (z>a) { ts=std::min(b,z); break; }   // when it began to wait
    uint64_t due=a+d; if (kt<due) due=kt;
    auto late=[&](uint64_t from) { uint64_t s=120*MS; for (auto& z: slow) if (z.first>from) s+=z.second; for (auto& q: ask) if (q.second>from) s+=q.second-std::max(q.first,from); return s; };
    std::string what="TIMEOUT "+x->s(2)+" "+x->s(1); 
    if (b<due&&!(kt!=~0ull&&b>=kt)) { v.cls="early"; v.msg=what+" returned after "+std::to_string((b-a)/1e9)+" s"+(kt==~0ull?"":" (key typed after "+std::to_string((kt-a)/1e9)+" s)"); return v; }
    if (b>due+(ts-a)+late(due)) { v.cls="late"; v.msg=what+" returned after "+std::to_string((b-a)/1e9)+" s"+(kt==~0ull?"":" (key typed after "+std::to_string((kt-a)/1e9)+" s)"); return v; }
    // a key typed in the last moments may or may not have been seen
    if (kt<~0ull/8) { bool sure=kt+(ts-a)+late(kt)<a+d&&kt<=b; bool maybe=kt<=b; if (sure) used++; else if (maybe) { exact=false; used++; } } if (!exact) break; }
  if (!sigs.empty()&&sigs.back()>=at.back()) return v;
  if (exact&&in==0) { std::string w; for (size_t i=used;i<keys.size();i++) w+=keys[i].second; w+="the rest"; size_t nl=w.find('\n'); if (nl!=std::string::npos) w=w.substr(0,nl); std::string want="["+w+"]\n", got=out_text(); if (got.find(want)==std::string::npos) { v.cls="input"; v.msg=diff_msg("the line read after the TIMEOUTs",want,got); return v; } }
  if (K->in->raw) { v.cls="terminal"; v.msg="the terminal was left without line editing"; }
  return v; }
static Reg ri3({"I03","one to three TIMEOUTs (with and without /NOBREAK, fractions, zero, for ever, in blocks, pipelines and captures) while the wall clock jumps by minutes to a day in both directions, system calls stall for up to 150 ms each, keys are typed and Ctrl-C is answered with no at any moment, or input is not a terminal; the virtual time each took, the line read afterwards and the terminal's mode are checked",gen_i03,setup_i03,check_i03,[](const Case&){ return true; },"TIMEOUT, its key polling, the signal handler and confirmation","terminal, clock, timers, signal delivery"});
// ---- I02 ----------------------------------------------------------------------
// One reader of the input after another: SET /P, PAUSE, the questions of COPY, MOVE, DEL and RMDIR, externals.
struct In2 {                                   // what the readers are given
  bool tty=false; std::string data; size_t pos=0; bool partial=false;            // non-terminal: a stream of bytes
  std::vector<std::string> ans; size_t ai=0; std::vector<std::pair<char,std::string>> typed; bool eof=false;   // terminal: one answer per read
  std::string next() { return ai<ans.size()?ans[ai++]:std::string(); }
  bool line(std::string& o, bool raw=false) { o.clear(); if (tty) { if (eof) return false; if (ai>=ans.size()) { eof=true; typed.push_back({'e',""}); return false; } o=next(); typed.push_back({raw?'r':'l',o}); return true; }
    if (pos>=data.size()) return false; size_t k=data.find('\n',pos); if (k==std::string::npos) { o=data.substr(pos); pos=data.size(); } else { o=data.substr(pos,k-pos); pos=k+1; } return true; }
  void key() { if (tty) { if (eof) return; if (ai>=ans.size()) { eof=true; typed.push_back({'e',""}); return; } next(); typed.push_back({'k',"k"}); return; } if (pos<data.size()) pos++; }
  // yes, no or all; the default is no; anything else is asked again
  int ask(std::string& err, const std::string& q, bool yna) { err+=q; for (;;) { err+=yna?" (yes/No/all) ":" (yes/No) "; std::string l; line(l); std::string u; for (char ch: l) if (ch!='\r') u+=toupper(ch); if (u.size()>=30) u="?"; if (u=="YES"||u=="Y") return 1; if (u=="NO"||u=="N"||u.empty()) return 0; if (yna&&(u=="ALL"||u=="A")) return 2; err+="Please enter a correct choice (or type enter to choose default) !\n"; } }
};
struct M2 { In2 in; std::map<std::string,std::string> f; std::set<std::string> d; std::string out, err, log; std::vector<std::string> asked, shown; size_t aski=0; std::map<std::string,std::string> v; bool ordered=true; };
static void names2(M2& m, const std::string& pre, std::vector<std::string>& o) { for (auto& x: m.f) if (x.first.compare(0,pre.size(),pre)==0&&x.first.find('/',pre.size())==std::string::npos) o.push_back(x.first); }
// takes the next name from the list: the one the interpreter asked about next, if it asks
static std::string pick2(M2& m, std::vector<std::string>& l, bool asks) { auto it=l.begin(); if (asks&&m.aski<m.asked.size()) { auto k=std::find(l.begin(),l.end(),m.asked[m.aski]); if (k!=l.end()) { it=k; m.aski++; } } std::string r=*it; l.erase(it); return r; }
static std::string base2(const std::string& p) { return p.substr(p.rfind('/')+1); }
static void run2(M2& m, const Sx& o, bool piped) {
  const std::string& h=o.head(); auto& lg=m.log;
  if (h=="setp") { std::string l; if (o.s(3)!="-") l="file line 1"; else m.in.line(l,true); if (!l.empty()&&l.back()=='\r') l.pop_back(); if (o.s(4)!="pl") m.out+=o.s(2); else lg+=o.s(2); m.v[o.s(1)]=l; lg+="["+l+"]\n"+(o.s(4)=="pl"?"":l.empty()?"el1.\n":"el0.\n"); }
  else if (h=="more") { size_t ki=4; bool quit=false; auto type=[&](const std::string& k) { for (char ch: k) m.in.typed.push_back({'k',std::string(1,ch)}); };
    for (int f=0;f<o.i(2)&&!quit;f++) { const std::string name="m"+num((o.i(1)+f)%4)+".t"; const std::string& d=m.f["/w/"+name]; size_t p=0; int tp=23, skip=0; bool ok=true;
      while (ok) { if (o.s(3)=="/c") tp=23; while (ok&&tp-->0) { if (p>=d.size()) { ok=false; break; } size_t e=d.find('\n',p); std::string t=d.substr(p,e==std::string::npos?e:e-p); if (e==std::string::npos) { ok=false; p=d.size(); } else p=e+1; if (skip) skip--; else m.shown.push_back(t); }
        if (m.in.eof) { quit=true; break; } std::string k=ki<o.n()?o.s(ki++):"q"; if (k=="eof") { m.in.eof=true; m.in.typed.push_back({'e',""}); quit=true; break; } type(k);
        char ch=toupper(k[0]); if (ch=='Q') { quit=true; break; } if (ch=='F') ok=false; else if (ch==' ') tp=1; else if (ch=='P') tp=atoi(k.c_str()+1); else { tp=23; if (ch=='S') skip=atoi(k.c_str()+1); } } }
    lg+="more\n"; }
  else if (h=="pause") { m.in.key(); m.out+="Press any key to continue...\n"; lg+="paused\n"; }
  else if (h=="loop") { for (int i=0;i<o.i(1);i++) { std::string l; m.in.line(l,true); if (!l.empty()&&l.back()=='\r') l.pop_back(); m.out+="> "; lg+="["+l+"]\n"; } }
  else if (h=="rdall") {                                      // reads to the end of the input: on a terminal, up to the key for it
    std::string d; if (m.in.tty) { if (!m.in.eof) { for (size_t i=2;i<o.n();i++) { m.in.typed.push_back({'l',o.s(i)}); d+=o.s(i)+"\n"; } m.in.typed.push_back({'e',""}); } } else { d=m.in.data.substr(std::min(m.in.pos,m.in.data.size())); m.in.pos=m.in.data.size(); }
    const std::string& k=o.s(1); if (k.compare(0,2,"wc")==0) lg+=num((int)std::count(d.begin(),d.end(),'\n'))+" \n"; else if (k.compare(0,5,"xargs")==0) { std::string w; bool f=true; std::istringstream is(d); while (is>>w) { lg+=(f?"":" ")+w; f=false; } } else lg+=d; lg+="all\n"; }
  else if (h=="rd1") { std::string l; bool g=m.in.line(l); std::string t=g?"["+l+"]\n":"-eof-\n"; lg+=t; }
  else if (h=="copy"||h=="move") { std::vector<std::string> src; std::string dst="/w/"+o.s(2); bool multi=o.s(1).find('*')!=std::string::npos; if (multi) { std::string pre="/w/"+o.s(1).substr(0,o.s(1).find('*')); names2(m,pre,src); } else if (m.f.count("/w/"+o.s(1))) src.push_back("/w/"+o.s(1));
    std::vector<std::string> q, rest; bool silent=o.s(3)!="-"; { for (auto& s: src) if (m.f.count(m.d.count(dst)?dst+"/"+base2(s):dst)) q.push_back(s); else rest.push_back(s); }
    while (!q.empty()||!rest.empty()) { std::string s=q.empty()?pick2(m,rest,false):pick2(m,q,!silent); std::string t=m.d.count(dst)?dst+"/"+base2(s):dst; if (!multi&&t==s) continue; bool ok=true; if (m.f.count(t)&&!silent) { int a=m.in.ask(m.err,"File \""+t+"\" already exists, replace it by \""+s+"\" ?",true); ok=a!=0; if (a==2) silent=true; } if (ok) { m.f[t]=m.f[s]; if (h=="move") m.f.erase(s); } } }
  else if (h=="del") { std::vector<std::string> l; bool ask=o.s(1)!="-"; bool all=false; for (size_t i=2;i<o.n();i++) { const std::string& p=o.s(i); std::vector<std::string> q; if (p.find('*')!=std::string::npos) { names2(m,"/w/"+p.substr(0,p.find('*')),q); if (o.s(1)!="/q") ask=true; } else if (m.f.count("/w/"+p)) q.push_back("/w/"+p); if (ask||o.s(1)!="-") l.insert(l.end(),q.begin(),q.end()); else l.insert(l.end(),q.begin(),q.end()); }
    if (o.s(1)=="/q") ask=false; while (!l.empty()) { std::string x=pick2(m,l,ask&&!all); bool ok=true; if (ask&&!all) { int a=m.in.ask(m.err,"Are you sure you want to delete file \""+x+"\" ?",true); ok=a!=0; if (a==2) all=true; } if (ok) m.f.erase(x); } }
  else if (h=="rmdir") { std::vector<std::string> l; for (size_t i=1;i<o.n();i++) if (m.d.count("/w/"+o.s(i))) l.push_back("/w/"+o.s(i)); bool all=false; while (!l.empty()) { std::string x=pick2(m,l,!all); bool ok=true; if (!all) { int a=m.in.ask(m.err,"Are you sure you want to remove \""+x+"\" directory ?",true); ok=a!=0; if (a==2) all=true; } if (ok) { bool empty=true; for (auto& y: m.f) if (y.first.compare(0,x.size()+1,x+"/")==0) empty=false; if (empty) m.d.erase(x); } } }
}
static std::string text2(const Sx& o) {
  const std::string& h=o.head(); std::string s;
  if (h=="setp") { s="set /p "+o.s(1)+"="+o.s(2)+(o.s(3)!="-"?"<in1.txt":""); if (o.s(4)=="pl") return "("+s+"\necho [!"+o.s(1)+"!])|cat>>log.txt\n"; std::string e=s+"\nset e=!errorlevel!\necho [!"+o.s(1)+"!]>>log.txt\necho el!e!.>>log.txt\n"; if (o.s(4)=="blk") return "(\n"+e+")\n"; return e; }
  if (h=="more") { s="more"; if (o.s(3)!="-") s+=" "+o.s(3); for (int f=0;f<o.i(2);f++) s+=" m"+num((o.i(1)+f)%4)+".t"; return s+"\necho more>>log.txt\n"; }
  if (h=="pause") return "pause\necho paused>>log.txt\n";
  if (h=="loop") return "for /l %%i in (1,1,"+o.s(1)+") do (set /p lv=^> & echo [!lv!]>>log.txt)\n";
  if (h=="rdall") { if (o.s(1)=="xargs") return "xargs printn>>log.txt\necho all>>log.txt\n"; return o.s(1)+">>log.txt\necho all>>log.txt\n"; }
  if (h=="rd1") return o.s(1)=="cap"?"for /f \"delims=\" %%a in ('rd1') do (echo %%a>>log.txt)\n":o.s(1)=="pipe"?"rd1|cat>>log.txt\n":"rd1 >>log.txt\n";
  if (h=="copy"||h=="move") return h+" "+(o.s(3)=="-"?"/-y ":"/y ")+o.s(1)+" "+o.s(2)+"\n";
  if (h=="del") { s="del"; if (o.s(1)!="-") s+=" "+o.s(1); for (size_t i=2;i<o.n();i++) s+=" "+o.s(i); return s+"\n"; }
  if (h=="rmdir") { s="rmdir"; for (size_t i=1;i<o.n();i++) s+=" "+o.s(i); return s+"\n"; }
  return ""; }
static void gen_i02(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; c.set("in",(int)r.below(4));     // 0 terminal, 1 pipe, 2 file, 3 pipe with everything at once
  if (r.chance(0.6)) c.cfg.p[D_SHORT_READ]=0.5; int n=r.range(1,6); c.set("nul",r.chance(0.15)); c.set("mix",(int)r.below(1000000000));
  auto nf=[&](const char* p) { return std::string(p)+num(r.below(4))+".t"; };
  for (int i=0;i<n;i++) switch (r.below(c.pi("in")==0?11:9)) {
    case 10: { static const char* k[]={"cat","type","find /v \"zzz\"","wc /l","xargs","find /n /v \"zzz\" | cat"}; Sx o=L("rdall",k[r.below(5)]); for (int j=r.below(4);j--;) o.k.push_back(Sx(r.chance(0.1)?std::string(r.range(100,3000),'m'):"typed"+num(r.below(100)))); c.ops.push_back(o); break; }
    case 9: { Sx o=L("more",r.below(4),r.range(1,3),r.chance(0.15)?"/c":"-"); for (int k=r.below(12);k--;) { int w=r.below(20); o.k.push_back(Sx(w<6?std::string("\n"):w<10?std::string(" "):w<13?(r.chance(0.5)?"P":"p")+num(r.below(40))+"\n":w<16?(r.chance(0.5)?"s":"S")+num(r.below(40))+" ":w==16?std::string("f"):w==17?std::string("Q"):w==18&&r.chance(0.4)?std::string("eof"):std::string("\n"))); } c.ops.push_back(o); break; }
    case 0: case 1: case 2: { static const char* pr[]={"Name: ","","Your answer? ","> "}; std::string p=pr[r.below(3)]; c.ops.push_back(L("setp","v"+num(r.below(3)),p,r.chance(0.1)?"f":"-",r.chance(0.15)&&c.pi("in")?"pl":r.chance(0.2)?"blk":"-")); break; }
    case 3: c.ops.push_back(L("pause")); break;
    case 4: c.ops.push_back(L("rd1",r.chance(0.7)?"-":r.chance(0.5)?"cap":"pipe")); break;
    case 5: if (r.chance(0.5)) c.ops.push_back(L(r.chance(0.5)?"copy":"move",nf("p"),r.chance(0.7)?nf("q"):"d1",r.chance(0.8)?"-":"y")); else c.ops.push_back(L(r.chance(0.5)?"copy":"move","p*.t","d1",r.chance(0.9)?"-":"y")); break;
    case 6: { Sx o=L("del",r.chance(0.6)?"/p":r.chance(0.7)?"-":"/q"); if (r.chance(0.5)) o.k.push_back(r.chance(0.5)?"p*.t":"q*.t"); else { std::set<std::string> s; for (int k=r.range(1,3);k--;) s.insert(nf(r.chance(0.5)?"p":"q")); for (auto& x: s) o.k.push_back(x); } c.ops.push_back(o); break; }
    case 7: c.ops.push_back(r.chance(0.5)?L("rmdir","e1","e2"):L("rmdir","d1","e1","e3")); break;
    case 8: c.ops.push_back(L("loop",r.range(1,4))); break; }
  bool cap=false; for (auto& o: c.ops) if (o.head()=="rd1"&&o.s(1)=="cap") cap=true;   // what a capture yields is parsed again
  int k=r.range(0,n*3); static const char* as[]={"y","n","yes","NO","a","All","Y","","maybe","some text","N","no","x y  z","a=b","100%","!odd!","\"quoted\"","^caret & more | <>","y\r","no "," y"};
  for (int i=0;i<k;i++) { std::string a=as[r.below(cap||r.chance(0.6)?9:21)]; if (c.pi("in")!=0&&r.chance(0.05)) a=std::string(r.range(20,40),'y'); if (c.pi("in")!=0&&r.chance(0.03)) a=std::string(r.range(500,5000),'z'); if (r.chance(0.5)&&c.pi("in")==0&&a.find_first_of("\r")!=std::string::npos) a="y"; c.ops.push_back(L("in",a)); }
  c.set("nonl",r.chance(0.2)); }
static void model2(const Case& c, M2& m) {
  m.in.tty=c.pi("in")==0; for (int i=0;i<4;i++) { m.f["/w/p"+num(i)+".t"]="p"+num(i); if (i<2) { m.f["/w/q"+num(i)+".t"]="q"+num(i); m.f["/w/d1/p"+num(i+1)+".t"]="old"+num(i); } }
  { static const int nl[]={0,5,23,22,24,46,47,60,100,1}; uint64_t h=(uint64_t)c.pi("mix")*0x9e3779b97f4a7c15ull; h^=h>>29; for (int i=0;i<4;i++) { int k=nl[(h>>(8*i))%10]; std::string t; for (int j=0;j<k;j++) t+="<m"+num(i)+" line "+num(j+1)+">\n"; if ((h>>(33+i))%5==0&&!t.empty()) t.pop_back(); m.f["/w/m"+num(i)+".t"]=t; } }
  m.f["/w/e3/keep"]="keep"; m.d={"/w/d1","/w/e1","/w/e2","/w/e3"};
  std::string all; for (auto& o: c.ops) if (o.head()=="in") { std::string a=o.s(1); if (m.in.tty) { std::string b; for (char ch: a) if (ch!='\r') b+=ch; m.in.ans.push_back(b); } else all+=a+"\n"; } if (c.pi("nonl")&&!all.empty()) all.pop_back(); m.in.data=all; }
static void setup_i02(const Case& c, RunSpec& rs) {
  M2 m; model2(c,m); for (auto& x: m.d) vfs_mkdirs(x.c_str()); for (auto& x: m.f) vfs_put(x.first.c_str(),x.second); vfs_put("/w/in1.txt","file line 1\nfile line 2\n"); vfs_put("/w/log.txt","");
  std::string s="@echo off\n"; for (auto& o: c.ops) s+=text2(o); if (!m.in.tty) s+="cat>>log.txt\n"; vfs_put("/w/t.bat",s);
  // on a terminal the user types when asked
  for (auto& o: c.ops) run2(m,o,!m.in.tty);
  if (m.in.tty) { rs.stdin_tty=true; rs.stdout_tty=true; for (auto& t: m.in.typed) { if (t.first=='e') rs.tty.push_back({0,""}); else rs.tty.push_back({0,t.second+(t.first=='r'?"\r":t.first=='l'?"\n":"")}); } }
  else { M2 q; model2(c,q); const std::string& d=q.in.data; if (c.pi("in")==2) rs.stdin_data=d; else if (c.pi("in")==3) rs.tty.push_back({0,d.empty()?std::string("\n").substr(1):d}); else { uint64_t h=((uint64_t)c.pi("mix")+c.cfg.seed)*0x9e3779b97f4a7c15ull+1; size_t p=0; while (p<d.size()) { h^=h<<13; h^=h>>7; h^=h<<17; size_t k=1+(h>>8)%((h>>40)%4==0?40:5); if (k>d.size()-p) k=d.size()-p; uint64_t dl=(h>>50)%3==0?0:(h>>20)%3000000; rs.tty.push_back({dl,d.substr(p,k)}); p+=k; } rs.tty.push_back({0,""}); } } }
static Verdict check_i02(const Case& c, int o) {
  Verdict v=basic_outcome(o); if (!v.ok()||o==RES_STEPS) return v; M2 m; model2(c,m); std::string err=strip9(err_text()), out=out_text();
  for (size_t p=0;;) { size_t at=std::string::npos, len=0; for (const char* q: {"want to delete file \"","want to remove \"","replace it by \""}) { size_t k=err.find(q,p); if (k<at) { at=k; len=strlen(q); } } if (at==std::string::npos) break; size_t e=err.find('"',at+len); if (e==std::string::npos) break; m.asked.push_back(err.substr(at+len,e-at-len)); p=e; }
  for (auto& x: c.ops) run2(m,x,!m.in.tty);
  if (!m.in.tty) m.log+=m.in.data.substr(std::min(m.in.pos,m.in.data.size()));
  std::string g; vfs_read("/w/log.txt",g); if (g!=m.log) { v.cls="read"; v.msg=diff_msg("what the commands read",m.log,g); return v; }
  std::vector<std::string> ls; vfs_list(ls,"/w"); for (auto& x: m.f) { std::string t; if (!vfs_read(x.first.c_str(),t)) { v.cls="answer"; v.msg=x.first+" is gone although that was not confirmed"; return v; } if (t!=x.second) { v.cls="answer"; v.msg=diff_msg(x.first.c_str(),x.second,t); return v; } }
  for (auto& x: ls) { if (x.find(".t")!=std::string::npos&&x.size()>2&&x.substr(x.size()-2)==".t"&&!m.f.count(x)) { v.cls="answer"; v.msg=x+" is there although the answer was to remove it"; return v; } }
  for (auto& x: {"/w/e1","/w/e2","/w/e3"}) { bool t=vfs_get(x)!=nullptr; if (t!=(m.d.count(x)!=0)) { v.cls="answer"; v.msg=std::string(x)+(t?" is still there":" is gone")+" against the answer given"; return v; } }
  if (m.in.tty) { std::vector<std::string> s; for (size_t p=0;(p=out.find("<m",p))!=std::string::npos;) { size_t e=out.find('>',p); if (e==std::string::npos) break; s.push_back(out.substr(p,e-p+1)); p=e; } if (s!=m.shown) { size_t i=0; while (i<s.size()&&i<m.shown.size()&&s[i]==m.shown[i]) i++; v.cls="more"; v.msg="MORE showed "+num((int)s.size())+" lines where the keys ask for "+num((int)m.shown.size())+"; number "+num((int)i+1)+" is "+(i<s.size()?s[i]:"missing")+" instead of "+(i<m.shown.size()?m.shown[i]:"none"); return v; } }
  if (!m.in.tty&&out!=m.out) { v.cls="prompt"; v.msg=diff_msg("prompts",m.out,out); return v; }
  { std::string e2=err; size_t k; for (const char* q: {"Error : ","\tReason: "}) while ((k=e2.find(q))!=std::string::npos) { size_t z=e2.find('\n',k); e2.erase(k,z==std::string::npos?std::string::npos:z-k+1); } if (e2!=m.err) { v.cls="question"; v.msg=diff_msg("questions",m.err,e2); return v; } }
  if (K->in->raw) { v.cls="terminal"; v.msg="the terminal was left without line editing"; }
  return v; }
static bool nt_i02(const Case& c) { (void)c; return count_log("exec")+count_log("tty_input")>0||K->in->consumed>0; }
static Reg ri2({"I02","scripts of one to six readers - SET /P (in blocks, loops, pipelines, with redirected input), PAUSE, COPY and MOVE /-Y, DEL /P and with wildcards, RMDIR of several directories, MORE on a terminal (next screen, line, Pn, Sn, F, Q), TYPE, FIND, WC, XARGS and an external program reading up to the end of what is typed, external commands in between - given answers, default answers, invalid answers, long lines, lines with special characters and input ending anywhere, typed on a terminal, arriving through a pipe in chunks at arbitrary times, or from a file; what each read, what was done to the files, the prompts, what is left of the input and the terminal mode against a reference model",gen_i02,setup_i02,check_i02,nt_i02,"the interpreter, its line editor and the C library's streams","terminal, pipes, files, processes, clock and scheduler (simulated); external commands are small stand-ins"});
