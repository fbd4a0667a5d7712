// E04: a script changed while it runs goes on at the same place of the new content.
#include "model.h"
#include <sstream>
static std::string num(int i) { return std::to_string(i); }
static struct { bool ok, skip; std::string one; bool ext; struct Cand { std::string out; std::vector<std::pair<size_t,size_t>> w; }; std::vector<Cand> want; } Q;
// ---- reference: an interpreter of the handful of commands the generator writes ----
struct Rl {
  typedef std::map<std::string,std::string> Files;
  bool pos=false;                                          // position-based reading (/A:C)
  Files f; std::string out; std::vector<size_t> seen; std::set<std::string> used; Files made; int steps=0, events=0; bool bad=false;
  std::vector<std::pair<int,std::function<void(Files&)>>> sw;  // change applied before the n-th look at a script
  std::map<std::string,std::string> tails;                 // pos mode: what each source adds to the text at the first use
  struct Fr { std::string file; size_t at; std::string text; }; std::vector<Fr> st;   // text: what was read last; it goes on if the file is gone
  static std::string trim(const std::string& l) { size_t a=0; while (a<l.size()&&(l[a]==' '||l[a]=='\t')) a++; size_t b=l.size(); while (b>a&&(l[b-1]=='\r'||l[b-1]=='\n')) b--; return l.substr(a,b-a); }
  static bool split(const std::string& t, size_t p, std::string& l, size_t& e) { if (p>=t.size()) return false; e=t.find('\n',p); e=e==std::string::npos?t.size():e+1; l=t.substr(p,e-p); return true; }
  void look() { events++; seen.push_back(out.size()); for (auto& s: sw) if (s.first==events) s.second(f); Fr& fr=st.back(); auto i=f.find(fr.file); if (i!=f.end()) fr.text=i->second; else if (pos) bad=true; }
  // the next command line of a text from a position; cmd: without indentation; returns false at the end
  bool next(const std::string& t, size_t& p, std::string& l) { size_t e; std::string s; while (split(t,p,s,e)) { bool first=p==0; p=e; l=trim(s); if (l.empty()||l[0]==':'||(!pos&&first&&l.compare(0,2,"#!")==0)) continue; return true; } return false; }
  size_t seek(const std::string& t, size_t idx) { size_t p=0; std::string l; for (size_t i=0;i<idx;i++) if (!next(t,p,l)) { bad=true; break; } return p; }
  bool getline(std::vector<std::string>& c) {              // one command with its block
    look(); Fr& fr=st.back(); const std::string& t=fr.text; size_t p=pos?fr.at:seek(t,fr.at); if (bad) return false; if (p>t.size()) { bad=true; return false; }
    int d=0; c.clear(); std::string l; do { if (!next(t,p,l)) { if (d) bad=true; return false; } c.push_back(l); if (!pos) fr.at++; if (l.back()=='(') d++; else if (l==")"||l.compare(0,2,") ")==0) d--; } while (d>0); if (pos) fr.at=p; return true; }
  bool jump(const std::string& lb) { look(); Fr& fr=st.back(); const std::string& t=fr.text; size_t p=0,e,i=0; std::string s; while (split(t,p,s,e)) { bool first=p==0; p=e; std::string l=trim(s); if (l.empty()) continue; if (l[0]==':') { if (l.substr(1,l.find(' ')-1)==lb) { fr.at=pos?p:i; return true; } continue; } if (!pos&&first&&l.compare(0,2,"#!")==0) continue; i++; } bad=true; return false; }
  bool run_script() { std::vector<std::string> c; while (!bad) { if (++steps>160) { bad=true; break; } if (!getline(c)) break; int r=exec(c); if (r==2) break; } return !bad; }
  void write(const std::string& src, const std::string& dst, bool mv) {
    if (pos) { if (!used.insert(src).second) { bad=true; return; } size_t m=0; for (auto& x: st) if (x.file==dst) m=std::max(m,x.at); std::string n=f.count(dst)?f[dst].substr(0,m):""; if (!n.empty()&&n.back()!='\n') { bad=true; return; } made[src]=f[src]=n+tails[src]; }
    if (!f.count(src)) { bad=true; return; } f[dst]=f[src]; if (mv) f.erase(src); }
  // 0 go on, 1 jumped (leave the block), 2 end of this script or sub
  int one(std::string s) {
    s=trim(s); if (s.empty()||s=="@echo off"||s.compare(0,4,"rem ")==0) return 0;
    std::istringstream is(s); std::string w; is>>w; std::string a,b,x; is>>a>>b>>x;
    if (w=="echo") { size_t g=s.find(">>"); if (g!=std::string::npos) { std::string d=s.substr(g+2); if (f.count(d)&&!f[d].empty()&&f[d].back()!='\n') { bad=true; return 0; } f[d]+=s.substr(5,g-5)+"\n"; } else out+=s.substr(5)+"\n"; return 0; }
    if (w=="goto") { if (a==":eof") return 2; return jump(a)?1:2; }
    if (w=="exit") return 2;
    if (w=="del") { if (pos||!f.erase(a)) bad=true; return 0; }
    if (w=="call") { if (st.size()>4) { bad=true; return 2; } if (a[0]==':') { st.push_back(st.back()); if (!jump(a.substr(1))) return 2; } else { if (!f.count(a)) { bad=true; return 2; } st.push_back({a,0,""}); } run_script(); st.pop_back(); return 0; }
    if (w=="type"||w=="cat") { size_t g=a.find('>'); if (g==std::string::npos) { bad=true; return 0; } std::string src=a.substr(0,g), dst=a.substr(g+1); size_t pp=src.find('|'); if (pp!=std::string::npos) src=src.substr(0,pp); pp=dst.find('|'); if (pp!=std::string::npos) { out+="piped\n"; dst=dst.substr(0,pp); } write(src,dst,false); return 0; }
    if (w=="copy"||w=="move") { size_t g=x.find('>'); write(b,x.substr(0,g),w=="move"); return 0; }
    bad=true; return 0; }
  int exec(const std::vector<std::string>& c) {
    if (c[0]==")") { bad=true; return 2; }
    for (auto& l: c) { if (l=="("||l==")"||l=="if 1==1 ("||l=="for %%a in (1) do (") continue; if (l==") else (") { bad=true; continue; }
      size_t p=0; for (;;) { size_t q=l.find('&',p); int r=one(l.substr(p,q==std::string::npos?q:q-p)); if (bad) return 2; if (r) return r; if (q==std::string::npos) break; p=q+1; } }
    return 0; }
};
// ---- generation ----
static std::string tag4(Rng& r, int& n) { std::string s="line"+num(n++)+"."; if (r.chance(0.06)) s+=std::string(r.range(100,3000),"xyz"[r.below(3)]); else if (r.chance(0.4)) s+=" and some more"; return s; }
struct G4 { Rng& r; int n=0, lab=0, rw=0, vers=0; bool ext, pos; std::vector<std::string> labels, subs; std::vector<Sx> extra;
  std::string src() { std::string v="v"+num(vers++)+".txt"; return v; }
  std::string rwcmd(const std::string& dst) { std::string v=src(); switch (r.below(pos?7:8)) { case 7: vers--; return "del "+dst; case 0: case 1: return "type "+v+">"+dst; case 2: return "copy /y "+v+" "+dst+">nul"; case 3: return "move /y "+v+" "+dst+">nul"; case 4: return "cat "+v+">"+dst; case 5: return "type "+v+"|cat>"+dst; default: return "type "+v+">"+dst+"|echo piped"; } }
  std::string simple(bool rewrite) { std::string t=r.chance(0.2)?"s.bat":"t.bat"; if (rewrite&&!ext) { if (r.chance(0.3)) return "echo echo "+tag4(r,n)+">>"+t; std::string c=rwcmd(t); if (c.find('|')==std::string::npos&&r.chance(0.3)) c+="&echo "+tag4(r,n); return c; } return "echo "+tag4(r,n); }
  void lines(Sx& o, int k, double prw, bool sub) { for (int i=0;i<k;i++) { std::string ind=r.chance(0.15)?std::string(r.range(1,4),r.chance(0.5)?' ':'\t'):"";
    switch (r.below(14)) {
    case 0: o.k.push_back(Sx("")); break;
    case 1: o.k.push_back(Sx(":: comment "+num(n++))); break;
    case 2: { std::string l="l"+num(lab++); labels.push_back(l); o.k.push_back(Sx(ind+":"+l)); break; }
    case 3: { static const char* h[]={"(","if 1==1 (","for %%a in (1) do ("}; std::string b=ind+h[r.below(3)]; int m=r.range(1,3); for (int j=0;j<m;j++) { b+="\n"+std::string(r.below(3),' ')+simple(r.chance(prw)); if (r.chance(0.1)) b+="\n"; } o.k.push_back(Sx(b+"\n)")); break; }
    case 4: o.k.push_back(Sx("rem nothing "+num(n++))); break;
    case 5: if (!subs.empty()&&!sub) { o.k.push_back(Sx(ind+"call :"+subs[r.below(subs.size())])); break; } [[fallthrough]];
    case 6: if (r.chance(0.3)) { std::string l="l"+num(lab++); o.k.push_back(Sx(ind+"goto "+l)); if (r.chance(0.3)) o.k.push_back(Sx(std::string(r.below(6),' ')+":"+l+num(r.below(3)))); lines(o,r.range(0,2),prw,sub); o.k.push_back(Sx(std::string(r.chance(0.4)?r.range(1,6):0,r.chance(0.7)?' ':'\t')+":"+l+(r.chance(0.1)?" and a remark":""))); break; } if (r.chance(0.3)&&!sub) { o.k.push_back(Sx("call s.bat")); break; } [[fallthrough]];
    default: o.k.push_back(Sx(ind+simple(r.chance(prw)))); } } }
  Sx body(const char* kind, const std::string& name, int k, double prw) { Sx o=L(kind,name); o.k.push_back(Sx(r.chance(0.15)?"crlf":r.chance(0.15)?"nonl":"plain")); subs.clear(); if (r.chance(0.4)) subs.push_back("sub"+num(lab++)); lines(o,k,prw,false); if (!subs.empty()) { o.k.push_back(Sx("goto :eof")); auto ss=subs; for (auto& s: ss) { o.k.push_back(Sx(":"+s)); lines(o,r.range(1,4),prw,true); if (r.chance(0.5)) o.k.push_back(Sx(r.chance(0.5)?"exit /b":"goto :eof")); } } return o; }
};
static void gen_e04(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; bool pos=r.chance(0.35), ext=r.chance(0.4); c.set("pos",pos); c.set("ext",ext);
  if (r.chance(0.3)) c.cfg.p[D_SHORT_READ]=0.3; if (r.chance(0.2)) { c.cfg.p[D_CLOCK_JUMP]=0.05; c.cfg.max_faults[D_CLOCK_JUMP]=3; }
  G4 g{r}; g.ext=ext; g.pos=pos;
  Sx t=g.body("file","t.bat",r.range(3,9),0.35), s=g.body("file","s.bat",r.range(1,4),0.2); c.ops.push_back(t); c.ops.push_back(s);
  if (ext) { int m=r.range(1,2); static const double ps[]={0.002,0.01,0.03,0.1}; c.cfg.p[D_MUTATE]=ps[r.below(4)]; c.cfg.max_faults[D_MUTATE]=m; for (int i=0;i<m;i++) { std::string f=r.chance(0.8)?"t.bat":"s.bat"; if (pos||r.chance(0.3)) c.ops.push_back(L("append",f,"echo "+tag4(r,g.n))); else { Sx o=g.body("ren",f,r.range(4,18),0); c.ops.push_back(o); } } }
  for (int i=0;i<g.vers&&i<7;i++) { Sx o=g.body("ver","v"+num(i)+".txt",pos?r.range(1,5):r.range(3,18),i<3?0.2:0); c.ops.push_back(o); } }
static std::string render4(const Sx& o) { std::string t, k=o.s(2); for (size_t i=3;i<o.n();i++) t+=o.k[i].a+"\n"; if (k=="nonl"&&!t.empty()) t.pop_back(); if (k=="crlf") { std::string u; for (char ch: t) { if (ch=='\n') u+='\r'; u+=ch; } t=u; } return t; }
static void setup_e04(const Case& c, RunSpec& rs) {
  bool pos=c.pi("pos"); Q.ok=true; Q.skip=false; Q.want.clear(); Q.ext=c.pi("ext"); Rl m; m.pos=pos; std::vector<std::pair<std::string,std::function<void(Rl::Files&)>>> sw; int nr=0; std::vector<std::pair<std::string,std::string>> put;
  for (auto& o: c.ops) { std::string h=o.head(), f=o.s(1); if (h=="file") { m.f[f]=(f=="t.bat"?std::string(!pos&&o.s(2)=="plain"&&o.n()%3==0?"#!/usr/bin/pbat\n":"")+"@echo off\n":std::string())+render4(o); }
    else if (h=="ver") { if (pos) m.tails[f]=render4(o); else m.f[f]=render4(o); }
    else if (h=="append") { std::string d=o.s(2)+"\n"; if (o.n()<3) continue; sw.push_back({"append /w/"+f+" "+d,[f,d](Rl::Files& x){ x[f]+=d; }}); }
    else if (h=="ren") { std::string n="n"+num(nr++)+".txt", d="@echo off\n"+render4(o)+"\n"; put.push_back({n,d}); sw.push_back({"ren /w/"+n+" /w/"+f,[f,d](Rl::Files& x){ x[f]=d; }}); } }
  if (Q.ext) for (auto& x: m.f) if (!x.second.empty()&&x.second.back()!='\n') x.second+="\n";
  if (!m.f.count("t.bat")) { Q.ok=false; K->skip=true; m.f["t.bat"]=""; }
  Rl base=m; m.st.push_back({"t.bat",0,""}); m.run_script(); if (!Q.ok||m.bad||m.out.size()>20000) { Q.ok=false; K->skip=true; }
  if (Q.ok) { Q.one=m.out; if (!Q.ext) Q.want.push_back({m.out,{}});
    if (Q.ext) { int n=std::min<size_t>(sw.size(),2); bool any=true;
      // every moment of the changes, with the lengths of output between which the change must have come
      std::function<void(int,int,Rl)> rec=[&](int i, int from, Rl b) { for (int k=from;any;k++) { Rl x=b; x.sw.push_back({k,sw[i].second}); Rl y=x; y.st.push_back({"t.bat",0,""}); y.run_script(); if (y.bad) { any=false; return; }
        if (i+1<n) rec(i+1,k,x); else { Q.want.push_back({y.out,{}}); for (auto& z: x.sw) { size_t e=z.first; Q.want.back().w.push_back({e<2?0:y.seen[std::min<size_t>(e-1,y.seen.size())-1],e<=y.seen.size()?y.seen[e-1]:~(size_t)0}); } }
        if (y.events<k) break; } };
      if (n) rec(0,1,base); else Q.want.push_back({m.out,{}}); if (!any) { Q.ok=false; K->skip=true; } } }
  std::map<size_t,int> mt; std::map<std::string,std::string> files=base.f; if (!getenv("NOMADE")) for (auto& x: m.made) files[x.first]=x.second;
  for (auto& x: files) vfs_put(("/w/"+x.first).c_str(),x.second)->mtime=1000*++mt[x.second.size()];
  for (auto& x: put) vfs_put(("/w/"+x.first).c_str(),x.second)->mtime=1000*++mt[x.second.size()];
  if (Q.ext) for (auto& s: sw) K->mutations.push_back(S(s.first));
  if (Q.ext) rs.stdout_tty=true;
  if (pos&&!rs.argv.empty()) rs.argv.insert(rs.argv.begin()+1,"/A:C"); }
static std::string strip4(const std::string& t) { std::string o; for (size_t i=0;i<t.size();i++) { if (t[i]!=27) { o+=t[i]; continue; } if (i+1<t.size()&&t[i+1]==']') { while (i<t.size()&&t[i]!=7) i++; } else while (i<t.size()&&!isalpha((unsigned char)t[i])) i++; } return o; }
static Verdict check_e04(const Case&, int o) { Verdict v=basic_outcome(o); if (!Q.ok) return Verdict(); if (!v.ok()||o==RES_STEPS) return v; std::string raw=out_text(), got=strip4(raw), e=strip4(err_text());
  std::vector<size_t> at; for (auto& x: K->log) if (x.op=="mutate") { size_t b=0; for (auto& g: K->out->segs) if (g.step<=x.step) b+=g.len; at.push_back(strip4(raw.substr(0,b)).size()); }
  bool in=false, out=false; for (auto& w: Q.want) if (w.out==got) { out=true; bool f=true; for (size_t i=0;i<w.w.size();i++) { size_t b=i<at.size()?at[i]:~(size_t)0; if (b<w.w[i].first||b>w.w[i].second) f=false; } if (f) { in=true; break; } }
  if (!out) { v.cls="output"; v.msg=diff_msg(Q.ext?"output (that of the unchanged script is the nearest)":"output",Q.one,got); return v; }
  if (!in) { v.cls="unnoticed"; v.msg="the change after "+num(at[0])+" bytes of output was not followed at the next command: "+esc(got); return v; }
  if (!e.empty()) { v.cls="error"; v.msg="error messages: "+esc(e); } return v; }
static Reg r4({"E04","a script of up to thirty command lines with blocks, labels, jumps, subroutines and a second script, replaced or extended up to seven times while it runs, either by its own commands (TYPE, COPY, MOVE, an external program, a pipeline, >>) or by another process at any system call; the new content is arbitrary text in the default mode and shares what was read in the position-based mode (/A:C); the output is that of a reference which looks at the current content before every command line (for another process: for some moment of the change)",gen_e04,setup_e04,check_e04,[](const Case& c){ if (c.pi("ext")) return count_log("mutate")>0; return Q.ok; },"the interpreter's whole reading, jumping and calling code","file system, processes, the changing process"});
