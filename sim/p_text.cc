// F06: the commands that read text.
//
// A case has input files (file ...) and runs (run ...).  A run is a chain of
// stages; the first one reads its files, or the standard input from < or
// from another stage.  What it prints follows from the input by the small
// functions below, one for each command.
#include "model.h"
#include <sstream>
#include <algorithm>
static std::string num(int i) { return std::to_string(i); }
typedef std::vector<std::string> VS;

// ---- contents --------------------------------------------------------------------------------
static std::string text(const std::string& kind, int n, int len, bool nl, int seed) {
  Rng r(seed*104729+7); std::string s; static const char* sep[]={" ",", ",".",";","\t","  "," "}; static const int edge[]={0,1,77,78,79,80,81,157,158,159,237,254,255,256,510,511,512,513,1022,1023,1024,1025,2047,2048,4095,4096,4097};
  if (kind=="bin") { for (int i=0;i<n*len;i++) s+=(char)(r.next()>>11); return s; }
  for (int i=0;i<n;i++) { std::string l; int m=kind=="edge"?edge[r.below(27)]:r.chance(0.15)?0:r.range(0,len);
    while ((int)l.size()<m) {
      if (kind=="edge") l+=(char)('a'+(l.size()*7+i)%26);
      else if (kind=="sym"&&r.chance(0.2)) l+="&|<>()@+_=*?'~+-/@#$"[r.below(20)];
      else if (kind=="u8"&&r.chance(0.3)) { static const char* u[]={"\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x90\x99","\xc2\xa0"}; l+=u[r.below(4)]; }
      else if (l.size()&&r.chance(0.15)) l+=kind=="word"?sep[r.below(7)]:" ";
      else l+=(char)((kind=="word"&&r.chance(0.3)?'A':'a')+r.below(6)); }
    s+=l; if (i<n-1||nl) s+='\n'; }
  return s; }
static VS lines(const std::string& s) { VS v; std::string l; for (char c: s) if (c=='\n') { v.push_back(l); l.clear(); } else l+=c; if (!l.empty()) v.push_back(l); return v; }

// ---- what the commands do ---------------------------------------------------------------------
static char low(char c) { return c>='A'&&c<='Z'?c+32:c; }
static std::string lower(std::string s) { for (auto& c: s) c=low(c); return s; }
static bool rx(const char* p, const char* s) { if (!*p) return !*s; if (*p=='*') { for (;;s++) { if (rx(p+1,s)) return true; if (!*s) return false; } } return *s&&(*p=='?'||*p==*s)&&rx(p+1,s+1); }
static std::string f_find(const std::string& in, const std::string& str, const std::string& opt, bool& hit) {
  auto has=[&](char c){ return opt.find(c)!=std::string::npos; }; std::string o; int k=0, n=0; std::string w=has('i')?lower(str):str;
  for (auto& l: lines(in)) { k++; std::string x=has('i')?lower(l):l; bool m=has('e')?rx(w.c_str(),x.c_str()):x.find(w)!=std::string::npos; if (m==has('v')) continue; n++; if (!has('c')) o+=(has('n')?"["+num(k)+"]":std::string())+l+"\n"; }
  if (has('c')) o=num(n)+"\n"; hit=n>0; return o; }
static bool unsure;
static std::string f_more(const std::string& in) {                // lines broken after 79 columns
  std::string o; int col=0; bool cr=false; for (size_t i=0;i<in.size();i++) { unsigned char c=in[i];
    if (c=='\t') { int k=8-col%8; if (col+k>=79) { unsure=true; return o; } o.append(k,' '); col+=k; cr=false; continue; }
    if (c=='\n') { if (cr) { cr=false; continue; } o+='\n'; col=0; continue; }
    cr=false; o+=c; if ((c&0xc0)!=0x80) col++; else if (col==0) { continue; }
    if (col==79&&(c&0xc0)!=0xc0) { if (i+1<in.size()&&((unsigned char)in[i+1]&0xc0)==0x80) { unsure=true; return o; } o+='\n'; col=0; cr=true; }
    if (col==79) { unsure=true; return o; } }
  return o; }
struct Cnt { unsigned long l=0, w=0, b=0, m=0; };
static Cnt count(const std::string& s) { Cnt c; bool in=false; for (unsigned char x: s) { c.b++; if ((x&0xc0)!=0x80) c.m++; if (x=='\n') c.l++; if (x&&strchr("\n \t\r,.;",x)) { if (in) c.w++; in=false; } else in=true; } if (in) c.w++; return c; }
static std::string f_wc(const Cnt& c, std::string opt, const std::string& name) { if (opt.empty()) opt="c"; auto has=[&](char k){ return opt.find(k)!=std::string::npos; }; std::string o;
  if (has('l')) o+=num(c.l)+" "; if (has('w')) o+=num(c.w)+" "; if (has('c')) o+=num(c.b)+" "; if (has('m')) o+=num(c.m)+" "; o+=name; while (!o.empty()&&o.back()==' ') o.pop_back(); return o+"\n"; }
static std::string f_xargs(const std::string& in, const std::string& what) { std::string o; 
  if (what=="echo") { o="x"; for (auto& l: lines(in)) { bool q=l.find_first_of(" ;,\t")!=std::string::npos; o+=q?" \""+l+"\"":" "+l; } return o+"\n"; }
  o="[args]\n[x]\n"; for (auto& l: lines(in)) if (!l.empty()) o+="["+l+"]\n"; return o; }

// ---- runs -------------------------------------------------------------------------------------
struct St { std::string cmd, opt, str; VS files, raw; };
struct Run { std::string how, src; std::vector<St> st; };
static Run parse(const Sx& x, const std::map<std::string,std::string>& in) { Run r; for (size_t i=1;i<x.n();i++) { const Sx& y=x[i]; if (y.head()=="in") { r.how=y.s(1); r.src=y.s(2); } else { St s; s.cmd=y.head(); for (size_t k=1;k<y.n();k++) { const Sx& z=y[k]; if (z.head()=="o") s.opt+=z.s(1); else if (z.head()=="s") s.str=z.s(1); else if (z.head()=="f") { const std::string& f=z.s(1); s.raw.push_back(f); size_t q=f.find_first_of("*?"); bool any=false; if (q!=std::string::npos) for (auto& m: in) if (m.first.compare(0,q,f,0,q)==0) { s.files.push_back(m.first); any=true; } if (!any) s.files.push_back(q==std::string::npos?f:"nofile"); } } r.st.push_back(s); } } return r; }
static std::map<std::string,std::string> inputs(const Case& c) { std::map<std::string,std::string> m; for (auto& x: c.ops) if (x.head()=="file"&&x.n()>=7) m[x.s(1)]=text(x.s(2),x.i(3),x.i(4),x.i(5),x.i(6)); return m; }
static bool valid(const Run& r, const std::map<std::string,std::string>& in) {
  if (r.st.empty()) return false; for (size_t i=0;i<r.st.size();i++) { auto& s=r.st[i]; if (i&&!s.files.empty()) return false; if (s.cmd=="find"&&s.str.empty()) return false; if (s.cmd=="xargs"&&(i+1<r.st.size()||s.str.empty())) return false; if (s.cmd=="wc"&&i+1<r.st.size()) return false; for (auto& f: s.files) if (f!="nofile"&&f!="dir"&&!in.count(f)) return false;
    bool onlydir=!s.files.empty(); for (auto& f: s.files) if (f!="dir") onlydir=false; if (onlydir) return false; }
  if (r.st[0].files.empty()&&!in.count(r.src)) return false; if (!r.st[0].files.empty()&&!r.how.empty()) return false; return true; }
static std::string qs(const std::string& s) { return "\""+s+"\""; }
static std::string stage(const St& s) { std::string o=s.cmd; if (s.cmd=="xargs") return "xargs "+s.str+" x"; for (char c: s.opt) o+=std::string(" /")+c; if (s.cmd=="find") o+=" "+qs(s.str); for (auto& f: s.raw) o+=" "+f; return o; }
static std::string line(const Run& r) { std::string o; if (r.how=="cat"||r.how=="type") o=r.how+" "+r.src+" | "; for (size_t i=0;i<r.st.size();i++) o+=(i?" | ":"")+stage(r.st[i]); if (r.how=="<") { size_t k=o.find(" | "); o=k==std::string::npos?o+" < "+r.src:o.substr(0,k)+" < "+r.src+o.substr(k); } return o; }
static std::string one(const St& s, const std::string& in, int& el) {
  el=0; if (s.cmd=="type"||s.cmd=="cat") return in; if (s.cmd=="more") return f_more(in); if (s.cmd=="find") { bool h; std::string o=f_find(in,s.str,s.opt,h); el=!h; return o; }
  if (s.cmd=="wc") return f_wc(count(in),s.opt,""); if (s.cmd=="upper") { std::string o=in; for (auto& c: o) if (c>='a'&&c<='z') c-=32; return o; } if (s.cmd=="xargs") return f_xargs(in,s.str); unsure=true; return ""; }

static void setup_text(const Case& c, RunSpec& rs) {
  (void)rs; vfs_mkdirs("/w/x/dir"); auto in=inputs(c); for (auto& f: in) vfs_put(("/w/x/"+f.first).c_str(),f.second); K->fault_root=vfs_get("/w/x");
  std::string s="@echo off\ncd /w/x\n"; int n=0; for (auto& x: c.ops) { if (x.head()!="run") continue; Run r=parse(x,in); if (!valid(r,in)) continue; std::string i=num(n++); s+="("+line(r)+") > /w/s"+i+".txt 2> /w/e"+i+".txt\necho %errorlevel% > /w/r"+i+".txt\n"; }
  vfs_put("/w/t.bat",s); }
static std::string slurp(const std::string& p) { std::string s; vfs_read(p.c_str(),s); return s; }
static Verdict bad(const Run& r, const char* cls, const std::string& m) { Verdict v; v.cls=cls; v.msg="`"+line(r)+"`: "+m; for (auto& e: K->log) if (e.op=="ffault") v.msg+=" ["+N(e.a)+" "+N(e.b)+"]"; return v; }
static std::string unhead(std::string s, const VS& files) { for (auto& f: files) for (std::string h: {"---------- /w/x/"+f+"\n","---------- "+f+"\n"}) for (size_t k;(k=s.find(h))!=std::string::npos;) s.erase(k,h.size()); return s; }
static std::string trimr(const std::string& s) { std::string o; for (auto& l: lines(s)) { std::string x=l; while (!x.empty()&&x.back()==' ') x.pop_back(); o+=x+"\n"; } return o; }
// got is a + something + z
static bool around(const std::string& got, const std::string& a, const std::string& z) { return got.size()>=a.size()+z.size()&&got.compare(0,a.size(),a)==0&&got.compare(got.size()-z.size(),z.size(),z)==0; }
static Verdict check_text(const Case& c, int out) {
  Verdict v=basic_outcome(out); if (!v.ok()||out!=RES_OK) return v; auto in=inputs(c); int n=0;
  std::map<std::string,std::string> flt; for (auto& e: K->log) if (e.op=="ffault") { std::string p=N(e.b); flt[p.substr(p.rfind('/')+1)]=N(e.a); }
  for (auto& x: c.ops) { if (x.head()!="run") continue; Run r=parse(x,in); if (!valid(r,in)) continue; std::string i=num(n++), got=slurp("/w/s"+i+".txt"), err=slurp("/w/e"+i+".txt"), es=slurp("/w/r"+i+".txt"); if (es.empty()) return bad(r,"not-run","it left no error level"); int el=atoi(es.c_str());
    bool wild=false; for (auto& f: r.st[0].raw) if (f.find_first_of("*?")!=std::string::npos) wild=true;
    if (wild&&flt.count("x")&&!err.empty()) { if (r.st.size()==1&&el==0) return bad(r,"silent","the directory could not be read, but the error level is 0"); continue; }   // without a message the fault must have hit another run
    bool hit=false; for (auto& f: r.st[0].files) if (flt.count(f)) hit=true; if (flt.count(r.src)) hit=true;
    unsure=false; St s=r.st[0]; std::string want; int wel=0; bool nofile=std::count(s.files.begin(),s.files.end(),"nofile")>0; VS real; for (auto& f: s.files) if (f!="dir") real.push_back(f);
    if (hit&&r.st.size()==1&&!nofile&&r.how!="cat"&&r.how!="type") {               // a file could not be opened or read: the others still count
      // (the fault may have hit another run)
      if (real.empty()) { if (el!=0&&err.empty()&&s.cmd!="find") return bad(r,"silent","error level "+num(el)+" but no message"); if (s.cmd=="xargs") continue; if (el!=0&&el!=1) continue; std::string w=one(s,in[r.src],wel); if (unsure) continue; if (el==1&&wel==0&&!err.empty()) continue; if (el==0&&trimr(got)!=trimr(w)) return bad(r,"fault-ignored",diff_msg("output",w,got)+" (error level 0)"); continue; }
      std::string a, b; bool split=false; int any=0; bool wc=s.cmd=="wc"; Cnt t; if (wc&&s.opt.empty()) continue; if (wc&&s.opt.find_first_not_of('c')==std::string::npos) continue;
      for (auto& f: real) { int e1; std::string w; if (wc) { Cnt k=count(in[f]); w=f_wc(k,s.opt,f); } else w=one(s,in[f],e1=0); (void)e1; if (flt.count(f)) { any++; if (any>1) { split=true; b.clear(); } else split=true; continue; } (split?b:a)+=w; }
      (void)t; if (unsure) continue; std::string g=wc?trimr(got):unhead(got,s.files); if (wc) { VS l=lines(g); g.clear(); for (auto& q: l) if (q.find(" Total")==std::string::npos) g+=q+"\n"; }
      if (!around(g,a,b)) return bad(r,"others-lost","the files that could be read are not all there: "+diff_msg("output",a+"..."+b,g));
      if (el!=0&&s.cmd!="find"&&err.empty()) return bad(r,"silent","error level "+num(el)+" but no message");
      if (el==0) { std::string w; int e2; for (auto& f: real) w+=wc?f_wc(count(in[f]),s.opt,f):one(s,in[f],e2); if (g!=w) return bad(r,"fault-ignored",diff_msg("output",w,g)+" (error level 0)"); }
      continue; }
    if (hit) continue;
    if (nofile) { if (r.st.size()>1) continue; if (el==0||err.empty()) return bad(r,"no-match-ignored",el?"no message about the name without match":"error level 0 although a name matches nothing"); continue; }
    if (!real.empty()) {
      if (s.cmd=="wc") { Cnt t; for (auto& f: real) { Cnt k=count(in[f]); want+=f_wc(k,s.opt,f); t.l+=k.l; t.w+=k.w; t.b+=k.b; t.m+=k.m; } if (real.size()>1) want+=f_wc(t,s.opt,"Total"); }
      else for (auto& f: real) { int e1; want+=one(s,in[f],e1); wel|=e1; } }
    else want=one(s,in[r.src],wel);
    bool multi=real.size()>1&&(s.cmd=="type"||s.cmd=="find"); if (multi&&r.st.size()>1) { unsure=true; }
    for (size_t k=1;k<r.st.size();k++) want=one(r.st[k],want,wel);
    if (unsure) continue; std::string g=multi?unhead(got,s.files):got; if (r.st.back().cmd=="xargs"&&r.st.back().str=="echo") for (auto* p: {&g,&want}) { size_t k=1; while (k<p->size()&&(*p)[k]==' ') k++; if (p->size()>1) p->erase(1,k-1); } bool wc=false; for (auto& q: r.st) if (q.cmd=="wc") wc=true; if (wc) { g=trimr(g); want=trimr(want); }
    if (g!=want) return bad(r,"output",diff_msg("output",want,g)); if ((el!=0)!=(wel!=0)) return bad(r,"errorlevel","error level "+num(el)+" instead of "+num(wel)); if (el==0&&!err.empty()&&!multi) return bad(r,"message","message without failure: "+err.substr(0,80)); }
  return v; }

// ---- generator ---------------------------------------------------------------------------------
static const char* KIND[]={"word","u8","edge","plain","sym"};
static std::string pick(Rng& r, const std::string& body, bool ascii) { for (int t=0;t<20;t++) { if (body.empty()) break; size_t k=r.below(body.size()), m=r.range(1,3); std::string s=body.substr(k,m); bool ok=!s.empty(); for (unsigned char ch: s) if (!(isalnum(ch)||(!ascii&&ch==' '))) ok=false; if (ok) return s; } return r.chance(0.5)?"a":"zz"; }
static void gen_text(Rng& r, Case& c) {
  swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; if (r.chance(0.7)) c.cfg.p[D_SHORT_READ]=r.chance(0.5)?0.3:0.9; if (r.chance(0.5)) c.cfg.p[D_SHORT_WRITE]=0.3;
  int nf=r.range(1,4); VS nm; std::vector<std::string> kd; std::map<std::string,std::string> body; for (int i=0;i<nf;i++) { std::string f="f"+num(i), k=r.chance(0.08)?"bin":KIND[r.below(5)]; int n=r.chance(0.1)?0:r.range(1,r.chance(0.2)?40:8), len=r.chance(0.2)?300:r.range(1,40), nl=r.chance(0.6), sd=r.range(1,9999); c.ops.push_back(L("file",f,k,n,len,nl,sd)); nm.push_back(f); kd.push_back(k); body[f]=text(k,n,len,nl,sd); }
  bool fl=r.chance(0.35); if (fl) { static const DKind ks[]={D_EACCES_OPEN,D_EMFILE,D_EIO_READ}; DKind k=ks[r.below(3)]; c.cfg.p[k]=r.chance(0.5)?0.1:0.3; c.cfg.max_faults[k]=r.range(1,2); }
  int nr=r.range(1,3); for (int i=0;i<nr;i++) { Sx run=L("run"); int k=r.below(nf); bool files=r.chance(0.45); int ns=files?(r.chance(0.2)?2:1):r.range(1,r.chance(0.3)?4:2); VS use, args;
    if (!files) { run.k.push_back(L("in",r.chance(0.4)?"<":r.chance(0.5)?"cat":"type",nm[k])); use.push_back(nm[k]); } else { int m=r.chance(0.4)?1:r.range(2,4); for (int j=0;j<m;j++) { if (r.chance(0.15)) { int q=r.below(3); args.push_back(q==0?"f*":q==1?"f?":"f0*"); if (q==2) use.push_back("f0"); else for (auto& f: nm) use.push_back(f); } else { use.push_back(nm[r.below(nf)]); args.push_back(use.back()); } } }
    bool bin=false; std::string all; for (auto& f: use) { if (body[f].find('\0')!=std::string::npos||kd[f[1]-'0']=="bin") bin=true; all+=body[f]; }
    for (int j=0;j<ns;j++) { bool last=j+1==ns; int w=r.below(bin?4:12); Sx st;
      if (w<2||(w<4&&!last)) st=L("type"); else if (w<4) { st=L("wc"); for (char o: {'l','w','c','m'}) if (r.chance(0.4)) st.k.push_back(L("o",std::string(1,o))); }
      else if (w<8) { st=L("find"); bool e=r.chance(0.2), ic=r.chance(0.3); if (r.chance(0.25)) st.k.push_back(L("o","v")); if (r.chance(0.3)) st.k.push_back(L("o",r.chance(0.5)?"c":"n")); if (ic) st.k.push_back(L("o","i")); std::string s=pick(r,all,e||ic); bool asc=true; for (unsigned char ch: all) if (ch>126) asc=false; if (e&&asc) { st.k.push_back(L("o","e")); int q=r.below(4); s=q==0?"*"+s+"*":q==1?s+"*":q==2?"*"+s:s.substr(0,1)+"?"; } st.k.push_back(L("s",s)); }
      else if (w<10||!last||files) st=L(w<11?"more":r.chance(0.5)?"cat":"upper"); else { st=L("xargs"); st.k.push_back(L("s",r.chance(0.6)?"args":"echo")); }
      if (j==0&&files) { if (st.head()=="cat"||st.head()=="upper"||st.head()=="xargs") st=L("more"); for (auto& f: args) st.k.push_back(L("f",f)); if (r.chance(0.08)) st.k.push_back(L("f","nofile")); if (r.chance(0.08)&&st.head()!="wc") st.k.push_back(L("f","dir")); }
      run.k.push_back(st); if (st.head()=="wc"||st.head()=="find") bin=false; }
    c.ops.push_back(run); } }
static bool nt_text(const Case& c) { auto in=inputs(c); for (auto& x: c.ops) if (x.head()=="run"&&valid(parse(x,in),in)) return true; return false; }
static Reg rf6({"F06","one to three runs of TYPE, FIND, WC, MORE and XARGS, alone over files or in chains of up to four pipeline stages fed by <, an external program or TYPE; texts with lines of every length around the buffer and screen sizes, no final newline, UTF-8, binary bytes, command characters; random chunks from every read and write; files that cannot be opened or read; output and error level against an executable specification of each command",gen_text,setup_text,check_text,nt_text,nullptr,nullptr});
