// F01-F04, D01: commands on files and directories.
//
// A case is a list of independent operations.  Operation i works in its own
// directory /w/x/o<i>, whose initial tree and command line are described in
// the case.  What the command has to leave behind follows from the same
// description by the small models below.  I/O faults hit only what is under
// /w/x, so the script itself and the files its results go to never fail.
#include "model.h"
#include <sstream>
#include <algorithm>
static std::string num(int i) { return std::to_string(i); }
static std::string content(int size, int seed) { Rng r(seed*7919+17); std::string s; s.reserve(size); for (int i=0;i<size;i++) s+=(char)(r.chance(0.1)?'\n':r.next()>>13); return s; }

// ---- trees ---------------------------------------------------------------------------------
struct Tree {
  std::map<std::string,std::string> f; std::set<std::string> d;
  bool isdir(const std::string& p) const { return p.empty()||d.count(p); }
  bool isfile(const std::string& p) const { return f.count(p); }
  void mkdirs(const std::string& p) { for (size_t i=0;i<=p.size();i++) if (i&&(i==p.size()||p[i]=='/')) d.insert(p.substr(0,i)); }
  bool operator==(const Tree& o) const { return f==o.f&&d==o.d; }
};
static std::string dirof(const std::string& p) { size_t k=p.rfind('/'); return k==std::string::npos?"":p.substr(0,k); }
static std::string base(const std::string& p) { size_t k=p.rfind('/'); return k==std::string::npos?p:p.substr(k+1); }
static std::string join(const std::string& a, const std::string& b) { return a.empty()?b:a+"/"+b; }
static bool below(const std::string& p, const std::string& dir) { return dir.empty()?!p.empty():p.size()>dir.size()&&p.compare(0,dir.size(),dir)==0&&p[dir.size()]=='/'; }
static std::string tree_diff(const Tree& want, const Tree& got) {
  for (auto& x: want.f) { auto it=got.f.find(x.first); if (it==got.f.end()) return "file "+x.first+" is missing"; if (it->second!=x.second) return "file "+x.first+" has other contents ("+num(it->second.size())+" bytes instead of "+num(x.second.size())+")"; }
  for (auto& x: got.f) if (!want.f.count(x.first)) return "file "+x.first+" should not be there";
  for (auto& x: want.d) if (!got.d.count(x)) return "directory "+x+" is missing";
  for (auto& x: got.d) if (!want.d.count(x)) return "directory "+x+" should not be there";
  return ""; }

// ---- operations ----------------------------------------------------------------------------
struct Op { int i; std::string kind, dir; Tree t; std::vector<std::string> args; std::string dst, opts, name; bool hasdst=false, plus=false; std::set<std::string> dev; std::vector<std::pair<std::string,std::string>> muts; std::set<std::string> touched; };
static std::string norm(std::string s) {           // path as seen from the operation's directory
  if (s.compare(0,2,"@/")==0) s=s.substr(2); while (s.compare(0,2,"./")==0) s=s.substr(2);
  std::string r; for (char c: s) if (!(c=='/'&&!r.empty()&&r.back()=='/')) r+=c; while (!r.empty()&&r.back()=='/') r.pop_back(); return r=="."?"":r; }
static bool slash(const std::string& s) { return !s.empty()&&s.back()=='/'; }
static Op parse(const Sx& x, int i) {
  Op o; o.i=i; o.kind=x.head(); o.dir="/w/x/o"+num(i);
  for (size_t k=1;k<x.n();k++) { const Sx& y=x[k]; const std::string h=y.head();
    if (h=="f") { o.t.mkdirs(dirof(y.s(1))); if (!o.t.isdir(y.s(1))) o.t.f[y.s(1)]=content(y.i(2),y.i(3)); }
    else if (h=="d") { if (!o.t.isfile(y.s(1))) o.t.mkdirs(y.s(1)); }
    else if (h=="a") o.args.push_back(y.s(1)); else if (h=="dst") { o.dst=y.s(1); o.hasdst=true; } else if (h=="opt") o.opts+=y.s(1); else if (h=="plus") o.plus=true;
    else if (h=="name") o.name=y.s(1); else if (h=="dev") o.dev.insert(y.s(1)); else if (h=="mut") { o.muts.push_back({y.s(1),y.s(2)}); o.touched.insert(y.s(2)); } }
  for (auto i=o.dev.begin();i!=o.dev.end();) if (o.t.isdir(*i)) ++i; else i=o.dev.erase(i);
  std::set<std::string> up; for (auto m: o.touched) for (m=dirof(m);!m.empty();m=dirof(m)) if (!o.t.d.count(m)) up.insert(m);
  o.touched.insert(up.begin(),up.end());
  return o; }
static bool has(const Op& o, char c) { return o.opts.find(c)!=std::string::npos; }
static std::string q(const Op& o, const std::string& a) { std::string s=a.compare(0,2,"@/")==0?o.dir+a.substr(1):a; return s.find(' ')!=std::string::npos?"\""+s+"\"":s; }
static std::string cmdline(const Op& o) {
  std::string s; auto args=[&](const char* sep){ std::string r; for (size_t i=0;i<o.args.size();i++) r+=(i?sep:" ")+q(o,o.args[i]); return r; };
  if (o.kind=="copy"||o.kind=="move") { s=o.kind+" /y"; if (has(o,'r')) s+=" /r"; s+=args(o.plus?" + ":" "); if (o.hasdst) s+=" "+q(o,o.dst); }
  else if (o.kind=="ren") { s="ren"+args(" ")+" "+q(o,o.name); }
  else if (o.kind=="del") { s="del"; if (has(o,'q')) s+=" /q"; if (has(o,'s')) s+=" /s"; if (has(o,'f')) s+=" /f"; s+=args(" "); }
  else if (o.kind=="rmdir") { s=has(o,'x')?"rd":"rmdir"; if (has(o,'s')) s+=" /s"; if (has(o,'q')) s+=" /q"; s+=args(" "); }
  else if (o.kind=="mkdir") { s=has(o,'x')?"md":"mkdir"; s+=args(" "); }
  else if (o.kind=="for") { s="for %%f in ("; for (size_t i=0;i<o.args.size();i++) s+=(i?" ":"")+q(o,o.args[i]); s+=") do echo %%f"; }
  else if (o.kind=="forr"||o.kind=="ford") { s=std::string("for /")+(o.kind=="forr"?"r":"d")+" "+q(o,o.name)+" %%f in ("+(o.args.empty()?"*":o.args[0])+") do echo %%f"; }
  else if (o.kind=="dir") { s=has(o,'f')?"dir":"dir /b"; if (has(o,'s')) s+=" /s"; if (has(o,'d')) s+=" /a:d"; if (has(o,'n')) s+=" /a:-d"; if (!o.args.empty()) s+=" "+q(o,o.args[0]); }
  return s; }

// ---- wildcards -----------------------------------------------------------------------------
// The documentation promises * for any sequence (also an empty one), ? for one
// character, runs of both being one *, and the shortest correspondence without
// backtracking; patterns for which backtracking matters are not generated.
static bool ambiguous;
static std::string squeeze(const std::string& p) { std::string r; for (size_t i=0;i<p.size();) { if (p[i]=='*') { r+='*'; while (i<p.size()&&(p[i]=='*'||p[i]=='?')) i++; } else r+=p[i++]; } return r; }
static bool eqc(char a, char b) { return toupper((unsigned char)a)==toupper((unsigned char)b); }
static bool bt(const char* p, const char* s) { if (!*p) return !*s; if (*p=='*') { for (;;s++) { if (bt(p+1,s)) return true; if (!*s) return false; } } if (!*s) return false; return (*p=='?'||eqc(*p,*s))&&bt(p+1,s+1); }
static bool lazy(const std::string& p, const std::string& s) {           // each literal run at its first occurrence, the last one at the end
  size_t i=0,j=0; while (i<p.size()&&p[i]!='*') { if (j>=s.size()||!(p[i]=='?'||eqc(p[i],s[j]))) return false; i++; j++; }
  while (i<p.size()) { i++; if (i==p.size()) return true; size_t e=p.find_first_of("*?",i); std::string lit=p.substr(i,e==std::string::npos?e:e-i);
    if (e==std::string::npos) { if (s.size()-j<lit.size()) return false; for (size_t k=0;k<lit.size();k++) if (!eqc(lit[k],s[s.size()-lit.size()+k])) return false; return true; }
    size_t k=j; for (;;k++) { if (k+lit.size()>s.size()) return false; bool ok=true; for (size_t m=0;m<lit.size();m++) ok=ok&&eqc(lit[m],s[k+m]); if (ok) break; } j=k+lit.size(); i=e;
    while (i<p.size()&&p[i]!='*') { if (j>=s.size()||!(p[i]=='?'||eqc(p[i],s[j]))) return false; i++; j++; } }
  return j==s.size(); }
static bool wild(const std::string& p0, const std::string& s) { std::string p=squeeze(p0); if (p0.find("?*")!=std::string::npos) ambiguous=true; bool a=bt(p.c_str(),s.c_str()); if (a!=lazy(p,s)) ambiguous=true; return a; }
static bool iswild(const std::string& s) { return s.find_first_of("*?")!=std::string::npos; }
static std::vector<std::string> children(const Tree& t, const std::string& dir) { std::vector<std::string> r; for (auto& x: t.f) if (dirof(x.first)==dir) r.push_back(x.first); for (auto& x: t.d) if (dirof(x)==dir) r.push_back(x); return r; }
// the entries pattern pat stands for; rec: also at any depth below; dirmode: a directory stands for its content
static std::vector<std::string> match(const Tree& t, const std::string& pat0, bool rec, bool dirmode) {
  std::string pat=norm(pat0); std::vector<std::string> r;
  auto deep=[&](const std::string& dir, const std::string& last) { for (auto& x: t.f) if (below(x.first,dir)&&wild(last,base(x.first))) r.push_back(x.first); for (auto& x: t.d) if (below(x,dir)&&wild(last,base(x))) r.push_back(x); };
  if (!iswild(pat)) {
    if (t.isdir(pat)) { if (!rec&&!dirmode) { r.push_back(pat); return r; } if (rec) deep(pat,"*"); else r=children(t,pat); if (!dirmode) r.push_back(pat); return r; }
    if (t.isfile(pat)) r.push_back(pat); return r; }
  std::vector<std::string> comp; std::istringstream is(pat); std::string c; while (std::getline(is,c,'/')) comp.push_back(c);
  std::vector<std::string> cur={""};
  for (size_t i=0;i+1<comp.size();i++) { std::vector<std::string> nx; for (auto& d: cur) for (auto& k: children(t,d)) if (t.isdir(k)&&(iswild(comp[i])?wild(comp[i],base(k)):comp[i]==base(k))) nx.push_back(k); cur=nx; }
  for (auto& d: cur) { if (!iswild(comp.back())) { ambiguous=true; continue; } if (rec) deep(d,comp.back()); else for (auto& k: children(t,d)) if (wild(comp.back(),base(k))) r.push_back(k); }
  return r; }

// ---- what each command leaves behind ---------------------------------------------------------
struct Exp { bool skip=false; Tree t; int el=0;                       // el: 0 zero, 1 nonzero, -1 either
  std::map<std::string,std::vector<std::string>> alts;                 // contents that depend on the order of a directory
  std::set<std::string> dests, srcs; std::vector<std::pair<std::string,std::string>> moves; std::set<std::string> named; std::vector<std::string> out; };
static bool canwrite(const Tree& t, const std::string& p) { return !p.empty()&&t.isdir(dirof(p))&&!t.isdir(p); }
static std::string devof(const Op& o, std::string p) { for (;;) { if (o.dev.count(p)) return p; if (p.empty()) return ""; p=dirof(p); } }
static void perms(const std::vector<std::vector<std::string>>& lists, const Tree& t, size_t i, const std::string& acc, std::vector<std::string>& out) {
  if (i==lists.size()) { out.push_back(acc); return; } std::vector<std::string> l=lists[i]; std::sort(l.begin(),l.end()); do { std::string s=acc; for (auto& x: l) s+=t.f.at(x); perms(lists,t,i+1,s,out); } while (std::next_permutation(l.begin(),l.end())); }
static void do_copy(const Op& o, Exp& e) {
  bool mv=o.kind=="move", rec=has(o,'r'); Tree& t=e.t; std::string dst=norm(o.dst);
  if (o.args.empty()||!o.hasdst||iswild(o.dst)||(o.plus&&(mv||o.args.size()<2))) { e.skip=true; return; }
  if (rec) {
    if (o.plus) { e.skip=true; return; }
    for (auto& a: o.args) { std::string p=norm(a); std::string st=iswild(p)?dirof(p.substr(0,p.find_first_of("*?"))+"x"):dirof(p); for (auto& b: o.args) if (&b!=&a) e.skip=true;
      if (dst.empty()||below(dst,p)||below(p,dst)||p==dst||(below(dst,st)&&!st.empty())) { e.skip=true; return; }
      std::vector<std::string> m=match(t,a,true,true); if (m.empty()) { e.el=1; continue; } std::vector<std::string> fs, ds; for (auto& x: m) { if (x==dst||below(x,dst)) { e.skip=true; return; } (t.isdir(x)?ds:fs).push_back(x); }
      auto rel=[&](const std::string& x) { return st.empty()?x:x.substr(st.size()+1); };
      auto mk=[&](const std::string& x) { std::string cur; std::istringstream is(x); std::string c; while (std::getline(is,c,'/')) { cur=join(cur,c); if (t.isfile(cur)) return false; t.d.insert(cur); } return true; };
      for (auto& x: ds) { if (!mk(join(dst,rel(x)))) e.el=1; e.named.insert(join(dst,rel(x))); }
      for (auto& x: fs) { std::string y=join(dst,rel(x)); if (!mv) { e.srcs.insert(x); e.dests.insert(y); } if (!canwrite(t,y)) { e.el=1; continue; } if (mv) { e.moves.push_back({x,y}); if (devof(o,x)!=devof(o,y)) { e.el=1; continue; } if (t.isfile(y)&&x!=y) { e.skip=true; return; } t.f[y]=t.f[x]; t.f.erase(x); } else t.f[y]=t.f[x]; }
      if (mv) { std::sort(ds.begin(),ds.end()); std::reverse(ds.begin(),ds.end()); for (auto& x: ds) { if (children(t,x).empty()) t.d.erase(x); else e.el=1; } } }
    return; }
  std::vector<std::vector<std::string>> lists; std::vector<std::string> files; bool wildmany=false;
  for (auto& a: o.args) { std::vector<std::string> m=match(t,a,false,false); if (iswild(a)&&norm(a).find('/')!=std::string::npos&&iswild(dirof(norm(a)))) { e.skip=true; return; }
    if (m.empty()) { if (iswild(a)&&(base(a)=="*"||wild(base(a),".")||wild(base(a),".."))) { e.skip=true; return; } e.el=1; return; }
    std::vector<std::string> fs; for (auto& x: m) if (t.isfile(x)) fs.push_back(x); if (fs.size()>1) wildmany=true; lists.push_back(fs); for (auto& x: fs) files.push_back(x); }
  if (files.empty()) { e.skip=true; return; }
  for (auto& x: files) e.srcs.insert(x);
  bool multiple=t.isdir(dst)||slash(o.dst), cat=o.plus;
  if (files.size()>1) { if (!multiple&&!mv) cat=true; else multiple=true; }
  if (cat) {
    for (size_t i=1;i<files.size();i++) if (files[i]==dst) { if (wildmany) { e.skip=true; return; } e.el=1; return; }
    if (wildmany&&files[0]==dst) { e.skip=true; return; }
    e.dests.insert(dst); if (!canwrite(t,dst)||slash(o.dst)) { e.el=1; return; }
    if (files.size()>5) { e.skip=true; return; }
    std::vector<std::string> al; perms(lists,t,0,"",al); t.f[dst]=al[0]; if (al.size()>1) e.alts[dst]=al; return; }
  std::set<std::string> seen;
  for (auto& x: files) { std::string y=multiple?join(dst,base(x)):dst; if (!seen.insert(y).second&&x!=y&&mv) { e.skip=true; return; }
    if (!mv) { e.dests.insert(y); if (x==y||!canwrite(t,y)||(!multiple&&slash(o.dst))) e.el=1; else if (t.isfile(x)) t.f[y]=t.f[x]; continue; }
    e.moves.push_back({x,y}); if (!t.isfile(x)||!canwrite(t,y)||devof(o,x)!=devof(o,y)) { e.el=1; continue; } if (x==y) continue; for (auto& z: files) if (z!=x&&z==y) { e.skip=true; return; } t.f[y]=t.f[x]; t.f.erase(x); }
  if (!mv) for (auto& y: e.dests) for (auto& x: e.srcs) if (x==y&&wildmany&&false) e.skip=true; }
static Exp eval(const Op& o) {
  Exp e; e.t=o.t; Tree& t=e.t; ambiguous=false;
  if (o.kind=="copy"||o.kind=="move") do_copy(o,e);
  else if (o.kind=="ren") { if (o.args.size()!=1||o.name.empty()||iswild(o.args[0])||o.name.find('/')!=std::string::npos) { e.skip=true; return e; } std::string x=norm(o.args[0]), y=join(dirof(x),o.name);
    if (t.isfile(x)) { e.moves.push_back({x,y}); if (t.isdir(y)) e.el=1; else if (x!=y) { t.f[y]=t.f[x]; t.f.erase(x); } }
    else if (!x.empty()&&t.isdir(x)) { if (x==y) return e; if (t.isfile(y)||(t.isdir(y)&&!children(t,y).empty())) { e.el=1; return e; } std::map<std::string,std::string> nf; std::set<std::string> nd; for (auto& k: t.f) nf[below(k.first,x)?y+k.first.substr(x.size()):k.first]=k.second; for (auto& k: t.d) nd.insert(k==x||below(k,x)?y+k.substr(x.size()):k); for (auto& k: t.f) if (below(k.first,x)) e.moves.push_back({k.first,y+k.first.substr(x.size())}); t.f=nf; t.d=nd; }
    else e.el=1; }
  else if (o.kind=="del") { if (o.args.empty()) { e.skip=true; return e; } std::set<std::string> gone; for (auto& a: o.args) { if (iswild(a)&&!has(o,'q')) { e.skip=true; return e; } auto m=match(o.t,a,has(o,'s'),true); if (m.empty()) { e.el=1; continue; } for (auto& x: m) if (o.t.isfile(x)) { e.named.insert(x); if (!gone.insert(x).second) e.el=1; } } for (auto& x: gone) t.f.erase(x); }
  else if (o.kind=="rmdir") { if (o.args.empty()) { e.skip=true; return e; } bool s=has(o,'s'); if ((s||o.args.size()>1)&&!has(o,'q')) { e.skip=true; return e; } std::set<std::string> seen;
    for (auto& a: o.args) { std::string p=norm(a); if (iswild(p)||p.empty()) { e.skip=true; return e; } for (auto& x: seen) if (x==p||below(x,p)||below(p,x)) { e.skip=true; return e; } seen.insert(p); if (!t.isdir(p)) { e.el=1; continue; } e.named.insert(p);
      if (!s) { if (children(t,p).empty()) t.d.erase(p); else e.el=1; continue; }
      for (auto it=t.f.begin();it!=t.f.end();) if (below(it->first,p)) { e.named.insert(it->first); it=t.f.erase(it); } else ++it; for (auto it=t.d.begin();it!=t.d.end();) if (*it==p||below(*it,p)) { e.named.insert(*it); it=t.d.erase(it); } else ++it; } }
  else if (o.kind=="mkdir") { if (o.args.empty()) { e.skip=true; return e; } for (auto& a: o.args) { std::string p=norm(a), cur, c; if (iswild(p)||p.empty()) { e.skip=true; return e; } std::istringstream is(p); bool ok=true; while (std::getline(is,c,'/')) { cur=join(cur,c); if (t.isfile(cur)) { ok=false; break; } t.d.insert(cur); } if (!ok) e.el=1; } }
  else if (o.kind=="for") { e.el=-1; for (auto& a: o.args) { if (!iswild(a)) { e.out.push_back(a.compare(0,2,"@/")==0?o.dir+a.substr(1):a); continue; } for (auto& x: match(t,a,false,false)) if (t.isfile(x)) e.out.push_back(a.compare(0,2,"@/")==0?o.dir+"/"+x:x); } }
  else if (o.kind=="forr"||o.kind=="ford") { e.el=-1; if (o.name.empty()||iswild(o.name)||o.args.size()!=1) { e.skip=true; return e; } bool abs=o.name.compare(0,2,"@/")==0; if (!iswild(o.args[0])&&t.isdir(join(norm(o.name),o.args[0]))) { e.skip=true; return e; } for (auto& x: match(t,join(norm(o.name),o.args[0]),true,true)) if (t.isdir(x)==(o.kind=="ford")) e.out.push_back(abs?o.dir+"/"+x:x); if (!iswild(o.args[0])) e.skip=true; }
  else if (o.kind=="dir") { std::string a=o.args.empty()?"*":o.args[0]; bool abs=a.compare(0,2,"@/")==0; for (auto& x: match(t,a,has(o,'s'),true)) { if (has(o,'d')&&!t.isdir(x)) continue; if (has(o,'n')&&t.isdir(x)) continue; e.out.push_back(abs?o.dir+"/"+x:x); } e.el=-1; }
  else e.skip=true;
  if (ambiguous) e.skip=true;
  return e; }

// ---- running -----------------------------------------------------------------------------------
static Tree read_tree(const std::string& dir) { Tree t; std::vector<std::string> l; vfs_list(l,dir.c_str()); for (auto& p: l) { std::string r=p.substr(dir.size()+1); if (r.back()=='/') { r.pop_back(); t.d.insert(r); } else { std::string s; vfs_read(p.c_str(),s); t.f[r]=s; } } return t; }
static void setup_files(const Case& c, RunSpec& rs) {
  (void)rs; std::string s="@echo off\n", conc; bool cc=c.pi("conc"); int n=0; std::vector<std::string> muts; vfs_mkdirs("/w/x"); K->fault_root=vfs_get("/w/x");
  for (auto& x: c.ops) { Op o=parse(x,n); Exp e=eval(o); std::string i=num(n); n++; vfs_mkdirs(o.dir.c_str());
    for (auto& d: o.t.d) { Node* nd=vfs_mkdirs((o.dir+"/"+d).c_str()); (void)nd; } for (auto& f: o.t.f) vfs_put((o.dir+"/"+f.first).c_str(),f.second);
    for (auto& d: o.dev) if (o.t.isdir(d)) { std::vector<Node*> st={vfs_get((o.dir+"/"+d).c_str())}; while (!st.empty()) { Node* k=st.back(); st.pop_back(); k->dev=2; for (auto& z: k->kids) st.push_back(z.second); } }
    for (auto& m: o.muts) muts.push_back(m.first+" "+o.dir+"/"+m.second+(m.first=="put"?" changed by another process":""));
    if (e.skip) continue;
    for (auto& m: e.moves) { if (o.touched.count(m.first)||o.touched.count(m.second)) continue; Kern::Watch w; w.data=S(o.t.f[m.first]); w.paths.push_back(S(o.dir+"/"+m.first)); w.paths.push_back(S(o.dir+"/"+m.second)); bool lost=false; for (auto& z: e.moves) if (z.second==m.first) lost=true; if (!lost) K->watch.push_back(w); }
    std::string io=" > /w/s"+i+".txt 2> /w/e"+i+".txt";
    if (cc) conc+=(conc.empty()?"(cd ":"|(cd ")+o.dir+"&("+cmdline(o)+")"+io+"&echo !errorlevel! > /w/r"+i+".txt)";
    else s+="cd "+o.dir+"\n("+cmdline(o)+")"+io+"\necho %errorlevel% > /w/r"+i+".txt\n"; }
  if (cc) s+=conc+"\n";
  if (!c.ops.empty()&&c.ps("tail","").size()) s+=c.ps("tail");
  for (size_t i=0;i<muts.size();i++) K->mutations.push_back(S(muts[i])); vfs_put("/w/t.bat",s); }
struct Flt { std::string kind, path; };
static std::vector<Flt> faults(const Op& o) { std::vector<Flt> r; for (auto& e: K->log) if (e.op=="ffault") { std::string p=N(e.b); if (p==o.dir) r.push_back({N(e.a),""}); else if (p.compare(0,o.dir.size()+1,o.dir+"/")==0) r.push_back({N(e.a),p.substr(o.dir.size()+1)}); } return r; }
static std::string slurp(const std::string& p) { std::string s; vfs_read(p.c_str(),s); return s; }
static Verdict bad(const Op& o, const char* cls, const std::string& m, const std::vector<Flt>& fl) { Verdict v; v.cls=cls; v.msg="`"+cmdline(o)+"`: "+m; for (auto& f: fl) v.msg+=" ["+f.kind+" "+f.path+"]"; return v; }
static bool crashed(int o) { return o==RES_KILLED||o==RES_POWER; }
// the part of F01/F03/F04 that does not depend on faults: exact result
static Verdict exact(const Op& o, const Exp& e, int el, const Tree& got, const std::vector<Flt>& fl) {
  Tree want=e.t; for (auto& a: e.alts) { auto it=got.f.find(a.first); if (it!=got.f.end()) for (auto& x: a.second) if (x==it->second) want.f[a.first]=x; }
  std::string d=tree_diff(want,got); if (!d.empty()) return bad(o,"tree",d+" (error level "+num(el)+")",fl);
  if (e.el>=0&&(el!=0)!=(e.el!=0)) return bad(o,"errorlevel",e.el?"error level 0 although it could not do all that was asked":"error level "+num(el)+" although all went well",fl);
  return Verdict(); }
static Verdict run_check(const Case& c, int out, Verdict (*chk)(const Case& c, const Op& o, const Exp& e, int el, bool done, const Tree& got, const std::vector<Flt>& fl, bool crash)) {
  Verdict v=basic_outcome(out); if (!v.ok()) return v; if (out!=RES_OK&&!crashed(out)) return v; int n=0;
  for (auto& ev: K->log) if (ev.op=="lost") { v.cls="lost"; v.msg="after "+N(ev.b)+" the content of "+N(ev.a)+" was nowhere in full"; return v; }
  for (auto& x: c.ops) { Op o=parse(x,n++); Exp e=eval(o); if (e.skip) continue; std::string r=slurp("/w/r"+num(o.i)+".txt"); bool done=!r.empty()&&r.back()=='\n'; int el=atoi(r.c_str());
    if (!done&&!crashed(out)) return bad(o,"not-run","it left no error level",{});
    v=chk(c,o,e,el,done,read_tree(o.dir),faults(o),crashed(out)); if (!v.ok()) return v; }
  return v; }
static bool reported(const Op& o) { return !slurp("/w/e"+num(o.i)+".txt").empty(); }
static void sched(Rng& r, Case& c) { swarm_schedule(r,c.cfg); c.cfg.preempt_mean=0; c.cfg.p[D_MISC]=0.5; if (r.chance(0.6)) c.cfg.p[D_SHORT_READ]=0.3; if (r.chance(0.6)) c.cfg.p[D_SHORT_WRITE]=0.3; if (r.chance(0.25)) { c.set("conc",1); if (r.chance(0.4)) c.cfg.preempt_mean=100; } }
static void fault(Rng& r, Case& c, std::vector<DKind> ks, double share) { if (!r.chance(share)) return; int n=r.range(1,2); for (int i=0;i<n;i++) { DKind k=ks[r.below(ks.size())]; static const double p[]={0.3,0.1,0.03}; c.cfg.p[k]=p[r.below(3)]; c.cfg.max_faults[k]=r.range(1,3); } }
// ---- generators of trees and names
static const char* FN[]={"a.txt","b.txt","ab.txt","c.log","d.log","e","x y.txt","Abc.TXT","aab.b"};
static const char* DN[]={"p","q","pq","s t"};
static int fsize(Rng& r) { static const int s[]={0,1,10,100,511,2047,2048,2049,4095,4096,6000,10000}; return r.chance(0.8)?s[r.below(12)]:r.below(9000); }
static std::string dname(Rng& r, int depth=2) { std::string d=DN[r.below(4)]; if (depth>1&&r.chance(0.3)) d+="/"+std::string(DN[r.below(4)]); return d; }
static void gtree(Rng& r, Sx& op, int nf, bool small=false) { for (int i=0;i<nf;i++) { std::string p=r.chance(0.45)?std::string(FN[r.below(9)]):dname(r)+"/"+FN[r.below(9)]; op.k.push_back(L("f",p,small?(int)r.range(0,40):fsize(r),(int)r.range(1,999))); } int nd=r.below(3); for (int i=0;i<nd;i++) op.k.push_back(L("d",dname(r))); }
static std::vector<std::string> filesof(const Sx& op) { std::vector<std::string> v; Op o=parse(op,0); for (auto& f: o.t.f) v.push_back(f.first); return v; }
static std::vector<std::string> dirsof(const Sx& op) { std::vector<std::string> v; Op o=parse(op,0); for (auto& f: o.t.d) v.push_back(f); return v; }
static std::string pat(Rng& r) { static const char* p[]={"*","*.txt","a*","?.log","*.l?g","a*.txt","e*","*b*","?.txt","*.t*","zz*","A*","a.t?t","*.*","??.txt","ab.txt*"}; return p[r.below(16)]; }
static std::string vary(Rng& r, const std::string& s) { return r.chance(0.15)?"@/"+s:r.chance(0.08)?"./"+s:s; }
static std::string anyfile(Rng& r, const Sx& op) { auto v=filesof(op); return v.empty()||r.chance(0.06)?std::string("none.txt"):v[r.below(v.size())]; }
static std::string anydir(Rng& r, const Sx& op) { auto v=dirsof(op); return v.empty()||r.chance(0.06)?std::string("nodir"):v[r.below(v.size())]; }
static std::string wpat(Rng& r, const Sx& op) { return r.chance(0.5)?pat(r):join(anydir(r,op),pat(r)); }

// ---- F01 / F02: COPY -------------------------------------------------------------------------------
static Sx gcopy(Rng& r) { Sx op=L("copy"); gtree(r,op,r.range(1,6)); int k=r.below(10); std::string newname=r.chance(0.5)?"out.bin":r.chance(0.6)?std::string(FN[r.below(9)]):join(anydir(r,op),"new.bin");
  if (k<3) { op.k.push_back(L("a",vary(r,anyfile(r,op)))); op.k.push_back(L("dst",vary(r,r.chance(0.7)?newname:anydir(r,op)+(r.chance(0.5)?"/":"")))); }
  else if (k<5) { op.k.push_back(L("a",vary(r,wpat(r,op)))); if (r.chance(0.3)) op.k.push_back(L("a",r.chance(0.5)?anyfile(r,op):wpat(r,op))); op.k.push_back(L("dst",vary(r,r.chance(0.6)?anydir(r,op):newname))); }
  else if (k<7) { int n=r.range(2,4); for (int i=0;i<n;i++) op.k.push_back(L("a",vary(r,r.chance(0.9)?anyfile(r,op):pat(r)))); op.k.push_back(L("plus")); op.k.push_back(L("dst",r.chance(0.2)?anyfile(r,op):newname)); if (r.chance(0.15)) op.k[op.n()-1]=L("dst",parse(op,0).args[0]); }
  else if (k<8) { int n=r.range(2,4); for (int i=0;i<n;i++) op.k.push_back(L("a",anyfile(r,op))); op.k.push_back(L("dst",r.chance(0.6)?anydir(r,op):newname)); }
  else { op.k.push_back(L("a",r.chance(0.5)?anydir(r,op):r.chance(0.5)?anydir(r,op)+"/"+pat(r):std::string("*"))); op.k.push_back(L("opt","r")); op.k.push_back(L("dst",r.chance(0.5)?"out":"out/deep")); if (r.chance(0.7)) op.k.push_back(L("d","out")); }
  return op; }
static const std::vector<DKind> COPYF={D_ENOSPC,D_EIO_READ,D_EIO_WRITE,D_EIO_FSYNC,D_EIO_CLOSE,D_EMFILE,D_EACCES_OPEN,D_MKDIR_FAIL,D_READDIR_FAIL};
static void gen_f01(Rng& r, Case& c) { sched(r,c); int n=r.range(1,4); for (int i=0;i<n;i++) c.ops.push_back(gcopy(r)); fault(r,c,COPYF,0.65); }
// which of the faults must make the command fail
static bool fatal(const Flt& f, const Exp& e) { if (f.kind=="eio_read") return e.srcs.count(f.path); if (f.kind=="enospc"||f.kind=="eio_write"||f.kind=="eio_fsync"||f.kind=="eio_close") return e.dests.count(f.path); if (f.kind=="eacces_open") return e.srcs.count(f.path)||e.dests.count(f.path); return false; }
static Verdict chk_f01(const Case&, const Op& o, const Exp& e, int el, bool done, const Tree& got, const std::vector<Flt>& fl, bool) {
  if (fl.empty()) { if (!done) return Verdict(); Verdict v=exact(o,e,el,got,fl); if (!v.ok()) return v; if (el&&!reported(o)) return bad(o,"silent","error level "+num(el)+" without a message",fl); return v; }
  if (done&&el==0) { Verdict v=exact(o,e,el,got,fl); if (!v.ok()) { v.cls="success-reported"; return v; } for (auto& f: fl) if (fatal(f,e)) return bad(o,"fault-ignored","error level 0 although a system call failed",fl); }
  if (done&&el&&!reported(o)) return bad(o,"silent","error level "+num(el)+" without a message",fl);
  bool hidden=false; for (auto& f: fl) if (f.kind=="readdir_fail"||f.kind=="emfile") hidden=true;
  for (auto& f: o.t.f) { if (e.dests.count(f.first)||(hidden&&f.first==norm(o.dst))) continue; auto it=got.f.find(f.first); if (it==got.f.end()||it->second!=f.second) return bad(o,"source","file "+f.first+" was changed",fl); }
  for (auto& f: got.f) if (!o.t.f.count(f.first)&&!e.dests.count(f.first)) return bad(o,"extra-file","file "+f.first+" was made",fl);
  return Verdict(); }
static Verdict check_f01(const Case& c, int o) { return run_check(c,o,chk_f01); }
static bool nt_files(const Case& c) { int n=0; for (auto& x: c.ops) { Op o=parse(x,n++); if (!eval(o).skip) return true; } return false; }
static void gen_f02(Rng& r, Case& c) { gen_f01(r,c); c.cfg.crash_power=true; if (r.chance(0.7)) { c.cfg.p[D_CRASH]=0.004; } }
static Verdict chk_f02(const Case&, const Op& o, const Exp& e, int el, bool done, const Tree&, const std::vector<Flt>& fl, bool crash) {
  if (!done||el) return Verdict();
  for (auto& d: e.dests) { if (!e.t.f.count(d)) continue; Node* n=vfs_get((o.dir+"/"+d).c_str()); std::vector<std::string> al; auto it=e.alts.find(d); if (it!=e.alts.end()) al=it->second; else al.push_back(e.t.f.at(d)); bool ok=false; if (n&&!n->dir) { std::string s(n->synced.begin(),n->synced.end()); for (auto& x: al) if (x==s) ok=true; }
    if (!ok) return bad(o,"not-durable","it reported success, but "+d+" has not been flushed"+(crash?" when the power failed":""),fl); }
  return Verdict(); }
static Verdict check_f02(const Case& c, int o) { return run_check(c,o,chk_f02); }

// ---- F03: MOVE and REN -----------------------------------------------------------------------------
static Sx gmove(Rng& r) { Sx op=L(r.chance(0.25)?"ren":"move"); gtree(r,op,r.range(1,6),r.chance(0.7)); std::string newname=r.chance(0.6)?"out.bin":r.chance(0.5)?std::string(FN[r.below(9)]):join(anydir(r,op),"new.bin");
  if (op.head()=="ren") { op.k.push_back(L("a",vary(r,r.chance(0.8)?anyfile(r,op):anydir(r,op)))); op.k.push_back(L("name",r.chance(0.7)?"new name.x":FN[r.below(9)])); return op; }
  int k=r.below(10);
  if (k<4) { op.k.push_back(L("a",vary(r,anyfile(r,op)))); op.k.push_back(L("dst",vary(r,r.chance(0.6)?newname:anydir(r,op)+(r.chance(0.5)?"/":"")))); }
  else if (k<8) { op.k.push_back(L("a",vary(r,wpat(r,op)))); if (r.chance(0.4)) op.k.push_back(L("a",r.chance(0.5)?anyfile(r,op):wpat(r,op))); op.k.push_back(L("dst",vary(r,r.chance(0.8)?anydir(r,op):newname))); }
  else { op.k.push_back(L("a",r.chance(0.5)?anydir(r,op):r.chance(0.5)?anydir(r,op)+"/"+pat(r):std::string("*"))); op.k.push_back(L("opt","r")); op.k.push_back(L("dst",r.chance(0.5)?"out":"out/deep")); if (r.chance(0.7)) op.k.push_back(L("d",r.chance(0.5)?"out":"out/b")); }
  if (r.chance(0.12)) op.k.push_back(L("dev",anydir(r,op)));
  return op; }
static void gen_f03(Rng& r, Case& c) { sched(r,c); int n=r.range(1,4); for (int i=0;i<n;i++) c.ops.push_back(gmove(r)); fault(r,c,{D_RENAME_FAIL,D_RENAME_FAIL,D_UNLINK_FAIL,D_MKDIR_FAIL,D_ENOSPC,D_EIO_WRITE,D_EIO_CLOSE,D_EACCES_OPEN},0.55); if (r.chance(0.35)) { c.cfg.p[D_CRASH]=0.005; c.cfg.crash_power=r.chance(0.5); } }
static Verdict chk_f03(const Case&, const Op& o, const Exp& e, int el, bool done, const Tree& got, const std::vector<Flt>& fl, bool crash) {
  if (fl.empty()&&done) { Verdict v=exact(o,e,el,got,fl); if (!v.ok()) return v; }
  if (done&&el==0) { Verdict v=exact(o,e,el,got,fl); if (!v.ok()) { v.cls="success-reported"; return v; } for (auto& f: fl) if (f.kind=="rename_fail") for (auto& m: e.moves) if (m.first==f.path&&got.f.count(f.path)) return bad(o,"fault-ignored","error level 0 although renaming failed",fl); }
  if (done&&el&&!reported(o)) return bad(o,"silent","error level "+num(el)+" without a message",fl);
  std::set<std::string> over; for (auto& m: e.moves) over.insert(m.second);
  for (auto& f: o.t.f) { bool mv=false; std::string to; for (auto& m: e.moves) if (m.first==f.first) { mv=true; to=m.second; } if (over.count(f.first)&&!mv) continue;
    auto a=got.f.find(f.first); bool here=a!=got.f.end()&&a->second==f.second; bool there=false; if (mv) { auto b=got.f.find(to); there=b!=got.f.end()&&b->second==f.second; if (over.count(f.first)) continue; }
    if (!here&&!there) return bad(o,"lost","file "+f.first+" is gone"+(crash?" after the crash":""),fl);
    if (done&&mv) { bool failed=false; for (auto& x: fl) if (x.kind=="rename_fail"&&x.path==f.first) failed=true; if (failed&&!here&&el) return bad(o,"failed-moved","renaming "+f.first+" failed, and it is not in its place",fl); } }
  return Verdict(); }
static Verdict check_f03(const Case& c, int o) { return run_check(c,o,chk_f03); }

// ---- F04: DEL, RMDIR, MKDIR ---------------------------------------------------------------------------
static Sx gdel(Rng& r) { int w=r.below(10); Sx op=L(w<5?"del":w<8?"rmdir":"mkdir"); gtree(r,op,r.range(1,8),true);
  if (op.head()=="del") { int n=r.range(1,3); bool wild=r.chance(0.6); if (wild) op.k.push_back(L("opt","q")); if (r.chance(0.3)) op.k.push_back(L("opt","s")); for (int i=0;i<n;i++) op.k.push_back(L("a",vary(r,r.chance(0.15)?anydir(r,op):wild&&r.chance(0.7)?(r.chance(0.15)?std::string("*/")+pat(r):wpat(r,op)):anyfile(r,op)))); }
  else if (op.head()=="rmdir") { int n=r.chance(0.5)?1:r.range(2,3); bool s=r.chance(0.65); if (s) op.k.push_back(L("opt","s")); if (s||n>1) op.k.push_back(L("opt","q")); if (r.chance(0.3)) op.k.push_back(L("opt","x")); for (int i=0;i<n;i++) op.k.push_back(L("a",vary(r,r.chance(0.85)?anydir(r,op):anyfile(r,op)))); }
  else { int n=r.range(1,3); if (r.chance(0.3)) op.k.push_back(L("opt","x")); for (int i=0;i<n;i++) op.k.push_back(L("a",vary(r,r.chance(0.3)?anydir(r,op):r.chance(0.4)?join(anydir(r,op),"n"+num(r.below(3))):r.chance(0.2)?anyfile(r,op)+(r.chance(0.5)?"/n":""):r.chance(0.5)?"n"+num(r.below(3)):"n"+num(r.below(3))+"/m"+num(r.below(2))+"/z z"))); }
  return op; }
static void gm(Sx& op, const char* what, const std::string& p) { if (p.find(' ')==std::string::npos) op.k.push_back(L("mut",what,p)); }
static void gmut(Rng& r, Sx& op) { int n=r.range(1,3); for (int i=0;i<n;i++) { if (r.chance(0.5)) gm(op,"put",r.chance(0.5)?"m"+num(i)+".txt":join(anydir(r,op),"m"+num(i)+".txt")); else gm(op,"rm",anyfile(r,op)); } }
static void gen_f04(Rng& r, Case& c) { sched(r,c); int n=r.range(1,4); bool m=r.chance(0.25); for (int i=0;i<n;i++) { Sx op=gdel(r); if (m) gmut(r,op); c.ops.push_back(op); } if (m) { c.cfg.p[D_MUTATE]=0.03; c.cfg.max_faults[D_MUTATE]=100; } else fault(r,c,{D_UNLINK_FAIL,D_UNLINK_FAIL,D_MKDIR_FAIL,D_READDIR_FAIL,D_EMFILE},0.55); }
static Verdict chk_f04(const Case&, const Op& o, const Exp& e, int el, bool done, const Tree& got, const std::vector<Flt>& fl, bool) {
  if (!done) return Verdict();
  if (fl.empty()&&o.muts.empty()) { Verdict v=exact(o,e,el,got,fl); if (!v.ok()) return v; if (el&&!reported(o)) return bad(o,"silent","error level "+num(el)+" without a message",fl); return v; }
  // entries other processes or failures had to do with, and the directories above them, may be either way
  std::set<std::string> loose; bool opaque=false, failed=false;
  auto up=[&](std::string p) { for (;;) { loose.insert(p); if (p.empty()) break; p=dirof(p); } };
  for (auto& m: o.muts) up(m.second);
  for (auto& f: fl) { if (f.kind=="unlink_fail") { failed=true; up(f.path); } else if (f.kind=="readdir_fail"||f.kind=="emfile") opaque=true; }
  for (auto& ev: K->log) if (ev.op=="mkdir"&&ev.r<0&&N(ev.a).compare(0,o.dir.size(),o.dir)==0) { failed=true; std::string p=norm(N(ev.a).substr(o.dir.size()+1)); loose.insert(p); for (auto& d: e.t.d) if (below(d,p)) loose.insert(d); up(p); }
  if ((failed||opaque)&&el==0&&!(opaque&&!failed&&tree_diff(e.t,got).empty())) return bad(o,"fault-ignored","error level 0 although "+std::string(opaque?"a directory could not be read":"an entry could not be handled"),fl);
  if (el&&!reported(o)&&o.muts.empty()) return bad(o,"silent","error level "+num(el)+" without a message",fl);
  for (auto& f: o.t.f) { if (loose.count(f.first)) continue; bool want=e.t.f.count(f.first), is=got.f.count(f.first); if (want&&!is) return bad(o,"removed","file "+f.first+" was removed",fl); if (!want&&is&&!opaque) return bad(o,"not-removed","file "+f.first+" was not removed",fl); }
  for (auto& d: o.t.d) { if (loose.count(d)) continue; bool want=e.t.d.count(d), is=got.d.count(d); if (want&&!is) return bad(o,"removed","directory "+d+" was removed",fl); if (!want&&is&&!opaque) { bool inner=false; for (auto& m: o.touched) if (below(m,d)) inner=true; if (!inner) return bad(o,"not-removed","directory "+d+" was not removed",fl); } }
  for (auto& d: e.t.d) if (!o.t.d.count(d)&&!loose.count(d)&&!got.d.count(d)) return bad(o,"not-made","directory "+d+" was not made",fl);
  for (auto& d: got.d) { bool t=false; for (auto& m: o.touched) t=t||below(d,m); if (t) loose.insert(d); }
  for (auto& d: got.d) if (!o.t.d.count(d)&&!e.t.d.count(d)&&!loose.count(d)) return bad(o,"made","directory "+d+" was made",fl);
  for (auto& f: got.f) if (!o.t.f.count(f.first)&&!loose.count(f.first)) return bad(o,"made","file "+f.first+" was made",fl);
  return Verdict(); }
static Verdict check_f04(const Case& c, int o) { return run_check(c,o,chk_f04); }

// ---- D01: listings ----------------------------------------------------------------------------------
static Sx glist(Rng& r) { int w=r.below(10); Sx op=L(w<3?"for":w<5?"forr":w<7?"ford":"dir"); gtree(r,op,r.range(2,10),true);
  if (op.head()=="for") { int n=r.range(1,3); for (int i=0;i<n;i++) { std::string a=r.chance(0.15)?anyfile(r,op):r.chance(0.25)?std::string("*/")+pat(r):wpat(r,op); if (a.find(' ')!=std::string::npos) a=pat(r); op.k.push_back(L("a",r.chance(0.15)&&iswild(a)?"@/"+a:a)); } }
  else if (op.head()=="dir") { if (r.chance(0.3)) op.k.push_back(L("opt","f")); if (r.chance(0.5)) op.k.push_back(L("opt","s")); if (r.chance(0.4)) op.k.push_back(L("opt",r.chance(0.5)?"d":"n")); if (r.chance(0.85)) op.k.push_back(L("a",r.chance(0.3)?anydir(r,op):r.chance(0.2)?std::string("*/")+pat(r):wpat(r,op))); if (r.chance(0.15)) { auto& a=op.k.back(); if (a.head()=="a") a=L("a","@/"+a.s(1)); }  { std::string a=op.k.back().head()=="a"?op.k.back().s(1):""; size_t z=a.rfind('/'); if (z!=std::string::npos&&a.substr(0,z).find_first_of("*?")!=std::string::npos) for (size_t i=1;i<op.n();i++) if (op[i].head()=="opt"&&op[i].s(1)=="f") { op.k.erase(op.k.begin()+i); break; } } }
  else { std::string d=anydir(r,op); if (d.find(' ')!=std::string::npos) d="p"; op.k.push_back(L("name",r.chance(0.2)?"@/"+d:d)); op.k.push_back(L("a",pat(r))); }
  return op; }
static void gen_d01(Rng& r, Case& c) { sched(r,c); int n=r.range(1,4); bool m=r.chance(0.4); for (int i=0;i<n;i++) { Sx op=glist(r); if (m) gmut(r,op); c.ops.push_back(op); } if (m) { c.cfg.p[D_MUTATE]=0.03; c.cfg.max_faults[D_MUTATE]=100; } }
static Verdict chk_d01(const Case&, const Op& o, const Exp& e, int, bool done, const Tree& got, const std::vector<Flt>& fl, bool) {
  if (!done) return Verdict(); std::multiset<std::string> want(e.out.begin(),e.out.end()), have; std::istringstream is(slurp("/w/s"+num(o.i)+".txt")); std::string l; bool full=o.kind=="dir"&&has(o,'f'), empty=false; int nf=0, nd=0, sf=-1, sd=-1, ln=0;
  while (std::getline(is,l)) { ln++; if (!full) { have.insert(l); continue; } if (ln<=2||l.empty()) continue; if (l.compare(0,4,"\t\t\t\t")==0) { int& k=sf<0?sf:sd; k=atoi(l.c_str()+4); continue; } if (l=="\tNo files found") { empty=true; continue; }
    size_t k=l.rfind('\t'); if (k==std::string::npos||k<8) return bad(o,"line","unexpected line "+esc(l),fl); std::string n=l.substr(k+1); bool d=l[k-7]=='D'; (d?nd:nf)++; size_t z=n.rfind('/'); std::string last=z==std::string::npos?n:n.substr(z+1); if (last=="."||last=="..") continue; have.insert(n); std::string rel=n.compare(0,o.dir.size()+1,o.dir+"/")==0?n.substr(o.dir.size()+1):n; if (o.muts.empty()&&o.t.isdir(rel)!=d) return bad(o,"type",n+" is shown as "+(d?"a directory":"a file"),fl); }
  if (full&&!empty&&(sf!=nf||sd!=nd)) return bad(o,"count","shown: "+num(nf)+" files and "+num(nd)+" directories; counted: "+num(sf)+" and "+num(sd),fl);
  if (!o.muts.empty()) { std::set<std::string> t; for (auto& m: o.touched) { t.insert(m); t.insert(o.dir+"/"+m); } for (auto& x: t) { if (have.count(x)>(o.kind=="for"?o.args.size():1)) return bad(o,"twice",x+" is listed "+num(have.count(x))+" times",fl); want.erase(x); have.erase(x); } }
  else if (tree_diff(o.t,got)!="") return bad(o,"changed",tree_diff(o.t,got),fl);
  for (auto& x: want) if (have.count(x)<want.count(x)) return bad(o,"missing",x+" is not listed",fl);
  for (auto& x: have) if (have.count(x)>want.count(x)) return bad(o,"extra",x+(want.count(x)?" is listed twice":" is listed and should not be"),fl);
  return Verdict(); }
static Verdict check_d01(const Case& c, int o) { return run_check(c,o,chk_d01); }
static Reg rf1({"F01","up to four COPY commands (one file, several, wildcards, concatenations, trees) one after another or in concurrent stages, over random trees with file sizes around the buffer sizes; short reads and writes everywhere, and failing open, read, write, flush, close, mkdir, directory reads and a full disk; trees, contents, error levels and messages against a model of COPY",gen_f01,setup_files,check_f01,nt_files,nullptr,nullptr});
static Reg rf2({"F02","the same COPY commands with a power loss at a random step or none; every copy reported as successful is looked for in the flushed contents of the simulated disk",gen_f02,setup_files,check_f02,nt_files,nullptr,nullptr});
static Reg rf3({"F03","MOVE (one, several, wildcards, trees, over other devices) and REN with failing renames, removals and mkdirs, kills and power losses at random steps; after every change of the simulated disk each moved content is looked for, in full and flushed, under its old and new name",gen_f03,setup_files,check_f03,nt_files,nullptr,nullptr});
static Reg rf4({"F04","DEL, RMDIR and MKDIR with wildcards, recursion, several arguments and names that do not exist, with entries that cannot be removed or made and other processes creating and removing files meanwhile; the tree left behind against a model",gen_f04,setup_files,check_f04,nt_files,nullptr,nullptr});
static Reg rd1({"D01","FOR over wildcards, FOR /R, FOR /D, DIR and DIR /B over random trees in random directory order, with other processes creating and removing files meanwhile; entries visited against a model",gen_d01,setup_files,check_d01,nt_files,nullptr,nullptr});
