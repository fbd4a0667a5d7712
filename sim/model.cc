#include "model.h"
#include <algorithm>
#include <sstream>
// ---- rendering ---------------------------------------------------------------------
static std::string rtext(const Sx& t) {
  if (!t.list) return t.a;
  std::string o; for (size_t i=(t.head()=="t");i<t.n();i++) { const Sx& f=t[i]; if (!f.list) { o+=f.a; continue; } const std::string& h=f.head();
    if (h=="v") o+="%"+f.s(1)+"%"; else if (h=="d") o+="!"+f.s(1)+"!"; else if (h=="f") o+="%%"+f.s(1); else if (h=="a") o+="%"+f.s(1); else if (h=="p") o+="$"+f.s(1); else if (h=="vm") o+="%"+f.s(1)+":"+f.s(2)+"%"; else if (h=="dm") o+="!"+f.s(1)+":"+f.s(2)+"!"; else if (h=="q") o+="\""+f.s(1)+"\""; else if (h=="el") o+="!errorlevel!"; }
  return o;
}
static std::string low(std::string s) { for (auto& c: s) c=tolower((unsigned char)c); return s; }
static std::string rexpr(const Sx& e) { const std::string& h=e.head(); if (h=="n") return e.s(1); if (h=="var") return e.s(1); return rexpr(e[2])+e.s(1)+rexpr(e[3]); }
static std::string rcond(const Sx& c) { const std::string& h=c.head();
  if (h=="not") return "not "+rcond(c[1]); if (h=="ci") return "/i "+rcond(c[1]); if (h=="eqb") return rtext(c[1])+"=="+rtext(c[2]);
  if (h=="eq") return "\""+rtext(c[1])+"\"==\""+rtext(c[2])+"\"";
  if (h=="def") return "defined "+c.s(1); if (h=="exist") return "exist "+c.s(1); if (h=="el") return "errorlevel "+c.s(1);
  if (h=="cmp") return rtext(c[2])+" "+c.s(1)+" "+rtext(c[3]);
  if (h=="and"||h=="or") return "[ [ "+rcond(c[1])+" ] "+h+" [ "+rcond(c[2])+" ] ]";
  if (h=="flat") { std::string o="["; for (size_t i=1;i<c.n();i++) o+=" "+(c[i].list?rcond(c[i]):c[i].a); return o+" ]"; }
  return "?"; }
static std::string rredir(const Sx& s, const std::string& op, int depth, bool inl);
static bool tailing(const Sx& s) { const std::string& h=s.head(); if (h=="tailed") return true; if (h=="if"||h=="bare"||h.compare(0,3,"for")==0) return s.n()>1&&tailing(s[s.n()-1]); return false; }   // ends with operators that belong to its last body
static bool compound(const Sx& s) { const std::string& h=s.head(); if (h=="tailed") return true; return h=="if"||h=="for"||h=="forl"||h=="forfc"||h=="forfs"||h=="forff"||h=="forw"||h=="pipe"||h=="seq"; }
static std::string rgroup(const Sx& s, int depth, bool inl) {       // as an operand of | & && ||
  if (compound(s)||(inl&&s.head()=="def")) return "("+render(s,depth+1,true)+")";
  return render(s,depth,inl);
}
// The text of ECHO and SET goes up to the redirection, blanks and digits included.
static std::string rredir(const Sx& s, const std::string& op, int depth, bool inl) {
  const std::string& h=s.head(); bool text=h=="echo"||h=="set"||h=="echodot"||h=="seta";
  if (text && (isdigit((unsigned char)op[0])||h=="set"||h=="seta")) return "("+render(s,depth+1,true)+") "+op;
  return rgroup(s,depth,inl)+(text?"":" ")+op;
}
std::string render(const Sx& s, int depth, bool inl) {
  const std::string& h=s.head(); std::string ind(inl?0:0,' ');
  auto body=[&](const Sx& b){ if (b.head()=="bare") { const std::string& k=b[1].head(); bool plain=!inl&&!tailing(b[1])&&k!="pipe"&&k!="seq"&&k!="redir"&&k!="io"&&k!="e2o"&&k!="o2e"&&k!="label"; return plain?render(b[1],depth,false):"("+render(b[1],depth+1,true)+")"; } if (b.head()=="block"||b.head()=="iblock") return render(b,depth,inl); if (b.head()=="tailed"&&!inl) return render(b,depth,false); return "("+render(b,depth+1,true)+")"; };
  if (h=="echo") return "echo "+rtext(s[1]);
  if (h=="echodot") return "echo.";
  if (h=="setq") return "set \""+s.s(1)+"="+rtext(s[2])+"\""+s.s(3); if (h=="set") return "set "+s.s(1)+"="+rtext(s[2]);
  if (h=="seta") return "set /a "+s.s(1)+"="+rexpr(s[2]);
  if (h=="setp") return "set /p "+s.s(1)+"=";
  if (h=="if") { std::string o="if "+rcond(s[1])+" "+body(s[2]); if (s.n()>3) o+=" else "+(s[3].head()=="if"?render(s[3],depth,inl):body(s[3])); return o; }
  if (h=="for") { std::string o="for %%"+s.s(1)+" in ("; for (size_t i=1;i<s[2].n();i++) { if (i>1) o+=" "; o+=rtext(s[2][i]); } return o+") do "+body(s[3]); }
  if (h=="forw") return "for %%"+s.s(1)+" in ("+s.s(2)+") do "+body(s[3]);
  if (h=="forl") return "for /l %%"+s.s(1)+" in ("+s.s(2)+","+s.s(3)+","+s.s(4)+") do "+body(s[5]);
  if (h=="forfs"||h=="forfc"||h=="forff") { std::string o="for /f \""+s.s(2)+"\" %%"+s.s(1)+" in ("; bool ub=s.s(2).find("usebackq")!=std::string::npos; std::string qs=ub?"'":"\"", qc=ub?"`":"'"; if (h=="forfs") o+=qs+rtext(s[3])+qs; else if (h=="forfc") o+=qc+render(s[3],depth+1,true)+qc; else if (ub) { std::istringstream fl(s.s(3)); std::string f1; bool sp=false; while (fl>>f1) { if (sp) o+=" "; sp=true; o+="\""+f1+"\""; } } else o+=s.s(3); return o+") do "+body(s[4]); }
  if (h=="call") { std::string o="call :"+s.s(1); for (size_t i=2;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
  if (h=="callf") { std::string o="call "+s.s(1)+".bat"; for (size_t i=2;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
  if (h=="runf") { std::string o=s.s(1)+".bat"; for (size_t i=2;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
  if (h=="goto") { int y=s.n()>2?s.i(2):0; return std::string("goto ")+(y&4?"/q ":"")+(y&1?":":"")+s.s(1)+(y&2?" \t":""); }
  if (h=="ret") return "goto :eof"; if (h=="exitb") return s.n()>1?"exit /b "+s.s(1):"exit /b"; if (h=="exit") return s.n()>1?"exit "+s.s(1):"exit";
  if (h=="setbang") return "set "+s.s(1)+"="+s.s(2)+"^!"+s.s(3)+"^!"+s.s(4);
  if (h=="setlocal") return "setlocal"+(s.n()>1?" "+s.s(1):""); if (h=="endlocal") return "endlocal"; if (h=="pushd") { std::string o="pushd"; for (size_t i=1;i<s.n();i++) o+=" "+s.s(i); return o; } if (h=="popd") return "popd"; if (h=="cd") return "cd "+s.s(1); if (h=="pwd") return "echo !cd!";
  if (h=="shift") return s.n()<2?"shift":s.n()<3?"shift /"+s.s(1):"shift /s"+std::string(s.i(1)%2?":":"")+s.s(1)+" /d"+std::string(s.i(2)%2?":":"")+s.s(2);
  if (h=="setx") return "set /x "+s.s(1)+"="+rtext(s[2]); if (h=="setd") return "set "+s.s(1); if (h=="exta") return "args %"+s.s(1);
  if (h=="deff") { std::string o="def /f "+s.s(1)+"=(\n"; for (size_t i=2;i<s.n();i++) o+=" "+render(s[i],depth+1,false)+"\n"; return o+")"; }
  if (h=="usef") { std::string o=s.s(1); for (size_t i=2;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
  if (h=="nop") return s.s(1);
  if (h=="label") { int y=s.n()>2?s.i(2):0; return (y&1?" \t ":"")+(":"+s.s(1))+(y&2?" and a remark":y&4?"\t":""); }
  if (h=="calle") { std::string o="call /e "+s.s(1)+".bat :"+s.s(2); for (size_t i=3;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
 
  if (h=="block") { if (inl||s.n()<2) { std::string o="("; for (size_t i=1;i<s.n();i++) { if (i>1) o+="&"; o+=rgroup(s[i],depth+1,true); } return o+")"; } std::string o="(\n"; for (size_t i=1;i<s.n();i++) o+=std::string(depth+1,' ')+render(s[i],depth+1,false)+"\n"; return o+std::string(depth,' ')+")"; }
  if (h=="iblock") { std::string o="("; for (size_t i=1;i<s.n();i++) { if (i>1) o+="&"; o+=rgroup(s[i],depth+1,true); } return o+")"; }
  if (h=="tailed") return (s[2].head()=="tailed"?render(s[2],depth,inl):s[2].head()=="block"||s[2].head()=="iblock"?render(s[2],depth,inl):"("+render(s[2],depth+1,true)+")")+s.s(1)+" "+rgroup(s[3],depth,inl);
  if (h=="seq") return rgroup(s[2],depth,inl)+s.s(1)+" "+rgroup(s[3],depth,inl);
  if (h=="pipe") { std::string o; for (size_t i=1;i<s.n();i++) { if (i>1) o+="|"; o+=rgroup(s[i],depth,inl); } return o; }
  if (h=="redir") return rredir(s[3],s.s(1)+s.s(2),depth,inl);
  if (h=="io") {                                   // all the redirections of one command
    std::string o, post; bool dig=false; for (size_t i=2;i<s.n();i++) { std::string t=s[i].head()=="dup"?s[i].s(1):s[i].s(1)+s[i].s(2); if (isdigit((unsigned char)t[0])&&i==2) dig=true; post+=(i>2?" ":"")+t; }
    const Sx& c=s[1]; const std::string& ch=c.head(); bool text=ch=="echo"||ch=="echodot"||ch=="set"||ch=="seta"||ch=="setp";
    if (compound(c)||ch=="io"||ch=="redir"||ch=="e2o"||ch=="o2e"||((dig||s.n()>3||ch!="echo")&&text)) o="("+render(c,depth+1,true)+")"; else o=render(c,depth,inl);
    if (text&&o[0]!='(') return o+post;
    return o+" "+post; }
  if (h=="def") return "def /f "+s.s(1)+"=(echo "+s.s(2)+" $1)"; if (h=="usedef") return s.s(1)+" "+s.s(2); if (h=="echost") return "echo"; if (h=="echoset") return "echo "+s.s(1);
  if (h=="e2o") return rredir(s[1],"2>&1",depth,inl); if (h=="o2e") return rredir(s[1],"1>&2",depth,inl);
  if (h=="opens") return "start "+s.s(1)+" ret "+s.s(2);
  if (h=="start") return "start "+s.s(1)+(s.s(2)=="-"?"":" /d "+s.s(2))+" "+render(s[3],depth,true);
  if (h=="ext") { std::string o=s.s(1); for (size_t i=2;i<s.n();i++) o+=" "+rtext(s[i]); return o; }
  if (h=="type") { std::string o="type"; for (size_t i=1;i<s.n();i++) o+=" "+s.s(i); return o; }
  if (h=="find") return "find "+std::string(s.n()>2?s.s(2)+" ":"")+"\""+s.s(1)+"\"";
  if (h=="more") return "more"; if (h=="del") return "del /q "+s.s(1);
  if (h=="copy") return "copy /y "+s.s(1)+" "+s.s(2)+" >nul";
  if (h=="md") return "mkdir "+s.s(1); if (h=="rd") return "rmdir "+s.s(1);
  if (h=="raw") return s.s(1);
  if (h=="rem") return "rem "+s.s(1);
  return "echo ?"+h;
}
// The layout of a script: what its text means does not depend on it.
enum { FORM_CRLF=1, FORM_NONL=2, FORM_COMMENTS=4, FORM_SHEBANG=8, FORM_INDENT=16, FORM_BIG=32 };
static int form; static Rng formr(0);
static std::string filler() {
  if (!(form&FORM_COMMENTS)||!formr.chance(0.3)) return "";
  switch (formr.below(6)) { case 0: return "\n"; case 1: return " \t\n"; case 2: return ":: "+std::string(form&FORM_BIG?formr.range(500,9000):formr.range(0,90),"xyz (|&<>\"%!^)"[formr.below(14)])+"\n"; case 3: return "\n\n"; case 4: return "  ::goto nowhere\n"; default: return "\t:::"+std::string(form&FORM_BIG?formr.range(3000,70000):9,'r')+"\n"; } }
static std::string ind() { if (!(form&FORM_INDENT)||!formr.chance(0.4)) return ""; return formr.chance(0.5)?std::string(formr.range(1,9),' '):formr.chance(0.5)?"\t":" \t "; }
std::string render_script(const std::vector<Sx>& ops, bool prelude) {
  std::string o=form&FORM_SHEBANG?"#!/usr/bin/pbat (\n":""; o+=!prelude&&!ops.empty()&&ops[0].head()=="label"?"":"@echo off\n"; if (prelude) o+="set na=3\nset nb=5\n"; bool subs=false;
  for (auto& x: ops) { const std::string& h=x.head(); if (h=="sub"||h=="script") { subs=true; continue; } o+=filler()+(h=="label"?"":ind())+render(x)+"\n"; }
  if (subs) o+="goto :eof\n";
  for (auto& x: ops) if (x.head()=="sub") { o+=filler()+":"+x.s(1)+"\n"; for (size_t i=2;i<x.n();i++) o+=filler()+(x[i].head()=="label"?"":ind())+render(x[i])+"\n"; o+="goto :eof\n"; }
  o+=filler(); if (form&FORM_NONL) while (!o.empty()&&o.back()=='\n') o.pop_back();
  if (form&FORM_CRLF) { std::string u; for (char ch: o) { if (ch=='\n') u+='\r'; u+=ch; } o=u; }
  return o;
}
void put_scripts(const Case& c) {
  form=c.pi("form")&63; if (c.pi("cmdly")) form&=~FORM_SHEBANG; formr=Rng(c.pi("form")+1);
  vfs_put("/w/t.bat",render_script(c.ops,true));
  for (auto& x: c.ops) if (x.head()=="script") { std::vector<Sx> v(x.k.begin()+2,x.k.end()); vfs_put(("/w/"+x.s(1)+".bat").c_str(),render_script(v,false)); }
  form=0;
}

// ---- reference interpreter ------------------------------------------------------------
std::string Model::text(const Sx& t, MSt& st) {
  if (!t.list) return t.a;
  std::string o; for (size_t i=(t.head()=="t");i<t.n();i++) { const Sx& f=t[i]; if (!f.list) { o+=f.a; continue; } const std::string& h=f.head();
    if (h=="v") { auto it=st.vars.find(f.s(1)); if (it!=st.vars.end()) o+=it->second; }
    else if (h=="d") { if (!st.delayed) o+="!"+f.s(1)+"!"; else { auto it=st.vars.find(f.s(1)); if (it!=st.vars.end()) o+=it->second; } }
    else if (h=="f") { auto it=st.loc.find(f.s(1)[0]); if (it!=st.loc.end()) o+=it->second; else o+="%"+f.s(1); }
    else if (h=="a") { size_t n=f.i(1); if (n==0) o+=st.script; else if (n-1<st.args.size()) o+=st.args[n-1]; }
    else if (h=="p") { if (f.s(1)=="*") { for (size_t k=0;k<st.params.size();k++) o+=(k?" ":"")+st.params[k]; } else if ((size_t)f.i(1)<=st.params.size()) o+=st.params[f.i(1)-1]; } else if (h=="q") o+=f.s(1); else if (h=="vm") o+=modval(f.s(1),f.s(2),st); else if (h=="dm") o+=st.delayed?modval(f.s(1),f.s(2),st):"!"+f.s(1)+":"+f.s(2)+"!"; else if (h=="el") o+=st.delayed?std::to_string(st.el):"!errorlevel!"; if (o.size()>200000) { overrun=true; o.resize(1000); return o; } }
  return o;
}
// %name:~begin,length%, %name:old=new% and %name:default%
std::string Model::modval(const std::string& name, const std::string& mods, MSt& st) {
  auto it=st.vars.find(name); bool def=it!=st.vars.end(); std::string v=def?it->second:""; size_t eq=mods.find('=');
  if (eq!=std::string::npos) { std::string a=mods.substr(0,eq), b=mods.substr(eq+1), o; if (a.empty()) return v; for (size_t i=0;i<v.size();) { if (v.compare(i,a.size(),a)==0) { o+=b; i+=a.size(); } else o+=v[i++]; } return o; }
  if (mods[0]!='~') return def?v:mods;
  if (!def) return ""; int n=v.size(), b=atoi(mods.c_str()+1), l=0; size_t c=mods.find(','); if (c!=std::string::npos) l=atoi(mods.c_str()+c+1);
  if (b<0) { if (l>0) { if (n+b>=l) b+=n; } else if (b<=l) b+=n; } if (b<0||b>n) return ""; if (l>0) return b+l<=n?v.substr(b,l):""; return -l<=n-b?v.substr(b,n+l-b):""; }
long long Model::expr(const Sx& e, MSt& st) { const std::string& h=e.head(); if (h=="n") return e.i(1); if (h=="var") { auto it=st.vars.find(e.s(1)); return it==st.vars.end()?0:atoll(it->second.c_str()); }
  long long a=expr(e[2],st), b=expr(e[3],st); char o=e.s(1)[0]; switch (o) { case '+': return a+b; case '-': return a-b; case '*': return a*b; } unsupported=true; return 0; }
static bool globm(const char* p, const char* s) { if (!*p) return !*s; if (*p=='*') return globm(p+1,s)||(*s&&globm(p,s+1)); return *s&&(*p=='?'||*p==*s)&&globm(p+1,s+1); }
static bool nocase=false;
bool Model::cond(const Sx& c, MSt& st) { const std::string& h=c.head();
  if (h=="not") return !cond(c[1],st);
  if (h=="eq") return text(c[1],st)==text(c[2],st);
  if (h=="def") { auto it=st.vars.find(c.s(1)); return it!=st.vars.end()&&!it->second.empty(); } if (h=="exist") { std::string p=path(c.s(1),st); if (p.find_first_of("*?")==std::string::npos) return fs.files.count(p)||fs.dirs.count(p); size_t sl=p.rfind('/'); std::string dir=p.substr(0,sl), pat=p.substr(sl+1); auto m=[&](const std::string& q){ return q.size()>sl+1&&q.compare(0,sl+1,dir+"/")==0&&q.find('/',sl+1)==std::string::npos&&globm(pat.c_str(),q.c_str()+sl+1); }; for (auto& f: fs.files) if (m(f.first)) return true; for (auto& d: fs.dirs) if (m(d)) return true; return false; } if (h=="el") return st.el>=c.i(1);
  if (h=="eqb"&&!nocase) return text(c[1],st)==text(c[2],st); if (h=="eqb") return low(text(c[1],st))==low(text(c[2],st));
  if (h=="ci") { nocase=true; bool v=cond(c[1],st); nocase=false; return v; }
  if (h=="cmp") { std::string x=text(c[2],st), y=text(c[3],st); if (x.empty()||y.empty()||(x+y).find_first_of(" \t\"[]()=;,&|<>")!=std::string::npos) unsupported=true; auto isint=[](const std::string& w,double& v){ size_t i=w[0]=='-'||w[0]=='+'; if (i>=w.size()) return false; bool hex=w.size()>i+2&&w[i]=='0'&&(w[i+1]=='x'||w[i+1]=='X'), oct=!hex&&w[i]=='0'; for (size_t k=hex?i+2:i;k<w.size();k++) if (hex?!isxdigit((unsigned char)w[k]):oct?w[k]<'0'||w[k]>'7':!isdigit((unsigned char)w[k])) return false; v=(double)strtoll(w.c_str(),nullptr,0); return true; };
    auto isflt=[](const std::string& w,double& v){ size_t i=w[0]=='-'||w[0]=='+', d=0; bool dot=false; for (;i<w.size()&&(isdigit((unsigned char)w[i])||(w[i]=='.'&&!dot));i++) if (w[i]=='.') dot=true; else d++; if (!d) return false; if (i<w.size()&&(w[i]=='e'||w[i]=='E')) { i++; if (i<w.size()&&(w[i]=='-'||w[i]=='+')) i++; size_t e=i; while (i<w.size()&&isdigit((unsigned char)w[i])) i++; if (i==e) return false; } if (i!=w.size()) return false; v=strtod(w.c_str(),nullptr); return true; };
    double a,b; if (isint(x,a)&&isint(y,b)) {} else if (isflt(x,a)&&isflt(y,b)) {} else { if (nocase) x=low(x), y=low(y); int k=x.compare(y); a=k<0?-1:k>0; b=0; }
    const std::string& o=c.s(1); if (o=="EQU") return a==b; if (o=="NEQ") return a!=b; if (o=="LSS") return a<b; if (o=="LEQ") return a<=b; if (o=="GTR") return a>b; return a>=b; }
  if (h=="flat") { bool any=false, all=true; for (size_t i=1;i<c.n();i++) { if (c[i].list) all=cond(c[i],st)&&all; else if (c[i].a=="or") { any=any||all; all=true; } } return any||all; }      // AND binds tighter
  if (h=="and") return cond(c[1],st)&&cond(c[2],st); if (h=="or") return cond(c[1],st)||cond(c[2],st);
  unsupported=true; return false; }
bool Model::isdir(const std::string& p, MSt& st) { if (!fs.dirs.count(path(p,st))) return false; for (size_t i=0;i<p.size();i++) if (p[i]=='/'&&i&&!fs.dirs.count(path(p.substr(0,i),st))) return false; return true; }
std::string Model::path(const std::string& p, MSt& st) {
  std::string s=p[0]=='/'?p:(st.cwd=="/"?"/":st.cwd+"/")+p; std::vector<std::string> v; std::istringstream is(s); std::string c; while (std::getline(is,c,'/')) { if (c.empty()||c==".") continue; if (c=="..") { if (!v.empty()) v.pop_back(); } else v.push_back(c); }
  std::string o; for (auto& x: v) o+="/"+x; return o.empty()?"/":o; }
int Model::ext(const Sx& s, const std::vector<std::string>& av, MSt& st, MIn& in, std::string& out, std::string& err) {
  const std::string& n=s.s(1); std::string rest=in.data.substr(std::min(in.pos,in.data.size()));
  { std::string e=n; for (auto& a: av) { e+='\x1f'; e+=a; } execs.push_back(e); std::string v=st.cwd; for (auto& x: st.vars) v+="\x1f"+x.first+"="+x.second; execctx.push_back(v); }
  if (n=="cat"||n=="slurp") { if (!av.empty()) { for (auto& f: av) { auto it=fs.files.find(path(f,st)); if (it==fs.files.end()) { err+="cat: no file\n"; return 1; } out+=it->second; } return 0; } out+=rest; in.pos=in.data.size(); return 0; }
  if (n=="upper") { for (auto& c: rest) if (c>='a'&&c<='z') c-=32; out+=rest; in.pos=in.data.size(); return 0; }
  if (n=="count") { uint64_t h=1469598103934665603ull; for (unsigned char c: rest) { h^=c; h*=1099511628211ull; } char b[64]; snprintf(b,64,"%zu %016lx\n",rest.size(),(unsigned long)h); out+=b; in.pos=in.data.size(); return 0; }
  if (n=="ret"||n=="noread") return av.empty()?0:atoi(av[0].c_str());
  if (n=="emit") { int k=av.empty()?1:atoi(av[0].c_str()); for (int i=0;i<k;i++) out+=(av.size()>1?av[1]:"line")+std::to_string(i)+"\n"; return 0; }
  if (n=="emitz") { int k=av.empty()?1:atoi(av[0].c_str()), w=av.size()>1?atoi(av[1].c_str()):10; for (int i=0;i<k;i++) { std::string l; for (int j=0;j<w;j++) l+=char('a'+(i*7+j)%26); out+=l+"\n"; } return 0; }
  if (n=="args") { out+="["+n+"]\n"; for (auto& a: av) out+="["+a+"]\n"; return 0; }
  if (n=="getenv") { for (auto& a: av) { auto it=st.vars.find(a); out+=a+"="+(it==st.vars.end()?"(unset)":it->second)+"\n"; } return 0; }
  if (n=="head") { int k=av.empty()?1:atoi(av[0].c_str()); while (k>0&&in.pos<in.data.size()) { char c=in.data[in.pos++]; out+=c; if (c=='\n') k--; } return 0; }
  if (n=="rd1") { if (in.pos>=in.data.size()) { out+="-eof-\n"; return 0; } size_t e=in.data.find('\n',in.pos); out+="["+in.data.substr(in.pos,e==std::string::npos?e:e-in.pos)+"]\n"; in.pos=e==std::string::npos?in.data.size():e+1; return 0; }
  if (n=="both") { int k=av.empty()?1:atoi(av[0].c_str()); for (int i=0;i<k;i++) { out+="o"+std::to_string(i)+"\n"; err+="e"+std::to_string(i)+"\n"; } return 0; }
  if (n=="printn") { for (size_t i=0;i<av.size();i++) out+=(i?" ":"")+av[i]; return 0; }
  if (n=="lines") { for (auto& a: av) out+=a+"\n"; return 0; }
  if (n=="probe") return 0;
  if (n=="pause_ms") return av.size()>1?atoi(av[1].c_str()):0;
  if (n=="err") { std::string a=av.empty()?"":av[0]; err+="E:"+a+"\n"; out+="O:"+a+"\n"; return 0; }
  unsupported=true; return 0;
}
MFlow Model::seq(const std::vector<Sx>& v, size_t from, MSt& st, MIn& in, std::string& out, std::string& err) {
  for (size_t i=from;i<v.size();i++) { MFlow f=stmt(v[i],st,in,out,err); if (out.size()>20000000) overrun=true; if (f!=F_NEXT||overrun) return f; }
  return F_NEXT;
}
// Statements of a script or subroutine, with jumps among their labels.
MFlow Model::lines(const Sx* v, size_t from, size_t n, MSt& st, MIn& in, std::string& out, std::string& err, size_t start) {
  size_t i=std::max(from,start); MFlow f=F_NEXT;
  while (i<n&&!overrun) {
    if (v[i].head()=="sub"||v[i].head()=="script") { i++; continue; }
    f=stmt(v[i],st,in,out,err);
    if (f==F_GOTO) { size_t j=from; for (;j<n;j++) if (v[j].head()=="label"&&low(v[j].s(1))==low(label)) break; if (j==n) { unsupported=true; why="goto "+label; return F_RET; } i=j; f=F_NEXT; }
    else if (f!=F_NEXT) break;
    i++; }
  return f;
}
MFlow Model::callsub(const std::string& name, std::vector<std::string> args, MSt& st, MIn& in, std::string& out, std::string& err, bool isscript, const std::string& at) {
  if (++depth>40) { overrun=true; depth--; return F_NEXT; }
  auto sargs=st.args; auto sall=st.all; auto sscript=st.script; auto sloc=st.loc; st.args=args; st.all=args; st.loc.clear(); MFlow f=F_NEXT; auto savesubs=subs;
  if (isscript) { auto it=scripts.find(name); if (it==scripts.end()) { unsupported=true; why="script "+name; } else { st.script="/w/"+name+".bat"; subs.clear(); if (it->second==main) { st.vars["na"]="3"; st.vars["nb"]="5"; } for (auto& x: *it->second) if (x.head()=="sub") subs[low(x.s(1))]=&x; size_t b=0; if (!at.empty()) { st.script=":"+at; while (b<it->second->size()&&!((*it->second)[b].head()=="label"&&low((*it->second)[b].s(1))==low(at))) b++; if (b==it->second->size()) { unsupported=true; why="calle "+at; } } f=lines(it->second->data(),0,it->second->size(),st,in,out,err,b); } }
  else { auto it=subs.find(low(name)); if (it==subs.end()) { unsupported=true; why="sub "+name; } else { st.script=":"+name; f=lines(it->second->k.data(),2,it->second->n(),st,in,out,err); } }
  st.args=sargs; st.all=sall; st.script=sscript; st.loc=sloc; subs=savesubs; depth--;
  return f==F_EXIT?F_EXIT:F_NEXT;
}
static std::map<std::string,std::string> fopts(const std::string& opts);
static std::vector<std::string> ftokens(const std::string& line, const std::string& opts, bool& skip);
MFlow Model::stmt(const Sx& s, MSt& st, MIn& in, std::string& out, std::string& err) {
  if (++steps>maxsteps||tasks>500) { overrun=true; return F_NEXT; }
  if (out.size()>400000) { overrun=true; return F_NEXT; }
  const std::string& h=s.head();
  auto args=[&](size_t from){ std::vector<std::string> v; for (size_t i=from;i<s.n();i++) v.push_back(text(s[i],st)); return v; };
  auto done=[&](int el){ st.el=el; return F_NEXT; };
  auto nope=[&](const std::string& m){ unsupported=true; why=m; return F_NEXT; };
  if (h=="echo") { out+=text(s[1],st)+"\n"; return done(0); }
  if (h=="echodot") { out+="\n"; return done(0); }
  if (h=="rem") return done(0); if (h=="bare") return stmt(s[1],st,in,out,err);
  if (h=="set"||h=="setq") { std::string v=text(s[2],st); if (v.size()>3000) { overrun=true; return F_NEXT; } if (v.empty()) { st.vars.erase(s.s(1)); if (!st.prev.count(s.s(1))) st.inh.erase(s.s(1)); } else st.vars[s.s(1)]=v; return done(0); }
  if (h=="seta") { long long v=expr(s[2],st); if (v>1000000000ll||v<-1000000000ll) return nope("large number"); st.vars[s.s(1)]=std::to_string(v); return done(0); }
  if (h=="setp") { size_t e=in.data.find('\n',std::min(in.pos,in.data.size())); std::string l; bool got=in.pos<in.data.size(); if (got) { l=in.data.substr(in.pos,e==std::string::npos?e:e-in.pos); in.pos=e==std::string::npos?in.data.size():e+1; } if (l.empty()) st.vars.erase(s.s(1)); else st.vars[s.s(1)]=l; return done(l.empty()?1:0); }
  if (h=="if") { if (cond(s[1],st)) return stmt(s[2],st,in,out,err); if (s.n()>3) return stmt(s[3],st,in,out,err); return F_NEXT; }
  if (h=="for") { for (size_t i=1;i<s[2].n();i++) { std::istringstream is(text(s[2][i],st)); std::string w; while (is>>w) { st.loc[s.s(1)[0]]=w; MFlow f=stmt(s[3],st,in,out,err); if (f!=F_NEXT||overrun) { st.loc.erase(s.s(1)[0]); return f; } } } st.loc.erase(s.s(1)[0]); return F_NEXT; }
  if (h=="forl") { for (int i=s.i(2);i<=s.i(4);i+=s.i(3)) { st.loc[s.s(1)[0]]=std::to_string(i); MFlow f=stmt(s[5],st,in,out,err); if (f!=F_NEXT||overrun) { st.loc.erase(s.s(1)[0]); return f; } } st.loc.erase(s.s(1)[0]); return F_NEXT; }
  if (h=="forfs"||h=="forfc"||h=="forff") {
    std::vector<std::string> data; if (h=="forfs") data.push_back(text(s[3],st)+"\n"); else if (h=="forff") { std::istringstream fl(s.s(3)); std::string f1; while (fl>>f1) { auto it=fs.files.find(path(f1,st)); if (it==fs.files.end()) return nope("for /f file"); data.push_back(it->second); } }
    else { tasks++; MSt c=st; c.stack.clear(); std::string o; MIn none=in; int ec=exit_code; stmt(s[3],c,none,o,err); exit_code=ec; data.push_back(o); if (st.delayed&&o.find('!')!=std::string::npos) return nope("captured !"); }
    char var=s.s(1)[0]; int nt=0; MFlow f=F_NEXT; int skip=0; { auto m=fopts(s.s(2)); if (m.count("skip")) skip=atoi(m["skip"].c_str()); }
    for (auto& one: data) { std::istringstream is(one); std::string line;
    while (std::getline(is,line)) { if (cmdly&&line.find_first_not_of(" \t")==std::string::npos) continue; if (skip>0) { skip--; continue; } bool sk=false; auto tk=ftokens(line,s.s(2),sk); if (sk) continue; for (size_t i=0;i<tk.size();i++) st.loc[var+i]=tk[i]; nt=std::max<int>(nt,tk.size()); f=stmt(s[4],st,in,out,err); if (f!=F_NEXT||overrun) break; }
    if (f!=F_NEXT||overrun) break; }
    for (int i=0;i<nt;i++) st.loc.erase(var+i);
    return f; }
  if (h=="call") return callsub(s.s(1),args(2),st,in,out,err,false);
  if (h=="calle") return callsub(s.s(1),args(3),st,in,out,err,true,s.s(2));
  if (h=="callf") return callsub(s.s(1),args(2),st,in,out,err,true);
  if (h=="runf") {                                     // without CALL: a separate instance, nothing comes back but the error level
    MSt c=st; c.stack.clear(); auto sl=label; auto pr=procs; MFlow f=callsub(s.s(1),args(2),c,in,out,err,true); (void)f; label=sl; procs=pr; return done(c.el); }
  if (h=="goto") { label=s.s(1); return F_GOTO; }
  if (h=="ret") return F_RET;
  if (h=="exitb") { if (s.n()>1) st.el=s.i(1); return F_RET; }
  if (h=="exit") { exit_code=s.n()>1?s.i(1):0; if (s.n()>1) st.el=s.i(1); return F_EXIT; }
  if (h=="setbang") { st.vars[s.s(1)]=s.s(2)+"!"+s.s(3)+"!"+s.s(4); return done(0); }
  if (h=="setlocal") { st.stack.push_back({st.vars,st.delayed,st.inh,st.prev}); st.inh.clear(); st.prev.clear(); if (s.n()>1) { if (s.s(1).find("enabledelayedexpansion")!=std::string::npos) st.delayed=true; if (s.s(1).find("disabledelayedexpansion")!=std::string::npos) st.delayed=false; } return F_NEXT; }
  if (h=="endlocal") { if (!st.stack.empty()) { st.vars=st.stack.back().vars; st.delayed=st.stack.back().delayed; st.inh=st.stack.back().inh; st.prev=st.stack.back().prev; st.stack.pop_back(); } return F_NEXT; }
  if (h=="pushd") { for (size_t i=1;i<s.n();i++) { std::string d=path(s.s(i),st); if (!isdir(s.s(i),st)) return done(2); st.dirst.push_back(st.cwd); st.cwd=d; } return done(0); }
  if (h=="popd") { if (st.dirst.empty()) return done(-1); st.cwd=st.dirst.back(); st.dirst.pop_back(); return done(0); }
  if (h=="cd") { std::string d=path(s.s(1),st); if (!isdir(s.s(1),st)) return done(2); st.cwd=d; return done(0); }
  if (h=="pwd") { out+=(st.delayed?st.cwd:std::string("!cd!"))+"\n"; return done(0); }
  if (h=="shift") { std::vector<std::string> v=st.args; v.insert(v.begin(),st.script); size_t at=s.n()>1?s.i(1):0, k=std::min<size_t>(s.n()>2?s.i(2):1,10-at); if (at<v.size()) v.erase(v.begin()+at,v.begin()+std::min(v.size(),at+k)); st.script=v.empty()?"":v[0]; if (!v.empty()) v.erase(v.begin()); st.args=v; return done(0); }
  if (h=="setx") { std::string v=text(s[2],st); if (v.empty()) { st.vars.erase(s.s(1)); if (!st.prev.count(s.s(1))) st.inh.erase(s.s(1)); } else { st.vars[s.s(1)]=v; st.inh.insert(s.s(1)); } return done(0); }
  if (h=="setd") { bool any=false; std::string p=s.s(1); for (auto& v: st.vars) if (v.first.compare(0,p.size(),p)==0&&!v.second.empty()) { out+=v.first+"="+v.second+"\n"; any=true; } return done(any?0:4); }
  if (h=="exta") { if (s.s(1)=="*") return done(ext(L("ext","args"),st.all,st,in,out,err)); std::vector<std::string> v; for (size_t i=9;i<st.args.size();i++) v.push_back(st.args[i]); return done(ext(L("ext","args"),v,st,in,out,err)); }
  if (h=="deff") { procs[s.s(1)]=&s; return done(0); }
  if (h=="usef") { auto it=procs.find(s.s(1)); if (it==procs.end()) return nope("procedure"); if (++depth>40) { overrun=true; depth--; return F_NEXT; }
    auto sp=st.params; auto sl=st.loc; auto keep=st.vars; auto ki=st.inh; auto kp=st.prev; for (auto& v: st.vars) if (v.first[0]=='_') st.prev.insert(v.first); st.params=args(2); st.loc.clear(); for (auto i=st.inh.begin();i!=st.inh.end();) if ((*i)[0]=='_') i=st.inh.erase(i); else ++i;
    MFlow f=seq(it->second->k,2,st,in,out,err); st.params=sp; st.loc=sl; depth--;
    std::map<std::string,std::string> nv; for (auto& v: st.vars) if (v.first[0]!='_') nv.insert(v); for (auto& v: keep) if (v.first[0]=='_') nv[v.first]=v.second; std::set<std::string> ni; for (auto& x: ki) ni.insert(x);
    for (auto& x: st.inh) if (x[0]=='_') { ni.insert(x); if (st.vars.count(x)) nv[x]=st.vars[x]; else nv.erase(x); } st.vars=nv; st.inh=ni; st.prev=kp; return f; }
  if (h=="label"||h=="sub"||h=="script") return F_NEXT;
  if (h=="block"||h=="iblock") return seq(s.k,1,st,in,out,err);
  if (h=="seq"||h=="tailed") { MFlow f=stmt(s[2],st,in,out,err); if (f!=F_NEXT||overrun) return f; if (s.s(1)=="&"||(s.s(1)=="&&"&&st.el==0)||(s.s(1)=="||"&&st.el!=0)) return stmt(s[3],st,in,out,err); return F_NEXT; }
  if (h=="pipe") {
    MIn cur; MFlow f=F_NEXT; MSt snap=st;
    tasks+=s.n()-2; for (size_t i=1;i<s.n();i++) { MIn& ip=i==1?in:cur; if (i+1<s.n()) { MSt c=snap; c.stack.clear(); std::string o; stmt(s[i],c,ip,o,err); MIn nx; nx.data=o; cur=nx; } else f=stmt(s[i],st,ip,out,err); }
    return f; }
  if (h=="redir") {
    const std::string& k=s.s(1); std::string p=path(s.s(2),st);
    if (k=="<") { auto it=fs.files.find(p); if (it==fs.files.end()) return nope("input file"); MIn ni; ni.data=it->second; return stmt(s[3],st,ni,out,err); }
    bool e=k[0]=='2'; bool ap=k.find(">>")!=std::string::npos; bool nul=s.s(2)=="nul"||s.s(2)=="/dev/null";
    if (nul) { std::string sk; return e?stmt(s[3],st,in,out,sk):stmt(s[3],st,in,sk,err); }
    if (!ap) fs.files[p]=""; else fs.files[p];
    std::string sk; MFlow f=e?stmt(s[3],st,in,out,sk):stmt(s[3],st,in,sk,err); fs.files[p]+=sk; return f; }
  if (h=="io") {
    std::string *po=&out, *pe=&err; std::string no, ne; MIn ni; MIn* pi=&in; bool bad=false; bool ao=false, ae=false; std::string dup;
    for (size_t i=2;i<s.n();i++) { const Sx& r=s[i]; if (r.head()=="dup") { dup=r.s(1); continue; } std::string k=r.s(1); std::string p=path(r.s(2),st); if (k[0]=='<') { auto it=fs.files.find(p); if (it==fs.files.end()) bad=true; else { ni.data=it->second; pi=&ni; } } }
    if (bad) return done(1);
    for (int pass=0;pass<2;pass++) for (size_t i=2;i<s.n();i++) { const Sx& r=s[i]; if (r.head()=="dup") continue; std::string k=r.s(1); if (k[0]=='<') continue; bool e=k[0]=='2'; if (e!=(pass==1)) continue; bool ap=k.find(">>")!=std::string::npos;
      std::string p=path(r.s(2),st); std::string par=p.substr(0,p.rfind('/')); if (par.empty()) par="/"; if (r.s(2)=="nul") { if (e) pe=&ne; else po=&no; continue; }
      if (!fs.dirs.count(par)||fs.dirs.count(p)) return done(1);
      std::string& fl=fs.files[p]; if (!ap) fl=""; if (e) { pe=&fl; ae=ap; } else { po=&fl; ao=ap; } }   // written as the command goes
    (void)ao; (void)ae; std::string &ro=*po, &re=*pe; MFlow f;
    if (dup=="2>&1") f=stmt(s[1],st,*pi,ro,ro); else if (dup=="1>&2") f=stmt(s[1],st,*pi,re,re); else f=stmt(s[1],st,*pi,ro,re);
    return f; }
  if (h=="def") { st.defs[s.s(1)]=s.s(2); return done(0); }
  if (h=="usedef") { auto it=st.defs.find(s.s(1)); if (it==st.defs.end()) return done(-1); out+=it->second+" "+s.s(2)+"\n"; return done(0); }
  if (h=="echoset") { st.echo=s.s(1)=="on"; return done(0); }
  if (h=="echost") { out+=st.echo?"Echo command enabled\n":"Echo command disabled\n"; return done(0); }
  if (h=="nop") return s.s(1).compare(0,4,"rem ")==0?done(0):F_NEXT;
  if (h=="e2o") return stmt(s[1],st,in,out,out);
  if (h=="o2e") return stmt(s[1],st,in,err,err);
  if (h=="opens") { tasks++; return done(st.vars["PBAT_START_SCRIPT"]=="/bin/opener"?s.i(2):255); }
  if (h=="start") {                                           // START /WAIT: a program, or (with /B) a command in an instance of its own
    std::string d=s.s(2)=="-"?st.cwd:path(s.s(2),st);
    if (s[3].head()!="ext") { tasks++; MSt c=st; c.stack.clear(); stmt(s[3],c,in,out,err); return done(0); }
    if (!isdir(s.s(2)=="-"?st.cwd:s.s(2),st)) return nope("directory of START"); std::string keep=st.cwd; st.cwd=d; MFlow f=stmt(s[3],st,in,out,err); st.cwd=keep; return f; }
  if (h=="ext") { tasks++; auto av=args(2); return done(ext(s,av,st,in,out,err)); }
  if (h=="type") { for (size_t i=1;i<s.n();i++) { auto it=fs.files.find(path(s.s(i),st)); if (it==fs.files.end()) return nope("type"); out+=it->second; } return done(0); }
  if (h=="find") { bool inv=s.s(2)=="/v", any=false; std::string rest=in.data.substr(std::min(in.pos,in.data.size())); in.pos=in.data.size(); std::istringstream is(rest); std::string l; while (std::getline(is,l)) { bool m=l.find(s.s(1))!=std::string::npos; if (m!=inv) { out+=l+"\n"; any=true; } } return done(any?0:1); }
  if (h=="more") { size_t col=0; for (size_t i=in.pos;i<in.data.size();i++) { if (in.data[i]=='\n') col=0; else if (++col>78) return nope("more wraps"); } out+=in.data.substr(std::min(in.pos,in.data.size())); in.pos=in.data.size(); return done(0); }
  if (h=="del") { std::string p=path(s.s(1),st); if (!fs.files.count(p)) return done(42); fs.files.erase(p); return done(0); }
  if (h=="copy") { auto it=fs.files.find(path(s.s(1),st)); if (it==fs.files.end()) return done(42); std::string d=it->second; fs.files[path(s.s(2),st)]=d; return done(0); }
  return nope("statement "+h);
}
// FOR /F token rules for the option strings the generator uses
// The options as the manual describes them: key=value elements in any order; a value runs up to the next element;
// the last occurrence of an element counts.
static std::map<std::string,std::string> fopts(const std::string& opts) {
  std::map<std::string,std::string> m; std::string cur; std::istringstream is(opts); std::string w; bool first=true; (void)first;
  while (std::getline(is,w,' ')) { bool key=false; for (const char* k: {"delims=","eol=","tokens=","skip="}) if (w.compare(0,strlen(k),k)==0) { cur=k; cur.pop_back(); m[cur]=w.substr(strlen(k)); key=true; break; }
    if (!key&&w=="usebackq") { m["usebackq"]="1"; cur=""; continue; }
    if (!key&&!cur.empty()) m[cur]+=" "+w; }
  return m; }
static std::vector<std::string> ftokens(const std::string& line, const std::string& opts, bool& skip) {
  auto m=fopts(opts); std::string delims=m.count("delims")?m["delims"]:" \t"; std::string eol=m.count("eol")?m["eol"]:delims.find(';')!=std::string::npos?"":";";
  struct T { int a,b; }; std::vector<T> idx; const int END=1<<30;
  if (!m.count("tokens")) idx.push_back({1,1}); else { std::istringstream is(m["tokens"]); std::string p; int mx=0; while (std::getline(is,p,',')) { size_t d;
      if (p=="*") { idx.push_back({mx+1,END}); continue; }
      if (p.back()=='*'&&p.find('.')==std::string::npos) { p.pop_back(); int n=atoi(p.c_str()); idx.push_back({n,n}); idx.push_back({n+1,END}); mx=n; continue; }
      if ((d=p.find('.'))!=std::string::npos) { int n=atoi(p.c_str()), e=p[d+1]=='*'?END:atoi(p.c_str()+d+1); idx.push_back({n,e}); mx=std::max(mx,n); continue; }
      if ((d=p.find('-'))!=std::string::npos) { for (int i=atoi(p.c_str());i<=atoi(p.c_str()+d+1);i++) idx.push_back({i,i}); mx=std::max(mx,atoi(p.c_str()+d+1)); continue; }
      int n=atoi(p.c_str()); idx.push_back({n,n}); mx=std::max(mx,n); } }
  skip=!line.empty()&&eol.find(line[0])!=std::string::npos;
  std::vector<std::string> out; std::vector<std::pair<size_t,size_t>> tk; size_t i=0; while (i<line.size()) { while (i<line.size()&&delims.find(line[i])!=std::string::npos) i++; if (i>=line.size()) break; size_t b=i; while (i<line.size()&&delims.find(line[i])==std::string::npos) i++; tk.push_back({b,i}); }
  for (auto& t: idx) { if (t.a<1||(size_t)t.a>tk.size()) { out.push_back(""); continue; } size_t b=tk[t.a-1].first, e=(size_t)t.b<=tk.size()&&t.b>=t.a?tk[t.b-1].second:line.size(); out.push_back(line.substr(b,e-b)); }
  return out;
}
void Model::run(const std::vector<Sx>& ops, MSt& st, MIn& in, std::string& out, std::string& err) {
  main=&ops; for (auto& x: ops) if (x.head()=="sub") subs[low(x.s(1))]=&x;
  static std::vector<std::unique_ptr<std::vector<Sx>>> keep; keep.clear(); for (auto& x: ops) if (x.head()=="script") { keep.emplace_back(new std::vector<Sx>(x.k.begin()+2,x.k.end())); scripts[x.s(1)]=keep.back().get(); }
  scripts["t"]=main;
  st.vars["na"]="3"; st.vars["nb"]="5";               // the prelude of every rendered script
  MFlow f=lines(ops.data(),0,ops.size(),st,in,out,err); if (f!=F_EXIT) exit_code=0;
}

// ---- generation -------------------------------------------------------------------------
static const char* const W[]={"alpha","beta","gamma","delta","eps","zeta","eta","theta","iota","kappa","mu","nu","xi","pi","rho","tau","phi","chi","psi","omega","x1","y2","z3","q-9","a.b","k_v"};
std::string Gen::word() { return W[r.below(sizeof W/sizeof *W)]; }
Sx Gen::text(int depth, bool allowvar) {
  Sx t=L("t"); int n=r.range(1,3); if (bigdata&&r.chance(0.15)) n=r.range(10,60);
  for (int i=0;i<n;i++) { if (i) t.k.push_back(" "); if (allowvar&&r.chance(0.35)) { uint32_t k=r.below(4);
      if (k==0&&!forvars.empty()) { t.k.push_back(L("f",std::string(1,forvars[r.below(forvars.size())]))); continue; }
      if (k==1) { t.k.push_back(L("a",(int)r.range(1,3))); continue; }
      std::string v=vars[r.below(vars.size())]; if (mods&&r.chance(0.25)) { std::string m; switch (r.below(4)) { case 0: m="~"+std::to_string(r.range(-6,8)); break; case 1: m="~"+std::to_string(r.range(-6,8))+","+std::to_string(r.range(-6,8)); break; case 2: m=std::string(1,(char)('a'+r.below(6)))+"="+(r.chance(0.2)?"":word()); break; default: m=word(); } t.k.push_back(L(depth==0&&r.chance(0.5)?"vm":"dm",v,m)); continue; }
      t.k.push_back(depth==0&&r.chance(0.5)?L("v",v):L("d",v)); continue; }
    t.k.push_back(word()); }
  t.k.push_back("."); return t;
}
static Sx eatom(Rng& r) { return r.chance(0.5)?L("n",(int)r.range(0,20)):L("var",r.chance(0.5)?"na":"nb"); }
Sx Gen::expr(int d) { (void)d; Sx e; int n=r.range(1,3); for (int i=0;i<n;i++) { Sx t=eatom(r); if (r.chance(0.3)) t=L("op","*",t,L("n",(int)r.range(0,5))); e=i?L("op",r.chance(0.6)?"+":"-",e,t):t; } return e; }
Sx Gen::cond(int depth) {
  if (r.chance(0.2)) { for (;;) { Sx c=cond(depth); if (c.head()!="not") return L("not",c); } }
  switch (r.below(4)) {
  case 0: return L("def",vars[r.below(vars.size())]);
  case 1: { Sx a=L("t",L("d",vars[r.below(vars.size())])); return L("eq",a,L("t",word())); }
  case 2: { const char* o[]={"EQU","NEQ","LSS","LEQ","GTR","GEQ"}; return L("cmp",o[r.below(6)],L("t",L("d","na")),L("t",(int)r.range(0,9))); }
  default: return L("eq",L("t",word()),L("t",word())); }
}
Sx Gen::body(int depth) { int n=r.range(1,3); Sx b=L(r.chance(0.6)?"block":"iblock"); for (int i=0;i<n;i++) b.k.push_back(stmt(depth+1)); return b; }
static std::string fname(int i) { return "f"+std::to_string(i)+".txt"; }
Sx Gen::simple(int depth) {
  for (;;) switch (r.below(10)) {
  case 0: case 1: case 2: return L("echo",text(depth));
  case 3: if (sets) return L("set",vars[r.below(vars.size())],r.chance(0.15)?L("t"):[&]{ Sx t=text(depth); t.k.pop_back(); return t; }()); break;
  case 4: if (sets) return L("seta",r.chance(0.5)?"na":"nb",expr(2)); break;
  case 5: if (exts) return L("ext","emit",(int)r.range(1,bigdata?40:4),word()); break;
  case 6: if (exts) { Sx x=L("ext","args"); int n=r.range(0,3); for (int i=0;i<n;i++) x.k.push_back(L("t",word())); return x; } break;
  case 7: if (exts&&els) return L("ext","ret",(int)r.range(0,3)); break;
  case 8: if (calls&&nsub>0&&depth<4) { Sx x=L("call",std::string("s")+std::to_string(r.below(nsub))); int n=r.range(0,3); for (int i=0;i<n;i++) x.k.push_back(L("t",word())); return x; } break;
  case 9: if (dirs&&!in_stage) return L("pwd"); break;
  }
}
Sx Gen::source(int depth) {              // writes something, reads nothing
  bool was=in_stage; in_stage=true; Sx s;
  switch (r.below(6)) {
  case 0: s=L("echo",text(depth+1)); break;
  case 1: s=L("forl","k",1,1,(int)r.range(1,bigdata?60:8),L("iblock",[&]{ forvars+="k"; Sx e=L("echo",text(depth+1)); forvars.pop_back(); return e; }())); break;
  case 2: if (exts) { s=L("ext",r.chance(0.5)?"emit":"emitz",(int)r.range(1,bigdata?80:6),r.chance(0.5)?std::string("12"):word()); if (s.s(1)=="emitz") s.k[3]=Sx((int)r.range(1,bigdata?200:30)); break; }
  // fall through
  case 3: { Sx b=L("iblock"); int n=r.range(1,3); for (int i=0;i<n;i++) b.k.push_back(simple(depth+2)); s=b; break; }
  case 4: if (!wfiles.empty()) { s=L("type",wfiles[r.below(wfiles.size())]); break; }
  // fall through
  default: { Sx b=L("block"); int n=r.range(1,4); for (int i=0;i<n;i++) b.k.push_back(stmt(depth+2)); s=b; break; }
  }
  in_stage=was; return s;
}
Sx Gen::filter(int depth) {              // copies its input through, reading it to the end
  bool was=in_stage; in_stage=true; Sx s;
  switch (r.below(7)) {
  case 0: s=L("ext","cat"); break; case 1: s=L("ext","upper"); break; case 2: s=L("ext","slurp"); break;
  case 3: if (findmore) { std::string w=std::string(1,'a'+r.below(6)); s=r.chance(0.3)?L("find",w,"/v"):L("find",w); break; }
  case 4: if (findmore) { s=L("more"); break; }
  case 5: s=L("iblock",L("ext","cat"),simple(depth+2)); break;
  default: s=L("iblock",L("echo",text(depth+1)),L("ext","cat")); break;
  }
  if (!exts) s = r.chance(0.5)?L("more"):L("find","a");
  in_stage=was; return s;
}
Sx Gen::flat(int depth) {                // a command to capture: no parentheses
  bool was=in_stage; in_stage=true; Sx s;
  for (;;) { switch (r.below(6)) {
    case 0: s=L("echo",text(depth+1)); break;
    case 1: case 2: if (!exts) continue; s=r.chance(0.5)?L("ext","emit",(int)r.range(0,bigdata?60:5),word()):L("ext","emitz",(int)r.range(1,bigdata?60:5),(int)r.range(1,bigdata?120:20)); break;
    case 3: if (wfiles.empty()) continue; s=L("type",wfiles[r.below(wfiles.size())]); break;
    case 4: if (!calls||nsub==0||depth>=4) continue; s=L("call",std::string("s")+std::to_string(r.below(nsub))); break;
    case 5: { if (!pipes) continue; s=L("pipe",r.chance(0.5)&&exts?L("ext","emit",(int)r.range(1,bigdata?60:5),word()):L("echo",text(depth+1))); int n=r.range(1,2); for (int i=0;i<n;i++) { const char* fs[]={"cat","upper","slurp"}; if (exts&&(!findmore||r.chance(0.6))) s.k.push_back(L("ext",fs[r.below(3)])); else s.k.push_back(r.chance(0.5)?L("more"):L("find",std::string(1,'a'+r.below(6)))); } break; }
    } break; }
  in_stage=was; return s;
}
Sx Gen::pipeline(int depth) {
  Sx p=L("pipe"); p.k.push_back(source(depth)); int n=depth==0&&r.chance(0.04)?r.range(4,14):r.range(1,3); for (int i=0;i<n;i++) p.k.push_back(filter(depth));
  return p;
}
Sx Gen::stmt(int depth) {
  budget--;
  if (depth>4||budget<0) return L("echo",text(depth));
  for (;;) switch (r.below(12)) {
  case 0: case 1: case 2: return simple(depth);
  case 3: if (conds) { Sx c=cond(depth); Sx a=body(depth); if (r.chance(0.5)) return L("if",c,a,body(depth)); return L("if",c,a); } break;
  case 4: if (loops&&forvars.size()<3) { char v='a'+forvars.size(); Sx it=L("items"); int n=r.range(1,4); for (int i=0;i<n;i++) it.k.push_back(L("t",word())); forvars+=v; Sx b=body(depth); forvars.pop_back(); return L("for",std::string(1,v),it,b); } break;
  case 5: if (loops&&forvars.size()<3) { char v='a'+forvars.size(); int a=r.range(0,3), s=r.range(1,2), e=a+r.range(0,4); forvars+=v; Sx b=body(depth); forvars.pop_back(); return L("forl",std::string(1,v),a,s,e,b); } break;
  case 6: if (pipes&&(depth<2||nested_pipes)&&depth<4) return pipeline(depth); break;
  case 7: if (forf&&depth<3&&forvars.size()<2) { std::string o="tokens=1,2"; if (r.chance(0.3)) o="tokens=1*"; char v='m'+2*forvars.size(); Sx src=flat(depth+1); forvars+=v; Sx b=body(depth); forvars.pop_back(); return L("forfc",std::string(1,v),o,src,b); } break;
  case 8: if (redirs&&!in_stage&&depth<3) { std::string f=fname(nfile++); Sx b=r.chance(0.5)?simple(depth+1):body(depth); return L("redir",r.chance(0.7)?">":">>",f,b); } break;
  case 9: if (depth<3) { Sx a=simple(depth+1), b=simple(depth+1); return L("seq","&",a,b); } break;
  case 10: if (redirs&&!in_stage&&!wfiles.empty()) return L("type",wfiles[r.below(wfiles.size())]); break;
  case 11: if (redirs&&exts&&!in_stage&&!wfiles.empty()) return L("redir","<",wfiles[r.below(wfiles.size())],filter(depth)); break;
  }
}
Sx Gen::sub(int id) {
  Sx s=L("sub",std::string("s")+std::to_string(id)); int ns=nsub; nsub=id; auto fv=forvars; forvars=""; int n=r.range(1,4); bool was=in_stage; in_stage=true; int b=budget; budget=8;
  for (int i=0;i<n;i++) s.k.push_back(stmt(1)); budget=b; in_stage=was; forvars=fv; nsub=ns; return s;
}
std::vector<Sx> Gen::program(int n, int nsubs) {
  std::vector<Sx> ops; std::vector<Sx> subs; for (int i=0;i<nsubs;i++) subs.push_back(sub(i)); nsub=nsubs;
  for (int i=0;i<n;i++) { int f0=nfile; budget=14; Sx s=stmt(0); ops.push_back(s); for (int k=f0;k<nfile;k++) if (s.head()=="redir"&&s.s(2)==fname(k)) wfiles.push_back(fname(k)); }
  for (auto& s: subs) ops.push_back(s);
  return ops;
}
void swarm_schedule(Rng& r, SimConfig& c) {
  static const double ps[]={0.02,0.1,0.3,0.6}; c.policy=r.below(8); c.policy=c.policy<4?0:c.policy<6?1:c.policy==6?2:3; c.p_switch=ps[r.below(4)];
  if (c.policy!=3&&r.chance(0.6)) { static const uint32_t m[]={30,300,3000}; c.preempt_mean=m[r.below(3)]; }
  static const uint32_t caps[]={65536,65536,4096,512,64,16}; c.pipe_cap=caps[r.below(6)];
  if (r.chance(0.4)) c.p[D_SHORT_READ]=r.chance(0.5)?0.2:0.9;
  if (r.chance(0.3)) c.p[D_SHORT_WRITE]=r.chance(0.5)?0.1:0.5;
  if (r.chance(0.2)) c.p[D_PIPE_CAP]=0.5;
}
