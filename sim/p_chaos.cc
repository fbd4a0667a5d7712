// F08: any generated or damaged script, any schedule, any fault: no memory error.
#include "case.h"
#include "model.h"
#include <cstring>
static std::string num8(long v) { return std::to_string(v); }
static const Prop* find8(const std::string& id) { for (auto& p: props) if (id==p.id) return &p; return nullptr; }
static const char* frag8[] = {"%","%%","!","\"","^","&","&&","||","|","(",")","<",">",">>","2>&1","1>&2","<&0",">&3","%%~","%~","%~dpnx1","%~$PATH:1","!x:~-3,2!","%x:~1%","!x:a=b!","%x:*=%","%*","%0","%9","%","'","`","@","@@",":l","::","goto :l","goto :eof","call :l","call x","for ","for /f ","for /l %%i in (1,1,3) do ","for /r %%i in (*) do ","for /f \"tokens=1-3* delims=,\" %%i in ('echo a,b,c') do ","in (","do (","if ","if not ","if exist ","if 1==1 (",") else (","else","errorlevel ","set /a ","set /p x=","set x=","setlocal","endlocal","shift","exit /b","pushd .","popd","rem ","echo.","echo(","echo ","/?","/s ","/q ","/f","$","*","?","[","[a-","\\","/","=",",",";","~","\t"," ","\n","\n\n","\r\n","\\\n","^\n","\xc3\xa9","\xff","\x01","nul","more","find \"a\"","dir /b","type t.bat","copy * d","del /q *","move a b","xargs echo","wc","sort","title x","color 0a","prompt $p$g","path","date","time","ver","cls","pause","mkdir q","rmdir /s /q q","ren a b","cd ..","start echo","tasklist","attrib","assoc","verify","vol","label","fc a b","comp a b","truncate","dump","lesskey","choose","timeout 0","basename","realpath","devmod"};
// Pieces of script that go to the limits of the interpreter's tables and buffers: "kind amount" pairs, inserted at the beginning of the script.
static std::string big8(const std::string& m) {
  std::string t; const char* p=m.c_str(); char* e; auto rep=[](const char* w, long n){ std::string s; while (n-->0) s+=w; return s; };
  for (;;) { long k=strtol(p,&e,10); if (e==p) break; long n=strtol(e,&e,10); p=e; std::string N=num8(n), id=num8(t.size()), W=rep("0123456789",n/2);
    switch (k) {
    case 0: t+="for /l %%i in (1,1,"+N+") do set v%%i=x%%i\nfor /l %%i in (1,2,"+N+") do set v%%i=\nfor /l %%i in (1,3,"+N+") do set w%%i=!v%%i!\necho %v2% %w4%.\n"; break;
    case 1: t+=rep("setlocal\n",n/8)+"set inner=1\n"+rep("endlocal\n",n/10); break;
    case 2: for (long i=0;i<n/8;i++) t+=i%3?"pushd .\n":"pushd sub"+num8(i)+"\n"; t+=rep("popd\n",n/10)+"cd > nul\n"; break;
    case 3: t+="set L="+W+"\necho %L:45=x%%L:01=%!L:~3,-2!!L:*9=yy!\nset L=%L%%L%\nset M=!L!!L!\nif \"%L%\"==\"%M%\" echo same\nfor %%i in (%L%) do echo %%~nxi\n"; break;
    case 4: t+=rep("(\n",n/6)+"echo deep\n"+rep(")\n",n/6); break;
    case 5: t+="call :r"+id+" "+num8(n/8)+"\ngoto :x"+id+"\n:r"+id+"\nif %1 leq 0 exit /b\nset /a d=%1-1\ncall :r"+id+" %d%\nexit /b\n:x"+id+"\n"; break;
    case 6: t+="goto :lb"+id+"_"+num8(n-1)+"\n"; for (long i=0;i<n;i++) t+=":lb"+id+"_"+num8(i)+"\n"; break;
    case 7: t+="echo p"+rep(" | more",n/60+1)+"\n"; break;
    case 8: t+="for %%i in ("+rep("abc ",n)+") do set c=!c!%%i\necho !c!\n"; break;
    case 9: t+="call :a"+id+" "+rep("arg ",n)+"\ngoto y"+id+"\n:a"+id+"\necho %* %+\nshift /3\nshift /d:4\necho %1 %9 %*\nexit /b\n:y"+id+"\n"; break;
    case 10: t+="set /a q="+rep("(1+",n/4)+"1"+rep(")",n/4)+"\nset /a q="+W+"*2\nset /a "+rep("z",n)+"=1\necho %q%\n"; break;
    case 11: t+="for /f \"tokens=1-31\" %%a in (\""+rep("t ",n)+"\") do echo %%a %%z\nfor /f \"delims="+rep("x",n/2)+" tokens="+rep("1,",n/4)+"2\" %%a in (\""+W+"\") do echo %%a\n"; break;
    case 12: t+="set "+W+"=v\nset "+W+"\nset "+rep("n",n)+"\necho %"+W+"%\nif defined "+W+" echo def\n"; break;
    case 13: { std::string d=rep("d",std::min<long>(250,n)); t+="mkdir "+d+"\n"; for (long i=0;i<20;i++) t+="cd "+d+"\nmkdir "+d+"\n"; t+="cd\ndir /b\necho x > f.txt\ntype f.txt\ncopy f.txt g.txt\nmove g.txt h.txt\ndir /s /b ..\nfor %%i in (*) do echo %%~fi %%~dpnxi\npushd .\npopd\ncd ..\\..\\..\nrmdir /s /q "+d+"\n"; break; }
    case 14: t+="set PROMPT="+rep("$p$g",n/4)+"\n@echo on\nrem x\n@echo off\n"; break;
    case 15: t+="type "+W+"\ncopy "+W+" "+W+"x\nren "+W+" y\nmove "+W+" z\ndel "+W+"\ncd "+W+"\nmkdir "+W+"\nrmdir "+W+"\ncall "+W+"\ncall :"+W+"\ngoto :"+W+"\nif exist "+W+" echo e\nfor %%i in ("+W+"*) do echo %%i\nfind \"x\" "+W+"\nmore "+W+"\ndir "+W+"\n"+W+" 1 2\n"; break;
    case 16: t+="echo "+W+"> "+W+"\necho x > sub/"+W+"\nsort < "+W+"\n"; break;
    case 17: for (long i=0;i<n;i++) t+="echo x > file"+num8(i)+"\n"; t+="dir /b\ntype file*\nfind /c \"x\" file*\ncopy file* sub\ndel /q file*\n"; break;
    case 18: for (long i=0;i<n/10;i++) t+="def /f fn"+num8(i)+"=(\nset x=$1$2$*\nset y=$+\n)\n"; t+="fn1 a b c\nfn2\nfn3 "+W+"\nfn1 "+rep("a ",n)+"\ndef m=echo $1..."+rep("$*",n/10)+"\nm a b\n"; break;
    case 19: t+="set S="+rep("a b;c,d=e\t",n/10)+"\nfor %%i in (%S%) do set /a cnt=cnt+1\necho %cnt%\nset S=\"%S%\"\ncall :q"+id+" %S%\ngoto u"+id+"\n:q"+id+"\necho %~1 %~dp1 %~x1 %~s1\nexit /b\n:u"+id+"\n"; break;
    default: t+="echo a 1> n1 2> n2 > n3 < n1"+rep(" 2>&1",n/10)+"\n"+rep("if 1==1 ",n/10)+"echo i\n"+rep("for %%i in (1) do ",n/40)+"echo f\n"; } }
  return t; }
static void gen_f08(Rng& r, Case& c) {
  static const char* src[]={"C01","C02","C03","C04","C05","C06","C07","E01","E02","E03","F01","F02","F03","F04","F05","F06","D01","X01","X02"};
  const Prop* p=nullptr; do p=find8(src[r.below(sizeof src/sizeof*src)]); while (!p);
  p->gen(r,c); c.set("of",p->id); c.cfg.max_steps=std::min<uint64_t>(c.cfg.max_steps,60000); c.cfg.max_accesses=60000000;
  int mode=r.below(3);                                      // 0 faults, 1 damage, 2 both
  if (mode!=1) { static const int kinds[]={D_SIGINT,D_ENOSPC,D_EIO_READ,D_EIO_WRITE,D_EIO_CLOSE,D_EMFILE,D_EACCES_OPEN,D_PIPE_FAIL,D_FORK_FAIL,D_THREAD_FAIL,D_MALLOC_FAIL,D_EXEC_FAIL,D_RENAME_FAIL,D_UNLINK_FAIL,D_MKDIR_FAIL,D_CLOCK_JUMP,D_DUP_FAIL,D_STAT_FAIL,D_READDIR_FAIL,D_SHORT_READ,D_SHORT_WRITE,D_MISC};
    int n=r.range(1,4); static const double ps[]={0.002,0.01,0.05,0.3}; for (int i=0;i<n;i++) { int k=kinds[r.below(sizeof kinds/sizeof*kinds)]; if (k==D_MALLOC_FAIL&&r.chance(0.5)) continue; c.cfg.p[k]=k==D_MALLOC_FAIL||k==D_SIGINT?ps[r.below(2)]:ps[r.below(4)]; if (c.cfg.max_faults[k]!=~0u) c.cfg.max_faults[k]=r.range(1,4); } }
  if (mode!=0) { std::string m; int n=r.range(1,r.chance(0.3)?12:4); if (r.chance(0.25)) { c.set("soup",1); n=r.range(3,60); } for (int i=0;i<n;i++) { int k=r.below(6); m+=num8(k)+" "+num8(r.below(1<<20))+" "+num8(r.below(1<<20))+" "; } c.set("damage",m); }
  if (r.chance(0.25)) { std::string m; int n=r.range(1,3); static const int am[]={1,8,30,60,126,129,200,255,256,260,400,700,1030,2100}; for (int i=0;i<n;i++) m+=num8(r.below(21))+" "+num8(am[r.below(14)]+(r.chance(0.3)?(int)r.range(-2,2):0))+" "; c.set("big",m); c.cfg.max_steps=200000; c.cfg.max_accesses=200000000; } }
static void damage(std::string& t, const std::string& m) {
  const char* p=m.c_str(); char* e; for (;;) { long k=strtol(p,&e,10); if (e==p) break; long a=strtol(e,&e,10), b=strtol(e,&e,10); p=e; size_t n=t.size(); size_t at=n?a%(n+1):0;
    size_t nf=sizeof frag8/sizeof*frag8; switch (k) {
    case 0: t.insert(at,frag8[b%nf]); break;
    case 1: t.erase(at,1+b%6); break;
    case 2: if (n) { size_t l=1+b%40; t.insert(at,t.substr((b/40)%n,l)); } break;                       // copy a piece
    case 3: if (at<n) t[at]=" %!\"^&|()<>'~=\n$*?:;,0aZ"[b%25]; break;
    case 4: { size_t ls=t.rfind('\n',at?at-1:0); ls=ls==std::string::npos?0:ls+1; t.insert(ls,std::string(frag8[b%nf])+" "+frag8[(b/nf)%nf]+" "+frag8[(b/nf/nf)%nf]+"\n"); break; }
    case 5: if (b%4) t.erase(at); else { size_t l=b%3==0?9000:b%3==1?1030:300; t.insert(at,std::string(l,"x(%\" "[(b/3)%5])); } break; } } }
static std::string soup(const std::string& m) {                // a script made of nothing but fragments
  std::string t; const char* p=m.c_str(); char* e; size_t nf=sizeof frag8/sizeof*frag8; static const char* w[]={"x","abc","1","0","-7","a.txt","*.txt","d1","echo","nul","%x%","!x!","%1","\"q r\"","con","2","t.bat","/a","/b"};
  for (;;) { long k=strtol(p,&e,10); if (e==p) break; long a=strtol(e,&e,10), b=strtol(e,&e,10); p=e; t+=frag8[a%nf]; if (k%3) t+=" "; t+=w[b%19]; t+=(k==0||b%5==0)?"\n":" "; }
  return t; }
static void setup_f08(const Case& c, RunSpec& rs) {
  const Prop* p=find8(c.ps("of")); if (!p) return; p->setup(c,rs);
  if (c.par.count("big")) { std::string t; if (vfs_read("/w/t.bat",t)) vfs_put("/w/t.bat","@echo off\n"+big8(c.ps("big"))+t); }
  if (c.par.count("damage")) { std::string t; if (c.pi("soup")) { vfs_put("/w/t.bat",soup(c.ps("damage"))); vfs_put("/w/a.txt","one two\nthree\n"); } else for (const char* f: {"/w/t.bat","/w/s1.bat","/w/a.bat"}) if (vfs_read(f,t)) { damage(t,c.ps("damage")); vfs_put(f,t); } } }
static Verdict check_f08(const Case&, int o) { Verdict v=basic_outcome(o); return v.cls=="crash"||v.cls=="abort"||v.cls=="heap"?v:Verdict(); }
static Reg rf8({"F08","a case of one of the other properties with one to four fault kinds of every sort switched on (failing allocations, descriptors, pipes, threads, processes, opens, reads, writes, stats, interrupts), with its script damaged at one to twelve places (fragments of syntax inserted, pieces removed, copied, replaced, truncated, very long words), or both, a quarter of them after up to three pieces of script that go to the limits of tables and buffers (hundreds of variables, scopes, labels, arguments, files and tokens, deep nestings and directories, names and values of thousands of characters); every read and write of interpreter memory is checked against the simulated heap; non-trivial runs injected a fault or ran a damaged script",gen_f08,setup_f08,check_f08,[](const Case& c){ if (c.par.count("damage")||c.par.count("big")) return true; for (auto& d: K->made) if (d.choice&&d.kind!=D_SCHED&&d.kind!=D_PREEMPT&&d.kind!=D_PIPE_CAP) return true; return false; },nullptr,nullptr});
