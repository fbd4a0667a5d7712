#include "kern.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
int script_main(int argc, char** argv) {
  kern_init();
  SimConfig c; std::string script; bool trace=false; RunSpec rs; rs.argv={"pbat"}; bool showlog=false;
  rs.env={"PATH=/bin:/opt/pbat/cmd","HOME=/w"};
  std::vector<std::pair<std::string,std::string>> files;
  for (int i=1;i<argc;i++) { std::string a=argv[i];
    if (a=="--seed") c.seed=atoll(argv[++i]); else if (a=="--trace") trace=true; else if (a=="--script") script=argv[++i];
    else if (a=="--psw") c.p_switch=atof(argv[++i]); else if (a=="--pre") c.preempt_mean=atoi(argv[++i]); else if (a=="--log") showlog=true;
    else if (a=="--file") { std::string n=argv[++i]; files.push_back({n,argv[++i]}); }
    else if (a=="--stdin") rs.stdin_data=argv[++i]; else if (a=="--p") { std::string k=argv[++i]; for (int j=0;j<D_NKINDS;j++) if (k==dkind_name[j]) { c.p[j]=atof(argv[i+1]); } i++; }
    else if (a=="--ttyout") rs.stdout_tty=true;
    else rs.argv.push_back(a); }
  kern_reset(c);
  std::ifstream f(script); std::stringstream ss; ss<<f.rdbuf(); vfs_put("/w/t.bat",ss.str());
  for (auto& x: files) vfs_put(x.first.c_str(),x.second);
  for (const char* p: {"cat","upper","slurp","count","ret","emit","args","getenv","pause_ms","head","noread","err","emitz","rd1","printn","lines","probe","both"}) vfs_prog((std::string("/bin/")+p).c_str(),p);
  K->tracing=trace;
  if (rs.argv.size()==1) rs.argv.push_back("t.bat");
  int o=kern_run(rs,20000);
  printf("outcome %s exit %d steps %lu vtime %lu hash %016lx why %s heap %s\n",o<0?"TIMEOUT":outcome_name[o],K->main_exit>>8,(unsigned long)K->step,(unsigned long)K->vtime,(unsigned long)K->hash,K->why.c_str(),K->heap_report.c_str());
  if (K->crash.depth) { printf("crash sig %d addr %lx pc %lx task %d\n",K->crash.sig,(unsigned long)K->crash.addr,(unsigned long)K->crash.pc,K->crash.task); for (uint32_t i=0;i<K->crash.depth;i++) printf(" %p",K->crash.stack[i]); printf("\n"); }
  printf("--- out\n%s--- err\n%s--- note %s\n",K->out->data.c_str(),K->err->data.c_str(),K->final_note.c_str());
  if (showlog) for (auto& e: K->log) printf("%lu t%d %s [%s] [%s] %ld\n",(unsigned long)e.step,e.task,e.op.c_str(),e.a.c_str(),e.b.c_str(),(long)e.r);
  std::vector<std::string> l; vfs_list(l,"/w"); for (auto& x: l) { std::string d; vfs_read(x.c_str(),d); printf("file %s (%zu)\n",x.c_str(),d.size()); }
  return 0; }
