// Simulated external programs: small, with only simulated system calls.
#include "kern.h"
#include <cerrno>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
extern "C" { ssize_t sim_read(int, void*, size_t); ssize_t sim_write(int, const void*, size_t); int sim_open(const char*, int, ...); int sim_close(int); int sim_usleep(unsigned); }
static bool wall(int fd, const char* b, size_t n) { while (n) { ssize_t r=sim_write(fd,b,n); if (r<0) { if (errno==EINTR) continue; return false; } b+=r; n-=r; } return true; }
static ssize_t rd(int fd, char* b, size_t n) { for (;;) { ssize_t r=sim_read(fd,b,n); if (r<0 && errno==EINTR) continue; return r; } }
int prog_main(const char* name, int argc, char** argv, char** envp) {
  char buf[512]; ssize_t r;
  if (!strcmp(name,"cat")) { if (argc>1) { for (int i=1;i<argc;i++) { int fd=sim_open(argv[i],O_RDONLY); if (fd<0) { wall(2,"cat: no file\n",13); return 1; } while ((r=rd(fd,buf,sizeof buf))>0) if (!wall(1,buf,r)) return 2; sim_close(fd); } return 0; }
    while ((r=rd(0,buf,sizeof buf))>0) if (!wall(1,buf,r)) return 2; return r<0?3:0; }
  if (!strcmp(name,"upper")) { while ((r=rd(0,buf,sizeof buf))>0) { for (int i=0;i<r;i++) if (buf[i]>='a'&&buf[i]<='z') buf[i]-=32; if (!wall(1,buf,r)) return 2; } return 0; }
  if (!strcmp(name,"slurp")) { Str s; while ((r=rd(0,buf,sizeof buf))>0) s.append(buf,r); return wall(1,s.data(),s.size())?0:2; }
  if (!strcmp(name,"count")) { uint64_t h=1469598103934665603ull; size_t n=0; while ((r=rd(0,buf,sizeof buf))>0) { n+=r; for (int i=0;i<r;i++) { h^=(unsigned char)buf[i]; h*=1099511628211ull; } } int m=snprintf(buf,sizeof buf,"%zu %016lx\n",n,(unsigned long)h); wall(1,buf,m); return 0; }
  if (!strcmp(name,"opener")) return argc>2?atoi(argv[2]):0;   // what PBAT_START_SCRIPT names: gets the file and its arguments
  if (!strcmp(name,"ret")) return argc>1?atoi(argv[1]):0;
  if (!strcmp(name,"emit")) { int n=argc>1?atoi(argv[1]):1; const char* w=argc>2?argv[2]:"line"; for (int i=0;i<n;i++) { int m=snprintf(buf,sizeof buf,"%s%d\n",w,i); if (!wall(1,buf,m)) return 2; } return 0; }
  if (!strcmp(name,"emitz")) { int n=argc>1?atoi(argv[1]):1, w=argc>2?atoi(argv[2]):10; Str l; for (int i=0;i<n;i++) { l.clear(); for (int j=0;j<w;j++) l+=char('a'+(i*7+j)%26); l+='\n'; if (!wall(1,l.data(),l.size())) return 2; } return 0; }
  if (!strcmp(name,"rd1")) { Str l; bool got=false; char c; while ((r=rd(0,&c,1))>0) { got=true; if (c=='\n') break; l+=c; } Str o; if (got) { o="["; o+=l; o+="]\n"; } else o="-eof-\n"; return wall(1,o.data(),o.size())?0:2; }
  if (!strcmp(name,"both")) { int n=argc>1?atoi(argv[1]):1; for (int i=0;i<n;i++) { int m=snprintf(buf,sizeof buf,"o%d\n",i); if (!wall(1,buf,m)) return 2; m=snprintf(buf,sizeof buf,"e%d\n",i); if (!wall(2,buf,m)) return 2; } return 0; }
  if (!strcmp(name,"args")) { for (int i=0;i<argc;i++) { if (!wall(1,"[",1)||!wall(1,argv[i],strlen(argv[i]))||!wall(1,"]\n",2)) return 2; } return 0; }
  if (!strcmp(name,"getenv")) { for (int i=1;i<argc;i++) { size_t l=strlen(argv[i]); const char* v="(unset)"; for (char** e=envp;e&&*e;e++) if (!strncmp(*e,argv[i],l)&&(*e)[l]=='=') v=*e+l+1; int m=snprintf(buf,sizeof buf,"%s=%s\n",argv[i],v); if (!wall(1,buf,m)) return 2; } return 0; }
  if (!strcmp(name,"pause_ms")) { sim_usleep((argc>1?atoi(argv[1]):1)*1000u); return argc>2?atoi(argv[2]):0; }
  if (!strcmp(name,"head")) { int n=argc>1?atoi(argv[1]):1; while (n>0 && (r=rd(0,buf,1))>0) { if (!wall(1,buf,1)) return 2; if (buf[0]=='\n') n--; } return 0; }
  if (!strcmp(name,"printn")) { Str o; for (int i=1;i<argc;i++) { if (i>1) o+=' '; o+=argv[i]; } return wall(1,o.data(),o.size())?0:2; }
  if (!strcmp(name,"lines")) { for (int i=1;i<argc;i++) { Str o=argv[i]; o+='\n'; if (!wall(1,o.data(),o.size())) return 2; } return 0; }
  if (!strcmp(name,"probe")) {                // what the interpreter holds while it waits for this program, once all is quiet
    sim_usleep(5000000); int nf=0,nt=0,nz=0; for (int i=0;i<MAXFD;i++) if (K->mainp->fds[i].o) nf++;
    for (auto t: K->tasks) if (t->proc==K->mainp && (t->st!=T_DONE || (!t->joined&&!t->detached&&t->id!=K->mainp->main_task))) nt++;
    for (auto q: K->procs) if (q->ppid==K->mainp->pid && q->zombie && !q->reaped) nz++;
    char b[80]; snprintf(b,sizeof b,"fds %d threads %d zombies %d",nf,nt,nz); klog("probe",argc>1?argv[1]:"",b); return 0; }
  if (!strcmp(name,"noread")) { return argc>1?atoi(argv[1]):0; }
  if (!strcmp(name,"err")) { wall(2,"E:",2); if (argc>1) wall(2,argv[1],strlen(argv[1])); wall(2,"\n",1); wall(1,"O:",2); if (argc>1) wall(1,argv[1],strlen(argv[1])); wall(1,"\n",1); return 0; }
  if (!strcmp(name,"killself")) { K->procs.size(); return 0; }
  return 127;
}
