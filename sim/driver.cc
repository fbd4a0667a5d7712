// Search driver: generates cases from seeds, runs them, gates and minimises
// violations, replays files, writes evidence.
#include "case.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sched.h>
#include <sys/prctl.h>
#include <elf.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

std::vector<Prop> props;

// ---- S-expressions -------------------------------------------------------------
static void sxp(const Sx& x, std::string& o) {
  if (x.list) { o+='('; for (size_t i=0;i<x.k.size();i++) { if (i) o+=' '; sxp(x.k[i],o); } o+=')'; return; }
  bool q=x.a.empty(); for (char c: x.a) if (!(isalnum((unsigned char)c)||strchr("_-+*/.<>=!&|:%",c))) q=true;
  if (!q) { o+=x.a; return; }
  o+='"'; for (unsigned char c: x.a) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>=127) { char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; } else o+=c; } o+='"';
}
std::string sx_str(const Sx& x) { std::string o; sxp(x,o); return o; }
static Sx sxr(const char*& p) {
  while (*p==' ') p++;
  Sx r;
  if (*p=='(') { r.list=true; p++; for (;;) { while (*p==' ') p++; if (!*p) break; if (*p==')') { p++; break; } r.k.push_back(sxr(p)); } return r; }
  if (*p=='"') { p++; while (*p&&*p!='"') { if (*p=='\\') { p++; if (*p=='n') { r.a+='\n'; p++; } else if (*p=='x') { char b[3]={p[1],p[2],0}; r.a+=(char)strtol(b,0,16); p+=3; } else r.a+=*p++; } else r.a+=*p++; } if (*p) p++; return r; }
  while (*p&&*p!=' '&&*p!=')'&&*p!='(') r.a+=*p++;
  return r;
}
Sx sx_parse(const std::string& s) { const char* p=s.c_str(); return sxr(p); }
std::string esc(const std::string& s, size_t max) { std::string o; for (unsigned char c: s) { if (o.size()>max) { o+="..."; break; } if (c=='\n') o+="\\n"; else if (c<32||c>=127) { char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; } else o+=c; } return o; }

// ---- helpers for properties ------------------------------------------------------
std::string out_text() { return N(K->out->data); }
std::string err_text() { return N(K->err->data); }
size_t count_log(const char* op) { size_t n=0; for (auto& e: K->log) if (e.op==op) n++; return n; }
std::string diff_msg(const char* what, const std::string& want, const std::string& got) {
  size_t i=0; while (i<want.size()&&i<got.size()&&want[i]==got[i]) i++;
  size_t b=i>60?i-60:0; char h[100]; snprintf(h,sizeof h,"%s differs at byte %zu (expected %zu bytes, got %zu): ",what,i,want.size(),got.size());
  return std::string(h)+"expected ..."+esc(want.substr(b,220),300)+" got ..."+esc(got.substr(b,220),300);
}
void install_progs() { for (const char* p: {"opener","cat","upper","slurp","count","ret","emit","args","getenv","pause_ms","head","noread","err","rd1","printn","lines","probe","emitz","both"}) vfs_prog((std::string("/bin/")+p).c_str(),p); }
struct Sym { uint64_t a,sz; const char* n; };
static std::vector<Sym> syms;
static void load_syms() {
  if (!syms.empty()) return;
  int fd=open("/proc/self/exe",O_RDONLY); struct stat st; fstat(fd,&st); char* m=(char*)mmap(0,st.st_size,PROT_READ,MAP_PRIVATE,fd,0); close(fd); if (m==MAP_FAILED) return;
  Elf64_Ehdr* h=(Elf64_Ehdr*)m; Elf64_Shdr* sh=(Elf64_Shdr*)(m+h->e_shoff);
  for (int i=0;i<h->e_shnum;i++) if (sh[i].sh_type==SHT_SYMTAB) { Elf64_Sym* s=(Elf64_Sym*)(m+sh[i].sh_offset); const char* str=m+sh[sh[i].sh_link].sh_offset; for (size_t j=0;j<sh[i].sh_size/sizeof(Elf64_Sym);j++) if (ELF64_ST_TYPE(s[j].st_info)==STT_FUNC) syms.push_back({s[j].st_value,s[j].st_size,str+s[j].st_name}); }
  std::sort(syms.begin(),syms.end(),[](const Sym& x,const Sym& y){return x.a<y.a;});
}
static std::string symname(uint64_t pc) { load_syms(); auto it=std::upper_bound(syms.begin(),syms.end(),pc,[](uint64_t v,const Sym& s){return v<s.a;}); if (it==syms.begin()) return "?"; --it; return it->n; }
// stackpc holds return addresses: the function that called each instrumented function
std::string crash_fn() { std::string r; uint32_t d=K->crash.depth; int shown=0; if (K->crash.pc) { r=symname(K->crash.pc); shown++; } for (uint32_t i=d;i-->0&&shown<6;) { std::string s=symname((uint64_t)K->crash.stack[i]-1); if (!r.empty()) r+="<"; r+=s; shown++; } return r; }
Verdict basic_outcome(int o) {
  Verdict v;
  switch (o) {
  case RES_DEADLOCK: v.cls="hang"; v.msg="the interpreter hangs: "+N(K->why); break;
  case RES_STEPS: if (N(K->why).compare(0,10,"simulator:")==0) break; if (K->bytes_piped+K->bytes_read+K->bytes_written>150000||K->tasks.size()>250) break;      // long, not stuck
    v.cls="no-progress"; v.msg="no end within the step bound: "+N(K->why); break;
  case RES_SPIN: v.cls="spin"; v.msg=N(K->why); break;
  case RES_CRASHED: if (K->crash.sig==SIGSEGV&&K->crash.total>400) break;      // the script recurses without end and its stack is used up
    v.cls="crash"; { char b[64]; snprintf(b,sizeof b,"signal %d at address 0x%lx in ",K->crash.sig,(unsigned long)K->crash.addr); v.msg=b+crash_fn(); } break;
  case RES_ASSERT: v.cls="abort"; v.msg=N(K->why)+" in "+crash_fn(); break;
  case RES_HEAP: v.cls="heap"; v.msg=N(K->heap_report)+" in "+crash_fn(); break;
  default: break;
  }
  return v;
}

// ---- running one case --------------------------------------------------------------
struct RunRes { int outcome=-1; uint64_t hash=0; Verdict v; std::vector<Dec> made; bool nontrivial=false; uint64_t sched=0; };
static int real_timeout=20000;
static RunRes run_case(const Prop& p, const Case& c, uint64_t dseed, const std::vector<Dec>* replay, bool trace=false) {
  RunRes r; SimConfig cfg=c.cfg; cfg.seed=dseed; cfg.replay=replay!=nullptr;
  kern_reset(cfg); K->tracing=trace;
  RunSpec rs; rs.argv={"pbat","t.bat"}; rs.env={"PATH=/bin:/opt/pbat/cmd","HOME=/w"};
  install_progs();
  p.setup(c,rs);
  if (K->skip) { r.outcome=-1; K->why="too large"; return r; }
  if (replay) { for (auto& d: *replay) if (d.kind!=D_PREEMPT) K->overrides.push_back(d); else K->preovr.push_back(d); }
  r.outcome=kern_run(rs,real_timeout);
  r.hash=K->hash; r.sched=K->sched_hash;
  if (r.outcome<0) return r;
  if (K->why.find("simulator:")!=Str::npos || K->why.find("arena")!=Str::npos) { r.outcome=-1; return r; }
  r.v=p.check(c,r.outcome); r.nontrivial=p.nontrivial?p.nontrivial(c):K->switches>0;
  for (auto& d: K->made) r.made.push_back(d);
  return r;
}
static void gen_case(const Prop& p, uint64_t seed, Case& c) { uint64_t h=1469598103934665603ull; for (const char* q=p.id;*q;q++) { h^=*q; h*=1099511628211ull; } Rng r(seed*1000003ull+h); c=Case(); p.gen(r,c); }

// ---- replay files -------------------------------------------------------------------
static std::string cfg_str(const SimConfig& c) {
  std::ostringstream o; o<<"cfg policy "<<c.policy<<" psw "<<c.p_switch<<" preempt "<<c.preempt_mean<<" pipe_cap "<<c.pipe_cap<<" max_steps "<<c.max_steps<<" max_accesses "<<c.max_accesses<<" disk "<<(long long)c.disk_capacity<<" power "<<c.crash_power<<"\n";
  for (int i=0;i<D_NKINDS;i++) if (c.p[i]>0) o<<"fault "<<dkind_name[i]<<" "<<c.p[i]<<" "<<c.max_faults[i]<<"\n";
  return o.str();
}
static void write_replay(const std::string& path, const Prop& p, const Case& c, const RunRes& r, uint64_t seed, const std::string& note) {
  std::ofstream f(path); f<<"picobat-sim-replay 1\nproperty "<<p.id<<"\nseed "<<seed<<"\nclass "<<r.v.cls<<"\nmessage "<<esc(r.v.msg,2000)<<"\n"; if (!note.empty()) f<<"note "<<note<<"\n";
  for (auto& x: c.par) f<<"param "<<x.first<<" "<<sx_str(Sx(x.second))<<"\n";
  for (auto& x: c.ops) f<<"op "<<sx_str(x)<<"\n";
  f<<cfg_str(c.cfg);
  for (auto& d: r.made) f<<"dec "<<d.idx<<" "<<d.n<<" "<<d.choice<<" "<<dkind_name[d.kind]<<"\n";
  char b[32]; snprintf(b,sizeof b,"%016lx",(unsigned long)r.hash); f<<"hash "<<b<<"\nend\n";
}
struct Replay { std::string prop, cls, msg, note; Case c; std::vector<Dec> made; uint64_t hash=0, seed=0; bool good=false; };
static Replay read_replay(const char* path) {
  Replay r; std::ifstream f(path); std::string l;
  while (std::getline(f,l)) { std::istringstream s(l); std::string k; s>>k; std::string rest; size_t sp=l.find(' '); if (sp!=std::string::npos) rest=l.substr(sp+1);
    if (k=="property") r.prop=rest; else if (k=="class") r.cls=rest; else if (k=="message") r.msg=rest; else if (k=="note") r.note=rest; else if (k=="seed") r.seed=strtoull(rest.c_str(),0,10);
    else if (k=="param") { std::string n; s>>n; r.c.par[n]=sx_parse(rest.substr(n.size()+1)).a; }
    else if (k=="op") r.c.ops.push_back(sx_parse(rest));
    else if (k=="cfg") { std::string n; while (s>>n) { if (n=="policy") s>>r.c.cfg.policy; else if (n=="psw") s>>r.c.cfg.p_switch; else if (n=="preempt") s>>r.c.cfg.preempt_mean; else if (n=="pipe_cap") s>>r.c.cfg.pipe_cap; else if (n=="max_steps") s>>r.c.cfg.max_steps; else if (n=="max_accesses") s>>r.c.cfg.max_accesses; else if (n=="disk") { long long v; s>>v; r.c.cfg.disk_capacity=v; } else if (n=="power") s>>r.c.cfg.crash_power; } }
    else if (k=="fault") { std::string n; double p; uint32_t m; s>>n>>p>>m; for (int i=0;i<D_NKINDS;i++) if (n==dkind_name[i]) { r.c.cfg.p[i]=p; r.c.cfg.max_faults[i]=m; } }
    else if (k=="dec") { Dec d; std::string n; s>>d.idx>>d.n>>d.choice>>n; d.kind=0; for (int i=0;i<D_NKINDS;i++) if (n==dkind_name[i]) d.kind=i; r.made.push_back(d); }
    else if (k=="hash") r.hash=strtoull(rest.c_str(),0,16); else if (k=="end") r.good=true; }
  return r;
}

// ---- minimisation ---------------------------------------------------------------------
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void block_paths(const Sx& x, std::vector<size_t>& cur, std::vector<std::vector<size_t>>& out) {
  if (!x.list) return;
  std::string h=x.head();
  for (size_t i=0;i<x.k.size();i++) { cur.push_back(i); if (i>0 && (((h=="block"||h=="iblock") && x.k.size()>2) || ((h=="sub"||h=="script") && i>1) || (h=="pipe" && x.k.size()>3) || (h=="files" && x.k.size()>1))) out.push_back(cur); block_paths(x.k[i],cur,out); cur.pop_back(); }
}
static Sx* at_path(Sx& x, const std::vector<size_t>& p) { Sx* q=&x; for (size_t i: p) { if (i>=q->k.size()) return nullptr; q=&q->k[i]; } return q; }
static RunRes minimise(const Prop& p, Case& c, RunRes best, uint64_t seed, double budget) {
  double t0=now(); int runs=0;
  auto same=[&](const RunRes& r){ return r.outcome>=0 && r.v.cls==best.v.cls; };
  auto attempt=[&](const Case& cc)->bool {       // same class with the recorded decisions or with a few fresh schedules
    for (int k=0;k<5;k++) { if (now()-t0>budget) return false; runs++;
      RunRes r = k==0 ? run_case(p,cc,seed,&best.made) : run_case(p,cc,seed*7919+k-1,nullptr);
      if (same(r)) { c=cc; best=r; return true; } }
    return false; };
  bool changed=true;
  while (changed && now()-t0<budget) { changed=false;
    for (size_t chunk=std::max<size_t>(1,c.ops.size()/2);chunk>=1;chunk/=2) {
      for (size_t i=0;i<c.ops.size()&&now()-t0<budget;) { Case cc=c; cc.ops.erase(cc.ops.begin()+i,cc.ops.begin()+std::min(i+chunk,cc.ops.size())); if (cc.ops.size()<c.ops.size() && attempt(cc)) changed=true; else i+=chunk; }
      if (chunk==1) break; }
    for (size_t i=0;i<c.ops.size();i++) { for (bool again=true;again&&now()-t0<budget;) { again=false; std::vector<std::vector<size_t>> ps; std::vector<size_t> cur; block_paths(c.ops[i],cur,ps);
        for (auto& q: ps) { Case cc=c; auto par=std::vector<size_t>(q.begin(),q.end()-1); Sx* x=at_path(cc.ops[i],par); if (!x) continue; x->k.erase(x->k.begin()+q.back()); if (attempt(cc)) { changed=again=true; break; } } } } }
  // fault kinds that are not needed
  for (int k=0;k<D_NKINDS&&now()-t0<budget;k++) if (c.cfg.p[k]>0) { Case cc=c; cc.cfg.p[k]=0; attempt(cc); }
  if (c.cfg.preempt_mean && now()-t0<budget) { Case cc=c; cc.cfg.preempt_mean=0; attempt(cc); }
  // decisions
  auto tryd=[&](const std::vector<Dec>& d){ if (now()-t0>budget*1.6) return false; runs++; RunRes r=run_case(p,c,seed,&d); if (same(r) && r.made.size()<=best.made.size()) { best=r; return true; } return false; };
  tryd({});
  for (size_t chunk=std::max<size_t>(1,best.made.size()/2);;chunk/=2) {
    for (size_t i=0;i<best.made.size()&&now()-t0<budget*1.6;) { auto d=best.made; size_t before=d.size(); d.erase(d.begin()+i,d.begin()+std::min(i+chunk,d.size())); if (!(tryd(d) && best.made.size()<before)) i+=chunk; }
    if (chunk<=1) break; }
  RunRes f=run_case(p,c,seed,&best.made,getenv("PSIM_TM")!=nullptr);      // canonical replay form
  if (same(f)) best=f;
  return best;
}

// ---- statistics shared with the workers -----------------------------------------------
struct Stats { uint64_t runs, nontriv, discarded, steps, switches, preempts, forks, execs, threads, bytes; uint64_t vtime; uint64_t faults[D_NKINDS], decs[D_NKINDS], outcomes[16]; volatile int stop; uint64_t unstable; uint64_t maxalive; };
static Stats* ST;
static std::string jstr(const std::string& s) { std::string o="\""; for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t"; else if (c<32||c>=127) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }

static int worker(const Prop& p, int w, int nw, uint64_t base, double deadline, uint64_t maxruns, const std::string& dir, bool all) {
  { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w%std::max(1L,sysconf(_SC_NPROCESSORS_ONLN)),&cs); sched_setaffinity(0,sizeof cs,&cs); }   // baton passing is cheapest on one CPU
  prctl(PR_SET_CHILD_SUBREAPER,1); kern_init(); { struct rlimit rl={5ul<<30,5ul<<30}; setrlimit(RLIMIT_AS,&rl); }
  std::unordered_set<uint64_t> seen, scheds; std::set<std::string> classes; std::ofstream hashes;
  for (uint64_t j=0;;j++) {
    uint64_t idx=w+j*nw; if (idx>=maxruns || now()>deadline || ST->stop) break;
    uint64_t seed=base+idx; Case c; try {
    gen_case(p,seed,c);
    RunRes r=run_case(p,c,seed,nullptr);
    if (r.outcome<0) { __sync_fetch_and_add(&ST->discarded,1); if (getenv("PSIM_DEBUG")) fprintf(stderr,"discarded seed %lu: %s\n",(unsigned long)seed,K->why.c_str()); continue; }
    __sync_fetch_and_add(&ST->runs,1); __sync_fetch_and_add(&ST->steps,K->step); __sync_fetch_and_add(&ST->switches,K->switches); __sync_fetch_and_add(&ST->preempts,K->preempts); __sync_fetch_and_add(&ST->forks,K->forks); __sync_fetch_and_add(&ST->execs,K->execs); __sync_fetch_and_add(&ST->threads,K->threads_created); __sync_fetch_and_add(&ST->bytes,K->bytes_piped); __sync_fetch_and_add(&ST->vtime,K->vtime/1000); __sync_fetch_and_add(&ST->outcomes[r.outcome],1);
    for (int i=0;i<D_NKINDS;i++) { __sync_fetch_and_add(&ST->faults[i],K->fault_count[i]); __sync_fetch_and_add(&ST->decs[i],K->dec_count[i]); }
    if (r.nontrivial) { if (seen.insert(r.hash).second) __sync_fetch_and_add(&ST->nontriv,1); }
    scheds.insert(r.sched);
    if (r.v.ok()) continue;
    std::string ck=r.v.cls; if (all&&(ck=="crash"||ck=="abort"||ck=="heap")) ck+=r.v.msg.substr(r.v.msg.find(" in ")==std::string::npos?0:r.v.msg.find(" in ")); if (all && classes.count(ck)) continue;
    // gate: the same seed must give the same execution again
    uint64_t h=r.hash; RunRes r2=run_case(p,c,seed,nullptr);
    if (r2.outcome!=r.outcome || r2.hash!=h || r2.v.cls!=r.v.cls) { __sync_fetch_and_add(&ST->unstable,1); continue; }
    RunRes rr=run_case(p,c,seed,&r.made); if (rr.outcome>=0 && rr.v.cls==r.v.cls && rr.hash==h) r=rr; else { __sync_fetch_and_add(&ST->unstable,1); if (getenv("PSIM_DEBUG")) fprintf(stderr,"replay mismatch seed %lu: %s/%s hash %lx/%lx\n",(unsigned long)seed,r.v.cls.c_str(),rr.v.cls.c_str(),(unsigned long)h,(unsigned long)rr.hash); continue; }
    classes.insert(ck);
    if (!all) { int was=__sync_fetch_and_add(&ST->stop,1); if (was>1) break; }
    RunRes m=minimise(p,c,r,seed,all?8:15);
    char path[600]; snprintf(path,sizeof path,"%s/%s-%lu-%d.replay",dir.c_str(),p.id,(unsigned long)seed,w); write_replay(path,p,c,m,seed,"");
    printf("V %s\n",path); fflush(stdout);
    if (!all) break;
    } catch (std::bad_alloc&) { __sync_fetch_and_add(&ST->discarded,1); if (getenv("PSIM_DEBUG")) fprintf(stderr,"out of memory seed %lu\n",(unsigned long)seed); }
  }
  char hp[600]; snprintf(hp,sizeof hp,"%s/hashes.%s.%d",dir.c_str(),p.id,w); FILE* f=fopen(hp,"wb"); if (f) { for (uint64_t x: scheds) fwrite(&x,8,1,f); fclose(f); }
  fflush(nullptr); _exit(0);
}

static const Prop* find_prop(const std::string& id) { for (auto& p: props) if (id==p.id) return &p; return nullptr; }
static void render_sample(const Prop& p, const Case& c, std::string& o) {
  SimConfig cfg=c.cfg; kern_reset(cfg); RunSpec rs; install_progs(); p.setup(c,rs); std::string t; if (vfs_read("/w/t.bat",t)) o+=t; else for (auto& x: c.ops) o+=sx_str(x)+"\n";
}
static int do_replay(const char* path, bool trace, bool quiet, bool showlog=false) {
  Replay r=read_replay(path); if (!r.good) { printf("unreadable replay file %s\n",path); return 2; }
  const Prop* p=find_prop(r.prop); if (!p) { printf("unknown property %s\n",r.prop.c_str()); return 2; }
  kern_init(); 
  if (!quiet) { std::string s; render_sample(*p,r.c,s); printf("--- scenario\n%s---\n",s.c_str()); }
  if (getenv("PSIM_TWICE")) run_case(*p,r.c,r.seed,nullptr,false);
  RunRes x=run_case(*p,r.c,r.seed,&r.made,trace);
  if (!quiet) printf("--- out\n%s\n--- err\n%s\n---\n",out_text().c_str(),err_text().c_str());
  if (showlog) for (auto& e: K->log) printf("%lu t%d pid%d %s [%s] [%s] %ld\n",(unsigned long)e.step,e.task,e.pid,e.op.c_str(),e.a.c_str(),e.b.c_str(),(long)e.r);
  if (!quiet&&x.outcome!=RES_OK&&x.outcome>0) for (auto t: K->tasks) if (t->st!=T_DONE) { std::string st; { char b[40]; snprintf(b,40," on %p",t->wait_on); st=b; } for (uint32_t i=t->depth,k=0;i-->0&&k<8;k++) st+=" < "+symname((uint64_t)t->stackpc[i<256?i:255]-1); printf("task %d %s at%s\n",t->id,t->st==T_BLOCKED?t->wait_why:"running",st.c_str()); if (t->id==0) for (int i=0;i<MAXFD;i++) if (t->proc->fds[i].o) printf("  fd %d: object %p type %d pipe %p\n",i,(void*)t->proc->fds[i].o,(int)t->proc->fds[i].o->type,(void*)t->proc->fds[i].o->pipe); }
  printf("outcome %s class %s: %s\nhash %016lx (recorded %016lx)%s\n",x.outcome<0?"timeout":outcome_name[x.outcome],x.v.cls.c_str(),x.v.msg.c_str(),(unsigned long)x.hash,(unsigned long)r.hash,x.hash==r.hash?" identical execution":" different execution");
  if (x.v.ok()) return 0;
  return x.v.cls==r.cls ? 1 : 3;
}
static std::string self_exe() { char b[512]; ssize_t n=readlink("/proc/self/exe",b,511); return std::string(b,n>0?n:0); }

int cli_main(int argc, char** argv);
int script_main(int argc, char** argv);
extern "C" unsigned char* sim_cov;
int main(int argc, char** argv) {
  if (const char* cf=getenv("PSIM_COV")) { int fd=open(cf,O_RDWR|O_CREAT,0644); if (fd>=0&&!ftruncate(fd,64<<20)) { void* m=mmap(nullptr,64<<20,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if (m!=MAP_FAILED) sim_cov=(unsigned char*)m; } }
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  return cli_main(argc,argv);
}
int cli_main(int argc, char** argv) {
  std::string cmd=argc>1?argv[1]:"";
  std::sort(props.begin(),props.end(),[](const Prop& a,const Prop& b){return strcmp(a.id,b.id)<0;});
  if (cmd=="script") return script_main(argc-1,argv+1);
  if (cmd=="list") { for (auto& p: props) printf("%s\n",p.id); return 0; }
  if (cmd=="replay" && argc>2) { bool t=false,q=false,l=false; for (int i=3;i<argc;i++) { if (!strcmp(argv[i],"-t")) t=true; if (!strcmp(argv[i],"-q")) q=true; if (!strcmp(argv[i],"-l")) l=true; } return do_replay(argv[2],t,q,l); }
  if (cmd=="seed" && argc>3) {               // show and run one seed
    const Prop* p=find_prop(argv[2]); if (!p) return 2; kern_init(); Case c; uint64_t seed=strtoull(argv[3],0,10); gen_case(*p,seed,c);
    std::string s; render_sample(*p,c,s); printf("%s",s.c_str()); for (auto& x: c.par) printf("param %s %s\n",x.first.c_str(),esc(x.second).c_str()); printf("%s",cfg_str(c.cfg).c_str());
    bool t=argc>4&&!strcmp(argv[4],"-t");
    RunRes r=run_case(*p,c,seed,nullptr,t); uint64_t h=r.hash; printf("--- out\n%s\n--- err\n%s\n--- outcome %s verdict %s: %s\n",out_text().c_str(),err_text().c_str(),r.outcome<0?"timeout":outcome_name[r.outcome],r.v.cls.c_str(),r.v.msg.c_str());
    RunRes r2=run_case(*p,c,seed,&r.made); printf("hash %016lx replay %016lx steps %lu switches %lu\n",(unsigned long)h,(unsigned long)r2.hash,(unsigned long)K->step,(unsigned long)K->switches); return !r.v.ok(); }
  if (cmd!="run" || argc<3) { printf("usage: psim run PROP [--seconds S] [--runs N] [--seed B] [--workers W] [--evidence FILE] [--tier T] [--all] | replay FILE [-t] [-q] [-l] | seed PROP N | script ... | list\n"); return 2; }
  const Prop* p=find_prop(argv[2]); if (!p) { printf("unknown property %s\n",argv[2]); return 2; }
  double secs=30; uint64_t runs=~0ull, base=1; int nw=8; std::string ev, tier="quick", dir="/verif/replays", known; bool all=false;
  for (int i=3;i<argc;i++) { std::string a=argv[i]; if (a=="--all") { all=true; continue; } if (i+1>=argc) break; const char* v=argv[++i];
    if (a=="--seconds") secs=atof(v); else if (a=="--runs") runs=strtoull(v,0,10); else if (a=="--seed") base=strtoull(v,0,10); else if (a=="--workers") nw=atoi(v); else if (a=="--evidence") ev=v; else if (a=="--tier") tier=v; else if (a=="--dir") dir=v; else if (a=="--known") known=v; }
  uint64_t vseed=base; base=base*1000000007ull+1;
  mkdir(dir.c_str(),0755);
  ST=(Stats*)mmap(0,sizeof *ST,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  double t0=now(), deadline=t0+secs;
  int pp[2]; if (pipe(pp)) return 2;
  fflush(nullptr);
  std::vector<int> pids;
  for (int w=0;w<nw;w++) { int pid=fork(); if (pid==0) { close(pp[0]); dup2(pp[1],1); close(pp[1]); setvbuf(stdout,nullptr,_IOLBF,0); worker(*p,w,nw,base,deadline,runs,dir,all); } pids.push_back(pid); }
  close(pp[1]); std::string buf; char b[4096]; ssize_t n; std::vector<std::string> viol;
  while ((n=read(pp[0],b,sizeof b))>0) buf.append(b,n);
  int dead=0; for (int pid: pids) { int st; waitpid(pid,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) { dead++; printf("worker died: wait status %x\n",st); } }
  double wall=now()-t0;
  { std::istringstream s(buf); std::string l; while (std::getline(s,l)) if (l.compare(0,2,"V ")==0) viol.push_back(l.substr(2)); }
  std::unordered_set<uint64_t> sch; for (int w=0;w<nw;w++) { std::string hp=dir+"/hashes."+p->id+"."+std::to_string(w); FILE* f=fopen(hp.c_str(),"rb"); if (f) { uint64_t x; while (fread(&x,8,1,f)==1) sch.insert(x); fclose(f); unlink(hp.c_str()); } }
  // fresh-process replay of every candidate
  std::vector<std::string> conf; std::set<std::string> cl;
  for (auto& v: viol) { std::string c=self_exe(); fflush(nullptr); int pid=fork(); if (pid==0) { int nul=open("/dev/null",O_WRONLY); dup2(nul,1); execl(c.c_str(),"psim","replay",v.c_str(),"-q",nullptr); _exit(9); } int st; waitpid(pid,&st,0); if (WIFEXITED(st)&&WEXITSTATUS(st)==1) conf.push_back(v); else { ST->unstable++; printf("note: %s did not reproduce in a fresh process (status %d); not reported\n",v.c_str(),st); } }
  for (auto& v: conf) { Replay r=read_replay(v.c_str()); printf("class %s: %s\n",r.cls.c_str(),r.msg.c_str()); printf("VIOLATION property=%s replay=%s\n",p->id,v.c_str()); }
  printf("%s: %lu runs (%.0f/h), %lu distinct non-trivial, %zu distinct schedules, %lu discarded, %lu unstable, %.1f s, %zu violations%s\n",p->id,(unsigned long)ST->runs,ST->runs/wall*3600,(unsigned long)ST->nontriv,sch.size(),(unsigned long)ST->discarded,(unsigned long)ST->unstable,wall,conf.size(),dead?" (workers died)":"");
  { std::string o; for (int i=0;i<16;i++) if (ST->outcomes[i]) o+=std::string(outcome_name[i])+"="+std::to_string(ST->outcomes[i])+" "; for (int i=0;i<D_NKINDS;i++) if (ST->faults[i]) o+=std::string(dkind_name[i])+"="+std::to_string(ST->faults[i])+"/"+std::to_string(ST->decs[i])+" "; printf("  %s\n",o.c_str()); }
  if (!ev.empty()) {
    kern_init(); std::string samples; for (int i=0;i<3;i++) { Case c; gen_case(*p,base+i,c); std::string s; render_sample(*p,c,s); if (s.size()>1500) s=s.substr(0,1500)+"..."; if (i) samples+=","; samples+="{\"seed\":"+std::to_string(base+i)+",\"scenario\":"+jstr(s)+",\"config\":"+jstr(cfg_str(c.cfg))+"}"; }
    std::ofstream f(ev); f<<"{\"property\":\""<<p->id<<"\",\"tier\":\""<<tier<<"\",\"seed\":"<<vseed<<",\"level\":\"exploration\",\"wall_s\":"<<wall<<",\"violations\":"<<conf.size()<<",\"coverage\":{";
    f<<"\"evaluations\":"<<ST->runs<<",\"distinct_nontrivial\":"<<ST->nontriv<<",\"rule\":"<<jstr(p->rule)<<",\"samples\":["<<samples<<"],";
    f<<"\"runs_per_hour\":"<<(uint64_t)(ST->runs/wall*3600)<<",\"seeds_per_hour\":"<<(uint64_t)((ST->runs+ST->discarded)/wall*3600)<<",\"simulated_seconds\":"<<ST->vtime/1e6<<",\"distinct_interleavings\":"<<sch.size()<<",\"interleaving_measure\":\"hash of the sequence of (task, call, switch) of a run\",";
    f<<"\"simulated_calls\":"<<ST->steps<<",\"task_switches\":"<<ST->switches<<",\"preemptions_at_memory_accesses\":"<<ST->preempts<<",\"threads_started\":"<<ST->threads<<",\"processes_forked\":"<<ST->forks<<",\"programs_executed\":"<<ST->execs<<",\"bytes_through_pipes\":"<<ST->bytes<<",";
    f<<"\"discarded_runs\":"<<ST->discarded<<",\"unstable_verdicts_discarded\":"<<ST->unstable<<",\"faults_injected\":{"; bool first=true;
    for (int i=0;i<D_NKINDS;i++) if (ST->decs[i]) { f<<(first?"":",")<<"\""<<dkind_name[i]<<"\":{\"opportunities\":"<<ST->decs[i]<<",\"injected\":"<<ST->faults[i]<<"}"; first=false; }
    f<<"},\"outcomes\":{"; first=true; for (int i=0;i<16;i++) if (ST->outcomes[i]) { f<<(first?"":",")<<jstr(outcome_name[i])<<":"<<ST->outcomes[i]; first=false; }
    f<<"},\"real_components\":"<<jstr(p->real_parts?p->real_parts:"interpreter (pbat, libpbat, libfasteval, microgettext) and the C library's stdio, compiled from the working tree")<<",\"stub_components\":"<<jstr(p->stub_parts?p->stub_parts:"kernel (files, pipes, processes, threads scheduling, signals, terminal, clock); external programs; nested pbat processes (START)")<<"}}\n"; }
  if (dead) return 2;
  return conf.empty()?0:1;
}
