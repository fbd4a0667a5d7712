// Virtual kernel and scheduler.  See kern.h.
#include "kern.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <termios.h>
#include <pthread.h>
#include <poll.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/select.h>
#include <sys/time.h>
#include <linux/futex.h>

Kern* K = nullptr;
static __thread Task* self = nullptr;
const char* const dkind_name[D_NKINDS] = {
  "sched","preempt","short_read","short_write","sigint","enospc","eio_read","eio_write","eio_fsync","eio_close",
  "emfile","eacces_open","pipe_fail","fork_fail","thread_fail","malloc_fail","exec_fail","rename_fail","unlink_fail",
  "mkdir_fail","crash","clock_jump","slow","dup_fail","pipe_cap","mutate","stat_fail","readdir_fail","misc" };
const char* const outcome_name[] = {"running","ok","deadlock","no-progress(step bound)","no-progress(cpu spin)","crash","assert","killed","power-loss","heap-corruption"};

// ---- raw system calls -------------------------------------------------------
static inline long raw(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0) {
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
static long rawe(long r) { if (r<0 && r>-4096) { errno=-r; return -1; } return r; }
static void fwait(uint32_t* w, uint32_t v) { raw(SYS_futex,(long)w,FUTEX_WAIT,v,0); }
static void fwake(uint32_t* w) { raw(SYS_futex,(long)w,FUTEX_WAKE,1); }

// ---- arena -------------------------------------------------------------------
struct AHdr { char* top; void* freel[48]; };
static AHdr* AH = (AHdr*)ARENA_ADDR;
static int szclass(size_t n) { int c=4; while ((1ull<<c)<n) c++; return c; }
void* arena_alloc(size_t n) {
  int c=szclass(n?n:1);
  if (AH->freel[c]) { void* p=AH->freel[c]; AH->freel[c]=*(void**)p; return p; }
  char* p=AH->top; AH->top+=1ull<<c;
  if (AH->top>ARENA_ADDR+ARENA_SIZE) { char m[200]; int k=snprintf(m,sizeof m,"sim: arena exhausted (seed %lu, log %zu, choices %zu, tasks %zu, step %lu, request %zu)\n",K?(unsigned long)K->cfg.seed:0ul,K?K->log.size():0,K?K->made.size():0,K?K->tasks.size():0,K?(unsigned long)K->step:0,n); raw(SYS_write,2,(long)m,k); if (K) K->why="arena exhausted"; raw(SYS_kill,0,SIGKILL); raw(SYS_exit_group,99); }
  return p;
}
void arena_free(void* p, size_t n) { int c=szclass(n?n:1); *(void**)p=AH->freel[c]; AH->freel[c]=p; }
Str S(const std::string& s) { return Str(s.data(), s.size()); }
std::string N(const Str& s) { return std::string(s.data(), s.size()); }

void kern_init() {
  void* p=mmap(ARENA_ADDR,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if (p!=ARENA_ADDR) { perror("mmap arena"); exit(3); }
}

// ---- logging -----------------------------------------------------------------
void khash(const void* p, size_t n) { const unsigned char* c=(const unsigned char*)p; uint64_t h=K->hash; for (size_t i=0;i<n;i++) { h^=c[i]; h*=0x100000001b3ull; } K->hash=h; }
static void hashop(const char* op, uint64_t a, uint64_t b) {
  uint64_t v[4]={(uint64_t)(self?self->id:0), (uint64_t)op[0]|((uint64_t)op[1]<<8)|((uint64_t)strlen(op)<<16), a, b};
  uint64_t h=K->hash; for (int i=0;i<4;i++) { h^=v[i]; h*=0x100000001b3ull; h^=h>>29; } K->hash=h; 
  uint64_t s=K->sched_hash; s^=v[0]*31+v[1]; s*=0x100000001b3ull; K->sched_hash=s; }
static void trace(const char* fmt, ...) {
  if (!K->tracing) return; char b[1024]; int n=snprintf(b,64,"[%6lu t%d] ",(unsigned long)K->step,self?self->id:-1);
  va_list ap; va_start(ap,fmt); int m=vsnprintf(b+n,sizeof b-n-2,fmt,ap); va_end(ap); if (m>(int)sizeof b-n-2) m=sizeof b-n-2; b[n+m]='\n'; raw(SYS_write,2,(long)b,n+m+1); }
void klog(const char* op, const char* a, const char* b, int64_t r) {
  Ev e; e.step=K->step; e.time=K->vtime; e.task=self?self->id:-1; e.pid=self?self->proc->pid:0; e.op=op; e.a=a; e.b=b; e.r=r;
  if (K->log.size()<200000) K->log.push_back(e);
  khash(op,strlen(op)); khash(a,strlen(a)); khash(b,strlen(b)); khash(&r,8);
  trace("LOG %s '%s' '%s' = %ld",op,a,b,(long)r);
}

// ---- run end -----------------------------------------------------------------
static void heap_final_check();
[[noreturn]] static void end_run(int outcome) {
  if (K->outcome==RES_RUNNING) K->outcome=outcome;
  raw(SYS_kill,0,SIGKILL);
  for (;;) raw(SYS_pause);
}
static Str cat(const char* a, const char* b="", const char* c="") { Str s(a); s+=b; s+=c; return s; }

// ---- decisions ---------------------------------------------------------------
static void record(DKind k, uint32_t n, uint32_t idx, uint32_t c) {
  if (c) { Dec d{idx,n,c,(uint32_t)k}; if (K->made.size()<2000000) K->made.push_back(d); K->fault_count[k]++; if (k!=D_SCHED&&k!=D_PREEMPT) { K->last_fault_step=K->step; } }
}
static bool replay_choice(uint32_t idx, uint32_t n, uint32_t* c) {
  if (!K->cfg.replay) return false;
  while (K->ovpos<K->overrides.size() && K->overrides[K->ovpos].idx<idx) K->ovpos++;
  *c=0;
  if (K->ovpos<K->overrides.size() && K->overrides[K->ovpos].idx==idx) { *c=K->overrides[K->ovpos].choice; if (*c>=n) *c=n?n-1:0; }
  return true;
}
uint32_t decide(DKind k, uint32_t n, double p) {
  if (n<=1) return 0;
  if (p<0) p=K->cfg.p[k];
  if (K->cfg.p[k]<=0 && p<=0) return 0;            // site disabled in this configuration: not a decision
  uint32_t idx=K->ndec++, c=0; K->dec_count[k]++;
  if (!replay_choice(idx,n,&c)) {
    if (K->fault_count[k]<K->cfg.max_faults[k] && !(K->stop_faults && k!=D_SHORT_READ && k!=D_SHORT_WRITE) && K->rng.chance(p)) c=1+K->rng.below(n-1);
  }
  record(k,n,idx,c);
  if (c) { trace("DECIDE %s %u/%u (#%u)",dkind_name[k],c,n,idx); uint32_t v[3]={(uint32_t)k,c,idx}; khash(v,sizeof v);
    if (k!=D_SHORT_READ&&k!=D_SHORT_WRITE&&k!=D_SLOW&&k!=D_PIPE_CAP) { char b[32]; snprintf(b,sizeof b,"%u",c); klog("fault",dkind_name[k],b,c); } }
  return c;
}

// ---- scheduler ---------------------------------------------------------------
static void wait_go(Task* t) { while (__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)==0) fwait(&t->go,0); __atomic_store_n(&t->go,0,__ATOMIC_RELEASE); }
static void give(Task* t) { K->cur=t->id; __atomic_store_n(&t->go,1,__ATOMIC_RELEASE); fwake(&t->go); }
static void wake(const void* obj) { for (auto t: K->tasks) if (t->st==T_BLOCKED && t->wait_on==obj) t->st=T_RUN; }
static void deliver_tty(Source* s);
static void raise_int();

static Str waits() {
  Str r; for (auto t: K->tasks) if (t->st==T_BLOCKED) { char b[160]; snprintf(b,sizeof b,"task %d (pid %d%s) blocked in %s; ",t->id,t->proc->pid,t->proc->external?" external":"",t->wait_why?t->wait_why:"?"); r+=b; }
  return r;
}
// Next task to run; index 0 of the candidate list is the default choice.
static Task* choose(bool cur_ok, DKind kind) {
  for (;;) {
    Task* cand[1600]; uint32_t n=0; size_t nt=K->tasks.size();
    if (cur_ok) cand[n++]=self;
    int base=self?self->id:0;
    for (size_t i=1;i<=nt;i++) { Task* t=K->tasks[(base+i)%nt]; if (t==self && (cur_ok || t->st!=T_RUN)) continue; if (t->st==T_RUN && n<1600) cand[n++]=t; }
    if (n==0) {
      // idle: advance the clock to the next timer, else let the user type, else it is a deadlock
      Task* e=nullptr; for (auto t: K->tasks) if (t->st==T_BLOCKED && t->timed && (!e || t->wake_at<e->wake_at)) e=t;
      Source* s=K->in; bool ttywait=false; for (auto t: K->tasks) if (t->st==T_BLOCKED && t->wait_on==s) ttywait=true;
      bool timed_ev = s && s->evpos<s->evs.size() && s->evs[s->evpos].delay>0;
      if (timed_ev) { uint64_t at=s->last+s->evs[s->evpos].delay; if (!e || at<=e->wake_at) { if (e || ttywait) { if (at>K->vtime) K->vtime=at; deliver_tty(s); continue; } } }
      if (e) { if (e->wake_at>K->vtime) K->vtime=e->wake_at; for (auto t: K->tasks) if (t->st==T_BLOCKED && t->timed && t->wake_at<=K->vtime) t->st=T_RUN; continue; }
      if (ttywait) { if (s->evpos<s->evs.size()) { deliver_tty(s); continue; } if (!s->eof) { s->eof=true; wake(s); continue; } }
      if (K->main_exited) { K->final_note=cat("orphans: ",waits().c_str()); heap_final_check(); end_run(RES_OK); }
      K->why=waits(); end_run(RES_DEADLOCK);
    }
    if (n==1) return cand[0];
    uint32_t idx, c=0; K->dec_count[kind]++; bool rp;
    if (kind==D_PREEMPT) { idx=(uint32_t)K->gacc; rp=K->cfg.replay; if (rp) c=K->pre_choice<n?K->pre_choice:n-1; }   // numbered by shared access
    else { idx=K->ndec++; rp=replay_choice(idx,n,&c); }
    if (!rp) {
      if (K->cfg.policy==1) {
        // PCT-like: highest priority runs; now and then the running task drops to the bottom
        if (K->rng.chance(K->cfg.p_switch*0.2)) { for (auto t: K->tasks) t->prio+=1; cand[0]->prio=0; }
        uint32_t b=0; for (uint32_t i=1;i<n;i++) if (cand[i]->prio>cand[b]->prio) b=i; c=b;
      } else if (K->cfg.policy==2) {
        if (K->rng.chance(K->cfg.p_switch) || !cur_ok) c=K->rng.below(n);
        if (cand[c]->id==K->starve) { c=0; if (cand[0]->id==K->starve) c=1; }
      } else if (K->cfg.policy==3) {          // strictly default order (fault-focused runs)
        c=0;
      } else { if (K->rng.chance(K->cfg.p_switch) || (!cur_ok && K->rng.chance(0.5))) c=K->rng.below(n); }
    }
    record(kind,n,idx,c);
    return cand[c];
  }
}
static void check_alive() { if (self->st==T_DONE) { for (;;) raw(SYS_pause); } }
static void switch_to(Task* t) {
  if (t==self) return;
  K->switches++; trace("-> t%d",t->id);
  uint64_t s=K->sched_hash; s^=0x51ed+t->id; s*=0x100000001b3ull; K->sched_hash=s;
  Task* me=self; give(t); wait_go(me); check_alive();
}
static void signals();
static void mutations();
static void tick() {
  K->step++; if (self) self->steps++;
  K->vtime+=1000;                                     // 1 us per call
  if (K->cfg.p[D_SLOW]>0) { uint32_t c=decide(D_SLOW,8); if (c) { K->vtime+=(uint64_t)c*c*3000000ull; klog("slow","","",(int64_t)c*c*3000000ll); } }
  if (K->cfg.p[D_CLOCK_JUMP]>0) { uint32_t c=decide(D_CLOCK_JUMP,5); if (c) { static const int64_t j[5]={0,3600,-3600,86400,-5}; K->clock_off+=j[c]; } }
  if (K->step>K->cfg.max_steps) { K->why=cat("step bound reached; ",waits().c_str()); end_run(RES_STEPS); }
  if (K->cfg.p[D_CRASH]>0 && !K->main_exited) { if (decide(D_CRASH,2)) { K->why="crash point"; end_run(K->cfg.crash_power?RES_POWER:RES_KILLED); } }
  if (K->mutpos<K->mutations.size()) mutations();
}
// A point where the scheduler may take the baton away (before every simulated call).
static void yield(const char* op, uint64_t a=0, uint64_t b=0) {
  tick(); hashop(op,a,b); trace("yield %s %lx %lx",op,(unsigned long)a,(unsigned long)b);
  if (K->cfg.p[D_SIGINT]>0&&K->script_open&&!K->main_exited) { if (decide(D_SIGINT,2)) raise_int(); }
  Task* t=choose(true,D_SCHED); switch_to(t);
  if (K->in && K->in->evpos<K->in->evs.size() && K->in->evs[K->in->evpos].delay>0 && K->vtime>=K->in->last+K->in->evs[K->in->evpos].delay) deliver_tty(K->in);
  signals();
}
static void park_forever() { for (;;) raw(SYS_pause); }
template<class F> static int block(const void* obj, const char* why, bool intr, F cond, uint64_t wake_at=0) {
  for (;;) {
    if (cond()) return 0;
    if (intr && (self->proc->pending&~self->smask) && K->tasks[self->proc->main_task]==self) {
      int before=self->proc->pending; signals(); (void)before;
      if (self->intr) { self->intr=false; return EINTR; }
      if (cond()) return 0;
    }
    if (self->cancel && intr) { return ECANCELED; }
    if (wake_at && K->vtime>=wake_at) return ETIMEDOUT;
    self->st=T_BLOCKED; self->wait_on=obj; self->wait_why=why; self->timed=wake_at!=0; self->wake_at=wake_at; self->interruptible=intr;
    trace("blocked: %s",why);
    Task* t=choose(false,D_SCHED); 
    if (t!=self) switch_to(t);
    self->st=T_RUN; self->wait_on=nullptr; self->timed=false;
    K->step++; if (K->step>K->cfg.max_steps) { K->why=cat("step bound reached; ",waits().c_str()); end_run(RES_STEPS); }
  }
}
[[noreturn]] static void task_finish() {
  self->st=T_DONE; wake(self); if (self->detached&&self->handle&&!self->handle->freed) { self->handle->freed=true; K->thfree.push_back(self->handle); }
  Task* me=self; bool any=false; for (auto t: K->tasks) if (t->st!=T_DONE) any=true;
  if (!any) { heap_final_check(); end_run(RES_OK); }
  Task* t=choose(false,D_SCHED); (void)me; K->switches++; give(t);
  park_forever(); __builtin_unreachable();
}
static void close_ofd(Ofd* o);
static void proc_dies(Proc* p, int status) {
  if (!p->alive) return;
  p->alive=false; p->zombie=true; p->status=status;
  for (int i=0;i<MAXFD;i++) if (p->fds[i].o) { Ofd* o=p->fds[i].o; p->fds[i].o=nullptr; close_ofd(o); }
  for (auto t: K->tasks) if (t->proc==p) { t->st=T_DONE; }
  wake(&K->procs);
  char b[40]; snprintf(b,sizeof b,"%d",p->pid); klog("procexit",p->exe.c_str(),b,status);
  if (p==K->mainp) { K->main_exited=true; K->main_exit=status; K->main_exit_step=K->step; }
}
[[noreturn]] static void kernel_exit(int status) {
  Proc* p=self->proc; proc_dies(p,status);
  if (p==K->mainp) heap_final_check();
  bool any=false; for (auto t: K->tasks) if (t->st!=T_DONE) any=true;
  if (!any) end_run(RES_OK);
  Task* t=choose(false,D_SCHED); K->switches++;
  bool realchild = p!=K->mainp && p->external;
  give(t);
  if (realchild) raw(SYS_exit_group,0);
  park_forever(); __builtin_unreachable();
}

// ---- signals -----------------------------------------------------------------
static void raise_int() {
  klog("signal","SIGINT");
  for (auto p: K->procs) if (p->alive) {
    SigAct& a=p->sig[SIGINT];
    if (a.h==SIG_IGN) continue;
    if (K->tasks[p->main_task]->smask&(1u<<SIGINT)) { p->pending|=1u<<SIGINT; continue; }
    if (a.h==SIG_DFL) { if (p==self->proc) { p->pending|=1u<<SIGINT; } else proc_dies(p,SIGINT); }
    else { p->pending|=1u<<SIGINT; Task* t=K->tasks[p->main_task]; if (t->st==T_BLOCKED && t->interruptible) t->st=T_RUN; }
  }
}
static void signals() {
  Proc* p=self->proc; if (!p->pending) return;
  if (K->tasks[p->main_task]!=self && p->sig[SIGINT].h!=SIG_DFL) return;   // delivered on the main thread
  uint32_t masked=K->tasks[p->main_task]->smask;
  for (int s=1;s<32;s++) if (p->pending & (1u<<s) & ~masked) {
    p->pending&=~(1u<<s); auto h=p->sig[s].h;
    if (h==SIG_DFL) { proc_dies(p,s); Task* t; bool any=false; for (auto x: K->tasks) if (x->st!=T_DONE) any=true; if (!any) end_run(RES_OK); t=choose(false,D_SCHED); bool rc=p!=K->mainp&&p->external; give(t); if (rc) raw(SYS_exit_group,0); park_forever(); }
    if (h==SIG_IGN) continue;
    klog("handler","enter","",s);
    int e=errno; h(s); errno=e;
    klog("handler","leave","",s);
    if (!(p->sig[s].flags & SA_RESTART)) self->intr=true;
  }
}
static void deliver_tty(Source* s) {
  TtyEv& e=s->evs[s->evpos++]; s->last=K->vtime;
  if (e.sig&&(s->lflag&ISIG)) { raise_int(); return; }
  s->data+=e.bytes; klog("tty_input",e.bytes.c_str()); if (e.bytes.empty()) s->eof=true; wake(s);
}

// ---- vfs ---------------------------------------------------------------------
static Node* new_node(bool dir, uint32_t mode) { Node* n=anew<Node>(); n->ino=K->next_ino++; n->dir=dir; n->mode=mode; n->mtime=K->vtime; n->dev=1; n->nlink=1; n->parent=nullptr; n->prog=false; n->tag=0; n->ever_synced=false; return n; }
// Resolves to parent + last component; returns 0 or errno.
static int walk(Node* cwd, const char* path, Node** parent, Str* last, Node** node) {
  if (!*path) return ENOENT;
  if (strlen(path)>=4096) return ENAMETOOLONG;
  Node* n = *path=='/' ? K->root : cwd; const char* p=path; *last=Str(); *parent=n; *node=n;
  while (*p) {
    while (*p=='/') p++;
    if (!*p) break;
    const char* e=p; while (*e && *e!='/') e++;
    Str c(p,e-p); p=e;
    if (c.size()>255) return ENAMETOOLONG;
    if (!*node) return ENOENT;
    if (!(*node)->dir) return ENOTDIR;
    n=*node;
    if (c==".") { *parent=n->parent?n->parent:n; *last=c; *node=n; continue; }
    if (c=="..") { *node=n->parent?n->parent:n; *parent=(*node)->parent?(*node)->parent:*node; *last=c; continue; }
    *parent=n; *last=c; auto it=n->kids.find(c); *node=it==n->kids.end()?nullptr:it->second;
  }
  if (*node && !(*node)->dir && path[0] && path[strlen(path)-1]=='/') return ENOTDIR;
  return 0;
}
static Node* lookup(Node* cwd, const char* path, int* err) { Node *par,*n; Str l; int e=walk(cwd,path,&par,&l,&n); if (e) { *err=e; return nullptr; } if (!n) { *err=ENOENT; return nullptr; } *err=0; return n; }
Node* vfs_mkdirs(const char* path) {
  Node* n=K->root; const char* p=path; while (*p) { while (*p=='/') p++; if (!*p) break; const char* e=p; while (*e&&*e!='/') e++; Str c(p,e-p); p=e; auto it=n->kids.find(c); if (it==n->kids.end()) { Node* d=new_node(true,0755); d->parent=n; d->dev=n->dev; n->kids[c]=d; n=d; } else n=it->second; }
  return n;
}
Node* vfs_put(const char* path, const std::string& data, uint32_t mode) {
  std::string s(path); size_t k=s.rfind('/'); Node* d=vfs_mkdirs(s.substr(0,k).c_str()); Str nm(S(s.substr(k+1)));
  Node* n; auto it=d->kids.find(nm); if (it==d->kids.end()) { n=new_node(false,mode); n->parent=d; n->dev=d->dev; d->kids[nm]=n; } else n=it->second;
  K->disk_used-=n->data.size(); n->data.assign(data.begin(),data.end()); K->disk_used+=n->data.size(); n->synced=n->data; n->ever_synced=true; n->mtime=K->vtime; return n;
}
Node* vfs_prog(const char* path, const char* prog) { Node* n=vfs_put(path,"\x7f" "ELFsim",0755); n->prog=true; n->progname=prog; return n; }
Node* vfs_get(const char* path) { int e; return lookup(K->root,path,&e); }
bool vfs_read(const char* path, std::string& out) { Node* n=vfs_get(path); if (!n||n->dir) return false; out.assign(n->data.begin(),n->data.end()); return true; }
static void vlist(Node* n, std::string pre, std::vector<std::string>& out) { for (auto& k: n->kids) { std::string p=pre+"/"+N(k.first); if (k.second->dir) { out.push_back(p+"/"); vlist(k.second,p,out); } else out.push_back(p); } }
void vfs_list(std::vector<std::string>& out, const char* prefix) { Node* n=vfs_get(prefix); if (n&&n->dir) vlist(n,std::string(prefix)=="/"?"":prefix,out); }
void vfs_rm(const char* path) { Node *par,*n; Str l; if (walk(K->root,path,&par,&l,&n)||!n) return; par->kids.erase(l); }
static int mut_apply(const std::string& m) {       // "put|append|rm|ren|touch path [data]"
  size_t a=m.find(' '); std::string op=m.substr(0,a); size_t b=m.find(' ',a+1); std::string path=m.substr(a+1,b==std::string::npos?b:b-a-1), data=b==std::string::npos?"":m.substr(b+1);
  if (op=="put") { Node* n=vfs_put(path.c_str(),data); n->mtime=K->vtime; }
  else if (op=="append") { Node* n=vfs_get(path.c_str()); if (n) { n->data.insert(n->data.end(),data.begin(),data.end()); n->mtime=K->vtime; } }
  else if (op=="rm") vfs_rm(path.c_str());
  else if (op=="mkdir") vfs_mkdirs(path.c_str());
  else if (op=="ren") { std::string d; Node* n=vfs_get(path.c_str()); if (n) { Node *par,*x; Str l; walk(K->root,path.c_str(),&par,&l,&x); par->kids.erase(l); size_t k=data.rfind('/'); Node* dd=vfs_mkdirs(data.substr(0,k).c_str()); dd->kids[S(data.substr(k+1))]=n; n->parent=dd; } }
  return 0;
}
// I/O faults hit only what lies below K->fault_root, if it is set; each is logged with the path it hit
Str node_path(Node* n) { Str r; for (Node* x=n;x&&x->parent;x=x->parent) { for (auto& k: x->parent->kids) if (k.second==x) { r=Str("/")+k.first+r; break; } } return r.empty()?Str("/"):r; }
static uint32_t fdecide(DKind k, uint32_t n, Node* nd) {
  if (K->cfg.p[k]<=0&&!K->cfg.replay) return 0;
  if (K->fault_root) { Node* x=nd; while (x&&x!=K->fault_root) x=x->parent; if (!x) return 0; }
  uint32_t c=decide(k,n); if (c&&k!=D_ENOSPC) klog("ffault",dkind_name[k],node_path(nd).c_str(),c); return c; }
static bool below_fault_root(Node* nd) { if (!K->fault_root) return true; for (Node* x=nd;x;x=x->parent) if (x==K->fault_root) return true; return false; }
// after every change of the namespace or of file data: each watched content is there, and flushed
static void fsop(const char* what) {
  if (K->watch.empty()||!K->final_note.empty()) return;
  for (auto& w: K->watch) { bool ok=false; for (auto& p: w.paths) { Node* n=vfs_get(p.c_str()); if (n&&!n->dir&&n->data.size()==w.data.size()&&n->synced.size()==w.data.size()&&!memcmp(n->data.data(),w.data.data(),w.data.size())&&!memcmp(n->synced.data(),w.data.data(),w.data.size())) { ok=true; break; } }
    if (!ok) { K->final_note=Str("after ")+what+" the content of "+w.paths[0]+" was nowhere in full"; klog("lost",w.paths[0].c_str(),what); return; } } }
static void mutations() { if (decide(D_MUTATE,2)) { std::string m=N(K->mutations[K->mutpos++]); klog("mutate",m.c_str()); mut_apply(m); } }

// ---- fds ---------------------------------------------------------------------
static Fd* fdget(int fd) { if (fd<0||fd>=MAXFD||!self->proc->fds[fd].o) { errno=EBADF; return nullptr; } return &self->proc->fds[fd]; }
static uint32_t rdecide(DKind k, uint32_t n) { if (K->fd_faults&&!K->fd_armed) return 0; uint32_t c=decide(k,n); if (c) klog("rfault",dkind_name[k],"",c); return c; }
static int fdalloc(int from=0) { int lim=K->fd_limit&&!self->proc->external?K->fd_limit:MAXFD; for (int i=from;i<lim;i++) if (!self->proc->fds[i].o) { if (i>self->proc->max_fd_seen) self->proc->max_fd_seen=i; return i; } klog("rfault","fdlimit"); return -1; }
static Ofd* new_ofd(OType t, int flags) { Ofd* o=anew<Ofd>(); o->type=t; o->refs=1; o->flags=flags; return o; }
static void close_ofd(Ofd* o) {
  if (--o->refs) return;
  if (o->type==O_PIPER) { o->pipe->readers--; wake(o->pipe); } else if (o->type==O_PIPEW) { o->pipe->writers--; wake(o->pipe); }
}
static const char* fdname(int fd, char* b) { Ofd* o=self->proc->fds[fd].o; static const char* const t[]={"file","pipe-r","pipe-w","tty","sink","null","dir"}; if (o->pipe) snprintf(b,80,"%d:%s#%d",fd,t[o->type],o->pipe->id); else snprintf(b,80,"%d:%s %s",fd,t[o->type],o->path.c_str()); return b; }

// bytes a read may return now: all of them, or, on a terminal with line editing, up to the end of the first complete line
static size_t src_avail(Source* s) {
  size_t av=s->data.size()-s->pos; if (!s->tty||s->raw||s->eof) return av;
  size_t k=s->data.find('\n',s->pos); size_t e=k==Str::npos?s->pos:k+1; if (s->push>s->pos&&(k==Str::npos||s->push<=k)) e=s->push; return e-s->pos; }
static long src_read(Source* s, char* buf, size_t n) {
  for (;;) {
    size_t av=src_avail(s);
    if (av) {
      size_t m=av<n?av:n; uint32_t c = m>1 ? decide(D_SHORT_READ, m>64?64:m) : 0; if (c) m = m>64 ? 1+(m-1)*c/64 : c;
      memcpy(buf,s->data.data()+s->pos,m); s->pos+=m; s->consumed+=m; return m;
    }
    if (s->eof || (!s->tty && s->evpos>=s->evs.size())) { s->reads_at_eof++; if (s->reads_at_eof>2000) { K->why="interpreter keeps reading standard input after end of file"; end_run(RES_SPIN); } if (s->tty && s->evpos<s->evs.size()) s->eof=false; /* one end of file per Ctrl-D */ return 0; }
    int e=block(s,"read(stdin)",true,[&]{ return src_avail(s) || s->eof; });
    if (e) { errno=e; return -1; }
  }
}
static long k_read(int fd, void* buf, size_t n) {
  yield("read",fd,n);
  Fd* f=fdget(fd); if (!f) return -1; Ofd* o=f->o; long r=-1; char nb[80];
  if ((o->flags&O_ACCMODE)==O_WRONLY) { errno=EBADF; return -1; }
  switch (o->type) {
  case O_NULL: r=0; break;
  case O_DIR: errno=EISDIR; r=-1; break;
  case O_TTY: { Source* s=K->in; r=src_read(s,(char*)buf,n); break; }
  case O_SINK: errno=EBADF; break;
  case O_FILE: {
    if (o->src) { r=src_read(o->src,(char*)buf,n); break; }
    Node* nd=o->node; if (fdecide(D_EIO_READ,2,nd)) { errno=EIO; r=-1; break; }
    size_t av = o->off<nd->data.size() ? nd->data.size()-o->off : 0; size_t m=av<n?av:n;
    if (m>1) { uint32_t c=decide(D_SHORT_READ, m>64?64:m); if (c) m = m>64 ? 1+(m-1)*c/64 : c; }
    if (m) memcpy(buf,nd->data.data()+o->off,m); o->off+=m; r=m; break; }
  case O_PIPER: {
    Pipe* p=o->pipe; if (n==0) { r=0; break; }
    int e=block(p,"read(pipe)",true,[&]{ return p->buf.size()>0 || p->writers==0; });
    if (e) { errno=e; r=-1; break; }
    size_t m=p->buf.size()<n?p->buf.size():n;
    if (m>1) { uint32_t c=decide(D_SHORT_READ, m>64?64:m); if (c) m = m>64 ? 1+(m-1)*c/64 : c; }
    memcpy(buf,p->buf.data(),m); p->buf.erase(0,m); p->total_out+=m; if (m) wake(p); r=m; K->bytes_piped+=m; break; }
  case O_PIPEW: errno=EBADF; break;
  }
  hashop("r<",r,fd); if (r>0) { khash(buf,r); K->bytes_read+=r; }
  if (K->tracing) trace("read(%s,%zu)=%ld errno %d [%.*s]",self->proc->fds[fd].o?fdname(fd,nb):"?",n,r,r<0?errno:0,(int)(r>0?(r<60?r:60):0),(char*)buf);
  return r;
}
static long k_write(int fd, const void* buf, size_t n) {
  yield("write",fd,n);
  Fd* f=fdget(fd); if (!f) return -1; Ofd* o=f->o; long r=-1; char nb[80]; const char* b=(const char*)buf;
  if ((o->flags&O_ACCMODE)==O_RDONLY && o->type!=O_TTY) { errno=EBADF; return -1; }
  khash(buf,n);
  switch (o->type) {
  case O_NULL: r=n; break;
  case O_DIR: errno=EISDIR; break;
  case O_TTY: case O_SINK: {
    Sink* s=o->type==O_TTY?K->ttyout:o->sink; size_t m=n;
    if (m>(s->tty?16:1)) { uint32_t c=decide(D_SHORT_WRITE, m>64?64:m); if (c) m = m>64 ? 1+(m-1)*c/64 : c; }
    s->data.append(b,m); if (s->tty&&K->in->tty&&m>=4&&!memcmp((const char*)b+m-4,"\x1b[6n",4)) { K->in->data+="\x1b[1;1R"; wake(K->in); }
    s->segs.push_back({K->step,self->id,(uint32_t)m}); r=m; break; }
  case O_FILE: {
    Node* nd=o->node; if (o->src) { errno=EBADF; break; }
    if (fdecide(D_EIO_WRITE,2,nd)) { errno=EIO; break; }
    if (o->flags&O_APPEND) o->off=nd->data.size();
    size_t m=n; if (m>1) { uint32_t c=decide(D_SHORT_WRITE, m>64?64:m); if (c) m = m>64 ? 1+(m-1)*c/64 : c; }
    if (n && fdecide(D_ENOSPC,2,nd)) { K->cfg.disk_capacity=K->disk_used+ (n>1?K->ndec%n:0); }
    if (n==0) { r=0; break; }
    uint64_t need = o->off+m>nd->data.size() ? o->off+m-nd->data.size() : 0;
    if (K->disk_used+need>K->cfg.disk_capacity && below_fault_root(nd)) { uint64_t room=K->cfg.disk_capacity>K->disk_used?K->cfg.disk_capacity-K->disk_used:0; if (need-room>=m) { errno=ENOSPC; klog("ffault","enospc",node_path(nd).c_str()); break; } m-=need-room; need=room; }
    if (o->off+m>nd->data.size()) nd->data.resize(o->off+m);
    memcpy(nd->data.data()+o->off,b,m); o->off+=m; K->disk_used+=need; nd->mtime=K->vtime; r=m; fsop("write"); break; }
  case O_PIPEW: {
    Pipe* p=o->pipe; size_t done=0; r=0;
    while (done<n) {
      if (p->readers==0) { klog("sigpipe"); if (self->proc->sig[SIGPIPE].h==SIG_DFL) { self->proc->pending|=1u<<SIGPIPE; signals(); } errno=EPIPE; r = -1; break; }
      size_t room=p->cap-p->buf.size(), want=n-done;
      if (n<=4096 && n<=p->cap ? room<want : room==0) {
        int e=block(p,"write(pipe)",true,[&]{ size_t rm=p->cap-p->buf.size(); return p->readers==0 || (n<=4096 && n<=p->cap ? rm>=want : rm>0); });
        if (e) { if (done) break; errno=e; r=-1; break; }
        continue;
      }
      size_t m=room<want?room:want; p->buf.append(b+done,m); p->total_in+=m; done+=m; wake(p);
    }
    if (r>=0) r=done; break; }
  case O_PIPER: errno=EBADF; break;
  }
  hashop("w>",r,fd); if (r>0) K->bytes_written+=r;
  if (K->tracing) trace("write(%s,%zu)=%ld errno %d [%.*s]",self->proc->fds[fd].o?fdname(fd,nb):"?",n,r,r<0?errno:0,(int)(n<80?n:80),b);
  return r;
}
static int k_open(const char* path, int flags, uint32_t mode) {
  if (!K->script_open) { size_t l=strlen(path); if (l>=5&&!strcmp(path+l-5,"t.bat")) K->script_open=true; }
  yield("open",flags); hashop("o",strlen(path),0);
  Node *par,*n; Str l; int e=walk(self->proc->cwd,path,&par,&l,&n);
  if (K->fd_faults&&below_fault_root(n?n:par)) K->fd_armed=true;
  if (fdecide(D_EMFILE,2,e?nullptr:n?n:par)) { trace("open(%s) EMFILE",path); errno=EMFILE; return -1; }
  int fd=fdalloc(); if (fd<0) { errno=EMFILE; return -1; }
  if (e) { errno=e; trace("open(%s) err %d",path,e); return -1; }
  bool wr=(flags&O_ACCMODE)!=O_RDONLY;
  if (!(n&&n->tag) && fdecide(D_EACCES_OPEN,3,n?n:par)) { errno=wr?EACCES:EACCES; trace("open(%s) EACCES",path); return -1; }
  if (!n) { if (!(flags&O_CREAT)) { trace("open(%s) ENOENT",path); errno=ENOENT; return -1; }
    n=new_node(false,mode&~self->proc->umask_); n->parent=par; n->dev=par->dev; par->kids[l]=n; par->mtime=K->vtime; klog("create",path); }
  else if ((flags&O_CREAT)&&(flags&O_EXCL)) { errno=EEXIST; return -1; }
  if (n->dir && wr) { errno=EISDIR; return -1; }
  if (wr && !(n->mode&0222) && !n->tag) { errno=EACCES; return -1; }
  Ofd* o=new_ofd(O_FILE,flags); o->path=path; o->node=n;
  if (n->dir) o->type=O_DIR; else if (n->tag==1) o->type=O_NULL; else if (n->tag==2) o->type=O_TTY;
  else if (wr && (flags&O_TRUNC)) { K->disk_used-=n->data.size(); n->data.clear(); n->mtime=K->vtime; klog("trunc",path); fsop("open"); }
  self->proc->fds[fd].o=o; self->proc->fds[fd].cloexec=flags&O_CLOEXEC;
  if (wr) klog("openw",path,(flags&O_APPEND)?"a":"",fd);
  trace("open(%s,%x)=%d",path,flags,fd); return fd;
}
static int k_close(int fd) {
  if (fd<0||fd>=MAXFD||!self->proc->fds[fd].o) { if (fd<MAXFD && !self->proc->external) klog("badclose","","",fd); errno=EBADF; return -1; }
  yield("close",fd); Fd* f=fdget(fd); if (!f) { klog("badclose","","",fd); return -1; }
  char nb[80]; if (K->tracing) trace("close(%s)",fdname(fd,nb));
  Ofd* o=f->o; f->o=nullptr; bool wr=(o->flags&O_ACCMODE)!=O_RDONLY; OType t=o->type; Node* nd=o->node; close_ofd(o);
  if (t==O_FILE && wr && nd && fdecide(D_EIO_CLOSE,2,nd)) { nd->data=nd->synced; fsop("close"); errno=EIO; return -1; }   // what was not flushed is lost
  return 0;
}
static int k_dup2(int a, int b) { yield("dup2",a,b); Fd* f=fdget(a); if (!f) return -1; if (b<0||b>=MAXFD) { errno=EBADF; return -1; } if (decide(D_DUP_FAIL,2)) { errno=EBUSY; return -1; } if (a==b) return b; Ofd* o=f->o; o->refs++; Fd* g=&self->proc->fds[b]; if (g->o) { Ofd* x=g->o; g->o=nullptr; close_ofd(x); } g->o=o; g->cloexec=false; if (b>self->proc->max_fd_seen) self->proc->max_fd_seen=b; char nb[80]; if (K->tracing) trace("dup2(%d,%s)",a,fdname(b,nb)); return b; }
static int k_dup(int a, int from=0) { yield("dup",a); Fd* f=fdget(a); if (!f) return -1; if ((!K->fault_root||K->fd_faults)&&rdecide(D_EMFILE,2)) { errno=EMFILE; return -1; } int b=fdalloc(from); if (b<0) { errno=EMFILE; return -1; } f->o->refs++; self->proc->fds[b].o=f->o; self->proc->fds[b].cloexec=false; char nb[80]; if (K->tracing) trace("dup(%d)=%s",a,fdname(b,nb)); return b; }
static int k_pipe(int* v) {
  yield("pipe"); if ((!K->fault_root||K->fd_faults)&&rdecide(D_PIPE_FAIL,2)) { errno=EMFILE; return -1; }
  int a=fdalloc(); if (a<0) { errno=EMFILE; return -1; } Ofd* r=new_ofd(O_PIPER,O_RDONLY); self->proc->fds[a].o=r; self->proc->fds[a].cloexec=false;
  int b=fdalloc(); if (b<0) { self->proc->fds[a].o=nullptr; errno=EMFILE; return -1; } Ofd* w=new_ofd(O_PIPEW,O_WRONLY); self->proc->fds[b].o=w; self->proc->fds[b].cloexec=false;
  Pipe* p=anew<Pipe>(); p->id=K->next_pipe++; p->readers=p->writers=1; p->cap=K->cfg.pipe_cap; uint32_t c=decide(D_PIPE_CAP,5); static const uint32_t caps[]={0,4096,512,64,1}; if (c) p->cap=caps[c]; p->total_in=p->total_out=0;
  r->pipe=w->pipe=p; v[0]=a; v[1]=b; trace("pipe()=%d,%d cap %zu",a,b,p->cap); return 0;
}
static void fill_stat(Node* n, struct stat* st) { memset(st,0,sizeof *st); st->st_dev=n->dev; st->st_ino=n->ino; st->st_mode=(n->dir?S_IFDIR:n->tag?S_IFCHR:S_IFREG)|n->mode; st->st_nlink=n->nlink; st->st_size=n->dir?4096:n->data.size(); st->st_blksize=4096; st->st_blocks=(st->st_size+511)/512; st->st_mtim.tv_sec=(n->mtime+K->clock_off*0)/1000000000ull+1700000000; st->st_mtim.tv_nsec=n->mtime%1000000000ull; st->st_atim=st->st_ctim=st->st_mtim; }

// ---- heap --------------------------------------------------------------------
#define SHADOW_ADDR ((unsigned char*)0x610000000000ull)
struct HB { uint64_t size; uint32_t magic; uint32_t pad; };
static char* htop; static bool heap_on;
static const uint32_t H_LIVE=0x4c495645, H_FREE=0x46524545;
static void heap_init() {
  if (mmap(SHEAP_ADDR,SHEAP_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)!=SHEAP_ADDR) { K->why="heap mmap"; end_run(RES_ASSERT); }
  mmap(SHADOW_ADDR,SHEAP_SIZE/16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  htop=SHEAP_ADDR+4096; heap_on=true;
}
static inline bool in_heap(const void* p) { return (char*)p>=SHEAP_ADDR && (char*)p<SHEAP_ADDR+SHEAP_SIZE; }
static void heap_bad(const char* what, const void* p, uint64_t n) {
  if (!K->heap_report.empty()) return; char b[200]; snprintf(b,sizeof b,"%s at %p (size %lu)",what,p,(unsigned long)n); K->heap_report=b; K->crash.task=self?self->id:-1;
  if (self) { K->crash.depth=self->depth<64?self->depth:64; K->crash.total=self->depth; for (uint32_t i=0;i<K->crash.depth;i++) K->crash.stack[i]=self->stackpc[(self->depth-K->crash.depth+i)&255]; }
  trace("HEAP: %s",b);
}
static void shadow_set(char* p, uint64_t n) { unsigned char* s=SHADOW_ADDR+((p-SHEAP_ADDR)>>4); while (n>=16) { *s++=16; n-=16; } if (n) *s=n; }
static void* h_alloc(size_t n, int fill) {
  size_t tot=16+((n+15)&~15ull)+16; if (tot<n || htop+tot>SHEAP_ADDR+SHEAP_SIZE) { if (self) { K->why="simulator: heap exhausted"; end_run(RES_STEPS); } errno=ENOMEM; return nullptr; }
  HB* h=(HB*)htop; htop+=tot; h->size=n; h->magic=H_LIVE; char* p=(char*)(h+1); memset(p,fill,n); memset(p+n,0xFB,tot-16-n); shadow_set(p,n); return p;
}
static void h_check_redzone(HB* h) { char* p=(char*)(h+1); size_t end=((h->size+15)&~15ull)+16; for (size_t i=h->size;i<end;i++) if ((unsigned char)p[i]!=0xFB) { heap_bad("write past the end of a heap block",p,h->size); return; } }
static void h_free(void* q) {
  if (!q) return; HB* h=(HB*)q-1;
  if (((uintptr_t)q&15) || (h->magic!=H_LIVE && h->magic!=H_FREE)) { heap_bad("free of an invalid pointer",q,0); return; }
  if (h->magic==H_FREE) { heap_bad("double free",q,h->size); return; }
  h_check_redzone(h); h->magic=H_FREE; memset(q,0xDD,h->size); unsigned char* s=SHADOW_ADDR+(((char*)q-SHEAP_ADDR)>>4); memset(s,0xFD,(h->size+15)/16);
}
static void heap_final_check() {
  if (!heap_on || !K->cfg.heap_check || (self && self->proc!=K->mainp)) return;
  for (char* p=SHEAP_ADDR+4096;p<htop;) { HB* h=(HB*)p; if (h->magic!=H_LIVE&&h->magic!=H_FREE) { heap_bad("heap block header overwritten",p,0); break; }
    if (h->magic==H_LIVE) h_check_redzone(h); else { unsigned char* c=(unsigned char*)(h+1); for (size_t i=0;i<h->size;i++) if (c[i]!=0xDD) { heap_bad("write to freed heap block",c,h->size); break; } }
    p+=16+((h->size+15)&~15ull)+16; }
}
extern "C" {
void* sim_malloc(size_t n) { if (self && K->cfg.p[D_MALLOC_FAIL]>0) { if (decide(D_MALLOC_FAIL,2)) { errno=ENOMEM; return nullptr; } } if (!heap_on) heap_init(); return h_alloc(n,0xA5); }
void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a,b,&n)) { errno=ENOMEM; return nullptr; } if (self && K->cfg.p[D_MALLOC_FAIL]>0) { if (decide(D_MALLOC_FAIL,2)) { errno=ENOMEM; return nullptr; } } if (!heap_on) heap_init(); return h_alloc(n,0); }
void sim_free(void* p) { if (!p) return; if (!in_heap(p)) { free(p); return; } h_free(p); }
void* sim_realloc(void* p, size_t n) { if (!p) return sim_malloc(n); if (!in_heap(p)) return realloc(p,n); if (!n) { h_free(p); return nullptr; }
  HB* h=(HB*)p-1; if (h->magic!=H_LIVE) { heap_bad(h->magic==H_FREE?"realloc of a freed block":"realloc of an invalid pointer",p,0); end_run(RES_HEAP); }
  void* q=sim_malloc(n); if (!q) return nullptr; memcpy(q,p,h->size<n?h->size:n); h_free(p); return q; }
char* sim_strdup(const char* s) { char* p=(char*)sim_malloc(strlen(s)+1); if (p) strcpy(p,s); return p; }
}

// ---- instrumentation hooks (the interpreter is compiled with -fsanitize=thread, linked to these) ----
extern "C" char __data_start, _end;
static inline bool is_global(const void* p) { return (char*)p>=&__data_start && (char*)p<&_end; }
static void preempt_now() {
  Task* t=choose(true,D_PREEMPT); if (t!=self) { K->preempts++; switch_to(t); }
}
static void access_slow() { K->why="cpu spin: no simulated call within the access bound"; end_run(RES_SPIN); }
static inline void acc(void* p, int n) {
  if (!self) return; Kern* k=K;
  if (++k->accesses>k->cfg.max_accesses) access_slow();
  if (in_heap(p)) { uintptr_t a=(uintptr_t)p; unsigned char s=SHADOW_ADDR[(a-(uintptr_t)SHEAP_ADDR)>>4]; if (__builtin_expect(s==16,1)) {} else if (s==0xFD) heap_bad("use of freed heap memory",p,n); else if ((a&15)+n>s && n<=16) heap_bad("access outside a heap block",p,n); }
  else if (k->cfg.preempt_mean && is_global(p)) {
    k->gacc++;
    if (k->cfg.replay) { while (k->prepos<k->preovr.size() && k->preovr[k->prepos].idx<k->gacc) k->prepos++;
      if (k->prepos<k->preovr.size() && k->preovr[k->prepos].idx==k->gacc) { k->pre_choice=k->preovr[k->prepos].choice; preempt_now(); } }
    else if (--k->preempt_left<=0 && k->tasks.size()>1) { k->preempt_left = 1+k->rng.below(2*k->cfg.preempt_mean); preempt_now(); }
  }
}
extern "C" {
#define H(n) void __tsan_read##n(void* p) { acc(p,n); } void __tsan_write##n(void* p) { acc(p,n); } void __tsan_unaligned_read##n(void* p) { acc(p,n); } void __tsan_unaligned_write##n(void* p) { acc(p,n); } void __tsan_volatile_read##n(void* p) { acc(p,n); } void __tsan_volatile_write##n(void* p) { acc(p,n); } void __tsan_read##n##_pc(void* p, void*) { acc(p,n); } void __tsan_write##n##_pc(void* p, void*) { acc(p,n); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_init() {}
unsigned char* sim_cov;                     // coverage map of builds with -fsanitize-coverage=trace-pc (tools/cov)
void __sanitizer_cov_trace_pc() { if (sim_cov) { uintptr_t a=(uintptr_t)__builtin_return_address(0); if (a<(64u<<20)) sim_cov[a]=1; } }
void __tsan_func_entry(void* pc) { if (self) { self->stackpc[self->depth++&255]=pc; } }
void __tsan_func_exit() { if (self && self->depth) self->depth--; }
void __tsan_read_range(void* p, unsigned long n) { if (n) { acc(p,1); acc((char*)p+n-1,1); } }
void __tsan_write_range(void* p, unsigned long n) { if (n) { acc(p,1); acc((char*)p+n-1,1); } }
void __tsan_vptr_update(void**, void*) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d,s,n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d,c,n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d,s,n); }
}

int prog_main(const char* name, int argc, char** argv, char** envp);
// ---- C-library level calls of the interpreter ----------------------------------
typedef void (*sigh)(int);
extern "C" {
ssize_t sim_read(int fd, void* b, size_t n) { return k_read(fd,b,n); }
ssize_t sim_write(int fd, const void* b, size_t n) { return k_write(fd,b,n); }
int sim_open(const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=(fl&O_CREAT)?va_arg(ap,uint32_t):0; va_end(ap); return k_open(p,fl,m); }
int sim_close(int fd) { return k_close(fd); }
int sim_dup(int a) { return k_dup(a); }
int sim_dup2(int a, int b) { return k_dup2(a,b); }
int sim_pipe(int* v) { return k_pipe(v); }
off_t sim_lseek(int fd, off_t off, int wh) {
  yield("lseek",fd,off); Fd* f=fdget(fd); if (!f) return -1; Ofd* o=f->o; if (o->type!=O_FILE || o->src) { errno=ESPIPE; return -1; }
  int64_t b= wh==SEEK_SET?0: wh==SEEK_CUR?(int64_t)o->off:(int64_t)o->node->data.size(); if (b+off<0) { errno=EINVAL; return -1; } o->off=b+off; return o->off; }
int sim_fsync(int fd) { yield("fsync",fd); Fd* f=fdget(fd); if (!f) return -1; if (f->o->type!=O_FILE) { errno=EINVAL; return -1; } if (f->o->node&&fdecide(D_EIO_FSYNC,2,f->o->node)) { f->o->node->data=f->o->node->synced; fsop("fsync"); errno=EIO; return -1; }
  Node* n=f->o->node; if (n) { n->synced=n->data; n->ever_synced=true; klog("fsync",f->o->path.c_str()); } return 0; }
int sim_fstat(int fd, struct stat* st) { yield("fstat",fd); Fd* f=fdget(fd); if (!f) return -1; Ofd* o=f->o; if (o->node) { if (o->type!=O_NULL && fdecide(D_STAT_FAIL,2,o->node)) { errno=EIO; return -1; } fill_stat(o->node,st); } else { memset(st,0,sizeof *st); st->st_mode=(o->type==O_PIPER||o->type==O_PIPEW)?S_IFIFO:S_IFCHR; if (o->type==O_FILE||(o->type==O_SINK&&!o->sink->tty)) st->st_mode=S_IFIFO; st->st_blksize=4096; } return 0; }
int sim_stat(const char* p, struct stat* st) { yield("stat",strlen(p)); int e; Node* n=lookup(self->proc->cwd,p,&e); trace("stat(%s) %s",p,n?"ok":"fail"); if (!n) { errno=e; return -1; } if (fdecide(D_STAT_FAIL,2,n)) { errno=EACCES; return -1; } fill_stat(n,st); return 0; }
int sim_lstat(const char* p, struct stat* st) { return sim_stat(p,st); }
int sim_access(const char* p, int) { yield("access"); int e; Node* n=lookup(self->proc->cwd,p,&e); if (!n) { errno=e; return -1; } return 0; }
int sim_isatty(int fd) { Fd* f=fdget(fd); if (!f) return 0; Ofd* o=f->o; if (o->type==O_TTY || (o->type==O_SINK&&o->sink->tty) || (o->src&&o->src->tty)) return 1; errno=ENOTTY; return 0; }
int sim_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); Fd* f=fdget(fd); if (!f) return -1; yield("fcntl",fd,cmd); f=fdget(fd); if (!f) return -1;
  switch (cmd) { case F_GETFD: return f->cloexec?FD_CLOEXEC:0; case F_SETFD: f->cloexec=a&FD_CLOEXEC; return 0; case F_GETFL: return f->o->flags; case F_SETFL: return 0; case F_DUPFD: return k_dup(fd,a); case F_DUPFD_CLOEXEC: { int r=k_dup(fd,a); if (r>=0) self->proc->fds[r].cloexec=true; return r; } } errno=EINVAL; return -1; }
int sim_ioctl(int fd, unsigned long rq, ...) { va_list ap; va_start(ap,rq); void* a=va_arg(ap,void*); va_end(ap); yield("ioctl",fd,rq); Fd* f=fdget(fd); if (!f) return -1; Ofd* o=f->o;
  if (rq==FIONREAD) { Source* s=o->src?o->src:o->type==O_TTY?K->in:nullptr; if (s) { *(int*)a=src_avail(s); return 0; } if (o->pipe) { *(int*)a=o->pipe->buf.size(); return 0; } if (o->type==O_FILE) { *(int*)a=o->off<o->node->data.size()?o->node->data.size()-o->off:0; return 0; } errno=ENOTTY; return -1; }
  if (rq==TIOCGWINSZ) { if (!sim_isatty(fd)) { errno=ENOTTY; return -1; } struct winsize* w=(struct winsize*)a; memset(w,0,sizeof *w); w->ws_row=24; w->ws_col=80; return 0; }
  errno=ENOTTY; return -1; }
int sim_tcgetattr(int fd, struct termios* t) { yield("tcget",fd); if (!sim_isatty(fd)) { errno=ENOTTY; return -1; } memset(t,0,sizeof *t); Source* s=K->in; t->c_lflag = s->lflag; t->c_oflag=OPOST; t->c_iflag=ICRNL; return 0; }
int sim_tcsetattr(int fd, int act, const struct termios* t) { yield("tcset",fd); if (!sim_isatty(fd)) { errno=ENOTTY; return -1; } Source* s=K->in; bool raw=!(t->c_lflag&ICANON); s->lflag=t->c_lflag; if (act==TCSAFLUSH&&s->pos<s->data.size()) { klog("tty_flush",s->data.c_str()+s->pos); s->pos=s->data.size(); } if (s->raw&&!raw&&s->pos<s->data.size()) s->push=s->data.size(); s->raw=raw; if (raw) wake(s); klog("tcset","","",s->raw); return 0; }
int sim_unlink_(const char* p, bool isremove) { yield("unlink",strlen(p)); Node *par,*n; Str l; int e=walk(self->proc->cwd,p,&par,&l,&n); if (e) { errno=e; return -1; } if (!n) { errno=ENOENT; klog("unlink",p,"",-ENOENT); return -1; }
  if (fdecide(D_UNLINK_FAIL,2,n)) { errno=EACCES; klog("unlink",p,"",-EACCES); return -1; }
  if (n->dir) { if (!isremove) { errno=EISDIR; return -1; } if (!n->kids.empty()) { errno=ENOTEMPTY; klog("rmdir",p,"",-ENOTEMPTY); return -1; } par->kids.erase(l); klog("rmdir",p,"",0); return 0; }
  par->kids.erase(l); if (--n->nlink==0) K->disk_used-=n->data.size()*0; par->mtime=K->vtime; klog("unlink",p,"",0); fsop("unlink"); return 0; }
int sim_remove(const char* p) { return sim_unlink_(p,true); }
int sim_unlink(const char* p) { return sim_unlink_(p,false); }
int sim_rmdir(const char* p) { yield("rmdir",strlen(p)); Node *par,*n; Str l; int e=walk(self->proc->cwd,p,&par,&l,&n); if (e) { errno=e; return -1; } if (!n) { errno=ENOENT; return -1; } if (!n->dir) { errno=ENOTDIR; return -1; } if (l=="."||l=="..") { errno=EINVAL; return -1; } if (!n->kids.empty()) { errno=ENOTEMPTY; klog("rmdir",p,"",-ENOTEMPTY); return -1; } if (fdecide(D_UNLINK_FAIL,2,n)) { errno=EACCES; klog("rmdir",p,"",-EACCES); return -1; } par->kids.erase(l); klog("rmdir",p,"",0); return 0; }
int sim_mkdir(const char* p, mode_t m) { yield("mkdir",strlen(p)); Node *par,*n; Str l; int e=walk(self->proc->cwd,p,&par,&l,&n); if (e) { errno=e; return -1; } if (n) { errno=EEXIST; return -1; } if (fdecide(D_MKDIR_FAIL,2,par)) { errno=EACCES; klog("mkdir",p,"",-EACCES); return -1; } Node* d=new_node(true,m&~self->proc->umask_); d->parent=par; d->dev=par->dev; par->kids[l]=d; klog("mkdir",p,"",0); return 0; }
int sim_rename(const char* a, const char* b) {
  yield("rename",strlen(a),strlen(b)); Node *pa,*na,*pb,*nb; Str la,lb; int e=walk(self->proc->cwd,a,&pa,&la,&na); if (e) { errno=e; return -1; } if (!na) { errno=ENOENT; klog("rename",a,b,-ENOENT); return -1; }
  e=walk(self->proc->cwd,b,&pb,&lb,&nb); if (e) { errno=e; klog("rename",a,b,-e); return -1; }
  if (na->dev!=pb->dev) { errno=EXDEV; klog("rename",a,b,-EXDEV); return -1; }
  uint32_t c=fdecide(D_RENAME_FAIL,4,na); if (c) { static const int er[]={0,EACCES,EIO,EXDEV}; errno=er[c]; klog("rename",a,b,-errno); return -1; }
  if (nb==na) { klog("rename",a,b,0); return 0; }
  if (nb) { if (nb->dir&&!na->dir) { errno=EISDIR; klog("rename",a,b,-EISDIR); return -1; } if (!nb->dir&&na->dir) { errno=ENOTDIR; klog("rename",a,b,-ENOTDIR); return -1; } if (nb->dir&&!nb->kids.empty()) { errno=ENOTEMPTY; klog("rename",a,b,-ENOTEMPTY); return -1; } }
  if (na->dir) for (Node* x=pb;x;x=x->parent) if (x==na) { errno=EINVAL; klog("rename",a,b,-EINVAL); return -1; }
  pa->kids.erase(la); pb->kids[lb]=na; na->parent=pb; klog("rename",a,b,0); fsop("rename"); return 0; }
int sim_chdir(const char* p) { yield("chdir"); int e; Node* n=lookup(self->proc->cwd,p,&e); if (!n) { errno=e; return -1; } if (!n->dir) { errno=ENOTDIR; return -1; } self->proc->cwd=n; klog("chdir",p); return 0; }
char* sim_getcwd(char* b, size_t n) { yield("getcwd"); Str r; for (Node* x=self->proc->cwd;x&&x->parent;x=x->parent) { for (auto& k: x->parent->kids) if (k.second==x) { r=Str("/")+k.first+r; break; } } if (r.empty()) r="/"; if (r.size()+1>n) { errno=ERANGE; return nullptr; } memcpy(b,r.c_str(),r.size()+1); return b; }
int sim_chmod(const char* p, mode_t m) { yield("chmod"); int e; Node* n=lookup(self->proc->cwd,p,&e); if (!n) { errno=e; return -1; } n->mode=m&07777; return 0; }
mode_t sim_umask(mode_t m) { mode_t o=self->proc->umask_; self->proc->umask_=m; return o; }
ssize_t sim_readlink(const char* p, char* b, size_t n) { yield("readlink"); const char* x="/opt/pbat/pbat"; if (strcmp(p,"/proc/self/exe")) { errno=EINVAL; return -1; } size_t l=strlen(x); if (l>n) l=n; memset(b,0,n); memcpy(b,x,l); return l; }
struct SimDir { Vec<Str> names; Vec<Node*> nodes; size_t pos; struct dirent de; int fd; };
DIR* sim_opendir(const char* p) { yield("opendir",strlen(p)); int e; Node* n=lookup(self->proc->cwd,p,&e); if (!n) { errno=e; return nullptr; } if (!n->dir) { errno=ENOTDIR; return nullptr; } if (fdecide(D_EMFILE,2,n)) { errno=EMFILE; return nullptr; } int fd=fdalloc(); if (fd<0) { errno=EMFILE; return nullptr; } Ofd* o=new_ofd(O_DIR,O_RDONLY); o->path=p; o->node=n; self->proc->fds[fd].o=o; self->proc->fds[fd].cloexec=true;
  SimDir* d=anew<SimDir>(); d->fd=fd; d->pos=0; d->names.push_back("."); d->nodes.push_back(n); d->names.push_back(".."); d->nodes.push_back(n->parent?n->parent:n); for (auto& k: n->kids) { d->names.push_back(k.first); d->nodes.push_back(k.second); }
  uint32_t c = d->names.size()>3 && K->cfg.p[D_MISC]>0 ? decide(D_MISC,3) : 0;         // directory order is unspecified
  if (c==1) for (size_t i=2,j=d->names.size()-1;i<j;i++,j--) { std::swap(d->names[i],d->names[j]); std::swap(d->nodes[i],d->nodes[j]); }
  else if (c==2) for (size_t i=2;i+1<d->names.size();i+=2) { std::swap(d->names[i],d->names[i+1]); std::swap(d->nodes[i],d->nodes[i+1]); }
  trace("opendir(%s)",p); return (DIR*)d; }
struct dirent* sim_readdir(DIR* dd) { SimDir* d=(SimDir*)dd; yield("readdir"); Node* dn=self->proc->fds[d->fd].o?self->proc->fds[d->fd].o->node:nullptr; if (dn&&fdecide(D_READDIR_FAIL,2,dn)) { errno=EIO; return nullptr; } while (d->pos<d->names.size()) { size_t i=d->pos++; if (i>=2 && dn) { auto it=dn->kids.find(d->names[i]); if (it==dn->kids.end()) continue; } memset(&d->de,0,sizeof d->de); d->de.d_ino=d->nodes[i]->ino; d->de.d_type=d->nodes[i]->dir?DT_DIR:DT_REG; strncpy(d->de.d_name,d->names[i].c_str(),255); return &d->de; } return nullptr; }
int sim_closedir(DIR* dd) { SimDir* d=(SimDir*)dd; yield("closedir"); if (d->fd>=0 && self->proc->fds[d->fd].o) { Ofd* o=self->proc->fds[d->fd].o; self->proc->fds[d->fd].o=nullptr; close_ofd(o); } d->fd=-1; return 0; }
int sim_uname(struct utsname* u) { memset(u,0,sizeof *u); strcpy(u->sysname,"Linux"); strcpy(u->nodename,"sim"); strcpy(u->release,"6.0"); strcpy(u->version,"1"); strcpy(u->machine,"x86_64"); return 0; }
time_t sim_time(time_t* t) { yield("time"); time_t r=1700000000+(int64_t)(K->vtime/1000000000ull)+K->clock_off; if (t) *t=r; return r; }
int sim_nanosleep(const struct timespec* ts, struct timespec*) { yield("nanosleep",ts->tv_sec,ts->tv_nsec); if (ts->tv_nsec<0||ts->tv_nsec>=1000000000L||ts->tv_sec<0) { errno=EINVAL; return -1; } uint64_t d=(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; klog("sleep","","",d); if (!d) return 0; uint64_t at=K->vtime+d; int e=block(&self->wake_at,"nanosleep",true,[&]{ return K->vtime>=at; },at); if (e==EINTR) { errno=EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { struct timespec t={(time_t)s,0}; sim_nanosleep(&t,nullptr); return 0; }
int sim_usleep(unsigned us) { struct timespec t={us/1000000,(long)(us%1000000)*1000}; return sim_nanosleep(&t,nullptr); }
int sim_sigaction(int s, const struct sigaction* a, struct sigaction* o) { yield("sigaction",s); SigAct& x=self->proc->sig[s]; if (o) { memset(o,0,sizeof *o); o->sa_handler=x.h; o->sa_flags=x.flags; } if (a) { x.h=a->sa_handler; x.flags=a->sa_flags; } return 0; }
int sim_pthread_sigmask(int how, const sigset_t* n, sigset_t* o) {
  yield("sigmask",how); if (o) { sigemptyset(o); for (int s=1;s<32;s++) if (self->smask&(1u<<s)) sigaddset(o,s); }
  if (n) { uint32_t m=0; for (int s=1;s<32;s++) if (sigismember(n,s)) m|=1u<<s; if (how==SIG_BLOCK) self->smask|=m; else if (how==SIG_UNBLOCK) self->smask&=~m; else self->smask=m; signals(); }
  return 0; }
int sim_sigprocmask(int how, const sigset_t* n, sigset_t* o) { return sim_pthread_sigmask(how,n,o); }
sigh sim_signal(int s, sigh h) { yield("signal",s); SigAct& x=self->proc->sig[s]; sigh o=x.h; x.h=h; x.flags=SA_RESTART; return o; }
int sim_sched_yield() { yield("sched_yield"); return 0; }
int sim_getpid() { return self->proc->pid; }
int sim_raise(int s) { self->proc->pending|=1u<<s; signals(); return 0; }
int sim_abort() { K->why="abort() called"; end_run(RES_ASSERT); }

// calls the current code does not use but an equivalent rewrite might
int sim_openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=(fl&O_CREAT)?va_arg(ap,uint32_t):0; va_end(ap); if (d!=AT_FDCWD && *p!='/') { errno=EBADF; return -1; } return k_open(p,fl,m); }
int sim_creat(const char* p, mode_t m) { return k_open(p,O_WRONLY|O_CREAT|O_TRUNC,m); }
int sim_dup3(int a, int b, int fl) { int r=k_dup2(a,b); if (r>=0) self->proc->fds[r].cloexec=fl&O_CLOEXEC; return r; }
int sim_pipe2(int* v, int fl) { int r=k_pipe(v); if (!r) self->proc->fds[v[0]].cloexec=self->proc->fds[v[1]].cloexec=fl&O_CLOEXEC; return r; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
static int trunc_node(Node* n, off_t len) { K->disk_used-=n->data.size(); n->data.resize(len); K->disk_used+=len; n->mtime=K->vtime; return 0; }
int sim_ftruncate(int fd, off_t len) { yield("ftruncate",fd,len); Fd* f=fdget(fd); if (!f) return -1; if (f->o->type!=O_FILE||!f->o->node||len<0) { errno=EINVAL; return -1; } return trunc_node(f->o->node,len); }
int sim_truncate(const char* p, off_t len) { yield("truncate",len); int e; Node* n=lookup(self->proc->cwd,p,&e); if (!n) { errno=e; return -1; } return trunc_node(n,len); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t off) { Fd* f=fdget(fd); if (!f) return -1; if (f->o->type!=O_FILE||f->o->src) { errno=ESPIPE; return -1; } uint64_t o=f->o->off; f->o->off=off; ssize_t r=k_read(fd,b,n); f->o->off=o; return r; }
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t off) { Fd* f=fdget(fd); if (!f) return -1; if (f->o->type!=O_FILE||f->o->src) { errno=ESPIPE; return -1; } uint64_t o=f->o->off; f->o->off=off; ssize_t r=k_write(fd,b,n); f->o->off=o; return r; }
struct iovec_ { void* b; size_t n; };
ssize_t sim_writev(int fd, const iovec_* v, int c) { Str s; for (int i=0;i<c;i++) s.append((char*)v[i].b,v[i].n); return k_write(fd,s.data(),s.size()); }
ssize_t sim_readv(int fd, const iovec_* v, int c) { for (int i=0;i<c;i++) if (v[i].n) return k_read(fd,v[i].b,v[i].n); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec* t) { yield("clock_gettime"); uint64_t v=K->vtime; bool wall=c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE; t->tv_sec=v/1000000000ull+(wall?1700000000+K->clock_off:1000); t->tv_nsec=v%1000000000ull; return 0; }
int sim_gettimeofday(struct timeval* t, void*) { struct timespec x; sim_clock_gettime(CLOCK_REALTIME,&x); t->tv_sec=x.tv_sec; t->tv_usec=x.tv_nsec/1000; return 0; }
clock_t sim_clock() { yield("clock"); return K->vtime/1000; }
int sim_poll(struct pollfd* p, nfds_t n, int ms) {
  yield("poll",n,ms); int r=0;
  auto scan=[&]{ r=0; for (nfds_t i=0;i<n;i++) { p[i].revents=0; if (p[i].fd<0||p[i].fd>=MAXFD) continue; Ofd* o=self->proc->fds[p[i].fd].o; if (!o) { p[i].revents=POLLNVAL; r++; continue; }
      Source* s=o->src?o->src:o->type==O_TTY?K->in:nullptr; bool in = s ? (s->data.size()>s->pos||s->eof) : o->type==O_PIPER ? (o->pipe->buf.size()||!o->pipe->writers) : true; bool out = o->type==O_PIPEW ? o->pipe->buf.size()<o->pipe->cap||!o->pipe->readers : true;
      if ((p[i].events&POLLIN)&&in) p[i].revents|=POLLIN; if ((p[i].events&POLLOUT)&&out) p[i].revents|=POLLOUT; if (p[i].revents) r++; } return r>0; };
  if (scan()||ms==0) return r;
  const void* on=K->in; for (nfds_t i=0;i<n;i++) if (p[i].fd>=0&&p[i].fd<MAXFD&&self->proc->fds[p[i].fd].o&&self->proc->fds[p[i].fd].o->pipe) on=self->proc->fds[p[i].fd].o->pipe;
  int e=block(on,"poll",true,scan,ms<0?0:K->vtime+(uint64_t)ms*1000000ull); if (e==ETIMEDOUT) return 0; if (e) { errno=e; return -1; } return r; }
int sim_select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* tv) {
  struct pollfd p[64]; int c=0; for (int i=0;i<n&&c<64;i++) { short ev=0; if (rd&&FD_ISSET(i,rd)) ev|=POLLIN; if (wr&&FD_ISSET(i,wr)) ev|=POLLOUT; if (ev) p[c++]={i,ev,0}; }
  int r=sim_poll(p,c,tv?(int)(tv->tv_sec*1000+tv->tv_usec/1000):-1); if (r<0) return r; if (rd) FD_ZERO(rd); if (wr) FD_ZERO(wr); if (ex) FD_ZERO(ex); int k=0; for (int i=0;i<c;i++) { if (p[i].revents&POLLIN) { FD_SET(p[i].fd,rd); k++; } if (p[i].revents&POLLOUT) { FD_SET(p[i].fd,wr); k++; } } return k; }
char* sim_strndup(const char* s, size_t n) { size_t l=strnlen(s,n); char* p=(char*)sim_malloc(l+1); if (p) { memcpy(p,s,l); p[l]=0; } return p; }
int sim_fork();
int sim_wait(int* st);

// ---- threads
static void* th_tramp(void* a) {
  Task* t=(Task*)a; self=t; 
  stack_t ss; ss.ss_size=65536; ss.ss_flags=0; ss.ss_sp=mmap(nullptr,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sigaltstack(&ss,nullptr);
  wait_go(t); check_alive();
  void* r=t->fn(t->arg); t->retval=r; klog("thread_end","","",t->id); task_finish(); return nullptr;
}
static Task* new_task(Proc* p) { Task* t=anew<Task>(); memset((void*)t,0,sizeof *t); t->id=K->tasks.size(); t->proc=p; t->st=T_RUN; t->prio=K->cfg.replay?0:(int)K->rng.below(1000); K->tasks.push_back(t); return t; }
static ThHandle* th_get(Task* t);
int sim_pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  yield("thread_create"); if (rdecide(D_THREAD_FAIL,2)) return EAGAIN;
  if (K->tasks.size()>=1500) { K->why="simulator: too many tasks"; end_run(RES_STEPS); }
  Task* t=new_task(self->proc); t->fn=fn; t->arg=arg; K->threads_created++; *th=(pthread_t)th_get(t);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,4<<20); pthread_attr_setdetachstate(&a,PTHREAD_CREATE_DETACHED); pthread_t real;
  int e=pthread_create(&real,&a,th_tramp,t); pthread_attr_destroy(&a);
  if (e) { K->why="simulator: real pthread_create failed"; end_run(RES_STEPS); }
  uint32_t alive=0; for (auto x: K->tasks) if (x->st!=T_DONE) alive++; if (alive>K->max_tasks_alive) K->max_tasks_alive=alive;
  klog("thread_create","","",t->id); yield("thread_created"); return 0; }
// A handle is given again, as the C library does, once its thread is joined or detached and over.
static ThHandle* th_get(Task* t) { ThHandle* h; if (K->thfree.size()) { h=K->thfree.back(); K->thfree.pop_back(); } else h=anew<ThHandle>(); h->t=t; h->freed=false; t->handle=h; return h; }
static void th_release(Task* t) { ThHandle* h=t->handle; if (h&&!h->freed) { h->freed=true; K->thfree.push_back(h); } }
int sim_pthread_join(pthread_t th, void** r) { ThHandle* h=(ThHandle*)th; yield("join",h->t->id); if (h->freed) { klog("badjoin","stale","",h->t->id); return ESRCH; } Task* t=h->t; if (t->joined||t->detached) { klog("badjoin","","",t->id); return EINVAL; } block(t,"pthread_join",false,[&]{ return t->st==T_DONE; }); t->joined=true; th_release(t); if (r) *r=t->retval; return 0; }
int sim_pthread_detach(pthread_t th) { ThHandle* h=(ThHandle*)th; yield("detach",h->t->id); if (h->freed) { klog("baddetach","stale","",h->t->id); return ESRCH; } Task* t=h->t; if (t->joined||t->detached) { klog("baddetach","","",t->id); return EINVAL; } t->detached=true; if (t->st==T_DONE) th_release(t); return 0; }
int sim_pthread_cancel(pthread_t th) { Task* t=((ThHandle*)th)->t; yield("cancel",t->id); if (t->st==T_DONE) return ESRCH; t->cancel=true; return 0; }
void sim_pthread_exit(void* r) { yield("thread_exit"); self->retval=r; klog("thread_end","exit","",self->id); task_finish(); }
unsigned long sim_pthread_self() { return (unsigned long)self; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { MutexOv* o=(MutexOv*)m; memset((void*)o,0,sizeof *o); o->magic=0x4d55; o->owner=-1; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { MutexOv* o=(MutexOv*)m; yield("mlock"); if (o->magic!=0x4d55) { o->magic=0x4d55; o->owner=-1; o->count=0; } block(m,"pthread_mutex_lock",false,[&]{ return o->owner==-1; }); o->owner=self->id; hashop("L",(uint64_t)m,0); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { MutexOv* o=(MutexOv*)m; yield("mtrylock"); if (o->magic!=0x4d55) { o->magic=0x4d55; o->owner=-1; o->count=0; } if (o->owner!=-1) return EBUSY; o->owner=self->id; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { MutexOv* o=(MutexOv*)m; o->magic=0x4d55; if (o->owner!=self->id) { char b[24]; snprintf(b,sizeof b,"%d",o->owner); klog("badunlock",b,"",self->id); } o->owner=-1; wake(m); yield("munlock"); return 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { MutexOv* o=(MutexOv*)m; bool woken=false; (void)woken; uint64_t st=K->step; o->owner=-1; wake(m); self->wait_on=c; self->st=T_BLOCKED; self->wait_why="pthread_cond_wait"; self->timed=false; self->interruptible=false; Task* t=choose(false,D_SCHED); if (t!=self) switch_to(t); self->st=T_RUN; (void)st; block(m,"pthread_mutex_lock",false,[&]{ return o->owner==-1; }); o->owner=self->id; return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { yield("cbroadcast"); wake(c); return 0; }
int sim_pthread_cond_signal(pthread_cond_t* c) { yield("csignal"); for (auto t: K->tasks) if (t->st==T_BLOCKED&&t->wait_on==c) { t->st=T_RUN; break; } return 0; }
int sim_pthread_cond_init(pthread_cond_t*, const void*) { return 0; }
int sim_pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- processes
extern char** environ;
extern int pbat_main(int, char**);
int sim_fork() {
  yield("fork"); if (rdecide(D_FORK_FAIL,2)) { errno=EAGAIN; return -1; }
  Proc* p=self->proc; Proc* c=anew<Proc>(); *c=*p; c->pid=K->next_pid++; c->ppid=p->pid; c->external=true; c->pending=0; c->zombie=c->reaped=false; c->alive=true; c->max_fd_seen=0; for (int i=0;i<MAXFD;i++) if (c->fds[i].o) c->fds[i].o->refs++;
  c->exe="(forked)"; K->procs.push_back(c); Task* t=new_task(c); c->main_task=t->id; K->forks++; t->smask=self->smask; t->depth=self->depth; memcpy(t->stackpc,self->stackpc,sizeof t->stackpc);
  klog("fork","","",c->pid); t->st=T_NEW;          // fork() itself may wait for a stdio lock: not schedulable before it exists
  int r=fork();
  if (r<0) { K->why="simulator: real fork failed"; end_run(RES_STEPS); }
  if (r==0) { self=t; wait_go(t); check_alive(); return 0; }
  t->st=T_RUN; c->realpid=r; uint32_t alive=0; for (auto x: K->tasks) if (x->st!=T_DONE) alive++; if (alive>K->max_tasks_alive) K->max_tasks_alive=alive;
  yield("forked"); return c->pid; }
int sim_vfork() { return sim_fork(); }
int sim_waitpid(int pid, int* st, int opt) {
  yield("waitpid",pid,opt); Proc* f=nullptr; bool has=false;
  auto scan=[&]{ f=nullptr; has=false; for (auto p: K->procs) if (p->ppid==self->proc->pid && !p->reaped && (pid<=0||p->pid==pid)) { has=true; if (p->zombie) { f=p; return true; } } return !has; };
  if (opt&WNOHANG) { scan(); if (!has) { errno=ECHILD; return -1; } if (!f) return 0; }
  else { int e=block(&K->procs,"waitpid",true,scan); if (e) { errno=e; trace("waitpid EINTR"); return -1; } if (!f) { errno=ECHILD; return -1; } }
  f->reaped=true; if (st) *st=f->status; klog("reap","","",f->pid); return f->pid; }
int sim_wait(int* st) { return sim_waitpid(-1,st,0); }
static int do_exec(const char* path, char* const argv[], char** envp) {
  yield("exec"); int e; Node* n=lookup(self->proc->cwd,path,&e); Str av; for (int i=0;argv[i];i++) { if (i) av+='\x1f'; av+=argv[i]; }
  if (!n) { klog("exec",path,av.c_str(),-e); errno=e; return -1; }
  if (n->dir || !(n->mode&0111)) { klog("exec",path,av.c_str(),-EACCES); errno=EACCES; return -1; }
  { size_t tot=0; for (char** q=envp;q&&*q;q++) { size_t l=strlen(*q); tot+=l; if (l>=131072) tot=~0u; } if (tot>1500000) { klog("exec",path,av.c_str(),-E2BIG); errno=E2BIG; return -1; } }
  uint32_t c=rdecide(D_EXEC_FAIL,4); if (c) { static const int er[]={0,ENOENT,EACCES,ENOEXEC}; klog("exec",path,av.c_str(),-er[c]); errno=er[c]; return -1; }
  if (!n->prog) { klog("exec",path,av.c_str(),-ENOEXEC); errno=ENOEXEC; return -1; }
  Proc* p=self->proc; K->execs++; p->exe=path; 
  // history: argv, cwd, environment, descriptors as the program sees them
  char cw[600]; { Str r; for (Node* x=p->cwd;x&&x->parent;x=x->parent) for (auto& k: x->parent->kids) if (k.second==x) { r=Str("/")+k.first+r; break; } if (r.empty()) r="/"; snprintf(cw,sizeof cw,"%s",r.c_str()); }
  for (int i=0;i<MAXFD;i++) if (p->fds[i].o && p->fds[i].cloexec) { Ofd* o=p->fds[i].o; p->fds[i].o=nullptr; close_ofd(o); }
  for (int i=0;i<32;i++) if (p->sig[i].h!=SIG_IGN) p->sig[i].h=SIG_DFL;
  klog("exec",path,av.c_str(),0); klog("execcwd",cw);
  Str fdl; for (int i=0;i<MAXFD;i++) if (p->fds[i].o) { char nb[80]; fdname(i,nb); fdl+=nb; fdl+=';'; } klog("execfds",fdl.c_str());
  Str ev; for (char** q=envp;q&&*q;q++) { ev+=*q; ev+='\x1f'; } klog("execenv",ev.c_str());
  if (!strcmp(n->progname.c_str(),"pbat")) { K->why="exec of pbat"; kernel_exit(0); }
  int ac=0; while (argv[ac]) ac++;
  Str pn=n->progname; int r=prog_main(pn.c_str(),ac,(char**)argv,envp);
  kernel_exit((r&255)<<8);
}
int sim_execv(const char* p, char* const argv[]) { return do_exec(p,argv,environ); }
int sim_execve(const char* p, char* const argv[], char* const envp[]) { return do_exec(p,argv,(char**)envp); }
int sim_execvp(const char* p, char* const argv[]) { return do_exec(p,argv,environ); }
int sim_execl(const char* p, const char* a0, ...) { char* av[64]; int n=0; va_list ap; va_start(ap,a0); av[n++]=(char*)a0; while (n<63 && (av[n]=va_arg(ap,char*))) n++; av[n]=nullptr; va_end(ap); return do_exec(p,av,environ); }
int sim_kill(int, int) { return 0; }
void sim_exit(int c) { klog("exit","","",c); exit(c); }        // real exit(): flushes stdio through the simulator, then __wrap__exit
void* sim_dlopen(const char* f, int) { klog("dlopen",f?f:""); return nullptr; }
void* sim_dlsym(void*, const char*) { return nullptr; }
int sim_dlclose(void*) { return 0; }
char* sim_dlerror() { return (char*)"simulated"; }

// ---- calls made inside the C library (stdio), redirected with the linker's --wrap
#define W(name) __wrap_##name
ssize_t W(__read)(int fd, void* b, size_t n) { return self?k_read(fd,b,n):rawe(raw(SYS_read,fd,(long)b,n)); }
ssize_t W(__read_nocancel)(int fd, void* b, size_t n) { return W(__read)(fd,b,n); }
ssize_t W(__write)(int fd, const void* b, size_t n) { return self?k_write(fd,b,n):rawe(raw(SYS_write,fd,(long)b,n)); }
ssize_t W(__write_nocancel)(int fd, const void* b, size_t n) { return W(__write)(fd,b,n); }
static int w_open(const char* p, int fl, uint32_t m) { return self?k_open(p,fl,m):rawe(raw(SYS_openat,AT_FDCWD,(long)p,fl,m)); }
int W(__open)(const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=va_arg(ap,uint32_t); va_end(ap); return w_open(p,fl,m); }
int W(__open_nocancel)(const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=va_arg(ap,uint32_t); va_end(ap); return w_open(p,fl,m); }
int W(__open64)(const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=va_arg(ap,uint32_t); va_end(ap); return w_open(p,fl,m); }
int W(__open64_nocancel)(const char* p, int fl, ...) { va_list ap; va_start(ap,fl); uint32_t m=va_arg(ap,uint32_t); va_end(ap); return w_open(p,fl,m); }
int W(__close)(int fd) { return self?k_close(fd):rawe(raw(SYS_close,fd)); }
int W(__close_nocancel)(int fd) { return W(__close)(fd); }
off_t W(__lseek64)(int fd, off_t o, int w) { return self?sim_lseek(fd,o,w):rawe(raw(SYS_lseek,fd,o,w)); }
off_t W(__lseek)(int fd, off_t o, int w) { return W(__lseek64)(fd,o,w); }
int W(__fstat64)(int fd, struct stat* st) { return self?sim_fstat(fd,st):rawe(raw(SYS_fstat,fd,(long)st)); }
int W(__fcntl)(int fd, int cmd, ...) { va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); return self?sim_fcntl(fd,cmd,a):rawe(raw(SYS_fcntl,fd,cmd,a)); }
int W(__isatty)(int fd) { if (self) return sim_isatty(fd); struct termios t; return raw(SYS_ioctl,fd,TCGETS,(long)&t)==0; }
void __real__exit(int);
void W(_exit)(int c) { if (self) kernel_exit((c&255)<<8); raw(SYS_exit_group,c); for(;;); }
void __real___lll_lock_wait_private(int*);
void W(__lll_lock_wait_private)(int* f) { if (!self) { __real___lll_lock_wait_private(f); return; } while (__atomic_exchange_n(f,2,__ATOMIC_ACQUIRE)!=0) { int first=1; block(f,"stdio lock",false,[&]{ if (first) { first=0; return false; } return true; }); } }
void __real___lll_lock_wake_private(int*);
void W(__lll_lock_wake_private)(int* f) { if (!self) { __real___lll_lock_wake_private(f); return; } wake(f); }
}

// ---- run ---------------------------------------------------------------------
static void on_sig(int s, siginfo_t* si, void* uc) {
  if (K && self) {
    K->crash.sig=s; K->crash.addr=(uint64_t)si->si_addr; K->crash.pc=((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; K->crash.task=self->id;
    uint32_t d=self->depth<64?self->depth:64; K->crash.depth=d; K->crash.total=self->depth; for (uint32_t i=0;i<d;i++) K->crash.stack[i]=self->stackpc[(self->depth-d+i)&255];
    K->outcome=s==SIGABRT?RES_ASSERT:RES_CRASHED; raw(SYS_kill,0,SIGKILL);
  }
  raw(SYS_exit_group,98);
}
void kern_reset(const SimConfig& cfg) {
  memset(AH,0,sizeof *AH); AH->top=ARENA_ADDR+4096;
  K=nullptr; K=anew<Kern>(); K->cfg=cfg; K->rng=Rng(cfg.seed); K->ovpos=0; K->ndec=0;
  memset(K->dec_count,0,sizeof K->dec_count); memset(K->fault_count,0,sizeof K->fault_count);
  K->step=0; K->vtime=0; K->clock_off=0; K->hash=0xcbf29ce484222325ull; K->sched_hash=K->hash; K->accesses=K->switches=K->preempts=0;
  K->gacc=0; K->prepos=0; K->pre_choice=0; K->preempt_left = cfg.preempt_mean?1+K->rng.below(2*cfg.preempt_mean):0;
  K->next_ino=2; K->next_pid=100; K->next_pipe=1; K->disk_used=0; K->outcome=RES_RUNNING; K->main_exited=false; K->main_exit=-1; K->main_exit_step=0;
  K->max_tasks_alive=1; K->threads_created=K->forks=K->execs=0; K->bytes_piped=K->bytes_read=K->bytes_written=0; K->stop_faults=false; K->last_fault_step=0; K->tracing=false; K->mutpos=0; K->script_open=false; memset(&K->crash,0,sizeof K->crash); K->journal_synced=0;
  K->starve=-1; if (cfg.policy==2 && !cfg.replay) K->starve=K->rng.below(4);
  K->root=new_node(true,0755); K->in=nullptr; K->mainp=nullptr;
  vfs_mkdirs("/tmp"); vfs_mkdirs("/w"); vfs_mkdirs("/bin"); vfs_put("/dev/null","")->tag=1; vfs_put("/dev/tty","")->tag=2; vfs_put("/opt/pbat/pbat","\x7f" "ELF",0755); vfs_mkdirs("/opt/pbat/cmd");
  K->disk_used=0;
}
int kern_run(const RunSpec& rs, int real_timeout_ms) {
  Proc* p=anew<Proc>(); memset((void*)p->fds,0,sizeof p->fds); memset((void*)p->sig,0,sizeof p->sig); p->pid=K->next_pid++; p->ppid=1; p->alive=true; p->zombie=p->reaped=false; p->external=false; p->pending=0; p->max_fd_seen=2; p->umask_=022; p->exe="pbat"; K->procs.push_back(p); K->mainp=p;
  p->cwd=vfs_get(rs.cwd.c_str()); if (!p->cwd) p->cwd=K->root;
  Source* s=anew<Source>(); s->data=S(rs.stdin_data); s->pos=0; s->tty=rs.stdin_tty; s->evpos=0; s->last=0; s->eof=!rs.stdin_tty&&rs.tty.empty(); s->reads_at_eof=0; s->consumed=0; s->raw=false; s->push=0; s->lflag=ICANON|ECHO|ISIG; for (auto& e: rs.tty) { TtyEv t; t.delay=e.first; t.sig=e.second=="\x03"; t.bytes=S(e.second); s->evs.push_back(t); } K->in=s;
  K->out=anew<Sink>(); K->out->id=1; K->out->tty=rs.stdout_tty; K->err=rs.merge_err?K->out:anew<Sink>(); if (!rs.merge_err) { K->err->id=2; K->err->tty=rs.stdout_tty; } K->ttyout=rs.stdout_tty?K->out:anew<Sink>(); 
  Ofd* i=new_ofd(O_FILE,O_RDONLY); i->src=s; i->path="<stdin>"; if (rs.stdin_null) { i->type=O_NULL; i->src=nullptr; }
  Ofd* o=new_ofd(O_SINK,O_WRONLY); o->sink=K->out; o->path="<stdout>"; Ofd* e=new_ofd(O_SINK,O_WRONLY); e->sink=K->err; e->path="<stderr>";
  p->fds[0].o=i; p->fds[1].o=o; p->fds[2].o=e;
  Task* t=new_task(p); p->main_task=t->id; t->st=T_RUN; K->cur=t->id;
  fflush(nullptr);
  int pid=fork();
  if (pid<0) { perror("fork"); exit(3); }
  if (pid==0) {
    raw(SYS_setpgid,0,0);
    struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
    static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for (int s: {SIGSEGV,SIGBUS,SIGABRT,SIGFPE,SIGILL}) sigaction(s,&sa,nullptr);
    static char* av[64]; int ac=0; for (auto& a: rs.argv) av[ac++]=strdup(a.c_str()); av[ac]=nullptr;
    static char* ev[512]; int en=0; for (auto& a: rs.env) if (en<510) ev[en++]=strdup(a.c_str()); ev[en]=nullptr; environ=ev;
    srand(1); heap_init();
    self=t;
    // fresh standard streams: those inherited from the simulator carry its own buffering state
    stdin=fdopen(0,"r"); stdout=fdopen(1,"w"); stderr=fdopen(2,"w"); setvbuf(stderr,nullptr,_IONBF,0);
    int (*entry)(int,char**) = rs.entry?rs.entry:pbat_main;
    int r=entry(ac,av);
    klog("main_return","","",r);
    exit(r);
  }
  raw(SYS_setpgid,pid,pid);
  int status=0; bool to=false;
  int pfd=raw(SYS_pidfd_open,pid,0);
  if (pfd>=0) { struct pollfd pf={pfd,POLLIN,0}; int r=raw(SYS_poll,(long)&pf,1,real_timeout_ms); if (r==0) to=true; raw(SYS_close,pfd); }
  else { struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a); for (;;) { int r=raw(SYS_wait4,pid,(long)&status,WNOHANG,0); if (r==pid) goto reaped; clock_gettime(CLOCK_MONOTONIC,&b); if ((b.tv_sec-a.tv_sec)*1000+(b.tv_nsec-a.tv_nsec)/1000000>real_timeout_ms) { to=true; break; } struct timespec q={0,200000}; nanosleep(&q,nullptr); } }
  if (to) raw(SYS_kill,-pid,SIGKILL);
  raw(SYS_wait4,pid,(long)&status,0,0);
reaped:
  raw(SYS_kill,-pid,SIGKILL);
  while (raw(SYS_wait4,-pid,(long)&status,0,0)>0) ;        // the processes it left behind (a worker is their subreaper)
  if (to) return -1;
  if (K->outcome==RES_RUNNING) { K->why="runner died unexpectedly"; return -1; }
  return K->outcome;
}
