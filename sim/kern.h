// Deterministic simulator for picobat: virtual kernel, scheduler, decisions.
// All mutable simulator state lives in one MAP_SHARED arena at a fixed address
// so that processes made by the interpreter's fork() keep taking part in the
// same simulation.  Only the task that holds the baton touches it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <deque>

#define ARENA_ADDR ((char*)0x600000000000ull)
#define ARENA_SIZE (768ull<<20)
#define SHEAP_ADDR ((char*)0x20000000ull)      // below 2 GB, as a static binary's brk heap
#define SHEAP_SIZE (512ull<<20)

void* arena_alloc(size_t n);
void arena_free(void* p, size_t n);
template<class T> struct AAlloc {
  typedef T value_type;
  AAlloc() {}
  template<class U> AAlloc(const AAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)arena_alloc(n*sizeof(T)); }
  void deallocate(T* p, size_t n) { arena_free(p, n*sizeof(T)); }
  bool operator==(const AAlloc&) const { return true; }
  bool operator!=(const AAlloc&) const { return false; }
};
typedef std::basic_string<char, std::char_traits<char>, AAlloc<char>> Str;
template<class T> using Vec = std::vector<T, AAlloc<T>>;
template<class K, class V> using Map = std::map<K, V, std::less<K>, AAlloc<std::pair<const K, V>>>;
template<class T> T* anew() { return new (arena_alloc(sizeof(T))) T(); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template<class C> auto& pick(C& c) { return c[below(c.size())]; }
};

// ---- decisions ------------------------------------------------------------
// Every nondeterministic choice is a numbered decision; choice 0 is the benign
// default.  A run is its scenario plus the sparse list of nonzero choices.
enum DKind : uint8_t {
  D_SCHED, D_PREEMPT, D_SHORT_READ, D_SHORT_WRITE, D_SIGINT,
  D_ENOSPC, D_EIO_READ, D_EIO_WRITE, D_EIO_FSYNC, D_EIO_CLOSE,
  D_EMFILE, D_EACCES_OPEN, D_PIPE_FAIL, D_FORK_FAIL, D_THREAD_FAIL, D_MALLOC_FAIL,
  D_EXEC_FAIL, D_RENAME_FAIL, D_UNLINK_FAIL, D_MKDIR_FAIL, D_CRASH, D_CLOCK_JUMP, D_SLOW,
  D_DUP_FAIL, D_PIPE_CAP, D_MUTATE, D_STAT_FAIL, D_READDIR_FAIL, D_MISC, D_NKINDS
};
extern const char* const dkind_name[D_NKINDS];

struct Dec { uint32_t idx; uint32_t n; uint32_t choice; uint32_t kind; };

// ---- scenario-visible configuration ----------------------------------------
struct SimConfig {
  uint64_t seed = 1;                  // decision PRNG
  bool replay = false;                // take decisions from overrides, default 0
  int policy = 0;                     // 0 random, 1 PCT-like priorities, 2 starve one task
  double p_switch = 0.1;
  uint32_t preempt_mean = 0;          // mean shared accesses between preemption points, 0 = off
  double p[D_NKINDS] = {0};           // probability of a nonzero choice per kind
  uint32_t max_faults[D_NKINDS];      // how many of that kind at most (in one run)
  uint32_t pipe_cap = 65536;
  uint64_t max_steps = 400000;
  uint64_t max_accesses = 400000000ull;
  uint64_t disk_capacity = ~0ull;     // total bytes of file data
  bool crash_power = false;           // a D_CRASH is a power loss, not a kill
  bool heap_check = true;
  SimConfig() { for (auto& m : max_faults) m = 1; max_faults[D_SCHED]=max_faults[D_PREEMPT]=max_faults[D_SHORT_READ]=max_faults[D_SHORT_WRITE]=max_faults[D_PIPE_CAP]=max_faults[D_SLOW]=~0u; }
};

// ---- virtual kernel objects -------------------------------------------------
struct Node {                          // inode
  int ino; bool dir; uint32_t mode; uint64_t mtime; int dev; int nlink;
  Vec<char> data;
  Map<Str, Node*> kids;
  Node* parent;
  bool prog;                           // a simulated executable
  Str progname;
  int tag;                             // scenario-defined device type: 0 normal, 1 /dev/null, 2 /dev/tty
  // durability model
  Vec<char> synced; bool ever_synced; 
};
enum OType : uint8_t { O_FILE, O_PIPER, O_PIPEW, O_TTY, O_SINK, O_NULL, O_DIR };
struct Pipe { int id; Str buf; size_t cap; int readers, writers; uint64_t total_in, total_out; };
struct Sink { int id; Str data; bool tty; struct Seg { uint64_t step; int task; uint32_t len; }; Vec<Seg> segs; };
struct TtyEv { uint64_t delay; Str bytes; int sig; };    // delay: 0 = when the system is idle
struct Source { Str data; size_t pos; bool tty; Vec<TtyEv> evs; size_t evpos; uint64_t last; bool eof;
  uint32_t reads_at_eof; uint64_t consumed; bool raw; size_t push; uint32_t lflag; };
struct Ofd { OType type; int refs; int flags; uint64_t off; Node* node; Pipe* pipe; Sink* sink; Source* src; Str path; };
struct Fd { Ofd* o; bool cloexec; };
struct SigAct { void (*h)(int); int flags; };
#define MAXFD 256
struct Proc {
  int pid, ppid; bool alive, zombie, reaped; int status; int realpid; bool external;
  Fd fds[MAXFD]; Node* cwd; Str cwdpath; SigAct sig[32]; uint32_t pending; int main_task; int max_fd_seen; uint32_t umask_;
  bool is_shell; Str exe;
  int heapviol;
};
enum TState : uint8_t { T_NEW, T_RUN, T_BLOCKED, T_DONE };
struct Task;
struct ThHandle { Task* t; bool freed; };
struct Task {
  int id; Proc* proc; TState st; uint32_t go; const void* wait_on; const char* wait_why; uint64_t wake_at; bool timed;
  bool intr; bool joined, detached; void* retval; bool cancel; 
  int prio; void* pthread; void* stackpc[256]; uint32_t depth; uint64_t steps; bool interruptible;
  void* (*fn)(void*); void* arg; int spin; ThHandle* handle; uint32_t smask;
};
struct MutexOv { uint32_t magic; int owner; int count; int type; };
struct Ev { uint64_t step, time; int task, pid; Str op; Str a, b; int64_t r; };
struct CrashInfo { int sig; uint64_t addr, pc; int task; uint32_t depth, total; void* stack[64]; };

enum Outcome : int { RES_RUNNING, RES_OK, RES_DEADLOCK, RES_STEPS, RES_SPIN, RES_CRASHED, RES_ASSERT, RES_KILLED, RES_POWER, RES_HEAP };
extern const char* const outcome_name[];

struct Kern {
  SimConfig cfg;
  Rng rng;
  Vec<Dec> overrides; size_t ovpos;        // replay
  Vec<Dec> preovr; size_t prepos; uint64_t gacc; uint32_t pre_choice;   // preemptions, numbered by shared access
  Vec<Dec> made;                            // nonzero choices made in this run
  uint32_t ndec;
  uint32_t dec_count[D_NKINDS], fault_count[D_NKINDS];
  uint64_t step, vtime; int64_t clock_off; uint64_t hash, sched_hash;
  uint64_t accesses, switches, preempts;
  int64_t preempt_left;
  Vec<Task*> tasks; Vec<ThHandle*> thfree; Vec<Proc*> procs; int cur;
  Node* root; int next_ino; int next_pid; int next_pipe;
  uint64_t disk_used;
  Sink* out; Sink* err; Source* in; Sink* ttyout;
  Proc* mainp;
  Vec<Ev> log; bool log_all;
  int outcome; CrashInfo crash; Str why;
  Str heap_report;
  int starve; 
  int main_exit; bool main_exited; uint64_t main_exit_step;
  uint32_t max_tasks_alive; uint32_t threads_created, forks, execs;
  uint64_t bytes_piped, bytes_read, bytes_written;
  bool stop_faults; 
  uint64_t last_fault_step;
  bool tracing;
  uint32_t fn_reached_n; 
  Vec<Str> mutations; size_t mutpos; bool script_open;       // concurrent-writer script (see D_MUTATE)
  int sigint_budget;
  void* user;
  // durability journal (metadata operations with snapshots), see vfs_power_loss
  struct JOp { int op; Str a, b; Node* n; bool synced; };
  Vec<JOp> journal; size_t journal_synced;
  Str final_note;
  struct Watch { Str data; Vec<Str> paths; };
  Vec<Watch> watch;                    // each content exists in full, flushed, under one of its paths at every instant
  bool skip;                           // set up found the case too large to run
  bool fd_faults, fd_armed; int fd_limit;         // refuse pipes and dups in spite of fault_root; descriptors of one process
  Node* fault_root;                    // I/O faults hit only what is below (null: anything)
};
extern Kern* K;

uint32_t decide(DKind k, uint32_t n, double p = -1);
void klog(const char* op, const char* a = "", const char* b = "", int64_t r = 0);
void khash(const void* p, size_t n);

// vfs helpers (usable by driver before/after a run)
Node* vfs_mkdirs(const char* path);
Node* vfs_put(const char* path, const std::string& data, uint32_t mode = 0644);
Node* vfs_prog(const char* path, const char* prog);
Node* vfs_get(const char* path);
Str node_path(Node* n);
bool vfs_read(const char* path, std::string& out);
void vfs_list(std::vector<std::string>& out, const char* prefix = "/");
void vfs_rm(const char* path);

// ---- running ----------------------------------------------------------------
struct RunSpec {
  std::vector<std::string> argv, env;
  std::string cwd = "/w";
  std::string exe = "/opt/pbat/pbat";
  std::string stdin_data; bool stdin_tty = false; std::vector<std::pair<uint64_t,std::string>> tty; 
  bool stdout_tty = false; bool merge_err = false; bool stdin_null = false;
  int (*entry)(int, char**) = nullptr;
};
void kern_init();                        // maps the arena (once per worker)
void kern_reset(const SimConfig& cfg);   // fresh kernel state
int  kern_run(const RunSpec& rs, int real_timeout_ms);   // forks, runs, returns K->outcome (or -1 real timeout)
Str S(const std::string& s);
std::string N(const Str& s);
