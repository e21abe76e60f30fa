/* Deterministic simulator: one process, one PRNG, simulated processes as
coroutines, a simulated filesystem/clock/allocator under real target code. */
#pragma once
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <ucontext.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>

typedef uint64_t u64;
typedef uint32_t u32;

struct Rng {
   u64 s[2];
   void seed( u64 x);
   u64 next( );
   u64 below( u64 n) { return n ? next( ) % n : 0; }
};
u64 mix64( u64 x);
u64 hash_bytes( const void *p, size_t n, u64 h = 1469598103934665603ULL);
u64 hash_str( const std::string &s);

/* A stream of decisions.  In 'generate' mode decisions come from the PRNG and
are recorded;  in 'replay' mode they come from the recorded tape (0 once the
tape is exhausted).  0 is always the quietest choice (no fault,  keep running
the same process,  smallest workload). */
struct Tape {
   Rng rng;
   bool replay = false;
   std::vector<u32> v;
   size_t pos = 0;
   u32 choose( u32 n);                    /* uniform in 0..n-1      */
   u32 raw( u32 generated, u32 n);        /* record a caller-made draw */
   bool chance( u32 num, u32 den);        /* true with prob num/den */
};

struct Tapes {
   std::vector<u32> w, s, f;
};

struct Inode {
   std::string data;
   int id;
   bool frozen = false;                   /* shared by all runs,  only read */
   mutable u64 frozen_hash = 0;
};
typedef std::shared_ptr<Inode> InodeP;

struct FS {
   std::map<std::string, InodeP> files;
   std::set<std::string> readonly_dirs;   /* creation/removal -> EACCES */
   std::map<std::string, std::string> symlinks;
   int next_ino = 1;
   bool disk_full = false;                /* sticky ENOSPC episode */
   long quota = -1;                       /* bytes of space left, -1 = unlimited */
   InodeP create( const std::string &path);
   InodeP find( const std::string &path);
   void put( const std::string &path, const std::string &data);
   std::string get( const std::string &path) const;
   bool exists( const std::string &path) const;
   u64 hash( ) const;
};

/* A loaded copy of a target shared object,  with its own globals. */
struct Module {
   std::string name;
   void *handle = NULL;
   struct Seg { char *addr; size_t len; std::vector<char> saved; };
   std::vector<Seg> segs;
   std::vector<std::string> syms;
   std::vector<std::pair<FILE **, int>> std_slots;     /* variables initialised with stdin,  stdout or stderr */
   void *sym( const char *name, bool required = true);
   void restore( );
};

struct Proc;

struct FileDesc {
   Proc *owner;
   int fd;
   InodeP ino;
   std::string path;
   long pos = 0;
   bool rd = false, wr = false, app = false, dead = false, wrote = false;
   FILE *fp = NULL;
   int in_callback = 0;
   char *buf = NULL;
   std::string *capture = NULL;           /* stdout/stderr */
   const std::string *feed = NULL;        /* stdin */
};

enum PState { P_NEW, P_RUN, P_SLEEP, P_DONE };
enum { END_NONE, END_EXIT, END_SIGNAL, END_KILLED, END_HANG, END_CUT };

struct FaultCfg {
   /* Rates are per million matching operations;  each fired fault is counted. */
   u32 open_fail = 0, read_eio = 0, read_short = 0, write_fail = 0,
       write_short = 0, close_fail = 0, rename_fail = 0, unlink_fail = 0,
       alloc_fail = 0, kill = 0, disk_full = 0, seek_fail = 0;
   long read_eio_from = 0;                /* offset in a file before which reads do not fail */
   int budget = 1 << 30;                  /* max hard faults per run */
   int kill_budget = 0;
   bool stdout_faults = false;            /* write failures on stdout too */
   std::string path_filter;               /* substring;  empty = all */
   bool any( ) const { return open_fail | read_eio | read_short | write_fail
          | write_short | close_fail | rename_fail | unlink_fail | alloc_fail
          | kill | disk_full | seek_fail; }
};

struct Proc {
   int id = 0, pid = 0;
   std::string name;
   Module *mod = NULL;
   std::function<int( )> body;
   ucontext_t ctx;
   char *stack = NULL;
   size_t stack_size = 0;
   PState state = P_NEW;
   u64 wake_us = 0;
   int end = END_NONE, code = 0;          /* exit code or signal number */
   std::string end_note;
   std::map<std::string, std::string> env;
   std::vector<std::string> env_strings;
   std::vector<char *> env_ptrs;
   std::string cwd;
   std::string in, out, err;
   FILE *f_in = NULL, *f_out = NULL, *f_err = NULL;
   std::vector<FileDesc *> fds;
   int saved_errno = 0;
   bool faultable = true;
   int n_hard_faults = 0;                 /* faults (non-transparent) it met */
   std::vector<std::string> fault_notes;
   u64 bb = 0, bb_limit = 400000000ULL;
   u64 start_us = 0, end_us = 0;
   long next_preempt = -1;                /* basic blocks until preemption */
   char *arena = NULL;
   size_t arena_used = 0;
   std::vector<char *> allocs;
   long live_allocs = 0;
   bool mem_error = false;
   std::string mem_note;
   void *sigxcpu_handler = NULL;
   long cpu_limit = -1, cpu_hard = -1;    /* what setrlimit( RLIMIT_CPU) asked for */
   u64 limit_bb = 0;                      /* when it did so (basic blocks) */
   u64 xcpu_bb = 0;                       /* the processor time is used up at this basic block (0 = never) */
   bool xcpu_hit = false, xcpu_returned = false;
   u64 first_input_bb = 0;                /* first look at the request */
   u64 sysno = 0;
   bool clean( ) const { return end == END_EXIT && code == 0; }
   bool finished( ) const { return state == P_DONE; }
   std::string describe( ) const;
};

struct Violation {
   std::string cls, msg;
};

struct ModState { char *tok = NULL; u64 rnd = 1; };   /* strtok( ) and rand( ) state of one process */

struct Sim {
   std::map<void *, ModState> mod_state;
   u64 seed = 0;
   Tape w, s, f;
   FS fs;
   FaultCfg fault;
   bool faults_on = true;
   u64 now_us = 0;                        /* monotonic simulated time */
   int64_t wall0_us = 1700000000LL * 1000000LL;   /* wall clock offset */
   std::vector<std::unique_ptr<Proc>> procs;
   Proc *cur = NULL;
   ucontext_t sched_ctx;
   sigjmp_buf sched_jmp;
   std::map<std::string, u64> counters;   /* faults,  probes,  ops */
   u64 ev_hash = 1469598103934665603ULL;
   u64 sched_hash = 1469598103934665603ULL;
   u64 n_events = 0, n_switches = 0;
   bool tracing = false;
   std::vector<std::string> trace;
   u32 switch_num = 0, switch_den = 100;  /* preemption rate at I/O points */
   u32 bb_gap = 0;                        /* mean basic blocks between preemptions (0 = off) */
   u32 stdio_buf = 4096, write_chunk = 1 << 30;
   u32 op_cost_us = 20;
   u64 step_limit = 2000000, steps = 0;
   bool step_limit_hit = false;
   std::function<int( Proc *, const char *)> on_system;
   std::function<void( Proc *, const char *op, const std::string &path)> on_op;
   std::vector<Violation> violations;
   std::vector<FileDesc *> graveyard;
   std::string sample;                    /* human-readable description of the case */
   bool nontrivial = false;
   int next_pid = 1000;
   u32 pid_kind = 0;                      /* how process numbers relate to one another:  see pid_of */
   int pid_of( int no) const;
   bool check_mem = true;
   u32 clock_fail = 0;                    /* ppm: time()/gettimeofday failing */
   int64_t last_wall_us = 0;

   Sim( ); ~Sim( );
   Proc *spawn( const std::string &name, Module *mod, std::function<int( )> body);
   void run( );                           /* until all processes are done  */
   void run_only( Proc *p);               /* run p alone to completion     */
   bool fault_allowed( const std::string &path);
   void ev( const char *fmt, ...) __attribute__((format( printf, 2, 3)));
   void count( const char *key, u64 n = 1) { counters[key] += n; }
   void violate( const std::string &cls, const std::string &msg);
   int64_t wall_us( ) const { return wall0_us + (int64_t)now_us; }
   void kill_proc( Proc *p, int end, int code, const char *note);
   void reap( Proc *p);
   /* called from inside a simulated process */
   void yield_point( const char *why, bool may_kill = true);
   void sleep_us( u64 us);
   void yield_forced( const char *) { sleep_us( 1); }   /* let the others run */
   void end_current( int end, int code, const char *note) __attribute__((noreturn));
   std::string read_all( const std::string &path) { return fs.get( path); }
private:
   void resume( Proc *p);
   void to_sched( );
   int pick( );
   friend void proc_tramp( );
};

extern Sim *g_sim;

/* A nested simulation (reference run) may be started from inside a simulated
process;  this saves what 'current process' means and restores it. */
struct CurState { Sim *sim; Proc *cur, *pending; FILE *in, *out, *err; int err_no; };
extern sigjmp_buf g_outside_jmp;
extern bool g_outside_ok;
CurState save_current( );
void restore_current( const CurState &);

/* module pool */
Module *get_module( const std::string &so_name, int copy_idx);
void set_so_dir( const std::string &dir);

/* main( ) of a target program run as a simulated process */
std::function<int( )> program( Module *m, std::vector<std::string> args);

/* scenario registry */
struct Scenario {
   const char *property;
   const char *name;
   int weight;                            /* share of the runs */
   std::function<void( Sim & )> fn;
};
std::vector<Scenario> &scenarios( );
struct RegScenario {
   RegScenario( const char *prop, const char *name, int weight, std::function<void( Sim & )> fn)
      { scenarios( ).push_back( Scenario{ prop, name, weight, fn}); }
};
#define SCENARIO( prop, ident, weight) \
   static void scen_##prop##_##ident( Sim &sim); \
   static RegScenario reg_##prop##_##ident( #prop, #ident, weight, scen_##prop##_##ident); \
   static void scen_##prop##_##ident( Sim &sim)

std::string strf( const char *fmt, ...) __attribute__((format( printf, 1, 2)));
std::vector<std::string> split_lines( const std::string &s);
std::string first_diff( const std::string &a, const std::string &b);
