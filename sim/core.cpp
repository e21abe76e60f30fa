#include "core.h"
#include <stdarg.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <stdio_ext.h>
#include <algorithm>

Sim *g_sim = NULL;
static Proc *g_cur = NULL;                /* copy of g_sim->cur for the hot path */

/* ---------------------------------------------------------------- utilities */
u64 mix64( u64 x)
{
   x += 0x9e3779b97f4a7c15ULL;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
   return x ^ (x >> 31);
}
void Rng::seed( u64 x) { s[0] = mix64( x); s[1] = mix64( s[0] ^ 0x1234567); if( !s[0] && !s[1]) s[0] = 1; }
u64 Rng::next( )
{
   u64 a = s[0], b = s[1], r = a + b;
   s[0] = b;
   a ^= a << 23;
   s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
   return r;
}
u64 hash_bytes( const void *p, size_t n, u64 h)
{
   const unsigned char *c = (const unsigned char *)p;
   for( size_t i = 0; i < n; i++)
      h = (h ^ c[i]) * 1099511628211ULL;
   return h;
}
u64 hash_str( const std::string &s) { return hash_bytes( s.data( ), s.size( )); }

std::string strf( const char *fmt, ...)
{
   char buf[4096];
   va_list ap;
   va_start( ap, fmt);
   vsnprintf( buf, sizeof( buf), fmt, ap);
   va_end( ap);
   return buf;
}
std::vector<std::string> split_lines( const std::string &s)
{
   std::vector<std::string> r;
   size_t i = 0;
   while( i < s.size( ))
      {
      size_t j = s.find( '\n', i);
      if( j == std::string::npos) { r.push_back( s.substr( i)); break; }
      r.push_back( s.substr( i, j - i));
      i = j + 1;
      }
   return r;
}
std::string first_diff( const std::string &a, const std::string &b)
{
   std::vector<std::string> x = split_lines( a), y = split_lines( b);
   size_t i = 0;
   while( i < x.size( ) && i < y.size( ) && x[i] == y[i]) i++;
   if( i == x.size( ) && i == y.size( )) return "(line endings differ)";
   return strf( "line %d: got '%.150s' expected '%.150s'", (int)i + 1,
          i < x.size( ) ? x[i].c_str( ) : "<end>", i < y.size( ) ? y[i].c_str( ) : "<end>");
}

u32 Tape::choose( u32 n)
{
   if( n <= 1) n = 1;
   if( replay)
      return raw( 0, n);
   return raw( (u32)rng.below( n), n);
}
u32 Tape::raw( u32 g, u32 n)
{
   u32 r;
   if( replay)
      r = (pos < v.size( ) ? (n ? v[pos] % n : v[pos]) : 0);
   else
      { r = g; v.push_back( r); }
   pos++;
   return r;
}
bool Tape::chance( u32 num, u32 den)
{
   if( replay) return raw( 0, 2) != 0;
   return raw( rng.below( den) < num ? 1 : 0, 2) != 0;
}

/* -------------------------------------------------------------- filesystem */
InodeP FS::create( const std::string &path)
{
   InodeP p( new Inode);
   p->id = next_ino++;
   files[path] = p;
   return p;
}
InodeP FS::find( const std::string &path)
{
   auto it = files.find( path);
   return it == files.end( ) ? InodeP( ) : it->second;
}
void FS::put( const std::string &path, const std::string &data) { create( path)->data = data; }
std::string FS::get( const std::string &path) const
{
   auto it = files.find( path);
   return it == files.end( ) ? std::string( ) : it->second->data;
}
bool FS::exists( const std::string &path) const { return files.count( path) != 0; }
u64 FS::hash( ) const
{
   u64 h = 77;
   for( auto &f : files)
      {
      const Inode &i = *f.second;
      u64 d = i.frozen ? i.frozen_hash : 0;
      if( !d) d = hash_str( i.data);
      if( i.frozen) i.frozen_hash = d;
      h = mix64( h ^ hash_str( f.first) ^ mix64( d));
      }
   return h;
}

/* ----------------------------------------------------------------- modules */
static std::string so_dir = ".";
static std::map<std::pair<std::string, int>, Module *> mod_pool;
void set_so_dir( const std::string &d) { so_dir = d; }

struct phdr_arg { Module *m; ElfW(Addr) base; };
static int phdr_cb( struct dl_phdr_info *info, size_t, void *data)
{
   phdr_arg *a = (phdr_arg *)data;
   if( info->dlpi_addr != a->base || !info->dlpi_name || !strstr( info->dlpi_name, a->m->name.c_str( )))
      return 0;
   for( int i = 0; i < info->dlpi_phnum; i++)
      if( info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W))
         {
         Module::Seg s;
         s.addr = (char *)( info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
         s.len = info->dlpi_phdr[i].p_memsz;
         s.saved.assign( s.addr, s.addr + s.len);
         a->m->segs.push_back( s);
         }
   return 1;
}

Module *get_module( const std::string &so_name, int idx)
{
   auto key = std::make_pair( so_name, idx);
   auto it = mod_pool.find( key);
   if( it != mod_pool.end( )) return it->second;
   std::string src = so_dir + "/" + so_name + ".so";
   char dst[500];
   snprintf( dst, sizeof( dst), "%s/.copy_%d_%s_%d.so", so_dir.c_str( ), (int)getpid( ), so_name.c_str( ), idx);
   FILE *i = fopen( src.c_str( ), "rb"), *o = i ? fopen( dst, "wb") : NULL;
   if( !i || !o) { fprintf( stderr, "HARNESS ERROR: cannot copy %s\n", src.c_str( )); _exit( 3); }
   char buf[65536];
   size_t n;
   while( (n = fread( buf, 1, sizeof( buf), i)) > 0)
      if( fwrite( buf, 1, n, o) != n) { fprintf( stderr, "HARNESS ERROR: short copy\n"); _exit( 3); }
   fclose( i);
   fclose( o);
   Module *m = new Module;
   m->handle = dlopen( dst, RTLD_NOW | RTLD_LOCAL);
   if( !m->handle) { fprintf( stderr, "HARNESS ERROR: dlopen: %s\n", dlerror( )); unlink( dst); _exit( 3); }
   m->name = std::string( strrchr( dst, '/') + 1);
   struct link_map *lm = NULL;
   dlinfo( m->handle, RTLD_DI_LINKMAP, &lm);
   phdr_arg a = { m, lm->l_addr };
   dl_iterate_phdr( phdr_cb, &a);
   if( m->segs.empty( )) { fprintf( stderr, "HARNESS ERROR: no data segment\n"); unlink( dst); _exit( 3); }
   unlink( dst);
   for( auto &g : m->segs)
      for( size_t k = (8 - ((size_t)g.addr & 7)) & 7; k + 8 <= g.len; k += 8)
         {
         FILE *v;
         memcpy( &v, &g.saved[k], 8);
         for( int q = 0; q < 3; q++)
            if( v == (q == 0 ? stdin : (q == 1 ? stdout : stderr))) m->std_slots.push_back( { (FILE **)( g.addr + k), q });
         }
   mod_pool[key] = m;
   return m;
}
void *Module::sym( const char *nm, bool required)
{
   void *r = dlsym( handle, nm);
   if( !r && required) { fprintf( stderr, "HARNESS ERROR: symbol %s not found in %s\n", nm, name.c_str( )); _exit( 3); }
   return r;
}
void Module::restore( )
{
   for( auto &s : segs)
      memcpy( s.addr, s.saved.data( ), s.len);
}

/* ---------------------------------------------------- stacks and arenas pool */
static const size_t STACK_SIZE = 1024 * 1024;
static const size_t ARENA_SIZE = (size_t)256 << 20;
static std::vector<char *> stack_pool, arena_pool;
static char *get_stack( )
{
   if( !stack_pool.empty( )) { char *r = stack_pool.back( ); stack_pool.pop_back( ); return r; }
   char *p = (char *)mmap( NULL, STACK_SIZE + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if( p == (char *)MAP_FAILED) { perror( "mmap"); _exit( 3); }
   mprotect( p, 4096, PROT_NONE);
   mprotect( p + STACK_SIZE + 4096, 4096, PROT_NONE);
   return p + 4096;
}
static char *get_arena( )
{
   if( !arena_pool.empty( )) { char *r = arena_pool.back( ); arena_pool.pop_back( ); return r; }
   char *p = (char *)mmap( NULL, ARENA_SIZE + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if( p == (char *)MAP_FAILED) { perror( "mmap"); _exit( 3); }
   mprotect( p, 4096, PROT_NONE);
   mprotect( p + ARENA_SIZE + 4096, 4096, PROT_NONE);
   return p + 4096;
}

static const u64 A_LIVE = 0xA110C8EDA110C8EDULL, A_FREE = 0xF4EEF4EEF4EEF4EEULL;
static const size_t RZ = 32, RZ_END = 32;
struct AHdr { u64 magic; size_t size; u64 pad[2]; };
static bool block_ok( const char *u)
{
   const AHdr *h = (const AHdr *)( u - RZ);
   if( h->magic != A_LIVE && h->magic != A_FREE) return false;
   if( h->pad[0] != 0xFBFBFBFBFBFBFBFBULL || h->pad[1] != 0xFBFBFBFBFBFBFBFBULL) return false;
   const unsigned char *t = (const unsigned char *)u + h->size;
   for( size_t i = 0; i < RZ_END; i++)
      if( t[i] != 0xFB) return false;
   return true;
}
static void *arena_alloc( Proc *p, size_t n, int fill)
{
   size_t need = (RZ + n + RZ_END + 15) & ~(size_t)15;
   if( n > ARENA_SIZE || p->arena_used + need > ARENA_SIZE)
      { errno = ENOMEM; return NULL; }
   char *b = p->arena + p->arena_used;
   p->arena_used += need;
   AHdr *h = (AHdr *)b;
   h->magic = A_LIVE;
   h->size = n;
   h->pad[0] = h->pad[1] = 0xFBFBFBFBFBFBFBFBULL;
   memset( b + RZ, fill, n);
   memset( b + RZ + n, 0xFB, need - RZ - n);
   p->allocs.push_back( b + RZ);
   p->live_allocs++;
   return b + RZ;
}

/* ----------------------------------------------------------------- the Sim */
Sim::Sim( ) { }
Sim::~Sim( )
{
   for( auto &p : procs)
      {
      if( p->state != P_DONE && p->stack)
         kill_proc( p.get( ), END_CUT, 0, "simulation over");
      reap( p.get( ));
      }
   for( auto d : graveyard)
      { free( d->buf); delete d; }
}
void Sim::ev( const char *fmt, ...)
{
   char buf[600];
   va_list ap;
   va_start( ap, fmt);
   int n = vsnprintf( buf, sizeof( buf), fmt, ap);
   va_end( ap);
   if( n > (int)sizeof( buf) - 1) n = sizeof( buf) - 1;
   ev_hash = hash_bytes( buf, n, ev_hash);
   n_events++;
   if( tracing)
      {
      char pre[80];
      snprintf( pre, sizeof( pre), "%12.6f %s ", now_us / 1e6, cur ? cur->name.c_str( ) : "-");
      trace.push_back( std::string( pre) + buf);
      }
}
void Sim::violate( const std::string &cls, const std::string &msg)
{
   ev( "VIOLATION %s: %s", cls.c_str( ), msg.c_str( ));
   violations.push_back( Violation{ cls, msg});
}
std::string Proc::describe( ) const
{
   switch( end)
      {
      case END_EXIT: return strf( "%s exited %d", name.c_str( ), code);
      case END_SIGNAL: return strf( "%s died with signal %d (%s)", name.c_str( ), code, end_note.c_str( ));
      case END_KILLED: return name + " was killed";
      case END_HANG: return name + " hung (" + end_note + ")";
      case END_CUT: return name + " cut off";
      }
   return name + " running";
}

static FILE *mk_file( Proc *p, FileDesc *d, const char *mode);

/* Process numbers that live at the same time are different,  but need not look it:  they may agree in their last (or first)
   digits,  or in their low bits. */
int Sim::pid_of( int no) const
{
   const int i = no - 1000;
   auto spread = [&]( int base, int stride) { int m = (4194303 - base) / stride; return base + (i % m) * stride + i / m; };
   switch( pid_kind)
      {
      case 1: return spread( 12345, 100000);
      case 2: return spread( 1000, 65536);
      case 3: return spread( 777, 32768);
      case 4: { int r = 41 + i / 5; for( int k = i % 5; k > 0; k--) r *= 10; return r; }
      case 5: return spread( 90000, 1000);
      case 6: return 4194303 - i;
      case 7: return spread( 1234, 1000000);
      case 8: return spread( 300, 256);
      }
   return no;
}

Proc *Sim::spawn( const std::string &name, Module *mod, std::function<int( )> body)
{
   procs.push_back( std::unique_ptr<Proc>( new Proc));
   Proc *p = procs.back( ).get( );
   p->id = (int)procs.size( ) - 1;
   p->pid = pid_of( next_pid++);
   p->name = name;
   p->mod = mod;
   p->body = body;
   p->cwd = "/work";
   p->state = P_NEW;
   p->start_us = now_us;
   p->stack = get_stack( );
   p->stack_size = STACK_SIZE;
   p->arena = get_arena( );
   memset( p->stack, 0xA5, STACK_SIZE);
   return p;
}

void proc_tramp( )
{
   Proc *p = g_cur;
   if( p->mod)
      for( auto &q : p->mod->std_slots) *q.first = (q.second == 0 ? stdin : (q.second == 1 ? stdout : stderr));
   int rc = p->body( );
   extern void sim_do_exit( int code) __attribute__((noreturn));
   sim_do_exit( rc);
}

static FILE *real_in, *real_out, *real_err;

extern "C" char **sim_environ;
char **sim_environ = NULL;
static void set_environ( Proc *p)
{
   static char *none[1] = { NULL };
   if( !p) { sim_environ = none; return; }
   if( p->env_strings.empty( ))
      {
      for( auto &e : p->env) p->env_strings.push_back( e.first + "=" + e.second);
      p->env_strings.push_back( "");
      for( auto &e : p->env_strings) p->env_ptrs.push_back( &e[0]);
      p->env_ptrs.back( ) = NULL;
      }
   sim_environ = p->env_ptrs.data( );
}
void Sim::resume( Proc *p)
{
   if( p->state == P_NEW)
      {
      FileDesc *d;
      FILE **slot[3] = { &p->f_in, &p->f_out, &p->f_err };
      for( int i = 0; i < 3; i++)
         {
         d = new FileDesc;
         d->owner = p;
         d->fd = i;
         d->rd = !i;
         d->wr = (i != 0);
         d->path = (i == 0 ? "<stdin>" : (i == 1 ? "<stdout>" : "<stderr>"));
         if( i == 0) d->feed = &p->in;
         if( i == 1) d->capture = &p->out;
         if( i == 2) d->capture = &p->err;
         p->fds.push_back( d);
         *slot[i] = mk_file( p, d, i ? "w" : "r");
         }
      setvbuf( p->f_err, NULL, _IONBF, 0);
      getcontext( &p->ctx);
      p->ctx.uc_stack.ss_sp = p->stack;
      p->ctx.uc_stack.ss_size = p->stack_size;
      p->ctx.uc_link = NULL;
      makecontext( &p->ctx, proc_tramp, 0);
      if( bb_gap)
         {
         u32 g = s.raw( s.replay ? 0 : (u32)( 1 + s.rng.below( 2 * bb_gap)), 0);
         p->next_preempt = g ? (long)g : -1;
         }
      }
   p->state = P_RUN;
   cur = g_cur = p;
   if( !real_out) { real_in = stdin; real_out = stdout; real_err = stderr; }
   stdin = p->f_in;
   stdout = p->f_out;
   stderr = p->f_err;
   set_environ( p);
   sched_hash = mix64( sched_hash ^ (u64)( p->id + 1));
   errno = p->saved_errno;
   swapcontext( &sched_ctx, &p->ctx);
   cur = g_cur = NULL;
   stdin = real_in;
   stdout = real_out;
   stderr = real_err;
}
void Sim::to_sched( )
{
   Proc *p = cur;
   p->saved_errno = errno;
   swapcontext( &p->ctx, &sched_ctx);
   errno = p->saved_errno;
}

static std::vector<Proc *> runnable( Sim *s)
{
   std::vector<Proc *> r;
   for( auto &p : s->procs)
      if( p->state == P_NEW || p->state == P_RUN || (p->state == P_SLEEP && p->wake_us <= s->now_us))
         r.push_back( p.get( ));
   return r;
}

static Proc *pending_switch = NULL;

CurState save_current( )
{
   CurState c = { g_sim, g_cur, pending_switch, stdin, stdout, stderr, errno };
   return c;
}
void restore_current( const CurState &c)
{
   g_sim = c.sim;
   g_cur = c.cur;
   pending_switch = c.pending;
   if( c.sim) c.sim->cur = c.cur;
   stdin = c.in;
   stdout = c.out;
   stderr = c.err;
   if( c.cur) set_environ( c.cur);
   errno = c.err_no;
}

void Sim::run( )
{
   pending_switch = NULL;
   for( ;;)
      {
      std::vector<Proc *> r = runnable( this);
      if( r.empty( ))
         {
         u64 best = ~(u64)0;
         for( auto &p : procs)
            if( p->state == P_SLEEP && p->wake_us < best) best = p->wake_us;
         if( best == ~(u64)0) break;
         now_us = best;
         continue;
         }
      Proc *p = NULL;
      if( pending_switch && pending_switch->state != P_DONE)
         p = pending_switch;
      pending_switch = NULL;
      if( !p)
         p = r[r.size( ) > 1 ? s.choose( (u32)r.size( )) : 0];
      resume( p);
      if( step_limit_hit)
         {
         for( auto &q : procs)
            if( q->state != P_DONE)
               kill_proc( q.get( ), END_CUT, 0, "step limit");
         break;
         }
      }
}
void Sim::run_only( Proc *p)
{
   while( p->state != P_DONE)
      {
      if( p->state == P_SLEEP && p->wake_us > now_us)
         now_us = p->wake_us;
      resume( p);
      if( step_limit_hit && p->state != P_DONE)
         kill_proc( p, END_CUT, 0, "step limit");
      }
}

/* Releases everything a finished process held.  Buffered data that it had not
handed to the (simulated) kernel is lost,  as in a real crash. */
void Sim::kill_proc( Proc *p, int end, int code, const char *note)
{
   p->end = end;
   p->code = code;
   p->end_note = note ? note : "";
   p->end_us = now_us;
   p->state = P_DONE;
   ev( "end %s", p->describe( ).c_str( ));
}
void Sim::reap( Proc *p)
{
   for( auto d : p->fds)
      {
      d->dead = true;
      if( d->fp && !d->in_callback)
         { fclose( d->fp); }
      if( !d->in_callback)
         { free( d->buf); delete d; }
      }
   p->fds.clear( );
   if( p->stack) { stack_pool.push_back( p->stack); p->stack = NULL; }
   if( p->arena)
      {
      for( auto a : p->allocs)
         if( !block_ok( a) && !p->mem_error)
            { p->mem_error = true; p->mem_note = "heap block overrun found at process end"; }
      if( p->arena_used > ((size_t)1 << 20))
         madvise( p->arena, p->arena_used, MADV_DONTNEED);
      arena_pool.push_back( p->arena);
      p->arena = NULL;
      }
}

sigjmp_buf g_outside_jmp;
bool g_outside_ok = false;
static void outside( )              /* something fatal,  but not in a simulated process */
{
   if( g_outside_ok) { g_outside_ok = false; siglongjmp( g_outside_jmp, 1); }
   const char msg[] = "HARNESS ERROR: fatal signal outside a simulated process\n";
   if( write( 2, msg, sizeof( msg) - 1)) { }
   _exit( 3);
}
void Sim::end_current( int end, int code, const char *note)
{
   Proc *p = cur;
   if( !p) outside( );
   for( auto a : p->allocs)
      if( !block_ok( a) && !p->mem_error)
         { p->mem_error = true; p->mem_note = "heap block overrun found at process end"; }
   kill_proc( p, end, code, note);
   setcontext( &sched_ctx);
   abort( );
}

void Sim::yield_point( const char *why, bool may_kill)
{
   Proc *p = cur;
   steps++;
   p->sysno++;
   now_us += op_cost_us;
   if( steps > step_limit) { step_limit_hit = true; to_sched( ); }
   if( may_kill && faults_on && p->faultable && fault.kill && fault.kill_budget > 0
               && f.chance( fault.kill, 1000000))
      {
      fault.kill_budget--;
      count( "fault.kill");
      ev( "KILL at %s", why);
      end_current( END_KILLED, 9, why);
      }
   if( switch_num)
      {
      std::vector<Proc *> r = runnable( this);
      if( r.size( ) > 1)
         {
         u32 v = 0;
         if( s.replay)
            v = s.raw( 0, (u32)r.size( ) + 1);
         else
            {
            if( s.rng.below( switch_den) < switch_num)
               v = (u32)s.rng.below( r.size( )) + 1;
            s.raw( v, 0);
            }
         if( v && r[v - 1] != p)
            {
            n_switches++;
            pending_switch = r[v - 1];
            to_sched( );
            }
         }
      }
}
void Sim::sleep_us( u64 us)
{
   Proc *p = cur;
   steps++;
   if( steps > step_limit) step_limit_hit = true;
   ev( "sleep %llu", (unsigned long long)us);
   count( "op.sleep");
   p->wake_us = now_us + us;
   p->state = P_SLEEP;
   to_sched( );
}
bool Sim::fault_allowed( const std::string &path)
{
   return faults_on && cur && cur->faultable && fault.budget > 0
       && (fault.path_filter.empty( ) || path.find( fault.path_filter) != std::string::npos);
}

static bool hit( u32 ppm, const char *kind, const std::string &path)
{
   Sim *s = g_sim;
   if( !ppm || !s->fault_allowed( path)) return false;
   if( !s->f.chance( ppm, 1000000)) return false;
   s->fault.budget--;
   std::string k = std::string( "fault.") + kind;
   s->count( k.c_str( ));
   s->cur->n_hard_faults++;
   s->cur->fault_notes.push_back( std::string( kind) + " " + path);
   s->ev( "FAULT %s %s", kind, path.c_str( ));
   return true;
}

/* ------------------------------------------------------------ sim "syscalls" */
static std::string resolve( const char *path)
{
   std::string s = path;
   while( s.size( ) > 2 && s[0] == '.' && s[1] == '/') s = s.substr( 2);
   if( s.empty( ) || s[0] != '/')
      s = g_sim->cur->cwd + "/" + s;
   size_t i;
   while( (i = s.find( "//")) != std::string::npos) s.erase( i, 1);
   while( (i = s.find( "/./")) != std::string::npos) s.erase( i, 2);
   return s;
}
static std::string base_name( const std::string &p)
{
   size_t i = p.rfind( '/');
   return i == std::string::npos ? p : p.substr( i + 1);
}
static std::string dir_name( const std::string &p)
{
   size_t i = p.rfind( '/');
   return i == std::string::npos ? std::string( ) : p.substr( 0, i);
}

static FileDesc *do_open( const char *path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl)
{
   Sim *s = g_sim;
   std::string full = resolve( path), b = base_name( full);
   s->yield_point( "open");
   if( s->on_op) s->on_op( s->cur, wr ? "open-w" : "open-r", full);
   InodeP ino = s->fs.find( full);
   if( (ino || creat) && hit( s->fault.open_fail, "open_fail", full))
      { errno = EMFILE; s->ev( "open %s -> EMFILE", b.c_str( )); return NULL; }
   if( ino && excl) { errno = EEXIST; return NULL; }
   if( !ino)
      {
      if( !creat) { s->ev( "open %s -> ENOENT", b.c_str( )); errno = ENOENT; return NULL; }
      if( s->fs.readonly_dirs.count( dir_name( full)))
         { s->ev( "open %s -> EACCES", b.c_str( )); errno = EACCES; return NULL; }
      ino = s->fs.create( full);
      }
   else if( wr && s->fs.readonly_dirs.count( dir_name( full)))
      { s->ev( "open %s -> EACCES", b.c_str( )); errno = EACCES; return NULL; }
   if( wr && ino->frozen)              /* shared by all runs:  this one gets its own copy */
      {
      InodeP c( new Inode( *ino));
      c->frozen = false;
      for( auto &f : s->fs.files) if( f.second == ino) f.second = c;
      ino = c;
      }
   if( trunc) ino->data.clear( );
   FileDesc *d = new FileDesc;
   d->owner = s->cur;
   d->ino = ino;
   d->path = full;
   d->rd = rd; d->wr = wr; d->app = app;
   int fd = 3;
   for( bool again = true; again; )
      {
      again = false;
      for( auto q : s->cur->fds) if( q->fd == fd) { fd++; again = true; }
      }
   d->fd = fd;
   s->cur->fds.push_back( d);
   s->ev( "open %s %s%s%s -> %d", b.c_str( ), rd ? "r" : "", wr ? "w" : "", trunc ? "t" : "", fd);
   s->count( "op.open");
   return d;
}
static ssize_t do_read( FileDesc *d, char *buf, size_t n)
{
   Sim *s = g_sim;
   s->yield_point( "read");
   if( d->feed && !d->owner->first_input_bb) d->owner->first_input_bb = d->owner->bb;
   const std::string &src = d->feed ? *d->feed : d->ino->data;
   if( d->feed || d->ino)
      if( d->pos >= s->fault.read_eio_from && hit( s->fault.read_eio, "read_eio", d->path))
         { errno = EIO; return -1; }
   size_t avail = (size_t)d->pos < src.size( ) ? src.size( ) - d->pos : 0;
   if( n > avail) n = avail;
   if( n > 1 && s->fault.read_short && s->fault_allowed( d->path) && s->f.chance( s->fault.read_short, 1000000))
      {
      n = 1 + s->f.choose( (u32)n - 1);
      s->count( "fault.read_short");
      }
   memcpy( buf, src.data( ) + d->pos, n);
   d->pos += n;
   s->ev( "read %s %zu", base_name( d->path).c_str( ), n);
   s->count( "op.read");
   return (ssize_t)n;
}
static ssize_t do_write( FileDesc *d, const char *buf, size_t n)
{
   Sim *s = g_sim;
   if( d->capture)
      {
      if( d->fd == 1)
         {
         s->yield_point( "stdout");
         if( s->fault.stdout_faults && hit( s->fault.write_fail, "write_fail", d->path))
            { errno = ENOSPC; return -1; }
         }
      d->capture->append( buf, n);
      s->ev_hash = hash_bytes( buf, n, s->ev_hash);
      return (ssize_t)n;
      }
   s->yield_point( "write");
   if( hit( s->fault.write_fail, "write_fail", d->path))
      { errno = (s->fault.budget & 1) ? EIO : ENOSPC; return -1; }
   if( s->fs.disk_full || s->fs.quota == 0)
      {
      s->count( "fault.enospc");
      s->cur->n_hard_faults++;
      s->cur->fault_notes.push_back( "enospc " + d->path);
      s->ev( "write %s ENOSPC", base_name( d->path).c_str( ));
      errno = ENOSPC;
      return -1;
      }
   if( n > s->write_chunk) n = s->write_chunk;
   if( n > 1 && s->fault.write_short && s->fault_allowed( d->path) && s->f.chance( s->fault.write_short, 1000000))
      {
      n = 1 + s->f.choose( (u32)n - 1);
      s->count( "fault.write_short");
      }
   std::string &dst = d->ino->data;
   if( d->app) d->pos = (long)dst.size( );
   if( s->fs.quota > 0)
      {
      auto growth = [&]( ) { return std::min( (long)n, d->pos + (long)n - (long)dst.size( )); };      /* (a hole takes no space) */
      long grow = growth( );
      if( grow > s->fs.quota)
         n -= (size_t)( grow - s->fs.quota);
      grow = growth( );
      if( grow > 0) s->fs.quota -= grow;
      }
   if( dst.size( ) < d->pos + n) dst.resize( d->pos + n, '\0');
   memcpy( &dst[d->pos], buf, n);
   s->ev( "write %s @%ld+%zu", base_name( d->path).c_str( ), d->pos, n);
   d->pos += (long)n;
   d->wrote = true;
   s->count( "op.write");
   return (ssize_t)n;
}
static int do_close( FileDesc *d)
{
   Sim *s = g_sim;
   int rval = 0;
   if( !d->capture && !d->feed)
      {
      s->yield_point( "close");
      if( d->wrote && hit( s->fault.close_fail, "close_fail", d->path))
         { errno = EIO; rval = -1; }
      s->ev( "close %s%s", base_name( d->path).c_str( ), rval ? " EIO" : "");
      }
   auto &v = d->owner->fds;
   v.erase( std::find( v.begin( ), v.end( ), d));
   return rval;
}

/* fopencookie glue:  real glibc stdio runs on top of the syscalls above */
static ssize_t ck_read( void *c, char *buf, size_t n)
{
   FileDesc *d = (FileDesc *)c;
   if( d->dead) return 0;
   d->in_callback++;
   ssize_t r = do_read( d, buf, n);
   d->in_callback--;
   return r;
}
static ssize_t ck_write( void *c, const char *buf, size_t n)
{
   FileDesc *d = (FileDesc *)c;
   if( d->dead) return (ssize_t)n;
   d->in_callback++;
   size_t done = 0;
   while( done < n)        /* as glibc's _IO_new_file_write() does */
      {
      ssize_t r = do_write( d, buf + done, n - done);
      if( r < 0) break;
      done += (size_t)r;
      }
   d->in_callback--;
   return (ssize_t)done;
}
static int ck_seek( void *c, off64_t *off, int whence)
{
   FileDesc *d = (FileDesc *)c;
   if( d->dead) return 0;
   if( d->capture || d->feed) { errno = ESPIPE; return -1; }
   d->in_callback++;
   long base = whence == SEEK_SET ? 0 : (whence == SEEK_CUR ? d->pos : (long)d->ino->data.size( ));
   if( whence == SEEK_END) g_sim->yield_point( "seek");
   d->in_callback--;
   if( base + *off < 0) { errno = EINVAL; return -1; }
   d->pos = base + *off;
   *off = d->pos;
   return 0;
}
static int ck_close( void *c)
{
   FileDesc *d = (FileDesc *)c;
   if( d->dead) return 0;
   d->in_callback++;
   int r = do_close( d);
   d->in_callback--;
   d->dead = true;
   d->fp = NULL;
   g_sim->counters["op.close"]++;
   g_sim->graveyard.push_back( d);           /* freed once the FILE is gone */
   return r;
}
static FILE *mk_file( Proc *p, FileDesc *d, const char *mode)
{
   cookie_io_functions_t fn = { ck_read, ck_write, ck_seek, ck_close };
   (void)p;
   FILE *fp = fopencookie( d, mode, fn);
   __fsetlocking( fp, FSETLOCKING_BYCALLER);
   d->buf = (char *)malloc( g_sim->stdio_buf);
   setvbuf( fp, d->buf, _IOFBF, g_sim->stdio_buf);
   d->fp = fp;
   return fp;
}

/* ------------------------------------------------------------ signal capture */
static void crash_handler( int sig, siginfo_t *, void *)
{
   if( !g_cur || !g_sim)
      outside( );
   Proc *p = g_cur;
   g_sim->kill_proc( p, END_SIGNAL, sig, "fault in target code");
   setcontext( &g_sim->sched_ctx);
}
void install_crash_handlers( )
{
   static char alt[65536];
   stack_t st;
   memset( &st, 0, sizeof( st));
   st.ss_sp = alt;
   st.ss_size = sizeof( alt);
   sigaltstack( &st, NULL);
   struct sigaction sa;
   memset( &sa, 0, sizeof( sa));
   sa.sa_sigaction = crash_handler;
   sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
   sigaction( SIGSEGV, &sa, NULL);
   sigaction( SIGBUS, &sa, NULL);
   sigaction( SIGFPE, &sa, NULL);
   sigaction( SIGILL, &sa, NULL);
   sigaction( SIGABRT, &sa, NULL);           /* the C library's own complaints */
}

void sim_do_exit( int code) __attribute__((noreturn));
void sim_do_exit( int code)
{
   Sim *s = g_sim;
   Proc *p = s->cur;
   std::vector<FileDesc *> v = p->fds;
   for( auto d : v)                          /* exit( ) flushes open streams */
      if( d->fp && (d->fd == 1 || d->fd == 2 || d->wr))
         fflush( d->fp);
   s->end_current( END_EXIT, code & 0xff, "");
}

/* The process has used the processor time it asked to be limited to:  SIGXCPU */
static void cpu_time_used_up( Proc *p)
{
   g_sim->count( "fault.cpu_time_used_up");
   g_sim->ev( "processor time used up, limit %ld/%ld", p->cpu_limit, p->cpu_hard);
   p->xcpu_hit = true;
   if( p->cpu_limit < 0) return;                   /* no limit:  runs on */
   if( p->cpu_hard >= 0 && p->cpu_hard <= p->cpu_limit)
      g_sim->end_current( END_KILLED, SIGKILL, "hard limit of processor time");
   if( !p->sigxcpu_handler)
      g_sim->end_current( END_SIGNAL, SIGXCPU, "processor time limit");
   siginfo_t si;
   memset( &si, 0, sizeof( si));
   si.si_signo = SIGXCPU;
   ((void (*)( int, siginfo_t *, void *))p->sigxcpu_handler)( SIGXCPU, &si, NULL);
   p->xcpu_returned = true;
}

/* Basic-block callback:  step budget (hang detection) and preemption of
simulated threads at basic-block granularity. */
extern "C" void sim_trace_pc( void)
{
   Proc *p = g_cur;
   if( !p) return;
   if( ++p->bb > p->bb_limit)
      {
      p->bb_limit = ~(u64)0;
      g_sim->count( "probe.hang");
      g_sim->end_current( END_HANG, 0, "basic-block budget exhausted");
      }
   if( p->bb == p->xcpu_bb)
      cpu_time_used_up( p);
   if( p->next_preempt > 0 && --p->next_preempt == 0)
      {
      Sim *s = g_sim;
      int e = errno;
      u32 g = s->s.raw( s->s.replay ? 0 : (u32)( 1 + s->s.rng.below( 2 * s->bb_gap)), 0);
      p->next_preempt = g ? (long)g : -1;
      std::vector<Proc *> r = runnable( s);
      if( r.size( ) > 1)
         {
         u32 v = s->s.choose( (u32)r.size( ));
         if( r[v] != p)
            {
            s->n_switches++;
            s->count( "op.preempt");
            s->sched_hash = mix64( s->sched_hash ^ p->bb);
            pending_switch = r[v];
            s->now_us++;
            p->saved_errno = e;
            swapcontext( &p->ctx, &s->sched_ctx);
            }
         }
      errno = e;
      }
}

/* Targets built with -fsanitize=thread call these on every memory access that
may be shared:  preemption points of simulated threads. */
static inline void mem_access( const void *a)
{
   Proc *p = g_cur;
   if( !p || p->next_preempt <= 0) return;
   if( (const char *)a >= p->stack && (const char *)a < p->stack + p->stack_size) return;
   sim_trace_pc( );
}
extern "C" {
#define TS( n) void __tsan_read##n( void *a) { mem_access( a); } void __tsan_write##n( void *a) { mem_access( a); } \
   void __tsan_unaligned_read##n( void *a) { mem_access( a); } void __tsan_unaligned_write##n( void *a) { mem_access( a); } \
   void __tsan_read##n##_pc( void *a, void *) { mem_access( a); } void __tsan_write##n##_pc( void *a, void *) { mem_access( a); } \
   void __tsan_volatile_read##n( void *a) { mem_access( a); } void __tsan_volatile_write##n( void *a) { mem_access( a); }
TS( 1) TS( 2) TS( 4) TS( 8) TS( 16)
void __tsan_init( void) { }
void __tsan_func_entry( void *) { }
void __tsan_func_exit( void) { }
void __tsan_vptr_update( void *, void *) { }
void __tsan_vptr_read( void *) { }
void __tsan_read_range( void *a, unsigned long) { mem_access( a); }
void __tsan_write_range( void *a, unsigned long) { mem_access( a); }
void __tsan_atomic_thread_fence( int) { }
void __tsan_atomic_signal_fence( int) { }
#define TA( n, T) \
   T __tsan_atomic##n##_load( const volatile T *a, int) { mem_access( (const void *)a); return *a; } \
   void __tsan_atomic##n##_store( volatile T *a, T v, int) { mem_access( (const void *)a); *a = v; } \
   T __tsan_atomic##n##_exchange( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = v; return o; } \
   T __tsan_atomic##n##_fetch_add( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = (T)( o + v); return o; } \
   T __tsan_atomic##n##_fetch_sub( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = (T)( o - v); return o; } \
   T __tsan_atomic##n##_fetch_and( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = (T)( o & v); return o; } \
   T __tsan_atomic##n##_fetch_or( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = (T)( o | v); return o; } \
   T __tsan_atomic##n##_fetch_xor( volatile T *a, T v, int) { mem_access( (const void *)a); T o = *a; *a = (T)( o ^ v); return o; } \
   int __tsan_atomic##n##_compare_exchange_strong( volatile T *a, T *e, T v, int, int) { mem_access( (const void *)a); if( *a == *e) { *a = v; return 1; } *e = *a; return 0; } \
   int __tsan_atomic##n##_compare_exchange_weak( volatile T *a, T *e, T v, int, int) { mem_access( (const void *)a); if( *a == *e) { *a = v; return 1; } *e = *a; return 0; } \
   T __tsan_atomic##n##_compare_exchange_val( volatile T *a, T e, T v, int, int) { mem_access( (const void *)a); T o = *a; if( o == e) *a = v; return o; }
TA( 8, uint8_t) TA( 16, uint16_t) TA( 32, uint32_t) TA( 64, uint64_t)
}

/* ------------------------------------------------- libc seam (objcopy'd names) */
extern "C" {
FILE *sim_fopen( const char *path, const char *mode)
{
   if( !g_cur) return NULL;
   bool plus = strchr( mode, '+') != NULL, r = *mode == 'r', w = *mode == 'w', a = *mode == 'a';
   FileDesc *d = do_open( path, r || plus, w || a || plus, a, w || a, w, strchr( mode, 'x') != NULL);
   if( !d) return NULL;
   char m[4] = { *mode, plus ? '+' : '\0', '\0' };
   if( *m == 'a') *m = 'w';
   return mk_file( g_cur, d, *mode == 'a' ? (plus ? "a+" : "a") : m);
}
FILE *sim_fopen64( const char *path, const char *mode) { return sim_fopen( path, mode); }
FILE *sim_tmpfile( void)
{
   FileDesc *d = do_open( strf( "/tmp/.tmpfile%d", g_sim->fs.next_ino).c_str( ), true, true, false, true, true, false);
   if( !d) return NULL;
   g_sim->fs.files.erase( d->path);
   return mk_file( g_cur, d, "w+");
}
int sim_unlink( const char *path)
{
   Sim *s = g_sim;
   std::string full = resolve( path);
   s->yield_point( "unlink");
   if( s->on_op) s->on_op( s->cur, "unlink", full);
   if( !s->fs.exists( full)) { errno = ENOENT; s->ev( "unlink %s ENOENT", base_name( full).c_str( )); return -1; }
   if( s->fs.readonly_dirs.count( dir_name( full)) || hit( s->fault.unlink_fail, "unlink_fail", full))
      { errno = EACCES; return -1; }
   s->fs.files.erase( full);
   s->ev( "unlink %s", base_name( full).c_str( ));
   s->count( "op.unlink");
   return 0;
}
int sim_remove( const char *path) { return sim_unlink( path); }
int sim_rename( const char *a, const char *b)
{
   Sim *s = g_sim;
   std::string fa = resolve( a), fb = resolve( b);
   s->yield_point( "rename");
   if( s->on_op) s->on_op( s->cur, "rename", fb);
   InodeP i = s->fs.find( fa);
   if( !i) { errno = ENOENT; s->ev( "rename %s ENOENT", base_name( fa).c_str( )); return -1; }
   if( s->fs.readonly_dirs.count( dir_name( fb)) || hit( s->fault.rename_fail, "rename_fail", fa))
      { errno = EACCES; return -1; }
   s->fs.files.erase( fa);
   s->fs.files[fb] = i;
   s->ev( "rename %s %s", base_name( fa).c_str( ), base_name( fb).c_str( ));
   s->count( "op.rename");
   return 0;
}
int sim_access( const char *path, int)
{
   g_sim->yield_point( "access");
   if( g_sim->fs.exists( resolve( path))) return 0;
   errno = ENOENT;
   return -1;
}
int sim_stat( const char *path, struct stat *st)
{
   g_sim->yield_point( "stat");
   InodeP i = g_sim->fs.find( resolve( path));
   if( !i) { errno = ENOENT; return -1; }
   memset( st, 0, sizeof( *st));
   st->st_size = (off_t)i->data.size( );
   st->st_mode = S_IFREG | 0644;
   st->st_ino = i->id;
   st->st_blksize = 4096;
   return 0;
}
static FileDesc *fd_find( int fd)
{
   for( auto d : g_cur->fds) if( d->fd == fd) return d;
   errno = EBADF;
   return NULL;
}
int sim_open( const char *path, int flags, ...)
{
   int acc = flags & O_ACCMODE;
   FileDesc *d = do_open( path, acc != O_WRONLY, acc != O_RDONLY, flags & O_APPEND, flags & O_CREAT, flags & O_TRUNC, (flags & O_EXCL) && (flags & O_CREAT));
   return d ? d->fd : -1;
}
ssize_t sim_read( int fd, void *b, size_t n) { FileDesc *d = fd_find( fd); return d ? do_read( d, (char *)b, n) : -1; }
ssize_t sim_write( int fd, const void *b, size_t n) { FileDesc *d = fd_find( fd); return d ? do_write( d, (const char *)b, n) : -1; }
off_t sim_lseek( int fd, off_t o, int wh)
{
   FileDesc *d = fd_find( fd);
   off64_t off = o;
   if( !d || ck_seek( d, &off, wh)) return -1;
   return (off_t)off;
}
int sim_close( int fd) { FileDesc *d = fd_find( fd); if( !d) return -1; int r = do_close( d); delete d; return r; }
int sim_fileno( FILE *fp) { for( auto d : g_cur->fds) if( d->fp == fp) return d->fd; errno = EBADF; return -1; }
FILE *sim_fdopen( int fd, const char *mode)
{
   FileDesc *d = fd_find( fd);
   if( !d) return NULL;
   if( d->fp) return d->fp;
   char m[4] = { *mode, strchr( mode, '+') ? '+' : '\0', '\0' };
   return mk_file( g_cur, d, m);
}
int sim_fsync( int fd) { FileDesc *d = fd_find( fd); if( !d) return -1; g_sim->yield_point( "fsync"); g_sim->ev( "fsync"); return 0; }
int sim_ftruncate( int fd, off_t n) { FileDesc *d = fd_find( fd); if( !d) return -1; g_sim->yield_point( "ftruncate"); d->ino->data.resize( n); g_sim->ev( "ftruncate %ld", (long)n); return 0; }
int sim_fstat( int fd, struct stat *st)
{
   FileDesc *d = fd_find( fd);
   if( !d || !d->ino) { errno = EBADF; return -1; }
   memset( st, 0, sizeof( *st));
   st->st_size = (off_t)d->ino->data.size( );
   st->st_mode = S_IFREG | 0644;
   return 0;
}
int sim_mkstemp( char *t)
{
   size_t n = strlen( t);
   if( n < 6) { errno = EINVAL; return -1; }
   memcpy( t + n - 6, strf( "%06d", g_sim->fs.next_ino % 1000000).c_str( ), 6);
   FileDesc *d = do_open( t, true, true, false, true, false, true);
   return d ? d->fd : -1;
}
int sim_flock( int, int) { g_sim->yield_point( "flock"); return 0; }

int sim_usleep( unsigned us) { g_sim->sleep_us( us); return 0; }
unsigned sim_sleep( unsigned s) { g_sim->sleep_us( (u64)s * 1000000ULL); return 0; }
int sim_nanosleep( const struct timespec *t, struct timespec *) { g_sim->sleep_us( (u64)t->tv_sec * 1000000ULL + t->tv_nsec / 1000); return 0; }
static bool clock_fails( )
{
   return hit( g_sim->clock_fail, "clock_fail", "clock");
}
time_t sim_time( time_t *t)
{
   time_t r = 0;
   if( g_cur)
      {
      g_sim->yield_point( "time");
      if( clock_fails( )) return (time_t)-1;
      int64_t u = g_sim->wall_us( );
      r = (time_t)( u >= 0 ? u / 1000000 : -((-u + 999999) / 1000000));
      g_sim->last_wall_us = u;
      g_sim->ev( "time %lld", (long long)r);
      g_sim->count( "op.clock");
      }
   if( t) *t = r;
   return r;
}
int sim_gettimeofday( struct timeval *tv, void *)
{
   if( g_cur)
      {
      g_sim->yield_point( "gettimeofday");
      if( clock_fails( )) { errno = EFAULT; return -1; }
      int64_t u = g_sim->wall_us( );
      tv->tv_sec = (time_t)( u >= 0 ? u / 1000000 : -((-u + 999999) / 1000000));
      tv->tv_usec = (suseconds_t)( u - (int64_t)tv->tv_sec * 1000000);
      g_sim->last_wall_us = u;
      g_sim->ev( "gettimeofday %lld", (long long)u);
      g_sim->count( "op.clock");
      return 0;
      }
   tv->tv_sec = tv->tv_usec = 0;
   return 0;
}
int sim_clock_gettime( clockid_t id, struct timespec *ts)
{
   if( id == CLOCK_REALTIME)
      {
      struct timeval tv;
      if( sim_gettimeofday( &tv, NULL)) return -1;
      ts->tv_sec = tv.tv_sec;
      ts->tv_nsec = tv.tv_usec * 1000;
      return 0;
      }
   ts->tv_sec = g_sim->now_us / 1000000;
   ts->tv_nsec = (g_sim->now_us % 1000000) * 1000;
   return 0;
}
clock_t sim_clock( void) { return (clock_t)( g_cur ? g_cur->sysno : 0); }
pid_t sim_getpid( void) { return g_cur ? g_cur->pid : 1; }
pid_t sim_getppid( void) { return 1; }

static bool alloc_fault( size_t n)
{
   if( hit( g_sim->fault.alloc_fail, "alloc_fail", strf( "%zu bytes", n)))
      { errno = ENOMEM; return true; }
   return false;
}
void *sim_malloc( size_t n)
{
   if( !g_cur) return malloc( n);
   if( alloc_fault( n)) return NULL;
   return arena_alloc( g_cur, n, 0xA5);
}
void *sim_calloc( size_t a, size_t b)
{
   if( !g_cur) return calloc( a, b);
   if( b && a > ARENA_SIZE / b) { errno = ENOMEM; return NULL; }
   if( alloc_fault( a * b)) return NULL;
   return arena_alloc( g_cur, a * b, 0);
}
static Proc *owner_of( void *ptr)
{
   for( auto &p : g_sim->procs)
      if( p->arena && (char *)ptr >= p->arena && (char *)ptr < p->arena + ARENA_SIZE)
         return p.get( );
   return NULL;
}
void sim_free( void *ptr)
{
   if( !ptr) return;
   if( !g_cur) { free( ptr); return; }
   Proc *o = owner_of( ptr);
   AHdr *h = (AHdr *)( (char *)ptr - RZ);
   if( !o || h->magic != A_LIVE)
      {
      g_cur->mem_error = true;
      g_cur->mem_note = (o && h->magic == A_FREE) ? "double free" : "free of an invalid pointer";
      g_sim->end_current( END_SIGNAL, SIGABRT, g_cur->mem_note.c_str( ));
      }
   if( !block_ok( (char *)ptr) && !g_cur->mem_error)
      { g_cur->mem_error = true; g_cur->mem_note = "heap block overrun"; }
   h->magic = A_FREE;
   memset( ptr, 0xDD, h->size);
   o->live_allocs--;
}
void *sim_realloc( void *ptr, size_t n)
{
   if( !g_cur) return realloc( ptr, n);
   if( !ptr) return sim_malloc( n);
   AHdr *h = (AHdr *)( (char *)ptr - RZ);
   if( !owner_of( ptr) || h->magic != A_LIVE)
      {
      g_cur->mem_error = true;
      g_cur->mem_note = "realloc of an invalid pointer";
      g_sim->end_current( END_SIGNAL, SIGABRT, g_cur->mem_note.c_str( ));
      }
   void *q = sim_malloc( n);
   if( !q) return NULL;
   memcpy( q, ptr, h->size < n ? h->size : n);
   sim_free( ptr);
   return q;
}
char *sim_strdup( const char *s) { char *r = (char *)sim_malloc( strlen( s) + 1); if( r) strcpy( r, s); return r; }
char *sim_strndup( const char *s, size_t n) { size_t l = strnlen( s, n); char *r = (char *)sim_malloc( l + 1); if( r) { memcpy( r, s, l); r[l] = 0; } return r; }
int sim_system( const char *cmd)
{
   g_sim->yield_point( "system");
   g_sim->ev( "system %s", cmd);
   g_sim->count( "op.system");
   return g_sim->on_system ? g_sim->on_system( g_cur, cmd) : -1;
}
void sim_exit( int c) { sim_do_exit( c); }
void sim__exit( int c) { g_sim->end_current( END_EXIT, c & 0xff, "_exit"); }
void sim_abort( void) { g_sim->end_current( END_SIGNAL, SIGABRT, "abort()"); }
void sim_assert_fail( const char *expr, const char *file, unsigned line, const char *)
{
   const char *b = strrchr( file, '/');
   if( !g_cur) outside( );
   g_sim->ev( "assert failed %s", expr);
   g_sim->end_current( END_SIGNAL, SIGABRT, strf( "assert( %s) at %s:%u", expr, b ? b + 1 : file, line).c_str( ));
}
void sim_stack_chk_fail( void)
{
   if( !g_cur) outside( );
   g_cur->mem_error = true;
   g_cur->mem_note = "stack buffer overrun";
   g_sim->end_current( END_SIGNAL, SIGABRT, "stack smashing detected");
}
char *sim_getenv( const char *n)
{
   if( !g_cur) return NULL;
   if( !g_cur->first_input_bb && strcmp( n, "HOME")) g_cur->first_input_bb = g_cur->bb;
   auto it = g_cur->env.find( n);
   return it == g_cur->env.end( ) ? NULL : (char *)it->second.c_str( );
}
int sim_setrlimit( int res, const struct rlimit *r)
{
   if( res == RLIMIT_CPU && g_cur)
      {
      g_cur->cpu_limit = (long)r->rlim_cur;
      g_cur->cpu_hard = (long)r->rlim_max;
      g_cur->limit_bb = g_cur->bb;
      }
   g_sim->ev( "setrlimit %d %ld %ld", res, (long)r->rlim_cur, (long)r->rlim_max);
   return 0;
}
int sim_sigaction( int sig, const struct sigaction *a, struct sigaction *)
{
   if( sig == SIGXCPU && a) g_cur->sigxcpu_handler = (void *)a->sa_sigaction;
   return 0;
}
void *sim_signal( int, void *) { return NULL; }
int sim_cxa_guard_acquire( u64 *g)
{
   volatile char *c = (volatile char *)g;
   while( c[1] && !c[0])
      { if( g_cur) g_sim->yield_forced( "guard"); else break; }
   if( c[0]) return 0;
   c[1] = 1;
   return 1;
}
void sim_cxa_guard_release( u64 *g) { char *c = (char *)g; c[0] = 1; c[1] = 0; }
void sim_cxa_guard_abort( u64 *g) { ((char *)g)[1] = 0; }
}

extern "C" {
int sim_stat64( const char *path, struct stat *st) { return sim_stat( path, st); }
int sim_open64( const char *path, int flags, ...) { return sim_open( path, flags); }
int sim_fdatasync( int fd) { return sim_fsync( fd); }
void sim__Exit( int c) { sim__exit( c); }
}

/* ---- further libc entry points which a change to the targets might use ---- */
extern "C" {
ssize_t sim_getdelim( char **lp, size_t *np, int delim, FILE *f)
{
   size_t n = 0;
   int c;
   if( !*lp) *np = 0;
   while( (c = fgetc( f)) != EOF)
      {
      if( n + 2 > *np)
         {
         size_t want = *np ? *np * 2 : 120;
         char *q = (char *)sim_realloc( *lp, want);
         if( !q) { errno = ENOMEM; return -1; }
         *lp = q;
         *np = want;
         }
      (*lp)[n++] = (char)c;
      if( c == delim) break;
      }
   if( !n) return -1;
   (*lp)[n] = '\0';
   return (ssize_t)n;
}
ssize_t sim_getdelim2( char **lp, size_t *np, int delim, FILE *f) { return sim_getdelim( lp, np, delim, f); }
ssize_t sim_getline( char **lp, size_t *np, FILE *f) { return sim_getdelim( lp, np, '\n', f); }
int sim_vasprintf( char **out, const char *fmt, va_list ap)
{
   va_list a2;
   va_copy( a2, ap);
   int n = vsnprintf( NULL, 0, fmt, a2);
   va_end( a2);
   *out = n >= 0 ? (char *)sim_malloc( (size_t)n + 1) : NULL;
   if( !*out) return -1;
   return vsnprintf( *out, (size_t)n + 1, fmt, ap);
}
int sim_asprintf( char **out, const char *fmt, ...)
{
   va_list ap;
   va_start( ap, fmt);
   int r = sim_vasprintf( out, fmt, ap);
   va_end( ap);
   return r;
}
static ModState &mod_state( ) { static ModState none; return g_cur ? g_sim->mod_state[g_cur->mod ? (void *)g_cur->mod : (void *)g_cur] : none; }
char *sim_strtok( char *s, const char *d) { return strtok_r( s, d, &mod_state( ).tok); }
void sim_srand( unsigned x) { mod_state( ).rnd = x; }
int sim_rand( void) { u64 &r = mod_state( ).rnd; r = mix64( r + 0x9E3779B97F4A7C15ULL); return (int)( r & 0x7fffffff); }
void sim_srandom( unsigned x) { sim_srand( x); }
long sim_random( void) { return sim_rand( ); }
void *sim_reallocarray( void *p, size_t a, size_t b) { if( b && a > ARENA_SIZE / b) { errno = ENOMEM; return NULL; } return sim_realloc( p, a * b); }
int sim_posix_memalign( void **p, size_t, size_t n) { *p = sim_malloc( n); return *p ? 0 : ENOMEM; }
void *sim_aligned_alloc( size_t, size_t n) { return sim_malloc( n); }
int sim_timespec_get( struct timespec *ts, int base) { return sim_clock_gettime( CLOCK_REALTIME, ts) ? 0 : base; }
ssize_t sim_pread( int fd, void *b, size_t n, off_t o)
{
   FileDesc *d = fd_find( fd);
   if( !d) return -1;
   long save = d->pos;
   d->pos = o;
   ssize_t r = do_read( d, (char *)b, n);
   d->pos = save;
   return r;
}
ssize_t sim_pread64( int fd, void *b, size_t n, off_t o) { return sim_pread( fd, b, n, o); }
ssize_t sim_pwrite( int fd, const void *b, size_t n, off_t o)
{
   FileDesc *d = fd_find( fd);
   if( !d) return -1;
   long save = d->pos;
   d->pos = o;
   ssize_t r = do_write( d, (const char *)b, n);
   d->pos = save;
   return r;
}
ssize_t sim_pwrite64( int fd, const void *b, size_t n, off_t o) { return sim_pwrite( fd, b, n, o); }
off_t sim_lseek64( int fd, off_t o, int wh) { return sim_lseek( fd, o, wh); }
int sim_ftruncate64( int fd, off_t n) { return sim_ftruncate( fd, n); }
int sim_fstat64( int fd, struct stat *st) { return sim_fstat( fd, st); }
int sim_mkstemp64( char *t) { return sim_mkstemp( t); }
FILE *sim_tmpfile64( void) { return sim_tmpfile( ); }
int sim_truncate( const char *path, off_t n)
{
   g_sim->yield_point( "truncate");
   InodeP i = g_sim->fs.find( resolve( path));
   if( !i) { errno = ENOENT; return -1; }
   i->data.resize( n);
   g_sim->ev( "truncate %s %ld", base_name( resolve( path)).c_str( ), (long)n);
   return 0;
}
int sim_creat( const char *path, int) { return sim_open( path, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_link( const char *a, const char *b)
{
   g_sim->yield_point( "link");
   InodeP i = g_sim->fs.find( resolve( a));
   if( !i) { errno = ENOENT; return -1; }
   if( g_sim->fs.exists( resolve( b))) { errno = EEXIST; return -1; }
   if( hit( g_sim->fault.rename_fail, "link_fail", resolve( b))) { errno = EACCES; return -1; }
   g_sim->fs.files[resolve( b)] = i;
   g_sim->ev( "link %s %s", base_name( resolve( a)).c_str( ), base_name( resolve( b)).c_str( ));
   return 0;
}
int sim_symlink( const char *, const char *) { errno = EPERM; return -1; }
FILE *sim_freopen( const char *path, const char *mode, FILE *f) { fclose( f); return sim_fopen( path, mode); }
FILE *sim_freopen64( const char *path, const char *mode, FILE *f) { return sim_freopen( path, mode, f); }
FILE *sim_popen( const char *, const char *) { errno = ENOSYS; return NULL; }
/* mutexes between simulated threads:  the first int of the object is the flag */
int sim_pthread_mutex_init( int *m, const void *) { *m = 0; return 0; }
int sim_pthread_mutex_destroy( int *) { return 0; }
int sim_pthread_mutex_trylock( int *m) { if( *m) return EBUSY; *m = 1; return 0; }
int sim_pthread_mutex_lock( int *m)
{
   while( *m) { if( !g_cur) return EDEADLK; g_sim->yield_forced( "mutex"); }
   *m = 1;
   return 0;
}
int sim_pthread_mutex_unlock( int *m) { *m = 0; return 0; }
int sim_pthread_once( int *o, void (*fn)( void))
{
   while( *o == 1) { if( !g_cur) break; g_sim->yield_forced( "once"); }
   if( *o == 2) return 0;
   *o = 1;
   fn( );
   *o = 2;
   return 0;
}
unsigned long sim_pthread_self( void) { return g_cur ? (unsigned long)g_cur->id + 1 : 0; }
}

std::function<int( )> program( Module *m, std::vector<std::string> args)
{
   return [m, args]( ) -> int {
      typedef int (*main_t)( int, const char **);
      main_t fn = (main_t)m->sym( "sim_target_main");
      const char **argv = (const char **)arena_alloc( g_cur, (args.size( ) + 3) * sizeof( char *), 0);
      for( size_t i = 0; i < args.size( ); i++)
         {
         char *s = (char *)arena_alloc( g_cur, args[i].size( ) + 1, 0);
         memcpy( s, args[i].c_str( ), args[i].size( ) + 1);
         argv[i] = s;
         }
      return fn( (int)args.size( ), argv);
   };
}
std::vector<Scenario> &scenarios( ) { static std::vector<Scenario> v; return v; }
