/* vpmc runtime: see vpmc.h.  Compiled WITHOUT instrumentation. */
#include "vpmc.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;

#define HOT __attribute__((hot))
#define INL __attribute__((always_inline)) inline

namespace {

constexpr int MAXT    = 60;                 /* fibers per execution        */
constexpr int NSUB    = 64;                 /* sub arenas                  */
constexpr int SUB_ENG = 62, SUB_OUT = 63;
constexpr u64 BASE    = 0x600000000000ull;  /* universe                    */
constexpr u64 SUBSZ   = 64ull << 20;
constexpr u64 ARENA   = NSUB * SUBSZ;
constexpr u64 STKSZ   = 1ull << 20;
constexpr u64 STKBASE = BASE + ARENA;
constexpr u64 UNIV    = ARENA + MAXT * STKSZ;
constexpr u64 SHADOW  = 0x610000000000ull;  /* u32 per 16 bytes of ARENA   */
constexpr u64 SHARE   = 0x620000000000ull;  /* Loc per 8 bytes of UNIV     */
constexpr u64 GSHARE  = 0x630000000000ull;  /* Loc per 8 bytes of globals  */
constexpr u64 GSHARESZ= 128ull << 20;        /* covers 128MB of globals     */
constexpr u64 STATE   = 0x640000000000ull;
constexpr u64 CTRL    = 0x650000000000ull;
constexpr u64 SNAP    = 0x660000000000ull;
constexpr int MAXALT  = 64;
constexpr u32 LOGCAP  = 1u << 19;
constexpr u32 STKCAP  = 1u << 18;
constexpr int MAXW    = 16;
constexpr u32 SPINLIM = 600;
constexpr u64 HORIZON = 20000000ull;
constexpr u32 SEENCAP = 1u << 26;
constexpr u32 HBCAP   = 1u << 16;
constexpr u32 OUTCAP  = 1u << 20;

struct Loc { u32 rd, wr; };
struct Hdr { u64 size; u16 state; u16 tid; u32 seq; u64 raw; u64 magic; }; /* 32 bytes */
static_assert( sizeof( Hdr ) == 32, "" );
constexpr u16 LIVE = 0x1111, DEAD = 0x2222;
constexpr u64 MAGIC = 0x5650484452ull;

enum Kind : u8 { K_SCHED = 0, K_CHOICE = 1 };
struct Alt { u32 ev; u8 kind; u8 val; u8 tid; u8 pad; };
struct Item { u16 n, cost; u32 pad; Alt a[ MAXALT ]; };
struct Pt  { u64 mask; u32 ev; u8 kind; u8 tid; u16 dflt; };

enum TS : u8 { T_FREE = 0, T_RUN, T_MUTEX, T_JOIN, T_COND, T_SLEEP, T_GUARD, T_DONE, T_ONCE, T_RDLOCK, T_WRLOCK, T_SEM, T_SPIN };
constexpr int TLSMAX = 8192, TDMAX = 64;   /* thread_local data of the program, and destructors of it */
struct TDtor { void (*fn)( void* ); void *obj; };
struct Thr
{
   u64 rsp; TS st; bool yielded, detached, notified; u8 joined;
   u64 wait; u64 wake; void *ret; void *(*fn)(void*); void *arg;
   u64 eh[2]; u64 hb; void *once; void (*oncecall)(); int ntd;
};
struct Hb { u64 a, wr, rd; u32 epoch, pad; };

struct State
{
   bool active; int cur; int nthr; bool noprune; u64 ev; u64 since; u64 now; int live; int rounds; int patience;
   void (*exit_hook)( int ); bool concurrent, violated, pruned, ended;
   u64 sched_rsp;
   Thr t[ MAXT ];
   alignas( 64 ) u8 tls[ MAXT ][ TLSMAX ]; TDtor td[ MAXT ][ TDMAX ];
   u64 bump[ NSUB ]; u32 seq[ NSUB ]; u64 live_blocks, live_bytes; u64 quar;
   /* schedule being followed */
   Item item; int ai; int bound; bool log; bool log_over;
   u32 nlog; u64 newpts; u64 edges;
   u64 outcome; int maxthr;
   char msg[ 2048 ]; char notes[ 16384 ]; u32 nnotes; bool tracing;
   bool diverged; char divmsg[ 256 ];
   sigjmp_buf jb; bool jbok; bool engine;
   u64 wd_execs; int wd_ticks; u64 execs;
   int worker; u64 lastprog;
   bool cache, hbon; u32 epoch; u64 hits;
   bool reuse; int nfreed; u64 freed[ 256 ];
   u8 altstack[ 65536 ];
   Hb hb[ HBCAP ];
   Pt logv[ LOGCAP ];
};
#define S ( *(State*) STATE )

struct Viol { bool used; bool known; Item it; char msg[ 2048 ]; char notes[ 4096 ]; };
struct Worker { u64 execs, points, edges, events, pruned, div, over; u32 top; bool busy; Item cur; u64 pad[ 4 ]; };
struct Ctrl
{
   u32 lock, idle; u32 next; u32 nroots; u32 stop; u32 grew; u32 capped; u32 nviol; u32 nknown; u32 outovr; u32 seenovr;
   u64 nout, nseen; u32 maxthr; u64 maxev; u32 clean_exits;
   u64 nloc; char divmsg[ 256 ];
   Viol viol[ 16 ]; Viol knownv[ 16 ];
   u32 nsample; char sample[ 8 ][ 1024 ];
   Worker w[ MAXW ];
   Item roots[ STKCAP ];
   u64 out[ OUTCAP ];
   u64 seen[ SEENCAP ];
};
#define C ( *(Ctrl*) CTRL )
Item *wstack( int w ){ return( (Item*)( CTRL + ( 2ull << 30 ) + (u64) w * STKCAP * sizeof( Item ) ) ); }

extern "C" { extern char __data_start, _end; }
INL long rawcall_( long n, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0, u64 e = 0, u64 f = 0 )
{
   long r; register u64 r10 asm( "r10" ) = d, r8 asm( "r8" ) = e, r9 asm( "r9" ) = f;
   asm volatile( "syscall" : "=a"( r ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
   return( r );
}
template < class... A > INL long rawcall( long n, A... a ){ return( rawcall_( n, (u64) a... ) ); }
u64 GLO, GHI;  /* set before snapshot; restored identically */

bool boot_done = false;
void boot()
{
   if( boot_done ) return;
   auto m = []( u64 a, u64 n, int fl )
   {
      void *p( mmap( (void*) a, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) );
      if( p != (void*) a ){ const char e[] = "vpmc: cannot map\n"; if( write( 2, e, sizeof( e ) - 1 ) ){} _exit( 3 ); }
   };
   m( BASE, UNIV, MAP_PRIVATE );
   m( SHADOW, ARENA / 16 * 4, MAP_PRIVATE );
   m( STATE, sizeof( State ) + 4096, MAP_PRIVATE );
   S.cur = -1;
   for( int i = 0; i < NSUB; i++ ) S.bump[ i ] = 64;
   boot_done = true;
}

INL int alloc_sub()
{
   if( S.cur >= 0 && S.active ) return( S.cur );
   return( S.engine ? SUB_ENG : SUB_OUT );
}

void vfail( const char *fmt, va_list ap ) __attribute__((noreturn));
extern "C" void vpmc_switch( u64 *save, u64 to );
asm( R"(
.text
.globl vpmc_switch
.type vpmc_switch,@function
vpmc_switch:
   pushq %rbp
   pushq %rbx
   pushq %r12
   pushq %r13
   pushq %r14
   pushq %r15
   subq $8,%rsp
   stmxcsr (%rsp)
   fnstcw 4(%rsp)
   movq %rsp,(%rdi)
   movq %rsi,%rsp
   ldmxcsr (%rsp)
   fldcw 4(%rsp)
   addq $8,%rsp
   popq %r15
   popq %r14
   popq %r13
   popq %r12
   popq %rbx
   popq %rbp
   ret
.size vpmc_switch,.-vpmc_switch
)" );

/* thread_local data of the program: one block below the thread pointer, which the
 * fibers take in turns */
u8 *tls_blk = nullptr; u64 tls_len = 0, tls_init = 0; const void *tls_img = nullptr;
int tls_find( dl_phdr_info *i, size_t, void* )
{
   for( int k = 0; k < i->dlpi_phnum; k++ )
   {
      const auto &h( i->dlpi_phdr[ k ] );
      if( h.p_type != PT_TLS || h.p_memsz == 0 ) continue;
      const u64 al( h.p_align ? h.p_align : 1 );
      tls_len  = h.p_memsz; tls_init = h.p_filesz; tls_img = (void*)( i->dlpi_addr + h.p_vaddr );
      tls_blk  = (u8*) __builtin_thread_pointer() - ( ( h.p_memsz + al - 1 ) & ~( al - 1 ) );
      if( tls_len > (u64) TLSMAX ){ const char e[] = "vpmc: too much thread_local data\n"; if( write( 2, e, sizeof( e ) - 1 ) ){} _exit( 3 ); }
   }
   return( 1 );   /* the first object is the program */
}
void tls_fresh( u8 *b )
{
   if( tls_len == 0 ) return;
   std::memcpy( b, tls_img, tls_init ); std::memset( b + tls_init, 0, tls_len - tls_init );
}
struct EhGlobals { void *caught; unsigned int uncaught; };
void switch_to( int to )
{
   const int me( S.cur );
   if( to == me ) return;
   auto *eh( (u64*) abi::__cxa_get_globals() );
   S.t[ me ].eh[ 0 ] = eh[ 0 ]; S.t[ me ].eh[ 1 ] = eh[ 1 ];
   eh[ 0 ] = S.t[ to ].eh[ 0 ]; eh[ 1 ] = S.t[ to ].eh[ 1 ];
   if( tls_len != 0 ){ std::memcpy( S.tls[ me ], tls_blk, tls_len ); std::memcpy( tls_blk, S.tls[ to ], tls_len ); }
   S.t[ me ].once = std::__once_callable; S.t[ me ].oncecall = std::__once_call;
   std::__once_callable = S.t[ to ].once; std::__once_call = S.t[ to ].oncecall;
   S.cur = to; S.since = 0;
   S.t[ to ].yielded = false;
   vpmc_switch( &S.t[ me ].rsp, S.t[ to ].rsp );
}
[[noreturn]] void to_sched()
{
   u64 dummy;
   S.ended = true;
   vpmc_switch( &dummy, S.sched_rsp );
   __builtin_unreachable();
}

void vfail( const char *fmt, va_list ap )
{
   if( ! S.violated )
   {
      S.violated = true;
      vsnprintf( S.msg, sizeof( S.msg ), fmt, ap );
   }
   to_sched();
}

INL bool enabled( int i )
{
   Thr &t( S.t[ i ] );
   switch( t.st )
   {
      case T_RUN:   return( true );
      case T_MUTEX: return( ((pthread_mutex_t*) t.wait)->__data.__lock == 0 );
      case T_JOIN:  return( S.t[ t.wait ].st == T_DONE );
      case T_COND:  return( t.notified );
      case T_GUARD: return( ((volatile u8*) t.wait)[ 1 ] == 0 );
      case T_ONCE:  return( *(volatile int*) t.wait != 1 );
      case T_RDLOCK: return( ((pthread_rwlock_t*) t.wait)->__data.__cur_writer == 0 );
      case T_WRLOCK: return( ((pthread_rwlock_t*) t.wait)->__data.__cur_writer == 0 && ((pthread_rwlock_t*) t.wait)->__data.__readers == 0 );
      case T_SEM:   return( *(volatile int*) t.wait > 0 );
      case T_SPIN:  return( *(volatile int*) t.wait == 0 );
      default:      return( false );
   }
}
INL bool sleeping( int i )
{
   return( S.t[ i ].st == T_SLEEP || ( ( S.t[ i ].st == T_COND || S.t[ i ].st == T_MUTEX ) && S.t[ i ].wake != 0 ) );
}
void wake_sleeper( int i )
{
   Thr &t( S.t[ i ] );
   if( t.wake > S.now ) S.now = t.wake;
   t.notified = true;
   t.st = ( t.st == T_SLEEP ) ? T_RUN : T_COND;
}

/* ---- happens-before fingerprints --------------------------------------
 * Every thread carries a hash of the events it executed, each mixed with the
 * hash of the events it depends on (last write to the location; for writes
 * also the reads since).  Equal hashes of all threads mean the same partial
 * order of events, hence the same state. */
INL u64 hmix( u64 h, u64 v )
{
   h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
   h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
   return( h );
}
INL void hb_event( u64 a, bool w )
{
   if( ! S.hbon ) return;
   u32 i( (u32)( ( a * 0x9e3779b97f4a7c15ull ) >> 48 ) & ( HBCAP - 1 ) );
   for( u32 k = 0; k < HBCAP; k++, i = ( i + 1 ) & ( HBCAP - 1 ) )
   {
      Hb &b( S.hb[ i ] );
      if( b.epoch != S.epoch ){ b.epoch = S.epoch; b.a = a; b.wr = b.rd = 0; }
      else if( b.a != a ) continue;
      u64 &h( S.t[ S.cur ].hb );
      if( w ){ h = hmix( hmix( hmix( h, a * 2 + 1 ), b.wr ), b.rd ); b.wr = h; b.rd = 0; }
      else{ h = hmix( hmix( h, a * 2 ), b.wr ); b.rd += hmix( h, 77 ); }
      return;
   }
   S.hbon = S.cache = false;   /* table full: no more pruning in this execution */
}
INL void hb_value( u64 v ){ if( S.hbon ) S.t[ S.cur ].hb = hmix( S.t[ S.cur ].hb, v ); }
/* at a state after the recorded prefix: abandon the execution when the same
 * state was reached before with at least as many deviations left */
[[noreturn]] void to_sched();
INL void cache_point( bool insert )
{
   if( ! S.cache || S.ai < S.item.n ) return;
   u64 f( hmix( S.now, S.cur ) );
   for( int i = 0; i < S.nthr; i++ )
   {
      const Thr &t( S.t[ i ] );
      f = hmix( f, t.hb ^ ( (u64) t.st << 60 ) ^ ( (u64) t.yielded << 59 ) ^ ( (u64) t.notified << 58 ) );
      if( t.st == T_SLEEP || t.st == T_COND || t.st == T_MUTEX ) f = hmix( f, t.wake );
   }
   const u64 rem( S.bound - S.item.cost > 6 ? 6 : S.bound - S.item.cost );
   const u64 key( ( f & ~7ull ) | 8 );
   if( rem == 0 ) insert = insert && ( f >> 8 & 31 ) == 0; /* the last level: every state would fill the table */
   u32 i( (u32)( f >> 32 ) & ( SEENCAP - 1 ) );
   for( int k = 0; k < 32; k++ )
   {
      u64 v( __atomic_load_n( &C.seen[ i ], __ATOMIC_RELAXED ) );
      if( v == 0 )
      {
         if( ! insert ) return;
         if( __atomic_compare_exchange_n( &C.seen[ i ], &v, key | rem, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) )
         { S.hits++; return; }
      }
      if( ( v & ~7ull ) == key )
      {
         if( ( v & 7 ) >= rem ){ S.pruned = true; to_sched(); }
         if( insert ) __atomic_compare_exchange_n( &C.seen[ i ], &v, key | rem, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST );
         return;
      }
      i = ( i + 1 ) & ( SEENCAP - 1 );
   }
   C.seenovr = 1;
}

void describe_stuck( const char *what )
{
   char b[ 1024 ]; int n( 0 );
   for( int i = 0; i < S.nthr; i++ )
   {
      if( S.t[ i ].st == T_FREE || S.t[ i ].st == T_DONE ) continue;
      static const char *nm[] = { "free", "polling", "mutex", "join", "cond", "sleeping", "guard", "done", "once", "rdlock", "wrlock", "semaphore", "spinlock" };
      n += snprintf( b + n, sizeof( b ) - n, " T%d:%s", i, nm[ S.t[ i ].st ] );
      if( n > 900 ) break;
   }
   vpmc::fail( "%s:%s", what, b );
}

void diverge( const char *m )
{
   S.diverged = true;
   snprintf( S.divmsg, sizeof( S.divmsg ), "%s ev=%llu ai=%d", m, (unsigned long long) S.ev, S.ai );
   to_sched();
}

/* at a scheduling point: default 'dflt', others allowed 'mask' (dflt excluded) */
INL int decide( int dflt, u64 mask )
{
   if( S.ai < S.item.n )
   {
      const Alt &a( S.item.a[ S.ai ] );
      if( a.ev == (u32) S.ev && a.kind == K_SCHED )
      {
         if( a.tid != (u8) S.cur || ! ( ( mask >> a.val ) & 1 ) ) diverge( "scheduling choice not available" );
         S.ai++;
         return( a.val );
      }
      if( a.ev < (u32) S.ev ) diverge( "missed alteration" );
      return( dflt );
   }
   S.newpts++;
   if( S.log && mask != 0 && S.item.cost < S.bound )
   {
      if( S.nlog < LOGCAP )
      {
         Pt &p( S.logv[ S.nlog++ ] );
         p.ev = (u32) S.ev; p.mask = mask; p.kind = K_SCHED; p.tid = (u8) S.cur; p.dflt = (u16) dflt;
      }
      else S.log_over = true;
   }
   return( dflt );
}

/* the current thread cannot or does not want to continue */
void voluntary( bool can_continue )
{
   const int me( S.cur );
   S.ev++;
   if( S.ev > HORIZON ) describe_stuck( "no end within the event horizon" );
   for( ;; )
   {
      int dflt( -1 ); u64 en( 0 ), all( 0 );
      for( int k = 1; k <= S.nthr; k++ )
      {
         const int i( ( me + k ) % S.nthr );
         if( enabled( i ) )
         {
            en |= 1ull << i;
            if( ! S.t[ i ].yielded && dflt < 0 && ! ( i == me && can_continue ) ) dflt = i;
         }
         if( sleeping( i ) ) all |= 1ull << i;
      }
      all |= en;
      if( dflt < 0 )
      {
         /* everyone able to run has yielded (or nobody is able to) */
         if( ++S.rounds > S.patience ) describe_stuck( "no progress (deadlock or livelock)" );
         S.now += 1000000;
         int sl( -1 );
         for( int i = 0; i < S.nthr; i++ )
            if( sleeping( i ) && ! S.t[ i ].notified && ( sl < 0 || S.t[ i ].wake < S.t[ sl ].wake ) ) sl = i;
         if( sl >= 0 )
         {
            wake_sleeper( sl ); 
            for( int i = 0; i < S.nthr; i++ ) S.t[ i ].yielded = false;
            if( can_continue ) S.t[ me ].yielded = true;
            continue;
         }
         if( en == 0 ) describe_stuck( "deadlock" );
         for( int i = 0; i < S.nthr; i++ ) S.t[ i ].yielded = false;
         for( int k = 1; k <= S.nthr && dflt < 0; k++ )
         {
            const int i( ( me + k ) % S.nthr );
            if( ( en >> i ) & 1 ) dflt = i;
         }
      }
      u64 mask( all & ~( 1ull << dflt ) );
      if( can_continue ) mask &= ~( 1ull << me );
      const int to( decide( dflt, mask ) );
      if( sleeping( to ) && ! enabled( to ) ) wake_sleeper( to );
      switch_to( to );
      S.t[ me ].yielded = false;
      cache_point( false );
      return;
   }
}

/* a preemption may happen here */
INL void sched_point()
{
   const int me( S.cur );
   cache_point( true );
   if( S.ai < S.item.n )
   {
      const Alt &a( S.item.a[ S.ai ] );
      if( a.ev > (u32) S.ev ) return;
   }
   else if( ! S.log || S.item.cost >= S.bound ){ S.newpts++; return; }
   u64 mask( 0 );
   for( int i = 0; i < S.nthr; i++ )
      if( i != me && ( enabled( i ) || sleeping( i ) ) ) mask |= 1ull << i;
   if( mask == 0 ) return;
   const int to( decide( me, mask ) );
   if( to != me )
   {
      if( sleeping( to ) && ! enabled( to ) ) wake_sleeper( to );
      switch_to( to );
      cache_point( false );
   }
}

INL Loc *loc_of( u64 a )
{
   if( a - BASE < UNIV ) return( &((Loc*) SHARE)[ ( a - BASE ) >> 3 ] );
   if( a - GLO < GHI - GLO ) return( &((Loc*) GSHARE)[ ( a - GLO ) >> 3 ] );
   return( nullptr );
}
INL bool conflict( u32 r, u32 w )
{
   const u32 all( r | w );
   return( w != 0 && ( all & ( all - 1 ) ) != 0 );
}

void mem_fail( u64 a, u64 n, bool w, const char *what )
{
   vpmc::fail( "memory error: %s of %llu bytes %s", w ? "write" : "read", (unsigned long long) n, what );
   (void) a;
}
INL void memcheck( u64 a, u64 n, bool w )
{
   if( a - BASE >= ARENA ) 
   {
      if( a < 65536 ) mem_fail( a, n, w, "through a null pointer" );
      return;
   }
   const u64 off( a - BASE );
   const u64 sub( off / SUBSZ );
   if( off % SUBSZ >= S.bump[ sub ] ) mem_fail( a, n, w, "outside any allocated block" );
   const u32 h( ((u32*) SHADOW)[ off >> 4 ] );
   if( h == 0 ) mem_fail( a, n, w, "outside any allocated block (heap overflow)" );
   const Hdr *b( (Hdr*)( BASE + (u64) h * 16 ) );
   if( b->state != LIVE ) mem_fail( a, n, w, "in freed memory (use after free)" );
   const u64 u( (u64) b + sizeof( Hdr ) );
   if( a < u || a + n > u + b->size ) mem_fail( a, n, w, "beyond the end of its block (heap overflow)" );
}

/* records the access; true when the location is shared */
INL bool touch( u64 a, u64 n, bool w )
{
   bool sh( false );
   const u32 bit( 1u << ( S.cur & 31 ) );   /* thread 32 shares its bit with thread 0 and so on: only graphs that large could miss a point */
   for( u64 g = a & ~7ull; g < a + n; g += 8 )
   {
      Loc *l( loc_of( g ) );
      if( l == nullptr ) break;
      u32 &m( w ? l->wr : l->rd );
      if( ( m & bit ) == 0 )
      {
         const bool was( conflict( l->rd, l->wr ) );
         __atomic_fetch_or( &m, bit, __ATOMIC_RELAXED );
         if( ! was && conflict( l->rd, l->wr ) ){ C.grew = 1; __atomic_fetch_add( &C.nloc, 1, __ATOMIC_RELAXED ); }
      }
      sh = sh || conflict( l->rd, l->wr );
   }
   return( sh );
}
INL void hb_range( u64 a, u64 n, bool w )
{
   if( ! S.hbon ) return;
   for( u64 g = a & ~7ull; g < a + n; g += 8 )
   {
      const Loc *l( loc_of( g ) );
      if( l == nullptr ) break;
      if( conflict( l->rd, l->wr ) ) hb_event( g, w );
   }
}
HOT INL void access( const void *p, u64 n, bool w )
{
   if( __builtin_expect( ! S.active || S.cur < 0, 0 ) ) return;
   const u64 a( (u64) p );
   S.ev++;
   memcheck( a, n, w );
   bool sh( false );
   if( S.concurrent )
   {
      sh = touch( a, n, w );
      if( sh ) sched_point();
      if( __builtin_expect( ++S.since > SPINLIM, 0 ) )
      {
         S.since = 0; S.t[ S.cur ].yielded = true; voluntary( true ); hb_value( 5 );
      }
   }
   /* the access takes place now (also while there is only one thread: others
    * created later see its result) */
   if( S.hbon ) hb_range( a, n, w );
}
INL void sync_access( const void *p ){ access( p, 1, true ); }

} /* anon */

/* ---------------------------------------------------------------- memory */
extern "C" {

static void *do_alloc( u64 n, u64 align )
{
   boot();
   const int s( alloc_sub() );
   if( align < 16 ) align = 16;
   if( S.reuse && s < MAXT )
   {
      /* the block freed last that fits: what a real allocator may do */
      hb_event( (u64) &S.freed, true );
      for( int i = S.nfreed; i-- > 0; )
      {
         Hdr *h( (Hdr*) S.freed[ i ] );
         const u64 user( (u64) h + sizeof( Hdr ) );
         if( h->size != n || ( user & ( align - 1 ) ) != 0 ) continue;
         for( S.nfreed--; i < S.nfreed; i++ ) S.freed[ i ] = S.freed[ i + 1 ];
         h->state = LIVE;
         S.live_blocks++; S.live_bytes += n; std::memset( (void*) user, 0xCD, n );
         return( (void*) user );
      }
   }
   const u64 sb( BASE + s * SUBSZ );
   u64 raw( sb + S.bump[ s ] );
   u64 user( ( raw + 16 /* redzone */ + sizeof( Hdr ) + align - 1 ) & ~( align - 1 ) );
   const u64 end( ( user + n + 16 + 15 ) & ~15ull );
   if( n > SUBSZ || end - sb > SUBSZ )
   {
      if( S.active && S.cur >= 0 )
      {
         if( n > SUBSZ / 2 ){ errno = ENOMEM; return( nullptr ); }
         vpmc::fail( "memory exhausted (unbounded allocation)" );
      }
      const char e[] = "vpmc: arena exhausted\n"; if( write( 2, e, sizeof( e ) - 1 ) ){} _exit( 3 );
   }
   S.bump[ s ] = end - sb;
   auto *sh( (u32*) SHADOW );
   for( u64 g = ( raw - BASE ) >> 4; g < ( ( user - BASE ) >> 4 ); g++ ) sh[ g ] = 0;
   Hdr *h( (Hdr*)( user - sizeof( Hdr ) ) );
   h->size = n; h->state = LIVE; h->tid = s; h->seq = S.seq[ s ]++; h->raw = raw; h->magic = MAGIC;
   const u32 hid( (u32)( ( (u64) h - BASE ) >> 4 ) );
   u64 g( ( user - BASE ) >> 4 );
   for( ; g < ( ( user + n + 15 - BASE ) >> 4 ); g++ ) sh[ g ] = hid;
   for( ; g < ( ( end - BASE ) >> 4 ); g++ ) sh[ g ] = 0;
   if( s < MAXT ){ S.live_blocks++; S.live_bytes += n; std::memset( (void*) user, 0xCD, n ); }
   return( (void*) user );
}
void *malloc( size_t n ){ return( do_alloc( n, 16 ) ); }
void free( void *p )
{
   if( p == nullptr ) return;
   const u64 a( (u64) p );
   if( a - BASE >= ARENA )
   {
      if( S.active && S.cur >= 0 ) vpmc::fail( "memory error: free of a pointer that was not allocated" );
      return;
   }
   Hdr *h( (Hdr*)( a - sizeof( Hdr ) ) );
   const u64 off( a - BASE );
   const bool in( S.active && S.cur >= 0 );
   const bool inside( off % SUBSZ < S.bump[ off / SUBSZ ] );
   const u32 hid( (u32)( ( (u64) h - BASE ) >> 4 ) );
   if( ! inside || ( ((u32*) SHADOW)[ off >> 4 ] != hid && h->magic != MAGIC ) || h->magic != MAGIC || h->raw < BASE )
   {
      if( in ) vpmc::fail( "memory error: free of a pointer that is not the start of a block" );
      return;
   }
   if( h->state != LIVE )
   {
      if( in ) vpmc::fail( "memory error: double free" );
      return;
   }
   h->state = DEAD;
   if( in ) std::memset( p, 0xDD, h->size );
   if( h->tid < MAXT && S.active ){ S.live_blocks--; S.live_bytes -= h->size; }
   if( S.reuse && in && h->tid < MAXT )
   {
      hb_event( (u64) &S.freed, true );
      if( S.nfreed == 256 ) std::memmove( S.freed, S.freed + 1, --S.nfreed * sizeof( u64 ) );
      S.freed[ S.nfreed++ ] = (u64) h; }
}
void *calloc( size_t a, size_t b ){ void *p( do_alloc( a * b, 16 ) ); if( p ) std::memset( p, 0, a * b ); return( p ); }
void *realloc( void *p, size_t n )
{
   if( p == nullptr ) return( malloc( n ) );
   Hdr *h( (Hdr*)( (u64) p - sizeof( Hdr ) ) );
   if( S.active && S.cur >= 0 && ( (u64) p - BASE >= ARENA || h->magic != MAGIC || h->state != LIVE ) )
      vpmc::fail( "memory error: realloc of an invalid pointer" );
   void *q( malloc( n ) );
   if( q ){ std::memcpy( q, p, n < h->size ? n : h->size ); free( p ); }
   return( q );
}
int posix_memalign( void **o, size_t al, size_t n ){ void *p( do_alloc( n, al ) ); if( ! p ) return( ENOMEM ); *o = p; return( 0 ); }
void *aligned_alloc( size_t al, size_t n ){ return( do_alloc( n, al ) ); }
void *memalign( size_t al, size_t n ){ return( do_alloc( n, al ) ); }
size_t malloc_usable_size( void *p ){ return( p ? ((Hdr*)( (u64) p - sizeof( Hdr ) ))->size : 0 ); }

/* ------------------------------------------------------- instrumentation */
void __tsan_init(){}
void __tsan_func_entry( void* ){}
void __tsan_func_exit(){}
void __tsan_ignore_thread_begin(){}
void __tsan_ignore_thread_end(){}
#define RW( N ) \
 void __tsan_read##N( void *p ){ access( p, N, false ); } \
 void __tsan_write##N( void *p ){ access( p, N, true ); } \
 void __tsan_unaligned_read##N( void *p ){ access( p, N, false ); } \
 void __tsan_unaligned_write##N( void *p ){ access( p, N, true ); } \
 void __tsan_volatile_read##N( void *p ){ access( p, N, false ); } \
 void __tsan_volatile_write##N( void *p ){ access( p, N, true ); } \
 void __tsan_unaligned_volatile_read##N( void *p ){ access( p, N, false ); } \
 void __tsan_unaligned_volatile_write##N( void *p ){ access( p, N, true ); } \
 void __tsan_read_write##N( void *p ){ access( p, N, false ); access( p, N, true ); } \
 void __tsan_unaligned_read_write##N( void *p ){ access( p, N, false ); access( p, N, true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_vptr_read( void **p ){ access( p, 8, false ); }
void __tsan_vptr_update( void **p, void* ){ access( p, 8, true ); }
void __tsan_read_range( void *p, unsigned long n ){ if( n ) access( p, n, false ); }
void __tsan_write_range( void *p, unsigned long n ){ if( n ) access( p, n, true ); }
void *__tsan_memcpy( void *d, const void *s, size_t n )
{ if( n ){ access( s, n, false ); access( d, n, true ); } return( std::memcpy( d, s, n ) ); }
void *__tsan_memmove( void *d, const void *s, size_t n )
{ if( n ){ access( s, n, false ); access( d, n, true ); } return( std::memmove( d, s, n ) ); }
void *__tsan_memset( void *d, int c, size_t n )
{ if( n ) access( d, n, true ); return( std::memset( d, c, n ) ); }

#define ATOMIC( B, T ) \
 T __tsan_atomic##B##_load( const volatile T *p, int ){ access( (const void*) p, sizeof( T ), false ); return( __atomic_load_n( p, __ATOMIC_SEQ_CST ) ); } \
 void __tsan_atomic##B##_store( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); } \
 T __tsan_atomic##B##_exchange( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_add( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_sub( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_and( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_or( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_xor( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_fetch_nand( volatile T *p, T v, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ) ); } \
 int __tsan_atomic##B##_compare_exchange_strong( volatile T *p, T *c, T v, int, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_compare_exchange_n( p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) ); } \
 int __tsan_atomic##B##_compare_exchange_weak( volatile T *p, T *c, T v, int, int ){ access( (void*) p, sizeof( T ), true ); return( __atomic_compare_exchange_n( p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) ); } \
 T __tsan_atomic##B##_compare_exchange_val( volatile T *p, T c, T v, int, int ){ access( (void*) p, sizeof( T ), true ); __atomic_compare_exchange_n( p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return( c ); }
ATOMIC( 8, u8 ) ATOMIC( 16, u16 ) ATOMIC( 32, u32 ) ATOMIC( 64, u64 )
void __tsan_atomic_thread_fence( int ){}
void __tsan_atomic_signal_fence( int ){}

/* --------------------------------------------------------------- threads */
static bool in(){ return( S.active && S.cur >= 0 ); }

static void fiber_main()
{
   const int me( S.cur );
   Thr &t( S.t[ me ] );
   try
   {
      t.ret = t.fn( t.arg );
   }
   catch( const std::exception &e )
   {
      char nm[ 256 ]; snprintf( nm, sizeof( nm ), "%s", typeid( e ).name() );
      vpmc::fail( "exception %s (%s) escapes thread T%d: the program would terminate", nm, e.what(), me );
   }
   catch( ... ){ vpmc::fail( "an exception escapes thread T%d: the program would terminate", me ); }
   while( t.ntd > 0 ){ const TDtor x( S.td[ me ][ --t.ntd ] ); x.fn( x.obj ); }   /* thread_local objects */
   t.st = T_DONE; S.live--; S.rounds = 0;
   if( me == 0 ) to_sched();
   S.concurrent = S.live > 0;
   voluntary( false );
   __builtin_unreachable();
}
static void setup_fiber( int i, void *(*fn)(void*), void *arg )
{
   Thr &t( S.t[ i ] );
   std::memset( &t, 0, sizeof( t ) );
   t.st = T_RUN; t.fn = fn; t.arg = arg; tls_fresh( i == 0 ? tls_blk : S.tls[ i ] );
   u64 top( STKBASE + ( i + 1 ) * STKSZ - 64 );
   top &= ~15ull;
   u64 *sp( (u64*) top );
   *--sp = 0;                 /* end of stack for the unwinder */
   *--sp = (u64) &fiber_main; /* return address                */
   for( int k = 0; k < 6; k++ ) *--sp = 0;
   --sp;
   ((u32*) sp)[ 0 ] = 0x1f80; ((u32*) sp)[ 1 ] = 0x037f;
   t.rsp = (u64) sp;
}
int pthread_create( pthread_t *out, const pthread_attr_t*, void *(*fn)(void*), void *arg )
{
   if( ! in() ) return( EAGAIN );
   S.ev++;
   if( S.nthr >= MAXT ) vpmc::fail( "more than %d threads created", MAXT );
   const int i( S.nthr );
   setup_fiber( i, fn, arg );
   S.nthr++; S.live++; S.concurrent = true; S.rounds = 0;
   S.t[ i ].hb = hmix( S.t[ S.cur ].hb, 1000 + i ); hb_value( 2000 + i );
   if( (int) S.nthr > S.maxthr ) S.maxthr = S.nthr;
   *out = (pthread_t)( i + 1 );
   sched_point(); hb_value( 3 );
   return( 0 );
}
int pthread_join( pthread_t h, void **ret )
{
   if( ! in() ) return( EINVAL );
   const int i( (int) h - 1 );
   if( i < 0 || i >= S.nthr || i == S.cur ) vpmc::fail( "join of an invalid thread" );
   if( S.t[ i ].joined || S.t[ i ].detached ) vpmc::fail( "thread joined twice or joined after detach" );
   S.ev++;
   if( S.t[ i ].st != T_DONE )
   {
      S.t[ S.cur ].st = T_JOIN; S.t[ S.cur ].wait = i;
      voluntary( false );
      S.t[ S.cur ].st = T_RUN;
   }
   S.t[ i ].joined = 1;
   hb_value( S.t[ i ].hb );
   if( ret ) *ret = S.t[ i ].ret;
   return( 0 );
}
int pthread_detach( pthread_t h ){ const int i( (int) h - 1 ); if( in() && i >= 0 && i < S.nthr ) S.t[ i ].detached = true; return( 0 ); }
pthread_t pthread_self(){ return( (pthread_t)( ( boot_done && in() ) ? S.cur + 1 : 9999 ) ); }

static bool live(){ return( boot_done && in() ); }
static int self_owner(){ return( ( boot_done && in() ) ? S.cur + 1 : 9999 ); }
int pthread_mutex_lock( pthread_mutex_t *m )
{
   const int me( self_owner() );
   if( me == 9999 ){ m->__data.__lock = me; m->__data.__count++; return( 0 ); }
   sync_access( m );
   if( m->__data.__lock == me )
   {
      if( m->__data.__kind == PTHREAD_MUTEX_RECURSIVE ){ m->__data.__count++; return( 0 ); }
   }
   while( m->__data.__lock != 0 )
   {
      S.t[ S.cur ].st = T_MUTEX; S.t[ S.cur ].wait = (u64) m;
      voluntary( false );
      S.t[ S.cur ].st = T_RUN;
      hb_event( (u64) m, true );
   }
   m->__data.__lock = me; m->__data.__count = 1;
   return( 0 );
}
int pthread_mutex_trylock( pthread_mutex_t *m )
{
   const int me( self_owner() );
   if( me == 9999 ){ m->__data.__lock = me; m->__data.__count++; return( 0 ); }
   sync_access( m );
   if( m->__data.__lock == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE ){ m->__data.__count++; return( 0 ); }
   if( m->__data.__lock != 0 ) return( EBUSY );
   m->__data.__lock = me; m->__data.__count = 1;
   return( 0 );
}
int pthread_mutex_unlock( pthread_mutex_t *m )
{
   const int me( self_owner() );
   if( me == 9999 ){ if( m->__data.__count ) m->__data.__count--; if( m->__data.__count == 0 ) m->__data.__lock = 0; return( 0 ); }
   sync_access( m );
   if( m->__data.__lock == 0 ) vpmc::fail( "unlock of a mutex that is not locked" );
   if( m->__data.__lock != me ) vpmc::fail( "unlock of a mutex owned by another thread" );
   if( --m->__data.__count == 0 ) m->__data.__lock = 0;
   return( 0 );
}
int pthread_mutex_init( pthread_mutex_t *m, const pthread_mutexattr_t *a )
{ std::memset( m, 0, sizeof( *m ) ); if( a ) m->__data.__kind = *(const int*) a & 3; return( 0 ); }
static int mutex_until( pthread_mutex_t *m, u64 until )
{
   const int r( pthread_mutex_trylock( m ) );
   if( r != EBUSY || ! live() ) return( r );
   while( m->__data.__lock != 0 )
   {
      if( S.now >= until ) return( ETIMEDOUT );
      Thr &t( S.t[ S.cur ] );
      t.st = T_MUTEX; t.wait = (u64) m; t.notified = false; t.wake = until;
      voluntary( false );
      t.st = T_RUN; t.wake = 0;
      hb_event( (u64) m, true ); hb_value( S.now );
   }
   m->__data.__lock = self_owner(); m->__data.__count = 1;
   return( 0 );
}
int pthread_mutex_timedlock( pthread_mutex_t *m, const struct timespec *ts )
{ return( mutex_until( m, (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec ) ); }
int pthread_mutex_clocklock( pthread_mutex_t *m, clockid_t, const struct timespec *ts )
{ return( mutex_until( m, (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec ) ); }
static void wait_for( TS s, void *p )
{
   while( live() )
   {
      S.t[ S.cur ].st = s; S.t[ S.cur ].wait = (u64) p;
      if( enabled( S.cur ) ) break;
      voluntary( false );
      S.t[ S.cur ].st = T_RUN;
      hb_event( (u64) p, true );
   }
   if( live() ) S.t[ S.cur ].st = T_RUN;
}
int pthread_once( pthread_once_t *o, void (*fn)() )
{
   if( live() ) sync_access( o );
   while( *o != 2 )
   {
      if( *o == 1 ){ wait_for( T_ONCE, o ); continue; }
      *o = 1;
      try{ fn(); }
      catch( ... ){ *o = 0; if( live() ) hb_event( (u64) o, true ); throw; }
      *o = 2;
      if( live() ) hb_event( (u64) o, true );
   }
   return( 0 );
}
int pthread_rwlock_init( pthread_rwlock_t *l, const pthread_rwlockattr_t* ){ std::memset( l, 0, sizeof( *l ) ); return( 0 ); }
int pthread_rwlock_destroy( pthread_rwlock_t* ){ return( 0 ); }
int pthread_rwlock_rdlock( pthread_rwlock_t *l )
{ if( live() ){ sync_access( l ); wait_for( T_RDLOCK, l ); } l->__data.__readers++; return( 0 ); }
int pthread_rwlock_wrlock( pthread_rwlock_t *l )
{ if( live() ){ sync_access( l ); wait_for( T_WRLOCK, l ); } l->__data.__cur_writer = self_owner(); return( 0 ); }
int pthread_rwlock_tryrdlock( pthread_rwlock_t *l )
{ if( live() ) sync_access( l ); if( l->__data.__cur_writer != 0 ) return( EBUSY ); l->__data.__readers++; return( 0 ); }
int pthread_rwlock_trywrlock( pthread_rwlock_t *l )
{ if( live() ) sync_access( l ); if( l->__data.__cur_writer != 0 || l->__data.__readers != 0 ) return( EBUSY ); l->__data.__cur_writer = self_owner(); return( 0 ); }
int pthread_rwlock_unlock( pthread_rwlock_t *l )
{
   if( live() ) sync_access( l );
   if( l->__data.__cur_writer != 0 )
   {
      if( live() && l->__data.__cur_writer != self_owner() ) vpmc::fail( "unlock of a lock owned by another thread" );
      l->__data.__cur_writer = 0;
   }
   else if( l->__data.__readers > 0 ) l->__data.__readers--;
   else if( live() ) vpmc::fail( "unlock of a lock that is not locked" );
   return( 0 );
}
int pthread_spin_init( pthread_spinlock_t *l, int ){ *l = 0; return( 0 ); }
int pthread_spin_destroy( pthread_spinlock_t* ){ return( 0 ); }
int pthread_spin_lock( pthread_spinlock_t *l ){ if( live() ){ sync_access( (void*) l ); wait_for( T_SPIN, (void*) l ); } *l = self_owner(); return( 0 ); }
int pthread_spin_trylock( pthread_spinlock_t *l ){ if( live() ) sync_access( (void*) l ); if( *l != 0 ) return( EBUSY ); *l = self_owner(); return( 0 ); }
int pthread_spin_unlock( pthread_spinlock_t *l ){ if( live() ) sync_access( (void*) l ); *l = 0; return( 0 ); }
int sem_init( sem_t *s, int, unsigned v ) noexcept { std::memset( s, 0, sizeof( *s ) ); *(int*) s = (int) v; return( 0 ); }
int sem_destroy( sem_t* ) noexcept { return( 0 ); }
int sem_wait( sem_t *s ){ if( live() ){ sync_access( s ); wait_for( T_SEM, s ); } --*(int*) s; return( 0 ); }
int sem_trywait( sem_t *s ) noexcept { if( live() ) sync_access( s ); if( *(int*) s <= 0 ){ errno = EAGAIN; return( -1 ); } --*(int*) s; return( 0 ); }
int sem_post( sem_t *s ) noexcept { if( live() ) sync_access( s ); ++*(int*) s; return( 0 ); }
int sem_getvalue( sem_t *s, int *v ) noexcept { *v = *(int*) s; return( 0 ); }
int pthread_mutex_destroy( pthread_mutex_t * ){ return( 0 ); }
static int cond_wait( pthread_cond_t *c, pthread_mutex_t *m, u64 until )
{
   if( ! in() ) return( EINVAL );
   pthread_mutex_unlock( m );
   Thr &t( S.t[ S.cur ] );
   t.st = T_COND; t.wait = (u64) c; t.notified = false; t.wake = until;
   hb_event( (u64) c, true );
   voluntary( false );
   hb_event( (u64) c, true ); hb_value( S.now );
   const bool timed( until != 0 && S.now >= until );
   t.st = T_RUN; t.wake = 0;
   pthread_mutex_lock( m );
   return( timed ? ETIMEDOUT : 0 );
}
int pthread_cond_init( pthread_cond_t *c, const pthread_condattr_t * ){ std::memset( c, 0, sizeof( *c ) ); return( 0 ); }
int pthread_cond_destroy( pthread_cond_t * ){ return( 0 ); }
int pthread_cond_wait( pthread_cond_t *c, pthread_mutex_t *m ){ return( cond_wait( c, m, 0 ) ); }
int pthread_cond_timedwait( pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts )
{ return( cond_wait( c, m, (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec ) ); }
int pthread_cond_clockwait( pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts )
{ return( cond_wait( c, m, (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec ) ); }
static void wake_cond( pthread_cond_t *c, bool one )
{
   if( ! in() ) return;
   sync_access( c );
   hb_event( (u64) c, true );
   for( int i = 0; i < S.nthr; i++ )
      if( S.t[ i ].st == T_COND && S.t[ i ].wait == (u64) c && ! S.t[ i ].notified ){ S.t[ i ].notified = true; if( one ) break; }
}
/* what std::future, std::latch, std::atomic::wait and the like are made of */
long syscall( long n, ... ) noexcept
{
   va_list ap; va_start( ap, n ); u64 a[ 6 ]; for( auto &x : a ) x = va_arg( ap, u64 ); va_end( ap );
   if( n == SYS_futex && boot_done && in() )
   {
      const int op( (int) a[ 1 ] & 0x7f );
      if( op == 0 || op == 9 )          /* wait, wait until */
      {
         sync_access( (void*) a[ 0 ] );
         if( *(volatile u32*) a[ 0 ] != (u32) a[ 2 ] ){ errno = EAGAIN; return( -1 ); }
         const struct timespec *ts( (const struct timespec*) a[ 3 ] );
         u64 until( 0 );
         if( ts ) until = (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec + ( op == 0 ? S.now : 0 );
         Thr &t( S.t[ S.cur ] );
         t.st = T_COND; t.wait = a[ 0 ]; t.notified = false; t.wake = until;
         hb_event( a[ 0 ], true );
         voluntary( false );
         hb_event( a[ 0 ], true ); hb_value( S.now );
         const bool timed( until != 0 && S.now >= until );
         t.st = T_RUN; t.wake = 0;
         if( timed ){ errno = ETIMEDOUT; return( -1 ); }
         return( 0 );
      }
      if( op == 1 || op == 10 )         /* wake */
      {
         sync_access( (void*) a[ 0 ] ); hb_event( a[ 0 ], true );
         long k( 0 );
         for( int i = 0; i < S.nthr && k < (int) a[ 2 ]; i++ )
            if( S.t[ i ].st == T_COND && S.t[ i ].wait == a[ 0 ] && ! S.t[ i ].notified ){ S.t[ i ].notified = true; k++; }
         return( k );
      }
      vpmc::fail( "futex operation %d is not modelled", op );
   }
   const long r( rawcall( n, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ], a[ 4 ], a[ 5 ] ) );
   if( r < 0 && r > -4096 ){ errno = (int) -r; return( -1 ); }
   return( r );
}
int pthread_cond_signal( pthread_cond_t *c ){ wake_cond( c, true ); return( 0 ); }
int pthread_cond_broadcast( pthread_cond_t *c ){ wake_cond( c, false ); return( 0 ); }
int sched_yield()
{
   if( ! in() ) return( 0 );
   S.t[ S.cur ].yielded = true;
   voluntary( true ); hb_value( 6 );
   return( 0 );
}
static int do_sleep( u64 ns )
{
   if( ! in() ) return( 0 );
   Thr &t( S.t[ S.cur ] );
   t.st = T_SLEEP; t.wake = S.now + ns; t.notified = false;
   hb_value( S.now );
   voluntary( false );
   hb_value( S.now );
   t.st = T_RUN; t.wake = 0;
   return( 0 );
}
int nanosleep( const struct timespec *r, struct timespec * ){ return( do_sleep( (u64) r->tv_sec * 1000000000ull + r->tv_nsec ) ); }
int clock_nanosleep( clockid_t, int fl, const struct timespec *r, struct timespec * )
{
   u64 v( (u64) r->tv_sec * 1000000000ull + r->tv_nsec );
   if( fl ) v = v > S.now ? v - S.now : 0;
   return( do_sleep( v ) );
}
int usleep( useconds_t u ){ return( do_sleep( (u64) u * 1000 ) ); }
unsigned int sleep( unsigned int s ){ do_sleep( (u64) s * 1000000000ull ); return( 0 ); }
int clock_gettime( clockid_t c, struct timespec *ts )
{
   if( boot_done && in() ){ S.now += 100; hb_value( S.now ); ts->tv_sec = S.now / 1000000000ull; ts->tv_nsec = S.now % 1000000000ull; return( 0 ); }
   return( (int) rawcall( SYS_clock_gettime, c, ts ) );
}
int gettimeofday( struct timeval *__restrict tv, void *__restrict )
{
   struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts );
   tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return( 0 );
}
time_t time( time_t *o ){ struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); if( o ) *o = ts.tv_sec; return( ts.tv_sec ); }

void __assert_fail( const char *e, const char *f, unsigned int l, const char * )
{
   const char *s( std::strrchr( f, '/' ) ); 
   if( in() ) vpmc::fail( "assertion failed: %s (%s)", e, s ? s + 1 : f );
   fprintf( stderr, "assertion failed: %s %s:%u\n", e, f, l ); _exit( 3 );
}
void abort()
{
   if( in() ) vpmc::fail( "abort() called" );
   _exit( 3 );
}
void vpmc_exit( int c )
{
   if( in() )
   {
      if( S.exit_hook != nullptr ){ auto *h( S.exit_hook ); S.exit_hook = nullptr; h( c ); to_sched(); }
      vpmc::fail( "the code under test called exit(%d)", c );
   }
   fflush( nullptr );
   _exit( c );
}
} /* extern C */
asm( ".globl exit\n.type exit,@function\n.set exit,vpmc_exit\n" );

namespace __cxxabiv1 { extern "C" {
/* function local statics */
int __cxa_guard_acquire( __cxxabiv1::__guard *g ) noexcept(false)
{
   volatile u8 *b( (u8*) g );
   if( in() ){ touch( (u64) g, 8, true ); hb_event( (u64) g, true ); }
   if( b[ 0 ] == 1 ) return( 0 );
   while( in() && b[ 1 ] != 0 )
   {
      S.t[ S.cur ].st = T_GUARD; S.t[ S.cur ].wait = (u64) g;
      voluntary( false );
      S.t[ S.cur ].st = T_RUN;
      hb_event( (u64) g, true );
   }
   if( b[ 0 ] == 1 ) return( 0 );
   b[ 1 ] = 1;
   return( 1 );
}
void __cxa_guard_release( __cxxabiv1::__guard *g ) noexcept{ if( in() ) hb_event( (u64) g, true ); ((volatile u8*) g)[ 1 ] = 0; ((volatile u8*) g)[ 0 ] = 1; }
void __cxa_guard_abort( __cxxabiv1::__guard *g ) noexcept{ if( in() ) hb_event( (u64) g, true ); ((volatile u8*) g)[ 1 ] = 0; }
/* static destructors never run here (processes end with _exit), and libc's
 * list of them is state that would survive from one execution to the next */
int __cxa_atexit( void (*)( void* ), void*, void* ) noexcept { return( 0 ); }
int __cxa_thread_atexit( void (*fn)( void* ), void *obj, void* ) noexcept
{
   if( ! ( boot_done && in() ) ) return( 0 );
   Thr &t( S.t[ S.cur ] );
   if( t.ntd == TDMAX ) vpmc::fail( "more than %d thread_local objects with destructors", TDMAX );
   S.td[ S.cur ][ t.ntd++ ] = { fn, obj };
   return( 0 );
}

} }

/* ------------------------------------------------------------ public API */
namespace vpmc
{
void fail( const char *fmt, ... )
{
   va_list ap; va_start( ap, fmt );
   vfail( fmt, ap );
}
int choose( int n )
{
   if( n <= 1 ) return( 0 );
   if( ! in() ) return( 0 );
   S.ev++;
   if( S.ai < S.item.n )
   {
      const Alt &a( S.item.a[ S.ai ] );
      if( a.ev == (u32) S.ev && a.kind == K_CHOICE )
      {
         if( a.val >= n ) diverge( "choice out of range" );
         S.ai++;
         hb_value( a.val );
         return( a.val );
      }
      if( a.ev < (u32) S.ev ) diverge( "missed alteration (choice)" );
      return( 0 );
   }
   S.newpts++;
   if( S.log )
   {
      if( S.nlog < LOGCAP )
      {
         Pt &p( S.logv[ S.nlog++ ] );
         p.ev = (u32) S.ev; p.mask = n; p.kind = K_CHOICE; p.tid = (u8) S.cur; p.dflt = 0;
      }
      else S.log_over = true;
   }
   return( 0 );
}
void progress(){ S.rounds = 0; }
void observe( std::uint64_t v ){ S.outcome = mix( S.outcome, v ); }
void observe( const std::string &s ){ u64 h( 14695981039346656037ull ); for( char c : s ){ h ^= (u8) c; h *= 1099511628211ull; } observe( h ); }
void prune_if_seen( std::uint64_t h )
{
   if( ! in() ) return;
   if( S.noprune || S.ai < S.item.n ) return; /* still replaying a prefix that was expanded */
   if( h == 0 ) h = 1;
   u32 i( (u32)( h * 0x9e3779b97f4a7c15ull >> 39 ) & ( SEENCAP - 1 ) );
   for( int k = 0; k < 64; k++ )
   {
      u64 v( __atomic_load_n( &C.seen[ i ], __ATOMIC_RELAXED ) );
      if( v == h ){ S.pruned = true; to_sched(); }
      if( v == 0 )
      {
         u64 z( 0 );
         if( __atomic_compare_exchange_n( &C.seen[ i ], &z, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) )
         { __atomic_fetch_add( &C.nseen, 1, __ATOMIC_RELAXED ); return; }
         if( z == h ){ S.pruned = true; to_sched(); }
      }
      i = ( i + 1 ) & ( SEENCAP - 1 );
   }
   C.seenovr = 1;
}
std::size_t live_blocks(){ return( S.live_blocks ); }
std::size_t live_bytes(){ return( S.live_bytes ); }
int live_threads(){ return( S.live - 1 ); }
int self(){ return( S.cur ); }
std::uint64_t now_events(){ return( S.ev ); }
std::uint64_t now_ns(){ return( S.now ); }
void yield(){ sched_yield(); }
void point(){ if( in() ){ S.ev++; if( S.concurrent ){ sched_point(); hb_value( 4 ); } } }
void reuse_memory(){ S.reuse = true; }
void set_patience( int r ){ S.patience = r; }
void on_exit( void (*h)( int ) ){ S.exit_hook = h; }
void quiet( const void *p, bool w ){ if( in() ) hb_event( (u64) p, w ); }
bool readable( const void *p, std::size_t n )
{
   const u64 a( (u64) p );
   if( a < 65536 ) return( false );
   if( a - BASE >= ARENA ) return( true );
   const u64 off( a - BASE );
   if( off % SUBSZ >= S.bump[ off / SUBSZ ] ) return( false );
   const u32 h( ((u32*) SHADOW)[ off >> 4 ] );
   if( h == 0 ) return( false );
   const Hdr *b( (Hdr*)( BASE + (u64) h * 16 ) );
   return( b->state == LIVE && a + n <= (u64) b + sizeof( Hdr ) + b->size );
}
void note( const char *fmt, ... )
{
   if( S.nnotes + 256 > sizeof( S.notes ) ) return;
   va_list ap; va_start( ap, fmt );
   S.nnotes += snprintf( S.notes + S.nnotes, 16, "T%d ", S.cur );
   int n( vsnprintf( S.notes + S.nnotes, 200, fmt, ap ) );
   va_end( ap );
   S.nnotes += n > 199 ? 199 : n;
   S.notes[ S.nnotes++ ] = ';'; S.notes[ S.nnotes++ ] = ' '; S.notes[ S.nnotes ] = 0;
}
} /* vpmc */

/* --------------------------------------------------------------- explorer */
namespace {

const std::function< void() > *g_body_fn() ;
std::vector< vpmc::Scenario > *g_list = nullptr;
int g_sc = 0;
const std::function< void() > *g_body_fn(){ return( &(*g_list)[ g_sc ].body ); }
void *body_entry( void * ){ (*g_body_fn())(); return( nullptr ); }

u64 snap_out = 0;
void take_snapshot()
{
   GLO = (u64) &__data_start & ~7ull; GHI = (u64) &_end;
   const u64 n( GHI - GLO );
   void *p( mmap( (void*) SNAP, n + SUBSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) );
   if( p != (void*) SNAP ) _exit( 3 );
   S.engine = true;
   snap_out = S.bump[ SUB_OUT ];
   std::memcpy( (void*) SNAP, (void*) GLO, n );
   std::memcpy( (void*)( SNAP + n ), (void*)( BASE + SUB_OUT * SUBSZ ), snap_out );
}
void restore_snapshot()
{
   const u64 n( GHI - GLO );
   std::memcpy( (void*) GLO, (void*) SNAP, n );
   std::memcpy( (void*)( BASE + SUB_OUT * SUBSZ ), (void*)( SNAP + n ), snap_out );
   S.bump[ SUB_OUT ] = snap_out;
}

void crash_handler( int sig, siginfo_t *si, void * )
{
   if( sig == SIGVTALRM )
   {
      if( ! S.active ){ S.wd_ticks = 0; return; }
      if( S.wd_execs != S.execs ){ S.wd_execs = S.execs; S.wd_ticks = 0; return; }
      if( ++S.wd_ticks < 6 ) return;
      if( ! S.violated ){ S.violated = true; snprintf( S.msg, sizeof( S.msg ), "an execution does not end (no scheduling event)" ); }
   }
   else if( ! S.violated )
   {
      S.violated = true;
      snprintf( S.msg, sizeof( S.msg ), "crash: signal %d%s", sig, ( sig == SIGSEGV && (u64) si->si_addr < 65536 ) ? " (null pointer)" : "" );
   }
   if( S.jbok ) siglongjmp( S.jb, 1 );
   _exit( 3 );
}
void install_handlers()
{
   stack_t ss; std::memset( &ss, 0, sizeof( ss ) );
   ss.ss_sp = S.altstack; ss.ss_size = sizeof( S.altstack );
   sigaltstack( &ss, nullptr );
   struct sigaction sa; std::memset( &sa, 0, sizeof( sa ) );
   sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
   for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM } ) sigaction( s, &sa, nullptr );
   struct itimerval it; it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
   setitimer( ITIMER_VIRTUAL, &it, nullptr );
}

bool g_opt_cache(); int g_opt_cache_from();
/* run one execution of S.item */
void run_one()
{
   restore_snapshot();
   for( int i = 0; i < MAXT; i++ ){ S.t[ i ].st = T_FREE; S.bump[ i ] = 64; S.seq[ i ] = 0; }
   auto *eh( (u64*) abi::__cxa_get_globals() );
   eh[ 0 ] = eh[ 1 ] = 0; std::__once_callable = nullptr; std::__once_call = nullptr;
   if( tls_blk == nullptr ) dl_iterate_phdr( tls_find, nullptr );
   S.live_blocks = S.live_bytes = 0; S.nthr = 1; S.live = 1; S.ev = 0; S.since = 0; S.now = 1000000000000ull;
   S.rounds = 0; S.patience = 1000; S.concurrent = false; S.violated = S.pruned = S.ended = false; S.exit_hook = nullptr;
   S.ai = 0; S.nlog = 0; S.newpts = 0; S.log_over = false; S.outcome = 0; S.msg[ 0 ] = 0; S.notes[ 0 ] = 0; S.nnotes = 0;
   S.diverged = false; S.maxthr = 1;
   S.reuse = false; S.nfreed = 0; S.epoch++; S.hits = 0; S.cache = S.hbon = g_opt_cache() && S.bound > g_opt_cache_from() && ! S.noprune;
   setup_fiber( 0, body_entry, nullptr );
   if( sigsetjmp( S.jb, 0 ) == 0 )
   {
      S.jbok = true;
      S.cur = 0; S.active = true;
      vpmc_switch( &S.sched_rsp, S.t[ 0 ].rsp );
   }
   S.active = false; S.cur = -1; S.jbok = false;
   eh = (u64*) abi::__cxa_get_globals();
   eh[ 0 ] = eh[ 1 ] = 0;
   S.execs++;
   if( ! S.violated && ! S.diverged && ! S.pruned && S.ai < S.item.n ){ S.diverged = true; snprintf( S.divmsg, sizeof( S.divmsg ), "execution ended before the recorded alterations" ); }
}

void print_item( char *o, size_t n, const Item &it )
{
   size_t k( 0 );
   k += snprintf( o + k, n - k, "[" );
   for( int i = 0; i < it.n && k + 40 < n; i++ )
      k += snprintf( o + k, n - k, "%s%s@%u:T%d->%d", i ? " " : "", it.a[ i ].kind == K_CHOICE ? "choose" : "switch", it.a[ i ].ev, it.a[ i ].tid, it.a[ i ].val );
   snprintf( o + k, n - k, "]" );
}

struct Opt { bool thorough = false; int bound = 0; int workers = 8; double time = 60; std::vector< std::string > known; bool fork_each = false; bool cache = false; int cache_from = 1; };
Opt *g_opt = nullptr;
bool g_opt_cache(){ return( g_opt->cache ); }
int g_opt_cache_from(){ return( g_opt->cache_from ); }
double mono(){ struct timespec ts; rawcall( SYS_clock_gettime, CLOCK_MONOTONIC, &ts ); return( ts.tv_sec + ts.tv_nsec * 1e-9 ); }

bool is_known( const char *m )
{
   for( auto &k : g_opt->known ) if( std::strstr( m, k.c_str() ) != nullptr ) return( true );
   return( false );
}

void account( Worker &w )
{
   w.execs++; w.points += S.newpts; w.edges += S.nlog; w.events += S.ev;
   if( S.pruned ) w.pruned++;
   if( S.hits ) __atomic_fetch_add( &C.nseen, S.hits, __ATOMIC_RELAXED );
   if( S.log_over ){ w.over++; C.capped = 1; }
   if( (u32) S.maxthr > C.maxthr ) C.maxthr = S.maxthr;
   if( S.ev > C.maxev ) C.maxev = S.ev;
   if( S.diverged )
   {
      w.div++;
      std::memcpy( C.divmsg, S.divmsg, sizeof( C.divmsg ) );
      return;
   }
   if( S.violated )
   {
      const bool k( is_known( S.msg ) );
      const u32 i( __atomic_fetch_add( k ? &C.nknown : &C.nviol, 1, __ATOMIC_SEQ_CST ) );
      if( i < 16 )
      {
         Viol &v( k ? C.knownv[ i ] : C.viol[ i ] );
         v.it = S.item; std::memcpy( v.msg, S.msg, sizeof( v.msg ) );
         std::memcpy( v.notes, S.notes, sizeof( v.notes ) ); v.notes[ sizeof( v.notes ) - 1 ] = 0;
         v.known = k; v.used = true;
      }
      if( ! k ) C.stop = 1;
      return;
   }
   if( ! S.pruned )
   {
      u64 h( S.outcome ? S.outcome : 1 );
      u32 i( (u32)( h >> 20 ) & ( OUTCAP - 1 ) );
      for( int k = 0; k < 64; k++ )
      {
         u64 z( 0 );
         if( C.out[ i ] == h ) break;
         if( C.out[ i ] == 0 && __atomic_compare_exchange_n( &C.out[ i ], &z, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) )
         {
            __atomic_fetch_add( &C.nout, 1, __ATOMIC_RELAXED );
            const u32 s( __atomic_fetch_add( &C.nsample, 1, __ATOMIC_SEQ_CST ) );
            if( s < 8 )
            {
               char b[ 256 ]; print_item( b, sizeof( b ), S.item );
               snprintf( C.sample[ s ], sizeof( C.sample[ s ] ), "schedule %s events %llu: %.600s", b, (unsigned long long) S.ev, S.notes );
            }
            break;
         }
         if( z == h ) break;
         i = ( i + 1 ) & ( OUTCAP - 1 );
         if( k == 63 ) C.outovr = 1;
      }
   }
}

/* push the children of the execution just run; returns number */
u32 children( Item *dst, u32 cap )
{
   u32 n( 0 );
   const Item base( S.item );
   if( base.n >= MAXALT ){ C.capped = 1; return( 0 ); }
   for( u32 i = S.nlog; i-- > 0; )
   {
      const Pt &p( S.logv[ i ] );
      const bool ch( p.kind == K_CHOICE );
      for( int a = ( ch ? (int) p.mask - 1 : 63 ); a >= ( ch ? 1 : 0 ); a-- )
      {
         if( ! ch && ! ( ( p.mask >> a ) & 1 ) ) continue;
         if( n >= cap ){ C.capped = 1; return( n ); }
         Item &it( dst[ n++ ] );
         it.n = base.n; it.cost = base.cost + ( ch ? 0 : 1 ); it.pad = 0;
         std::memcpy( it.a, base.a, sizeof( Alt ) * base.n );
         Alt &x( it.a[ it.n++ ] );
         x.ev = p.ev; x.kind = p.kind; x.val = (u8) a; x.tid = p.tid; x.pad = 0;
      }
   }
   return( n );
}

void exec_item( const Item &it )
{
   S.item = it;
   S.log = true;
   if( ! g_opt->fork_each ){ run_one(); return; }
   /* own process: used when libc state (open files) would survive */
   struct Sh { u64 ev, newpts, outcome; u32 nlog; bool violated, pruned, diverged, over; int maxthr; char msg[ 2048 ]; char notes[ 4096 ]; Pt log[ 65536 ]; };
   static Sh *sh = nullptr;
   if( sh == nullptr ) sh = (Sh*) mmap( nullptr, sizeof( Sh ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   Sh *const s( sh );
   const pid_t p( fork() );
   if( p == 0 )
   {
      install_handlers();
      run_one();
      s->ev = S.ev; s->newpts = S.newpts; s->outcome = S.outcome; s->nlog = S.nlog < 65536 ? S.nlog : 65536;
      s->violated = S.violated; s->pruned = S.pruned; s->diverged = S.diverged; s->over = S.log_over || S.nlog > 65536; s->maxthr = S.maxthr;
      std::memcpy( s->msg, S.msg, sizeof( s->msg ) ); std::memcpy( s->notes, S.notes, sizeof( s->notes ) ); s->notes[ 4095 ] = 0;
      std::memcpy( s->log, S.logv, sizeof( Pt ) * s->nlog );
      _exit( 0 );
   }
   int st( 0 ); while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ){}
   if( ! WIFEXITED( st ) || WEXITSTATUS( st ) != 0 )
   {
      S.violated = true; S.pruned = S.diverged = S.log_over = false; S.nlog = 0; S.newpts = 0; S.notes[ 0 ] = 0;
      snprintf( S.msg, sizeof( S.msg ), "the process died (status %d)", st ); S.execs++;
      return;
   }
   S.ev = s->ev; S.newpts = s->newpts; S.outcome = s->outcome; S.nlog = s->nlog; S.violated = s->violated; S.pruned = s->pruned;
   S.diverged = s->diverged; S.log_over = s->over; S.maxthr = s->maxthr; S.execs++;
   std::memcpy( S.msg, s->msg, sizeof( s->msg ) ); std::memcpy( S.notes, s->notes, sizeof( s->notes ) );
   std::memcpy( S.logv, s->log, sizeof( Pt ) * s->nlog );
}

void qlock(){ while( __atomic_exchange_n( &C.lock, 1, __ATOMIC_ACQUIRE ) ) rawcall( SYS_sched_yield ); }
void qunlock(){ __atomic_store_n( &C.lock, 0, __ATOMIC_RELEASE ); }

void worker_main( int wi, double deadline )
{
   install_handlers();
   Worker &w( C.w[ wi ] );
   Item *st( wstack( wi ) );
   u32 check( 0 );
   for( ;; )
   {
      if( w.top == 0 )
      {
         bool idle( false );
         for( ;; )
         {
            if( C.stop ) return;
            qlock();
            if( C.next < C.nroots )
            {
               st[ w.top++ ] = C.roots[ C.next++ % STKCAP ];
               if( idle ) C.idle--;
               qunlock();
               break;
            }
            if( ! idle ){ idle = true; C.idle++; }
            const bool done( C.idle == (u32) g_opt->workers );
            qunlock();
            if( done ) return;
            { struct timespec ts = { 0, 50000 }; rawcall( SYS_nanosleep, &ts, nullptr ); }
            if( mono() > deadline ){ C.capped = 1; C.stop = 1; return; }
         }
      }
      while( w.top > 0 )
      {
         if( C.stop ) return;
         if( ( ++check & 63 ) == 0 && mono() > deadline ){ C.capped = 1; C.stop = 1; return; }
         w.cur = st[ --w.top ];
         w.busy = true;
         exec_item( w.cur );
         w.busy = false;
         account( w );
         if( S.violated || S.diverged ) continue;
         w.top += children( st + w.top, STKCAP - w.top );
         if( __atomic_load_n( &C.idle, __ATOMIC_RELAXED ) > 0 && w.top > 1 )
         {
            /* share the oldest items: they have the largest subtrees */
            qlock();
            u32 k( w.top / 2 ); if( k > 64 ) k = 64;
            if( C.idle > 0 && C.nroots - C.next + k < STKCAP && C.nroots - C.next < 256 )
            {
               for( u32 i = 0; i < k; i++ ) C.roots[ C.nroots++ % STKCAP ] = st[ i ];
               std::memmove( st, st + k, sizeof( Item ) * ( w.top - k ) );
               w.top -= k;
            }
            qunlock();
         }
      }
   }
}

struct PassResult { bool complete; };
void reset_pass()
{
   C.lock = C.idle = 0;
   C.next = C.nroots = C.stop = C.grew = C.capped = C.nviol = C.nknown = C.outovr = C.nsample = C.seenovr = 0;
   C.nout = C.nseen = 0; C.maxthr = 0; C.maxev = 0;
   std::memset( C.viol, 0, sizeof( C.viol ) ); std::memset( C.knownv, 0, sizeof( C.knownv ) );
   std::memset( C.w, 0, sizeof( C.w ) );
   madvise( C.out, sizeof( C.out ), MADV_REMOVE ); 
   std::memset( C.out, 0, sizeof( C.out ) );
   if( madvise( (void*)( ( (u64) C.seen + 4095 ) & ~4095ull ), sizeof( C.seen ) - 8192, MADV_REMOVE ) != 0 ) std::memset( C.seen, 0, sizeof( C.seen ) );
}

void pass( int bound, double deadline )
{
   reset_pass();
   S.bound = bound;
   /* the root execution, then a breadth of roots for the workers; roots are
    * expanded in a child so that a crash cannot take the explorer down */
   Item root; std::memset( &root, 0, sizeof( root ) );
   C.roots[ 0 ] = root; C.nroots = 1;
   pid_t p( fork() );
   if( p == 0 )
   {
      install_handlers();
      Worker &w( C.w[ MAXW - 1 ] );
      u32 head( 0 ), tail( 1 );
      /* expand until there is enough to share out */
      while( head < tail && tail - head < 64 && tail < STKCAP / 2 )
      {
         if( C.stop || mono() > deadline ) break;
         w.cur = C.roots[ head++ ]; w.busy = true;
         exec_item( w.cur ); w.busy = false;
         account( w );
         if( S.violated || S.diverged ) continue;
         tail += children( &C.roots[ tail ], STKCAP - tail );
      }
      C.next = head; C.nroots = tail;
      _exit( 0 );
   }
   int st; while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ){}
   auto died = [&]( Worker &w, int status )
   {
      const u32 i( C.nviol++ );
      if( i < 16 )
      {
         Viol &v( C.viol[ i ] );
         v.it = w.cur; snprintf( v.msg, sizeof( v.msg ), "the process died (status %d)", status ); v.used = true;
      }
      C.stop = 1;
   };
   if( ! WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ){ died( C.w[ MAXW - 1 ], st ); return; }
   if( C.stop ) return;
   if( mono() > deadline ){ C.capped = 1; return; }
   if( C.next >= C.nroots ) return;
   const int nw( g_opt->workers );
   pid_t pids[ MAXW ];
   for( int i = 0; i < nw; i++ )
   {
      pids[ i ] = fork();
      if( pids[ i ] == 0 ){ worker_main( i, deadline ); _exit( 0 ); }
   }
   for( int left = nw; left > 0; )
   {
      const pid_t e( waitpid( -1, &st, 0 ) );
      if( e < 0 ){ if( errno == EINTR ) continue; break; }
      for( int i = 0; i < nw; i++ ) if( pids[ i ] == e )
      {
         left--;
         if( ! WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) died( C.w[ i ], st );
      }
   }
}

/* run an item in a fresh process; returns 1 violated 0 ok 2 diverged */
int run_fresh( const Item &it, char *msg, size_t n, bool show )
{
   struct Sh { int r; char m[ 2048 ]; };
   auto *sh( (Sh*) mmap( nullptr, sizeof( Sh ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
   sh->r = 0; sh->m[ 0 ] = 0;
   pid_t p( fork() );
   if( p == 0 )
   {
      install_handlers();
      S.item = it; S.log = false; S.noprune = true;
      run_one();
      sh->r = S.violated ? 1 : ( S.diverged ? 2 : 0 );
      std::memcpy( sh->m, S.violated ? S.msg : S.divmsg, S.violated ? 2048 : 256 );
      if( show ) dprintf( 2, "log: %s\n", S.notes );
      _exit( 0 );
   }
   int st; while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ){}
   int r( sh->r );
   if( ! WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ){ r = 1; snprintf( sh->m, sizeof( sh->m ), "the process died (status %d)", st ); }
   snprintf( msg, n, "%s", sh->m );
   munmap( sh, sizeof( Sh ) );
   return( r );
}

void jstr( FILE *f, const char *s )
{
   fputc( '"', f );
   for( ; *s; s++ )
   {
      const unsigned char c( *s );
      if( c == '"' || c == '\\' ) fprintf( f, "\\%c", c );
      else if( c < 32 || c > 126 ) fprintf( f, "\\u%04x", c );
      else fputc( c, f );
   }
   fputc( '"', f );
}
} /* anon */

namespace vpmc
{
bool thorough(){ return( g_opt->thorough ); }
int main( int argc, char **argv, std::vector< Scenario > list )
{
   Opt opt; g_opt = &opt; g_list = &list;
   std::string name, out, replay, tier( "quick" ); int bound( -1 );
   for( int i = 1; i < argc; i++ )
   {
      std::string a( argv[ i ] );
      auto nx = [&]() -> std::string { return( i + 1 < argc ? argv[ ++i ] : "" ); };
      if( a == "--list" ){ for( auto &s : list ) printf( "%s %d %d\n", s.name.c_str(), s.quick, s.thorough ); fflush( stdout ); _exit( 0 ); }
      else if( a == "--scenario" ) name = nx();
      else if( a == "--bound" ) bound = atoi( nx().c_str() );
      else if( a == "--tier" ){ tier = nx(); opt.thorough = tier == "thorough"; }
      else if( a == "--workers" ) opt.workers = atoi( nx().c_str() );
      else if( a == "--time" ) opt.time = atof( nx().c_str() );
      else if( a == "--out" ) out = nx();
      else if( a == "--known" ) opt.known.push_back( nx() );
      else if( a == "--replay" ) replay = nx();
   }
   if( opt.workers > MAXW - 1 ) opt.workers = MAXW - 1;
   Item rit; std::memset( &rit, 0, sizeof( rit ) );
   if( ! replay.empty() )
   {
      FILE *f( fopen( replay.c_str(), "r" ) );
      if( f == nullptr ){ fprintf( stderr, "cannot open %s\n", replay.c_str() ); _exit( 2 ); }
      char line[ 4096 ];
      while( fgets( line, sizeof( line ), f ) )
      {
         char s[ 512 ]; unsigned ev, k, v, t;
         if( sscanf( line, "scenario %511s", s ) == 1 ) name = s;
         else if( sscanf( line, "alter %u %u %u %u", &ev, &k, &v, &t ) == 4 && rit.n < MAXALT )
         { Alt &a( rit.a[ rit.n++ ] ); a.ev = ev; a.kind = k; a.val = v; a.tid = t; a.pad = 0; }
      }
      fclose( f );
   }
   g_sc = -1;
   for( size_t i = 0; i < list.size(); i++ ) if( list[ i ].name == name ) g_sc = (int) i;
   if( g_sc < 0 ){ fprintf( stderr, "no scenario %s\n", name.c_str() ); _exit( 2 ); }
   if( bound < 0 ) bound = tier == "thorough" ? list[ g_sc ].thorough : list[ g_sc ].quick;
   opt.fork_each = list[ g_sc ].fork_each;
   opt.cache = list[ g_sc ].cache;
   if( const char *e = getenv( "VPMC_CACHE" ) ) { opt.cache = *e == '1'; opt.cache_from = 0; }
   auto m = []( u64 a, u64 n )
   {
      if( mmap( (void*) a, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) != (void*) a )
      { fprintf( stderr, "vpmc: cannot map shared\n" ); _exit( 3 ); }
   };
   m( SHARE, UNIV / 8 * sizeof( Loc ) );
   m( GSHARE, GSHARESZ );
   m( CTRL, ( 2ull << 30 ) + (u64) MAXW * STKCAP * sizeof( Item ) );
   static_assert( sizeof( Ctrl ) < ( 2ull << 30 ), "" );
   for( int i = 0; i < MAXT; i++ ) mprotect( (void*)( STKBASE + i * STKSZ ), 4096, PROT_NONE );
   static char ob[ 65536 ], eb[ 4096 ];
   /* keep a private copy of stdout for the report; the code under test prints to /dev/null */
   const int rep( dup( 1 ) ); 
   const int nul( open( "/dev/null", O_WRONLY ) );
   dup2( nul, 1 ); if( replay.empty() ) dup2( nul, 2 );
   setvbuf( stdout, ob, _IOFBF, sizeof( ob ) ); setvbuf( stderr, eb, _IOFBF, sizeof( eb ) );
   printf( " " ); fflush( stdout ); fprintf( stderr, " " ); fflush( stderr );
   std::cout << 1 << 1.5 << std::endl; std::cerr << 1 << std::endl;
   { std::string r; char b[ 8 ]; snprintf( b, sizeof( b ), "%d", 3 ); r = b; }
   try{ throw 1; }catch( int ){}
   take_snapshot();

   if( ! replay.empty() )
   {
      char msg[ 2048 ]; char b[ 2048 ];
      const int r( run_fresh( rit, msg, sizeof( msg ), true ) );
      print_item( b, sizeof( b ), rit );
      dprintf( rep, "scenario %s schedule %s: %s %s\n", name.c_str(), b, r == 1 ? "VIOLATED" : ( r == 2 ? "DIVERGED" : "held" ), msg );
      _exit( r );
   }

   const double t0( mono() ), deadline( t0 + opt.time );
   int done( -1 ); int passes( 0 );
   u64 tot_exec( 0 ), tot_points( 0 ), tot_edges( 0 ), tot_ev( 0 ), tot_pr( 0 ), tot_div( 0 ), all_exec( 0 );
   bool capped( false ); 
   for( int b = 0; b <= bound && ! capped; b++ )
   {
      for( int rep_i = 0; rep_i < 6; rep_i++ )
      {
         pass( b, deadline ); passes++;
         tot_exec = tot_points = tot_edges = tot_ev = tot_pr = tot_div = 0;
         for( int i = 0; i < MAXW; i++ )
         { tot_exec += C.w[ i ].execs; tot_points += C.w[ i ].points; tot_edges += C.w[ i ].edges; tot_ev += C.w[ i ].events; tot_pr += C.w[ i ].pruned; tot_div += C.w[ i ].div; }
         all_exec += tot_exec;
         if( C.nviol || C.capped ){ capped = C.capped; break; }
         if( ! C.grew || b == 0 ) break;
      }
      if( C.nviol ) break;
      if( ! capped ) done = b;
   }
   /* confirm */
   int confirmed( -1 ); char cm[ 2048 ]; cm[ 0 ] = 0; u32 unconf( 0 );
   for( u32 i = 0; i < C.nviol && i < 16 && confirmed < 0; i++ )
   {
      if( ! C.viol[ i ].used ) continue;
      char m1[ 2048 ], m2[ 2048 ];
      if( run_fresh( C.viol[ i ].it, m1, sizeof( m1 ), false ) == 1 && run_fresh( C.viol[ i ].it, m2, sizeof( m2 ), false ) == 1 )
      { confirmed = i; snprintf( cm, sizeof( cm ), "%s", m1 ); }
      else unconf++;
   }
   FILE *f( out.empty() ? fdopen( rep, "w" ) : fopen( out.c_str(), "w" ) );
   fprintf( f, "{\"scenario\":" ); jstr( f, name.c_str() );
   fprintf( f, ",\"bound\":%d,\"bound_completed\":%d,\"capped\":%s,\"passes\":%d,\"executions\":%llu,\"executions_all_passes\":%llu,\"points\":%llu,\"branches\":%llu,\"events\":%llu,\"pruned\":%llu,\"states_deduped\":%llu,\"divergences\":%llu,\"distinct_outcomes\":%llu,\"max_threads\":%u,\"max_events\":%llu,\"shared_locations\":%llu,\"known_hits\":%u,\"unconfirmed\":%u,\"seen_overflow\":%u,\"wall_s\":%.3f",
      bound, done, capped ? "true" : "false", passes, (unsigned long long) tot_exec, (unsigned long long) all_exec, (unsigned long long) tot_points,
      (unsigned long long) tot_edges, (unsigned long long) tot_ev, (unsigned long long) tot_pr, (unsigned long long) C.nseen, (unsigned long long) tot_div, (unsigned long long) C.nout,
      C.maxthr, (unsigned long long) C.maxev, (unsigned long long) C.nloc, C.nknown, unconf, C.seenovr, mono() - t0 );
   if( tot_div ){ fprintf( f, ",\"divergence\":" ); jstr( f, C.divmsg ); }
   fprintf( f, ",\"samples\":[" );
   for( u32 i = 0; i < C.nsample && i < 8; i++ ){ if( i ) fputc( ',', f ); jstr( f, C.sample[ i ] ); }
   fprintf( f, "]" );
   auto dump = [&]( const char *k, Viol &v, const char *msg )
   {
      char b[ 4096 ]; print_item( b, sizeof( b ), v.it );
      fprintf( f, ",\"%s\":{\"message\":", k ); jstr( f, msg );
      fprintf( f, ",\"schedule\":" ); jstr( f, b );
      fprintf( f, ",\"log\":" ); jstr( f, v.notes );
      fprintf( f, ",\"alter\":[" );
      for( int i = 0; i < v.it.n; i++ ) fprintf( f, "%s[%u,%u,%u,%u]", i ? "," : "", v.it.a[ i ].ev, v.it.a[ i ].kind, v.it.a[ i ].val, v.it.a[ i ].tid );
      fprintf( f, "]}" );
   };
   if( confirmed >= 0 ) dump( "violation", C.viol[ confirmed ], cm );
   else if( C.nviol ) dump( "unconfirmed_violation", C.viol[ 0 ], C.viol[ 0 ].msg );
   if( C.nknown ) dump( "known", C.knownv[ 0 ], C.knownv[ 0 ].msg );
   fprintf( f, "}\n" );
   fflush( f );
   _exit( confirmed >= 0 ? 1 : 0 );
}
} /* vpmc */
