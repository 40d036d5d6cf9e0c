/* kernels with built-in checks, shared by the harnesses that execute whole graphs */
#ifndef RT_H
#define RT_H 1
#include "fifo_util.h"
namespace rt
{
using namespace el;
/* what each sink slot received */
struct Rec { int n; int v[ 128 ]; int s[ 128 ]; };
constexpr int SLOTS = 16;
inline Rec R[ SLOTS ];
inline int destroyed;            /* kernels destroyed */
inline int inside;               /* map::exe() calls in progress */
inline int starts;               /* run() entered */
/* every execution of a map goes through here: no kernel may run outside of it */
VP_QUIET inline void in_exe( int d ){ vpmc::quiet( &inside ); inside += d; }
template < class M > void go( M &m ){ in_exe( 1 ); m.exe(); in_exe( -1 ); }
VP_QUIET inline void rec( int s, int v ){ if( s < 0 || s >= SLOTS ) vpmc::fail( "harness: slot %d", s ); vpmc::quiet( &R[ s ] ); if( R[ s ].n < 128 ){ R[ s ].v[ R[ s ].n ] = v; R[ s ].s[ R[ s ].n ] = raft::none; } R[ s ].n++; vpmc::progress(); vpmc::observe( s * 1000 + v ); }
inline bool foreign;             /* streams may be fed by the library's own kernels */
inline unsigned long inb[ 64 ];  /* thread entered or left run() of one of ours so many times */
VP_QUIET inline void reset(){ for( auto &r : R ) r.n = 0; destroyed = 0; inside = 0; starts = 0; for( auto &b : inb ) b = 0; }
/** how often other threads entered or left a run(); 0 if one is inside and may
 * be in the middle of a push **/
VP_QUIET inline unsigned long idle()
{
   if( foreign ) return( 0 );
   const int me( vpmc::self() ); unsigned long y( 1 ); bool in( false );
   for( int i = 0; i < 64; i++ ) if( i != me ){ vpmc::quiet( &inb[ i ], false ); y += inb[ i ]; in = in || ( inb[ i ] & 1 ); }
   return( in ? 0 : y );
}
/** slot s received exactly base+1 .. base+n, in order **/
VP_QUIET inline void want( int s, int n, int base = 0 )
{
   vpmc::quiet( &R[ s ], false );
   VP_CHECK( R[ s ].n == n, "sink %d received %d of %d elements", s, R[ s ].n, n );
   for( int i = 0; i < n; i++ ) VP_CHECK( R[ s ].v[ i ] == base + i + 1, "sink %d: element %d is %d, not %d", s, i, R[ s ].v[ i ], base + i + 1 );
}
/* the signal a source that uses them sends with its element i of n: the last one has one,
 * of the others some have the same, some another and some none */
constexpr raft::signal sig_at( int i, int n ){ return( i == n || i % 3 == 0 ? SIGA : i % 3 == 1 ? SIGB : raft::none ); }
/** every element in slot s came with the signal it was sent with; with a unit, element x of
 * source k, which sent n - dec * k elements, is numbered k * unit + x **/
VP_QUIET inline void want_sig( int s, int n, int unit = 1 << 20, int dec = 0 )
{
   vpmc::quiet( &R[ s ], false );
   for( int j = 0; j < R[ s ].n && j < 128; j++ )
   {
      const int k( ( R[ s ].v[ j ] - 1 ) / unit ), x( ( R[ s ].v[ j ] - 1 ) % unit + 1 ), w( sig_at( x, n - dec * k ) );
      VP_CHECK( R[ s ].s[ j ] == w, "element %d, sent with signal %d, was received with signal %d", R[ s ].v[ j ], w, R[ s ].s[ j ] );
   }
}
/** slot s received a permutation of 1..n **/
VP_QUIET inline void want_set( int s, int n )
{
   vpmc::quiet( &R[ s ], false );
   VP_CHECK( R[ s ].n == n, "sink %d received %d of %d elements", s, R[ s ].n, n );
   for( int k = 1; k <= n; k++ )
   {
      int c( 0 ); for( int i = 0; i < n; i++ ) c += R[ s ].v[ i ] == k;
      VP_CHECK( c == 1, "sink %d received element %d %d times", s, k, c );
   }
}
VP_QUIET inline void clean( const char *when = "after the run" )
{
   VP_CHECK( vpmc::live_threads() == 0, "%d threads left %s", vpmc::live_threads(), when );
   VP_CHECK( L.n == 0 && L.made == L.gone, "%ld elements made, %ld destroyed %s", L.made, L.gone, when );
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed %s", vpmc::live_blocks(), vpmc::live_bytes(), when );
}

/* base: run() is never entered twice at once, by two threads at once, after the
 * kernel stopped, or before its ports have streams */
struct Base : raft::kernel
{
   bool inrun = false, ended = false; int runs = 0, thread = -1; int limit = 1 << 30;
   Base() : raft::kernel(){}
   Base( void *p, std::size_t bytes ) : raft::kernel( p, bytes ){}
   Base( const Base &o ) : raft::kernel(){ limit = o.limit; }
   virtual ~Base(){ bump(); }
   VP_QUIET void bump(){ vpmc::quiet( this ); VP_CHECK( ! inrun, "kernel destroyed while it runs" ); destroyed++; inrun = true; }
   VP_QUIET void enter()
   {
      vpmc::quiet( &inside, false ); vpmc::quiet( this );
      VP_CHECK( inside > 0, "a kernel runs outside of exe()" ); starts++;
      VP_CHECK( ! inrun, "run() entered while it is running" );
      VP_CHECK( ! ended, "run() called after the kernel stopped" );
      VP_CHECK( vpmc::self() != 0, "kernel run on the caller's thread" );
      VP_CHECK( thread == -1 || thread == vpmc::self(), "a kernel moved between two threads" );
      thread = vpmc::self(); inrun = true; runs++;
      vpmc::quiet( &inb[ thread & 63 ] ); inb[ thread & 63 ]++;
   }
   VP_QUIET raft::kstatus leave( raft::kstatus s )
   {
      vpmc::quiet( this ); vpmc::quiet( &inb[ thread & 63 ] );
      inrun = false; inb[ thread & 63 ]++;
      if( s == raft::stop ) ended = true;
      return( s );
   }
   virtual raft::kstatus body() = 0;
   virtual raft::kstatus run() final { enter(); return( leave( body() ) ); }
   /* how many of the first `ins` inputs have elements */
   int have( int ins ){ int h( 0 ); for( int k = 0; k < ins; k++ ) h += avail( std::to_string( k ) ); return( h ); }
   bool avail( const std::string &p ){ return( input[ p ].size() > 0 ); }
   /* size() under-reports a full stream while the push that filled it has moved
    * the position but not yet counted the lap: while another kernel is inside its
    * run(), zero is read again after letting it go on */
   void has_data( int ins = 1, int need = 1 )
   {
      int h( 0 ); unsigned long t;
      for( int i = 0; i < 50; i++, vpmc::yield() )
      {
         t = idle();
         if( ( h = have( ins ) ) >= need ) return;
         if( t != 0 && t == idle() ) break;   /* nobody sent anything meanwhile */
      }
      VP_CHECK( h > 0, "run() called without input data" );
      VP_CHECK( h >= need, "run() called with data on %d of %d inputs", h, ins );
   }
};

enum Style { PLAIN, SCOPED, PEEK, RANGE, ASEND };

/* source: n elements, ids base+1.. to every one of its ports, with signals as sig_at() says if sig */
template < class T > struct Src : Base
{
   int i = 0, n, base, outs; Style st; bool sig; int nap;
   Src( int n, int base = 0, int outs = 1, Style st = PLAIN, bool sig = false, int nap = 0 ) : n( n ), base( base ), outs( outs ), st( st ), sig( sig ), nap( nap )
   { for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   Src( const Src &o ) : Src( o.n, o.base, o.outs, o.st, o.sig, o.nap ){}
   CLONE();
   virtual raft::kstatus body()
   {
      if( i == n ) return( raft::stop );
      if( nap ) std::this_thread::sleep_for( std::chrono::milliseconds( nap ) );
      i++;
      const raft::signal s( sig ? sig_at( i, n ) : raft::none );
      for( int k = 0; k < outs; k++ )
      {
         FIFO &f( output[ std::to_string( k ) ] );
         switch( st )
         {
            case SCOPED: { auto e( alloc_s< T >( f, base + i ) ); e.sig() = s; } break;
            case ASEND: { alloc< T >( f, base + i ); f.send( s ); } break;
            default: f.template push< T >( Tr< T >::make( base + i ), s );
         }
      }
      return( i == n ? raft::stop : raft::proceed );
   }
};
/* one in, `outs` out: forwards each element to every output */
template < class T > struct Pass : Base
{
   int outs; Style st; int maxn, i = 0;
   Pass( int outs = 1, Style st = PLAIN, int maxn = -1 ) : outs( outs ), st( st ), maxn( maxn )
   { input.addPort< T >( "0" ); for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   Pass( const Pass &o ) : Pass( o.outs, o.st, o.maxn ){}
   CLONE();
   virtual raft::kstatus body()
   {
      has_data();
      FIFO &in( input[ "0" ] );
      raft::signal s( raft::none );
      switch( st )
      {
         case SCOPED:
         {
            auto e( in.template pop_s< T >() ); s = e.sig();
            for( int k = 0; k < outs; k++ ) output[ std::to_string( k ) ].template push< T >( *e, s );
         }
         break;
         case PEEK:
         {
            T &e( in.template peek< T >( &s ) );
            for( int k = 0; k < outs; k++ ) output[ std::to_string( k ) ].template push< T >( e, s );
            in.recycle( 1 );
         }
         break;
         default:
         {
            T v( Tr< T >::make( 0 ) ); in.template pop< T >( v, &s );
            for( int k = 0; k < outs; k++ ) output[ std::to_string( k ) ].template push< T >( v, s );
         }
      }
      i++;
      return( i == maxn ? raft::stop : raft::proceed );
   }
};
/* sink with `ins` inputs, port k recorded in slot + k; any_port: takes from
 * every port with data; all_port: takes one from each */
template < class T > struct Snk : Base
{
   int slot, ins; Style st; bool all; int nap;
   int sigs = 0;
   Snk( int slot = 0, int ins = 1, Style st = PLAIN, bool all = false, int nap = 0 ) : slot( slot ), ins( ins ), st( st ), all( all ), nap( nap )
   { for( int k = 0; k < ins; k++ ) input.addPort< T >( std::to_string( k ) ); if( all ) sched_behav = raft::all_port; }
   Snk( const Snk &o ) : Snk( o.slot, o.ins, o.st, o.all, o.nap ){}
   CLONE();
   void take( FIFO &in, int k )
   {
      raft::signal s( raft::none );
      switch( st )
      {
         case SCOPED: { auto e( in.template pop_s< T >() ); rec( slot + k, Tr< T >::id( *e ) ); s = e.sig(); } break;
         case PEEK: { T &e( in.template peek< T >( &s ) ); rec( slot + k, Tr< T >::id( e ) ); in.recycle( 1 ); } break;
         default: { T v( Tr< T >::make( 0 ) ); in.template pop< T >( v, &s ); rec( slot + k, Tr< T >::id( v ) ); }
      }
      note_sig( s, slot + k );
   }
   VP_QUIET void note_sig( raft::signal s, int sl )
   {
      if( s != raft::none ) sigs++;
      VP_CHECK( s == SIGA || s == SIGB || s == raft::none, "stray signal %d", (int) s );
      if( R[ sl ].n <= 128 ) R[ sl ].s[ R[ sl ].n - 1 ] = s;
   }
   virtual raft::kstatus body()
   {
      has_data( ins, all ? ins : 1 );
      if( nap ) std::this_thread::sleep_for( std::chrono::milliseconds( nap ) );
      for( int k = 0; k < ins; k++ )
      {
         FIFO &f( input[ std::to_string( k ) ] );
         if( all || avail( std::to_string( k ) ) ) take( f, k );
      }
      return( raft::proceed );
   }
};
/* long histories: elements numbered as far as it goes, a signal now and then;
 * the sink keeps no record but knows what comes next from each source */
template < class T > struct Num { static T make( int i ){ return( Tr< T >::make( i ) ); } static int num( const T &v ){ return( (int) Tr< T >::id( v ) ); } };
template <> struct Num< int > { static int make( int i ){ return( i ); } static int num( const int &v ){ return( v ); } };
constexpr raft::signal sig_of( int i ){ return( i % 7 == 3 ? SIGA : i % 11 == 5 ? SIGB : raft::none ); }
template < class T > struct LSrc : Base
{
   int i = 0, n, base, outs; LSrc( int n, int base = 0, int outs = 1 ) : n( n ), base( base ), outs( outs ){ for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      i++; for( int k = 0; k < outs; k++ ) output[ std::to_string( k ) ].template push< T >( Num< T >::make( base + i ), sig_of( i ) );
      vpmc::progress(); return( i == n ? raft::stop : raft::proceed );
   }
};
template < class T > struct LSnk : Base
{
   /* element base * unit + x is the x-th of source base; step: it gets one of so many, 0: in order, but any of them */
   int ins, unit, step, got = 0, last[ 16 ] = {};
   LSnk( int ins = 1, int unit = 100000, int step = 1 ) : ins( ins ), unit( unit ), step( step ){ for( int k = 0; k < ins; k++ ) input.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      has_data( ins );
      for( int k = 0; k < ins; k++ ) if( avail( std::to_string( k ) ) )
      {
         raft::signal s( raft::none ); T v( Num< T >::make( 0 ) ); input[ std::to_string( k ) ].template pop< T >( v, &s );
         const int id( Num< T >::num( v ) ), b( id / unit ), x( id % unit );
         VP_CHECK( b >= 0 && b < 16, "a number nobody sent: %d", id );
         if( step ) VP_CHECK( x == last[ b ] + step, "element %d of source %d was received after element %d", x, b, last[ b ] ); else VP_CHECK( x > last[ b ], "element %d of source %d was received after element %d", x, b, last[ b ] );
         VP_CHECK( s == sig_of( x ), "element %d, sent with signal %d, was received with signal %d", x, (int) sig_of( x ), (int) s );
         last[ b ] = x; got++;
      }
      vpmc::progress(); return( raft::proceed );
   }
};
}
#endif
