// PROPS: C10 C15 C20 C22 C25 C26 C27 C28
/* other configurations of the runtime: allocators, partitioners, growth of
 * streams, ownership of elements passed on without a copy, system signals */
#include "rt.h"
#include <raftmanip>
#include <affinity>
#include <cstdlib>
#include <memory>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace rt;
namespace
{
/* ---------- C22: growth of streams whose capacity was left open */
/* the library's monitor, starting from streams of 2 instead of 64 */
struct small_alloc : dynalloc
{
   using dynalloc::dynalloc;
   virtual void allocate( PortInfo &a, PortInfo &b, void *data )
   {
      if( a.fixed_buffer_size != 0 || a.existing_buffer != nullptr ){ dynalloc::allocate( a, b, data ); return; }
      a.fixed_buffer_size = 2;
      dynalloc::allocate( a, b, data );
      a.fixed_buffer_size = 0;
   }
};
int caps[ 64 ], ncaps;   /* capacities seen by the source */
VP_QUIET void saw( int c ){ vpmc::quiet( caps ); vpmc::observe( 7000 + c ); if( ncaps == 0 || caps[ ncaps - 1 ] != c ) if( ncaps < 64 ) caps[ ncaps++ ] = c; }
/* a source that looks at the capacity of its stream before every send */
template < class T > struct CapSrc : Base
{
   int i = 0, n, fixed, outs; bool sig; int pause;
   CapSrc( int n, int fixed = 0, int outs = 1, bool sig = false, int pause = 0 ) : n( n ), fixed( fixed ), outs( outs ), sig( sig ), pause( pause ){ for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      if( i == n ) return( raft::stop );
      i++;
      /* sends as fast as it can, then lets the stream run empty */
      if( pause && i % pause == 0 ) std::this_thread::sleep_for( std::chrono::milliseconds( pause > 50 ? 250 : 20 ) );
      for( int k = 0; k < outs; k++ )
      {
         FIFO &f( output[ std::to_string( k ) ] );
         const int c( f.capacity() );
         if( fixed && k == 0 ) VP_CHECK( c == fixed, "a stream asked for with capacity %d has capacity %d", fixed, c );
         else { saw( c ); }
         const raft::signal sg( sig ? sig_at( i, n ) : raft::none );
         if( i & 1 ) f.template push< T >( Tr< T >::make( i ), sg );
         else { T &e( f.template allocate< T >() ); Tr< T >::set( e, i ); f.send( sg ); }
      }
      return( i == n ? raft::stop : raft::proceed );
   }
};
VP_QUIET void capsane( int start )
{
   int last( 0 );
   for( int i = 0; i < ncaps; i++ )
   {
      VP_CHECK( caps[ i ] > last, "the capacity of a stream went from %d to %d", last, caps[ i ] );
      int p( start ); while( p < caps[ i ] ) p *= 2;
      VP_CHECK( p == caps[ i ] || ncaps == 0, "the capacity of a stream of %d became %d", start, caps[ i ] );
      last = caps[ i ];
   }
}
template < class A, class T > void grow( int n, int start, int nap, int pause, bool sig = false, Style st = PLAIN, int bound = 0 )
{
   reset(); ncaps = 0;
   { CapSrc< T > g( n, bound, 1, sig, pause ); Snk< T > k( 0, 1, st, false, nap ); raft::map m; m.link( &g, "0", &k, "0", bound );
     inside++; m.exe< partition_dummy, simple_schedule, A, no_parallel >(); inside--;
     want( 0, n ); if( sig ) want_sig( 0, n ); capsane( start ); }
   clean();
}
/* a large fixed capacity, kept full for a long time */
struct SlowCnt : Base
{
   int got = 0, nap; SlowCnt( int nap ) : nap( nap ){ input.addPort< int >( "0" ); }
   virtual raft::kstatus body()
   {
      has_data(); std::this_thread::sleep_for( std::chrono::milliseconds( nap ) );
      int v; input[ "0" ].pop< int >( v ); got++; VP_CHECK( v == Tr< int >::make( got ), "something else was received as the %d-th element", got ); vpmc::progress();
      return( raft::proceed );
   }
};
void fixed_big( int c )
{
   reset(); ncaps = 0;
   { CapSrc< int > g( c + 60, c, 1, false, c + 30 ); SlowCnt k( 4 ); raft::map m; m.link( &g, "0", &k, "0", c );
     inside++; m.exe< partition_dummy, simple_schedule, dynalloc, no_parallel >(); inside--; VP_CHECK( k.got == c + 60, "%d elements received of %d", k.got, c + 60 ); }
   clean();
}
/* a link of fixed capacity next to one that may grow */
template < class T > void grow_mixed( int n, int nap )
{
   reset(); ncaps = 0;
   { CapSrc< T > g( n, 2, 2, false, 8 ); Snk< T > a( 0, 1, PLAIN, false, nap ), b( 1, 1, PLAIN, false, nap ); raft::map m; m.link( &g, "0", &a, "0", 2 ); m.link( &g, "1", &b, "0" );
     inside++; m.exe< partition_dummy, simple_schedule, small_alloc, no_parallel >(); inside--; want( 0, n ); want( 1, n ); capsane( 2 ); }
   clean();
}
/* growth in the middle of a graph, three kernels */
template < class T > void grow3( int n, int nap, Style st )
{
   reset(); ncaps = 0;
   { CapSrc< T > g( n, 0, 1, false, 8 ); Pass< T > p( 1, st ); Snk< T > k( 0, 1, st, false, nap ); raft::map m; m.link( &g, "0", &p, "0" ); m.link( &p, "0", &k, "0" );
     inside++; m.exe< partition_dummy, simple_schedule, small_alloc, no_parallel >(); inside--; want( 0, n ); capsane( 2 ); }
   clean();
}

/* ---------- C10 / C20: the other allocator and monitors */
template < class P, class A, class M, class T > void config( int n, int cap )
{
   reset();
   { Src< T > g( n, 0, 2, PLAIN, true ); Pass< T > p, q; Snk< T > k( 0, 2 ); raft::map m;
     m.link( &g, "0", &p, "0", cap ); m.link( &g, "1", &q, "0", cap ); m.link( &p, "0", &k, "0", cap ); m.link( &q, "0", &k, "1", cap );
     inside++; m.exe< P, simple_schedule, A, M >(); inside--; want( 0, n ); want( 1, n ); want_sig( 0, n ); want_sig( 1, n ); }
   clean();
}
struct CapOnly : Base
{
   int c0, c1; CapOnly( int a, int b ) : c0( a ), c1( b ){ output.addPort< int >( "0", "1" ); }
   virtual raft::kstatus body()
   {
      FIFO &a( output[ "0" ] ), &b( output[ "1" ] ); VP_CHECK( &a != &b, "two ports share a stream" );
      VP_CHECK( (int) a.capacity() == c0 && (int) b.capacity() == c1, "streams asked for with capacities %d and %d have %d and %d", c0, c1, (int) a.capacity(), (int) b.capacity() );
      for( int i = 0; i < c0 && i < 8; i++ ) a.push< int >( Tr< int >::make( i + 1 ) );
      for( int i = 0; i < c1 && i < 8; i++ ) b.push< int >( Tr< int >::make( 11 + i ) );
      return( raft::stop );
   }
};
template < class A > void caps2( int c0, int c1, int w0, int w1 )
{
   reset();
   { CapOnly g( w0, w1 ); Snk< int > a( 0 ), b( 1 ); raft::map m; m.link( &g, "0", &a, "0", c0 ); m.link( &g, "1", &b, "0", c1 );
     inside++; m.exe< partition_dummy, simple_schedule, A, no_parallel >(); inside--; want( 0, std::min( w0, 8 ) ); want( 1, std::min( w1, 8 ), 10 ); }
   clean();
}
/* every capacity is honoured, not only the small ones, and all of it can be used */
struct Filler : Base
{
   int c; Filler( int c ) : c( c ){ output.addPort< int >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &a( output[ "0" ] );
      VP_CHECK( (long) a.capacity() == c, "a stream asked for with capacity %d has capacity %ld", c, (long) a.capacity() );
      for( int i = 0; i < c; i++ ){ VP_CHECK( (long) a.space_avail() >= c - i && (long) a.space_avail() <= c, "a stream of capacity %d with at most %d elements has room for %ld", c, i, (long) a.space_avail() ); a.push< int >( i + 1 ); vpmc::progress(); }
      return( raft::stop );
   }
};
struct Drain : Base
{
   int c, i = 0; Drain( int c ) : c( c ){ input.addPort< int >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &f( input[ "0" ] ); if( i == 0 ) VP_CHECK( (long) f.capacity() == c, "a stream asked for with capacity %d has capacity %ld at its reader", c, (long) f.capacity() );
      int v; f.pop< int >( v ); i++; vpmc::progress(); VP_CHECK( v == i, "element %d is %d", i, v );
      return( raft::proceed );
   }
};
template < class A > void caps_all()
{
   static const int C[] = { 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 255, 257, 1000, 1023, 1025, 4095, 4096, 4097, 5000 };
   const int c( C[ vpmc::choose( vpmc::thorough() ? 24 : 20 ) ] );
   reset();
   { Filler g( c ); Drain d( c ); raft::map m; m.link( &g, "0", &d, "0", c );
     in_exe( 1 ); m.exe< partition_dummy, simple_schedule, A, no_parallel >(); in_exe( -1 ); VP_CHECK( d.i == c, "%d of %d elements arrived", d.i, c ); }
   clean();
}
/* large ones, looked at only */
template < class A > void caps_big()
{
   static const int C[] = { 2048, 4096, 4097, 5000, 8191, 10000, 32768, 65535, 65536, 65537, 100000, 1 << 20, ( 1 << 20 ) + 1 };
   const int c( C[ vpmc::choose( 13 ) ] );
   caps2< A >( c, 3, c, 3 );
}

/* ---------- C25: kernels run on the cores they are assigned to */
/* the number of cores of the machine is explored too */
unsigned vp_cores = 8;
struct Pin { int n; long core; }; Pin pins[ 32 ];
VP_QUIET void on_pin( long c ){ const int s( vpmc::self() ); if( s < 32 ){ pins[ s ].n++; pins[ s ].core = c; } }
VP_QUIET void pin_reset(){ for( auto &p : pins ) p = { 0, -1 }; vp_affinity_hook = on_pin; }
struct PinSrc : Base
{
   long want_core; int n; PinSrc( long w, int n ) : want_core( w ), n( n ){ output.addPort< int >( "0" ); }
   long group() const { return( affinity_group ); }
   virtual raft::kstatus body(){ chk( this, want_core ); if( n-- > 0 ) output[ "0" ].push< int >( 1 ); return( n > 0 ? raft::proceed : raft::stop ); }
   VP_QUIET static void chk( Base *b, long w )
   {
      const Pin &p( pins[ b->thread ] );
      if( w == -2 ) return;
      if( w < 0 ) VP_CHECK( p.n == 0, "a kernel without a core was pinned to core %ld", p.core );
      else { VP_CHECK( p.n > 0, "a kernel assigned to core %ld runs unpinned", w ); VP_CHECK( p.core == w, "a kernel assigned to core %ld was pinned to core %ld", w, p.core ); }
   }
};
struct PinSnk : Base
{
   long want_core; PinSnk( long w ) : want_core( w ){ input.addPort< int >( "0" ); }
   long group() const { return( affinity_group ); }
   virtual raft::kstatus body(){ PinSrc::chk( this, want_core ); int v( 0 ); input[ "0" ].pop< int >( v ); rec( 0, 1 ); return( raft::proceed ); }
};
template < class P > void pinned( int how )
{
   reset(); pin_reset();
   {
      using namespace raft::parallel;
      const bool basic( std::is_same< P, partition_basic >::value );
      vp_cores = basic ? 1 + vpmc::choose( 2 ) : 8;
      const long a( how == 0 ? -1 : how == 1 ? 3 : 0 ), b( how == 0 ? -1 : how == 1 ? -1 : 5 );
      PinSrc g( basic ? -2 : a, 2 ); PinSnk k( basic ? -2 : b ); raft::map m; m.link( &g, "0", &k, "0", 2 );
      if( how == 1 )
      {
         auto r( raft::manip< device< cpu, 3 >, affinity_group< 1 > >::bind( g ) ); VP_CHECK( r.size() == 1 && &r[ 0 ].get() == &g, "the list of manipulated kernels is wrong" );
         VP_CHECK( g.getCoreAssignment() == 3 && k.getCoreAssignment() == -1, "the core assignments are %d and %d", (int) g.getCoreAssignment(), (int) k.getCoreAssignment() );
         VP_CHECK( g.group() == 1 && k.group() == -1, "the affinity groups are %d and %d", (int) g.group(), (int) k.group() );
      }
      if( how == 2 ) { raft::manip< device< cpu, 0 > >::bind( g, k ); raft::manip< device< cpu, 5 > >::bind( k ); }
      inside++; m.exe< P, simple_schedule, stdalloc, no_parallel >(); inside--;
      VP_CHECK( R[ 0 ].n == 2, "%d of 2 elements arrived", R[ 0 ].n );
      if( basic )
      {
         const long ca( g.getCoreAssignment() ), cb( k.getCoreAssignment() ), nc( std::thread::hardware_concurrency() );
         VP_CHECK( ca >= 0 && ca < nc && cb >= 0 && cb < nc, "cores %ld and %ld of %ld", ca, cb, nc );
         VP_CHECK( nc < 2 || ca != cb, "two kernels on core %ld of %ld", ca, nc );
         PinSrc::chk( &g, ca ); PinSrc::chk( &k, cb );
      }
      else { VP_CHECK( g.getCoreAssignment() == a && k.getCoreAssignment() == b, "running a graph changed the core assignments" ); }
   }
   vp_affinity_hook = nullptr;
   clean();
}
/* machines with many cores: the number arrives as it was given */
template < int C > void far_core()
{
   reset(); pin_reset(); vp_cores = C + 1;
   {
      using namespace raft::parallel;
      PinSrc g( C, 2 ); PinSnk k( C / 2 ); raft::map m; m.link( &g, "0", &k, "0", 2 );
      raft::manip< device< cpu, C > >::bind( g ); raft::manip< device< cpu, C / 2 > >::bind( k );
      inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--;
      VP_CHECK( R[ 0 ].n == 2, "%d of 2 elements arrived", R[ 0 ].n );
      VP_CHECK( g.getCoreAssignment() == C && k.getCoreAssignment() == C / 2, "running a graph changed the core assignments" );
   }
   vp_affinity_hook = nullptr; vp_cores = 8;
   clean();
}
void far_cores()
{
   switch( vpmc::choose( 9 ) )
   {
      case 0: far_core< 15 >(); break; case 1: far_core< 31 >(); break; case 2: far_core< 64 >(); break;
      case 3: far_core< 127 >(); break; case 4: far_core< 128 >(); break; case 5: far_core< 255 >(); break;
      case 6: far_core< 256 >(); break; case 7: far_core< 1000 >(); break; default: far_core< 40000 >();
   }
}
/* many kernels over the available cores: balanced to within one */
void balanced( int n )
{
   reset(); static const int machines[] = { 1, 2, 3, 5, 8, 16 }; vp_cores = machines[ vpmc::choose( 6 ) ];
   {
      std::vector< Snk< int >* > k; kernelkeeper kk;
      for( int i = 0; i < n; i++ ){ k.push_back( new Snk< int >() ); kk += k.back(); }
      VP_CHECK( (int) kk.size() == n, "a set of %d kernels has %d", n, (int) kk.size() );
      /* some of them had a core before */
      const int pre( n ? vpmc::choose( 4 ) : 0 );
      for( int i = 0; i < n; i++ ) if( pre == 3 || ( pre == 1 && i == 0 ) || ( pre == 2 && ( i & 1 ) ) ) raft::manip< raft::parallel::device< raft::parallel::cpu, 2 > >::bind( *k[ i ] );
      partition_basic p; p.partition( kk );
      const int nc( std::thread::hardware_concurrency() ); std::vector< int > c( nc, 0 );
      for( auto *x : k ){ const int a( x->getCoreAssignment() ); VP_CHECK( a >= 0 && a < nc, "core %d of %d", a, nc ); c[ a ]++; }
      int lo( n ), hi( 0 ); for( int x : c ){ lo = std::min( lo, x ); hi = std::max( hi, x ); }
      VP_CHECK( hi - lo <= 1, "between %d and %d kernels on a core", lo, hi );
      for( auto *x : k ) delete( x );
   }
   clean();
}

/* a list of kernels is manipulated: each of them is, no other, and the answer lists them in order */
template < class MOD, std::size_t... I > auto bind_first( std::vector< PinSnk* > &k, std::index_sequence< I... > )
{
   kernel_list_t r; auto a( MOD::bind( *k[ I ]... ) ); for( auto &x : a ) r.push_back( x ); return( r );
}
template < int N > void lists()
{
   reset();
   {
      using namespace raft::parallel;
      const int what( vpmc::choose( 4 ) ), core( what == 1 ? -1 : 4 ), grp( what == 0 || what == 3 ? 7 : what == 1 ? 5 : -1 );
      std::vector< PinSnk* > k; for( int i = 0; i < N + 2; i++ ) k.push_back( new PinSnk( -2 ) );
      using Seq = std::make_index_sequence< N >;
      auto r( what == 0 ? bind_first< raft::manip< device< cpu, 4 >, affinity_group< 7 > > >( k, Seq() ) :
              what == 1 ? bind_first< raft::manip< affinity_group< 5 > > >( k, Seq() ) :
              what == 2 ? bind_first< raft::manip< device< cpu, 4 > > >( k, Seq() ) :
                          bind_first< raft::manip< affinity_group< 7 >, device< cpu, 4 > > >( k, Seq() ) );
      VP_CHECK( (int) r.size() == N, "a list of %d kernels became one of %d", N, (int) r.size() );
      for( int i = 0; i < N + 2; i++ )
      {
         VP_CHECK( (int) k[ i ]->getCoreAssignment() == ( i < N ? core : -1 ), "of %d kernels bound to core %d, kernel %d is on core %d", N, core, i, (int) k[ i ]->getCoreAssignment() );
         VP_CHECK( (int) k[ i ]->group() == ( i < N ? grp : -1 ), "of %d kernels bound to group %d, kernel %d is in group %d", N, grp, i, (int) k[ i ]->group() );
         if( i < N ) VP_CHECK( &r[ i ].get() == k[ i ], "kernel %d of the list is another one", i );
      }
      for( auto *x : k ) delete( x );
   }
   clean();
}

/* ---------- C26: drawing asked for by the environment */
char dot_path[ 64 ];
void dot_look( bool ask )
{
   std::ifstream f( dot_path ); std::stringstream ss; ss << f.rdbuf(); f.close(); unlink( dot_path );
   VP_CHECK( ask == ! ss.str().empty(), "drawing %sasked for, %d characters written", ask ? "" : "not ", (int) ss.str().size() );
   if( ask ) VP_CHECK( ss.str().find( "digraph" ) != std::string::npos && ss.str().find( "->" ) != std::string::npos, "the drawing has no edge: %s", ss.str().c_str() );
}
void dot_exit( int code ){ VP_CHECK( code == 0, "exit status %d", code ); VP_CHECK( starts == 0, "the graph was run before the exit that was asked for" ); dot_look( true ); }
void dot_env( bool ask, int ex )
{
   reset();
   std::snprintf( dot_path, sizeof( dot_path ), "/tmp/vpmc-dot-%d", (int) getpid() );
   {
      unlink( dot_path );
      if( ask ) setenv( "GEN_DOT", dot_path, 1 ); else unsetenv( "GEN_DOT" );
      if( ex >= 0 ) setenv( "GEN_DOT_EXIT", std::to_string( ex ).c_str(), 1 ); else unsetenv( "GEN_DOT_EXIT" );
      Src< int > g( 1 ); Snk< int > k; raft::map m; m.link( &g, "0", &k, "0", 1 );
      const bool leaves( ask && ex == 1 );
      if( leaves ) vpmc::on_exit( dot_exit );
      go( m );
      VP_CHECK( ! leaves, "the graph was run instead of the exit that was asked for" );
      want( 0, 1 ); dot_look( ask );
   }
   VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}

/* a graph with an unconnected port is refused, drawing asked for or not */
void dot_unconnected()
{
   reset();
   {
      std::snprintf( dot_path, sizeof( dot_path ), "/tmp/vpmc-dot-%d", (int) getpid() ); unlink( dot_path );
      const bool ask( vpmc::choose( 2 ) ); const int bad( vpmc::choose( 3 ) );
      if( ask ) setenv( "GEN_DOT", dot_path, 1 ); else unsetenv( "GEN_DOT" );
      unsetenv( "GEN_DOT_EXIT" );
      Src< int > g( 1, 0, bad == 1 ? 2 : 1 ); Snk< int > k( 0, bad == 2 ? 2 : 1 ); raft::map m; m.link( &g, "0", &k, "0", 1 );
      bool un( false ); try{ go( m ); }catch( PortUnconnectedException & ){ un = true; inside = 0; }
      VP_CHECK( un == ( bad > 0 ), un ? "a connected graph was refused" : "a graph with an unconnected port was executed" );
      VP_CHECK( ! un || starts == 0, "kernels of a refused graph were started" );
      unlink( dot_path );
   }
   VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* several graphs in one program, the drawing asked for, elsewhere, or not at all */
void dot_turns()
{
   reset();
   for( int r = 0; r < 3; r++ )
   {
      const int where( vpmc::choose( 3 ) ); vpmc::note( "graph %d: %d", r, where );
      char other[ 80 ]; std::snprintf( other, sizeof( other ), "/tmp/vpmc-dot-%d-b", (int) getpid() );
      std::snprintf( dot_path, sizeof( dot_path ), "/tmp/vpmc-dot-%d", (int) getpid() ); unlink( dot_path ); unlink( other );
      if( where ) setenv( "GEN_DOT", where == 1 ? dot_path : other, 1 ); else unsetenv( "GEN_DOT" );
      unsetenv( "GEN_DOT_EXIT" );
      { Src< int > g( 1, 10 * r ); Snk< int > k( r ); raft::map m; m.link( &g, "0", &k, "0", 1 ); go( m ); want( r, 1, 10 * r ); }
      std::ifstream f( other ); std::stringstream ss; ss << f.rdbuf(); f.close(); unlink( other );
      VP_CHECK( ( where == 2 ) == ! ss.str().empty(), "graph %d: drawing %sasked for in the second file, %d characters written", r, where == 2 ? "" : "not ", (int) ss.str().size() );
      dot_look( where == 1 );
   }
   VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}

/* ---------- C27: system signals */
struct Sch : Schedule
{
   using Schedule::Schedule;
   virtual void start(){} virtual void handleSchedule( raft::kernel * const ){}
   raft::kstatus check( raft::kernel *k, void *d ){ return( checkSystemSignal( k, d, handlers ) ); }
   void on( raft::signal s, sighandler h ){ handlers.addHandler( s, h ); }
};
struct Call { int n; int who; FIFO *f; raft::kernel *k; raft::signal s; void *d; }; Call call;
template < int W, raft::kstatus RET > raft::kstatus handler( FIFO &f, raft::kernel *k, const raft::signal s, void *d ){ call.n++; call.who = W; call.f = &f; call.k = k; call.s = s; call.d = d; return( RET ); }
/* every sequence of registrations and calls against a table */
void handlers_seq( int depth )
{
   reset();
   {
      static const sighandler H[ 3 ] = { handler< 0, raft::proceed >, handler< 1, raft::stop >, handler< 2, raft::proceed > };
      static const raft::signal S[ 3 ] = { raft::quit, raft::term, SIGA };
      int model[ 3 ] = { -1, -1, -1 };
      SystemSignalHandler h; Q< int > q( 2 ); Snk< int > k; int data( 0 );
      for( int i = 0; i < depth; i++ )
      {
         const int op( vpmc::choose( 12 ) );
         if( op < 9 ){ h.addHandler( S[ op / 3 ], H[ op % 3 ] ); model[ op / 3 ] = op % 3; vpmc::note( "add %d->%d", op / 3, op % 3 ); continue; }
         const int s( op - 9 ); vpmc::note( "call %d", s );
         call = { 0, -1, nullptr, nullptr, raft::none, nullptr };
         try
         {
            const auto r( h.callHandler( S[ s ], *q.f, &k, &data ) );
            VP_CHECK( model[ s ] >= 0, "a signal without a handler was handled" );
            VP_CHECK( call.n == 1 && call.who == model[ s ], "handler %d was called %d times instead of handler %d", call.who, call.n, model[ s ] );
            VP_CHECK( call.f == q.f && call.k == &k && call.s == S[ s ] && call.d == &data, "the handler was given something else" );
            VP_CHECK( r == ( model[ s ] == 1 ? raft::stop : raft::proceed ), "the handler's answer was lost" );
         }
         catch( NoSignalHandlerFoundException &e ){ VP_CHECK( model[ s ] < 0 && call.n == 0, "a registered handler was not found" ); VP_CHECK( std::string( e.what() ).find( std::to_string( (int) S[ s ] ) ) != std::string::npos, "the message does not name the signal: %s", e.what() ); }
      }
   }
   clean();
}
template < class T > struct Two : raft::kernel { Two(){ input.addPort< T >( "a", "b" ); } virtual raft::kstatus run(){ return( raft::proceed ); } };
/* system signals other than the named ones: every value up to the limit, with and without a handler */
void sysval()
{
   reset();
   {
      static const unsigned V[ 12 ] = { 1, 2, 3, 9, 17, 254, 255, 256, 300, 1024, 4093, 4094 };
      static const unsigned U[ 5 ] = { 4095, 4096, 5000, 70000, 0x7fffffff };
      const int c( vpmc::choose( 17 ) ); const bool sys( c < 12 ); const raft::signal sg( (raft::signal)( sys ? V[ c ] : U[ c - 12 ] ) );
      const bool handled( vpmc::choose( 2 ) ); vpmc::note( "signal %u, %shandled", (unsigned) sg, handled ? "" : "not " );
      struct Mk : raft::kernel { Mk(){ output.addPort< int >( "x", "y" ); } virtual raft::kstatus run(){ return( raft::proceed ); } } src;
      Two< int > k; raft::map m; m.link( &src, "x", &k, "a", 2 ); m.link( &src, "y", &k, "b", 2 );
      volatile bool done( true ); stdalloc al( m, done ); al.run();
      FIFO &f( k.input[ "b" ] ); f.push< int >( 7, sg ); f.push< int >( 8 );
      Sch s( m ); if( handled ) s.on( sg, handler< 2, raft::stop > );
      call = { 0, -1, nullptr, nullptr, raft::none, nullptr };
      bool threw( false ); raft::kstatus r( raft::proceed );
      try{ r = s.check( &k, nullptr ); }
      catch( NoSignalHandlerFoundException &e ){ threw = true; VP_CHECK( std::string( e.what() ).find( std::to_string( (unsigned) sg ) ) != std::string::npos, "the message does not name the signal: %s", e.what() ); }
      const bool builtin( sg == raft::quit );
      VP_CHECK( threw == ( sys && ! handled && ! builtin ), "signal %u without a handler was %s", (unsigned) sg, threw ? "refused" : "accepted" );
      VP_CHECK( call.n == ( sys && handled ), "signal %u: its handler was called %d times", (unsigned) sg, call.n );
      if( call.n ) VP_CHECK( call.s == sg && call.k == &k && call.f == &f, "the handler was given something else" );
      VP_CHECK( ( r == raft::stop ) == ( sys && ( handled || builtin ) ), "the answer is %d", (int) r );
      if( ! sys )
      {
         int v( 0 ); raft::signal g( raft::none ); VP_CHECK( f.size() == 2, "an element with a signal of the user's was taken" );
         f.pop< int >( v, &g ); VP_CHECK( v == 7 && g == sg, "a signal of the user's was changed" );
      }
      else VP_CHECK( f.size() == 1, "a system signal was taken %d times", 2 - (int) f.size() );
   }
   clean();
}
/* a scheduler looks for system signals at the heads of a kernel's inputs */
struct Wire : PortInfo { };
template < class T > void sysig()
{
   reset();
   {
      static const raft::signal S[ 5 ] = { raft::none, raft::quit, raft::term, raft::eof, SIGA };
      struct Mk : raft::kernel { Mk(){ output.addPort< T >( "x", "y" ); } virtual raft::kstatus run(){ return( raft::proceed ); } } src;
      Two< T > k; raft::map m; m.link( &src, "x", &k, "a", 2 ); m.link( &src, "y", &k, "b", 2 );
      volatile bool done( true ); stdalloc al( m, done ); al.run();
      FIFO *f[ 2 ] = { &k.input[ "a" ], &k.input[ "b" ] };
      ptr_map_t in; ptr_set_t out, pk; Access::set( *f[ 0 ], &in, &out, &pk, &pk ); Access::set( *f[ 1 ], &in, &out, &pk, &pk );
      int sg[ 2 ][ 2 ], len[ 2 ];
      for( int p = 0; p < 2; p++ ){ len[ p ] = vpmc::choose( 3 ); for( int i = 0; i < len[ p ]; i++ ){ sg[ p ][ i ] = vpmc::choose( 5 ); f[ p ]->template push< T >( Tr< T >::make( 10 * p + i + 1 ), S[ sg[ p ][ i ] ] ); } }
      const bool override_( vpmc::choose( 2 ) );
      Sch s( m ); s.on( raft::term, handler< 1, raft::proceed > ); if( override_ ) s.on( raft::quit, handler< 2, raft::stop > );
      int data( 0 ); call = { 0, -1, nullptr, nullptr, raft::none, nullptr };
      const auto r( s.check( &k, &data ) );
      bool stop( false ); int calls( 0 );
      for( int p = 0; p < 2; p++ )
      {
         const int h( len[ p ] ? sg[ p ][ 0 ] : 0 ); const bool taken( h == 1 || h == 2 );
         if( h == 1 ) stop = true;
         calls += ( h == 2 ) + ( h == 1 && override_ );
         VP_CHECK( (int) f[ p ]->size() == len[ p ] - taken, "input %d has %d elements of %d, signal %d at its head", p, (int) f[ p ]->size(), len[ p ], (int) S[ h ] );
         VP_CHECK( f[ p ]->is_invalid() == ( h == 1 && ! override_ ), "input %d is %s", p, f[ p ]->is_invalid() ? "closed" : "open" );
         for( int i = taken; i < len[ p ]; i++ )
         {
            T v( Tr< T >::make( 0 ) ); raft::signal g( raft::none ); f[ p ]->template pop< T >( v, &g );
            VP_CHECK( (int) Tr< T >::id( v ) == 10 * p + i + 1 && g == S[ sg[ p ][ i ] ], "input %d: element %d with signal %d is element %d with signal %d", p, 10 * p + i + 1, (int) S[ sg[ p ][ i ] ], (int) Tr< T >::id( v ), (int) g );
         }
      }
      VP_CHECK( r == ( stop ? raft::stop : raft::proceed ), "the answer is %s", r == raft::stop ? "stop" : "proceed" );
      VP_CHECK( call.n == calls, "%d handlers were called instead of %d", call.n, calls );
      if( calls ) VP_CHECK( call.k == &k && call.d == &data && ( call.f == f[ 0 ] || call.f == f[ 1 ] ), "the handler was given something else" );
   }
   clean();
}

/* ---------- C28: elements passed on without a copy */
enum Act { FWD, DROP, COPY, SKIP, LOOK, SCOPE, HEAP, NACT };
/* one in, one out: element i is treated according to act( i ), `batch` elements per run */
template < class T > struct Mix : Base
{
   int *acts, batch, i = 0;
   Mix( int *a, int b ) : acts( a ), batch( b ){ input.addPort< T >( "0" ); output.addPort< T >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &in( input[ "0" ] ), &out( output[ "0" ] );
      for( int b = 0; b < batch && ( b == 0 || avail( "0" ) ); b++, i++ )
      {
         switch( acts[ i ] )
         {
            case FWD:  { raft::signal s( raft::none ); T &e( in.template peek< T >( &s ) ); VP_CHECK( (int) Tr< T >::id( e ) == i + 1, "peeked at element %d, not %d", (int) Tr< T >::id( e ), i + 1 ); out.template push< T >( e, s ); in.recycle( 1 ); } break;
            case DROP: { T &e( in.template peek< T >() ); VP_CHECK( (int) Tr< T >::id( e ) == i + 1, "peeked at element %d, not %d", (int) Tr< T >::id( e ), i + 1 ); in.recycle( 1 ); VP_CHECK( ! Tr< T >::ext || (int) Tr< T >::id( e ) == i + 1, "a recycled element changed during the run" ); } break;
            case COPY: { T v( Tr< T >::make( 0 ) ); raft::signal s( raft::none ); in.template pop< T >( v, &s ); out.template push< T >( v, s ); } break;
            case HEAP: { std::unique_ptr< T > v( new T( Tr< T >::make( 0 ) ) ); raft::signal s( raft::none ); in.template pop< T >( *v, &s ); out.template push< T >( *v, s ); } break;
            case SCOPE: { auto e( in.template pop_s< T >() ); out.template push< T >( *e, e.sig() ); } break;
            case SKIP: in.recycle( 1 ); break;
            case LOOK: { { T &e( in.template peek< T >() ); VP_CHECK( (int) Tr< T >::id( e ) == i + 1, "peeked at element %d, not %d", (int) Tr< T >::id( e ), i + 1 ); in.unpeek(); } T v( Tr< T >::make( 0 ) ); in.template pop< T >( v ); VP_CHECK( (int) Tr< T >::id( v ) == i + 1, "element %d was popped, not %d", (int) Tr< T >::id( v ), i + 1 ); out.template push< T >( v ); } break;
         }
      }
      return( raft::proceed );
   }
};
template < class T > void mix( int n, int batch, int stages, int fixed = -1 )
{
   reset();
   {
      int acts[ 2 ][ 4 ]; bool dead[ 4 ] = { false, false, false, false };
      static const int chain[ 7 ] = { FWD, COPY, DROP, SKIP, LOOK, SCOPE, HEAP };
      for( int i = 0; i < n; i++ ) { acts[ 0 ][ i ] = fixed >= 0 ? chain[ ( fixed + i ) % 7 ] : vpmc::choose( NACT ); dead[ i ] = acts[ 0 ][ i ] == DROP || acts[ 0 ][ i ] == SKIP; }
      for( int i = 0; i < 4; i++ ) acts[ 1 ][ i ] = FWD;
      Src< T > g( n, 0, 1, PLAIN, false ); Mix< T > a( acts[ 0 ], batch ); Snk< T > k( 0, 1, stages == 1 ? PLAIN : PEEK ); raft::map m;
      m.link( &g, "0", &a, "0", 2 ); m.link( &a, "0", &k, "0", 1 );
      inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--;
      int j( 0 ); for( int i = 0; i < n; i++ ) if( ! dead[ i ] ){ VP_CHECK( j < R[ 0 ].n && R[ 0 ].v[ j ] == i + 1, "element %d did not arrive in its place", i + 1 ); j++; }
      VP_CHECK( j == R[ 0 ].n, "%d elements arrived instead of %d", R[ 0 ].n, j );
   }
   clean();
}
/* all the elements of a run are taken first, then any of them are sent on in any order */
template < class T > struct Pick : Base
{
   int n, runs, *pick, npick, run_no = 0; bool late;
   Pick( int n, int r, int *p, int np, bool late ) : n( n ), runs( r ), pick( p ), npick( np ), late( late ){ input.addPort< T >( "0" ); output.addPort< T >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &in( input[ "0" ] ), &out( output[ "0" ] ); T *e[ 4 ];
      while( (int) in.size() < n ) vpmc::yield();
      for( int i = 0; i < n; i++ )
      {
         e[ i ] = &in.template peek< T >(); VP_CHECK( (int) Tr< T >::id( *e[ i ] ) == run_no * n + i + 1, "peeked at element %d, not %d", (int) Tr< T >::id( *e[ i ] ), run_no * n + i + 1 );
         if( ! late ) for( int j = 0; j < npick; j++ ) if( pick[ j ] == i ) out.template push< T >( *e[ i ] );
         in.recycle( 1 );
      }
      if( late ) for( int j = 0; j < npick; j++ ) out.template push< T >( *e[ pick[ j ] ] );
      for( int i = 0; i < n; i++ ) { bool gone( false ); for( int j = 0; j < npick; j++ ) gone |= pick[ j ] == i; if( ! gone ) VP_CHECK( (int) Tr< T >::id( *e[ i ] ) == run_no * n + i + 1, "a recycled element changed during the run" ); }
      return( ++run_no == runs ? raft::stop : raft::proceed );
   }
};
template < class T > void picks( int n, int runs )
{
   reset();
   {
      int pick[ 4 ], np( 0 ); const bool late( vpmc::choose( 2 ) ); bool used[ 4 ] = { false, false, false, false };
      for( np = 0; np < n; np++ )
      {
         int left[ 5 ], nl( 0 ); for( int i = 0; i < n; i++ ) if( ! used[ i ] && ( late || np == 0 || i > pick[ np - 1 ] ) ) left[ nl++ ] = i;
         const int c( vpmc::choose( nl + 1 ) ); if( c == nl ) break;
         pick[ np ] = left[ c ]; used[ left[ c ] ] = true;
      }
      Src< T > g( n * runs, 0, 1, PLAIN, false ); Pick< T > a( n, runs, pick, np, late ); Snk< T > k( 0, 1, PEEK ); raft::map m;
      m.link( &g, "0", &a, "0", n ); m.link( &a, "0", &k, "0", n );
      inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--;
      VP_CHECK( R[ 0 ].n == np * runs, "%d elements arrived instead of %d", R[ 0 ].n, np * runs );
      for( int j = 0; j < R[ 0 ].n; j++ ) VP_CHECK( R[ 0 ].v[ j ] == ( j / np ) * n + pick[ j % np ] + 1, "element %d arrived instead of %d", R[ 0 ].v[ j ], ( j / np ) * n + pick[ j % np ] + 1 );
   }
   clean();
}
/* forwarded twice in a row: two kernels that do not copy */
template < class T > void relay( int n, int b1, int b2, Style last )
{
   reset();
   { Src< T > g( n, 0, 1, PLAIN, true ); Pass< T > p( 1, PEEK ), q( 1, PEEK ); Snk< T > k( 0, 1, last ); raft::map m; m.link( &g, "0", &p, "0", b1 ); m.link( &p, "0", &q, "0", b2 ); m.link( &q, "0", &k, "0", b1 );
     inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--; want( 0, n ); want_sig( 0, n ); }
   clean();
}
/* a long run of them */
template < class T > void relay_long( int n, int cap, bool mixed )
{
   reset();
   { LSrc< T > g( n ); Pass< T > p( 1, PEEK ), q( 1, mixed ? SCOPED : PEEK ); LSnk< T > k; raft::map m; m.link( &g, "0", &p, "0", cap ); m.link( &p, "0", &q, "0", cap ); m.link( &q, "0", &k, "0", cap );
     in_exe( 1 ); m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 ); VP_CHECK( k.got == n, "%d of %d elements arrived", k.got, n ); }
   clean();
}
/* the element reaches the sink in the place in memory it was sent from */
struct Where { const void *p[ 8 ]; int n; }; Where sent, got;
struct AddrPass : Base
{
   AddrPass(){ input.addPort< Bg >( "0" ); output.addPort< Bg >( "0" ); }
   virtual raft::kstatus body(){ Bg &e( input[ "0" ].peek< Bg >() ); note( sent, &e ); output[ "0" ].push< Bg >( e ); input[ "0" ].recycle( 1 ); return( raft::proceed ); }
   VP_QUIET static void note( Where &w, const void *p ){ vpmc::quiet( &w ); if( w.n < 8 ) w.p[ w.n++ ] = p; }
};
struct AddrSnk : Base
{
   AddrSnk(){ input.addPort< Bg >( "0" ); }
   virtual raft::kstatus body(){ Bg &e( input[ "0" ].peek< Bg >() ); AddrPass::note( got, &e ); rec( 0, Tr< Bg >::id( e ) ); input[ "0" ].recycle( 1 ); return( raft::proceed ); }
};
void in_place( int n )
{
   reset(); sent.n = got.n = 0;
   { Src< Bg > g( n ); AddrPass p; AddrSnk k; raft::map m; m.link( &g, "0", &p, "0", 1 ); m.link( &p, "0", &k, "0", 1 );
     inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--; want( 0, n );
     for( int i = 0; i < n; i++ ) VP_CHECK( sent.p[ i ] == got.p[ i ], "element %d was copied on its way", i + 1 ); }
   clean();
}
/* an element is sent on, but stays at the head of the input and is taken later */
template < class T > struct Keep : Base
{
   bool sent = false; Keep(){ input.addPort< T >( "0" ); output.addPort< T >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &in( input[ "0" ] );
      if( ! sent ){ T &e( in.template peek< T >() ); output[ "0" ].template push< T >( e ); in.unpeek(); sent = true; }
      else { T v( Tr< T >::make( 0 ) ); in.template pop< T >( v ); VP_CHECK( (int) Tr< T >::id( v ) > 0 && (int) Tr< T >::id( v ) < 100, "a damaged element was popped" ); sent = false; }
      return( raft::proceed );
   }
};
template < class T > void keep( int n )
{
   reset();
   { Src< T > g( n ); Keep< T > p; Snk< T > a( 0 ); raft::map m; m.link( &g, "0", &p, "0", 1 ); m.link( &p, "0", &a, "0", 1 );
     inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--; want( 0, n ); }
   clean();
}
/* elements sent on alternately to two or three outputs, or dropped, in place */
template < class T > struct Fan : Base
{
   int outs, *to, i = 0; bool cp;
   Fan( int o, int *to, bool cp ) : outs( o ), to( to ), cp( cp ){ input.addPort< T >( "0" ); for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      FIFO &in( input[ "0" ] ); const int k( to[ i ] );
      if( k == outs ) in.recycle( 1 );
      else if( cp && ( i & 1 ) ){ auto e( in.template pop_s< T >() ); output[ std::to_string( k ) ].template push< T >( *e ); }
      else { T &e( in.template peek< T >() ); VP_CHECK( (int) Tr< T >::id( e ) == i + 1, "peeked at element %d, not %d", (int) Tr< T >::id( e ), i + 1 ); output[ std::to_string( k ) ].template push< T >( e ); in.recycle( 1 ); }
      i++; return( raft::proceed );
   }
};
template < class T > void fan( int n, int outs, bool cp, bool reuse )
{
   if( reuse ) vpmc::reuse_memory();
   reset();
   {
      int to[ 8 ]; for( int i = 0; i < n; i++ ) to[ i ] = vpmc::choose( outs + 1 );
      Src< T > g( n ); Fan< T > p( outs, to, cp ); std::vector< std::unique_ptr< Snk< T > > > ks; raft::map m; m.link( &g, "0", &p, "0", 1 );
      for( int k = 0; k < outs; k++ ){ ks.emplace_back( new Snk< T >( k, 1, k & 1 ? PEEK : SCOPED ) ); m.link( &p, std::to_string( k ), ks.back().get(), "0", 2 ); }
      in_exe( 1 ); m.template exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 );
      int c[ 4 ] = { 0, 0, 0, 0 };
      for( int i = 0; i < n; i++ ) if( to[ i ] < outs ){ const int k( to[ i ] ); VP_CHECK( c[ k ] < R[ k ].n && R[ k ].v[ c[ k ] ] == i + 1, "element %d did not arrive in its place", i + 1 ); c[ k ]++; }
      for( int k = 0; k < outs; k++ ) VP_CHECK( R[ k ].n == c[ k ], "%d elements arrived at output %d instead of %d", R[ k ].n, k, c[ k ] );
   }
   clean();
}
/* several inputs, each with elements sent on or dropped, in place: all of them
 * know where their elements went */
template < class T > struct Gather : Base
{
   int ins, *to, at[ 4 ] = { 0, 0, 0, 0 }; bool cp;
   Gather( int ins, int *to, bool cp ) : ins( ins ), to( to ), cp( cp ){ for( int k = 0; k < ins; k++ ) input.addPort< T >( std::to_string( k ) ); output.addPort< T >( "a", "b" ); }
   virtual raft::kstatus body()
   {
      for( int p = 0; p < ins; p++ )
      {
         FIFO &in( input[ std::to_string( p ) ] ); if( in.size() == 0 ) continue;
         const int k( to[ p * 2 + at[ p ] ] );
         if( k == 2 ) in.recycle( 1 );
         else if( cp && p == 0 ){ auto e( in.template pop_s< T >() ); output[ k ? "b" : "a" ].template push< T >( *e ); }
         else { T &e( in.template peek< T >() ); VP_CHECK( (int) Tr< T >::id( e ) == 10 * p + at[ p ] + 1, "peeked at element %d, not %d", (int) Tr< T >::id( e ), 10 * p + at[ p ] + 1 ); output[ k ? "b" : "a" ].template push< T >( e ); in.recycle( 1 ); }
         at[ p ]++;
      }
      return( raft::proceed );
   }
};
template < class T > void gather( int ins, int n, bool cp )
{
   reset();
   {
      int to[ 8 ] = {}; for( int p = 0; p < ins; p++ ) for( int i = 0; i < n; i++ ) to[ 2 * p + i ] = vpmc::choose( 3 );
      std::vector< std::unique_ptr< Src< T > > > g; Gather< T > p( ins, to, cp ); Snk< T > a( 0 ), b( 1, 1, PEEK ); raft::map m;
      for( int k = 0; k < ins; k++ ){ g.emplace_back( new Src< T >( n, 10 * k ) ); m.link( g.back().get(), "0", &p, std::to_string( k ), 1 ); }
      m.link( &p, "a", &a, "0", 1 ); m.link( &p, "b", &b, "0", 1 );
      in_exe( 1 ); m.template exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 );
      int c[ 2 ] = { 0, 0 };
      for( int k = 0; k < ins; k++ ) for( int i = 0; i < n; i++ ) if( to[ 2 * k + i ] < 2 )
      {
         const int o( to[ 2 * k + i ] ); int seen( 0 ); c[ o ]++;
         for( int j = 0; j < R[ o ].n; j++ ) seen += R[ o ].v[ j ] == 10 * k + i + 1;
         VP_CHECK( seen == 1, "element %d of input %d arrived %d times", i + 1, k, seen );
      }
      for( int o = 0; o < 2; o++ ) VP_CHECK( R[ o ].n == c[ o ], "%d elements arrived at output %d instead of %d", R[ o ].n, o, c[ o ] );
   }
   clean();
}
/* the same element to two outputs */
template < class T > void both( int n )
{
   reset();
   { Src< T > g( n ); Pass< T > p( 2, PEEK ); Snk< T > a( 0 ), b( 1 ); raft::map m; m.link( &g, "0", &p, "0", 1 ); m.link( &p, "0", &a, "0", 1 ); m.link( &p, "1", &b, "0", 1 );
     inside++; m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); inside--; want( 0, n ); want( 1, n ); }
   clean();
}
}
/* stands in for the library's function, see vp_cores */
unsigned std::thread::hardware_concurrency() noexcept { return( vp_cores ); }
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const char *n, std::function< void() > f, int q = 1, int t = 2 ){ v.push_back( { n, f, q, t, false, true } ); };
   add( "C22.grow.int",       []{ grow< small_alloc, int >( 12, 2, 3, 9 ); } );
   add( "C22.grow.obj",       []{ grow< small_alloc, Sm >( 11, 2, 3, 8, true, PEEK ); } );
   add( "C22.grow.bigobj",    []{ grow< small_alloc, Bg >( 11, 2, 3, 8, true, SCOPED ); } );
   add( "C22.grow.string",    []{ grow< small_alloc, std::string >( 11, 2, 3, 9 ); } );
   add( "C22.grow.again",     []{ grow< small_alloc, int >( 28, 2, 3, 9 ); } );
   add( "C22.grow.stop",      []{ grow< small_alloc, int >( 8, 2, 3, 8 ); } );
   add( "C22.fixed",          []{ grow< small_alloc, int >( 12, 3, 3, 8, true, PLAIN, 3 ); } );
   add( "C22.fixed1",         []{ grow< small_alloc, int >( 12, 1, 3, 8, true, PLAIN, 1 ); } );
   add( "C22.fixed2",         []{ grow< small_alloc, Sm >( 12, 2, 3, 8, true, SCOPED, 2 ); } );
   add( "C22.mixed",          []{ grow_mixed< int >( 11, 3 ); } );
   add( "C22.chain",          []{ grow3< Sm >( 11, 3, PEEK ); } );
   add( "C22.fixed.big",      []{ static const int N[] = { 16, 64, 100, 256, 300 }; fixed_big( N[ vpmc::choose( 5 ) ] ); }, 0, 0 );
   add( "C22.default",        []{ grow< dynalloc, int >( 80, 64, 3, 74 ); }, 0, 1 );
   add( "C10.config.std",     []{ config< partition_dummy, stdalloc, no_parallel, int >( 2, 1 ); } );
   add( "C10.config.basic",   []{ config< partition_basic, stdalloc, basic_parallel, Sm >( 2, 1 ); } );
   add( "C10.config.dyn",     []{ config< partition_basic, dynalloc, no_parallel, Bg >( 1, 1 ); } );
   add( "C20.std",            []{ caps2< stdalloc >( 1, 3, 1, 3 ); } );
   add( "C20.std.default",    []{ caps2< stdalloc >( 0, 2, 64, 2 ); } );
   add( "C20.dyn.default",    []{ caps2< dynalloc >( 3, 0, 3, 64 ); } );
   add( "C20.std.all",        []{ caps_all< stdalloc >(); }, 0, 0 );
   add( "C20.dyn.all",        []{ caps_all< dynalloc >(); }, 0, 0 );
   add( "C20.std.big",        []{ caps_big< stdalloc >(); }, 0, 0 );
   add( "C20.dyn.big",        []{ caps_big< dynalloc >(); }, 0, 0 );
   add( "C25.none",           []{ pinned< partition_dummy >( 0 ); }, 2, 3 );
   add( "C25.one",            []{ pinned< partition_dummy >( 1 ); }, 2, 3 );
   add( "C25.both",           []{ pinned< partition_dummy >( 2 ); }, 2, 3 );
   add( "C25.basic",          []{ pinned< partition_basic >( 0 ); }, 2, 3 );
   add( "C25.far",            []{ far_cores(); }, 0, 1 );
   add( "C25.balanced",       []{ balanced( vpmc::choose( 20 ) ); } );
   add( "C25.balanced.many",  []{ vpmc::set_patience( 20000 ); static const int N[] = { 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255 }; balanced( N[ vpmc::choose( 11 ) ] ); }, 0, 0 );
   add( "C25.lists",          []{ switch( vpmc::choose( 8 ) ){ case 0: lists< 1 >(); break; case 1: lists< 2 >(); break; case 2: lists< 3 >(); break; case 3: lists< 4 >(); break;
                                                      case 4: lists< 5 >(); break; case 5: lists< 6 >(); break; case 6: lists< 9 >(); break; case 7: lists< 17 >(); break; } } );
   v.push_back( vpmc::Scenario{ "C15.env",            []{ dot_unconnected(); }, 0, 0, true } );
   v.push_back( vpmc::Scenario{ "C26.env.turns",      []{ dot_turns(); }, 0, 0, true } );
   v.push_back( vpmc::Scenario{ "C26.env.no",         []{ dot_env( false, 1 ); }, 0, 1, true } );
   v.push_back( vpmc::Scenario{ "C26.env.go",         []{ dot_env( true, vpmc::choose( 2 ) - 1 ); }, 0, 1, true } );
   v.push_back( vpmc::Scenario{ "C26.env.exit",       []{ dot_env( true, 1 ); }, 0, 1, true } );
   add( "C27.handlers",       []{ handlers_seq( vpmc::thorough() ? 5 : 4 ); } );
   add( "C27.values",         []{ sysval(); } );
   add( "C27.check.int",      []{ sysig< int >(); } );
   add( "C27.check.obj",      []{ sysig< Sm >(); } );
   add( "C27.check.bigobj",   []{ sysig< Bg >(); } );
   add( "C28.mix.bigobj",     []{ mix< Bg >( 2, 1, 1 ); }, 1, 1 );
   add( "C28.mix.batch",      []{ mix< Bg >( 3, 3, 1, vpmc::choose( 7 ) ); } );
   add( "C28.picks",          []{ picks< Bg >( vpmc::thorough() ? 4 : 3, 2 ); } );
   add( "C28.picks.one",      []{ picks< Bg >( 4, 1 ); }, 0, 1 );
   add( "C28.mix.obj",        []{ mix< Sm >( 2, 2, 2 ); }, 1, 1 );
   add( "C28.fan",            []{ fan< Bg >( 3, 2, false, false ); }, 0, 1 );
   add( "C28.fan.copy",       []{ fan< Bg >( 4, 2, true, true ); }, 0, 0 );
   add( "C28.fan.deep",       []{ fan< Bg >( 2, 2, true, true ); }, 1, 1 );
   add( "C28.mix.reuse",      []{ vpmc::reuse_memory(); mix< Bg >( 3, 1, 1 ); }, 0, 1 );
   add( "C28.mix.reuse5",     []{ vpmc::reuse_memory(); mix< Bg >( 4, 2, 1 ); }, 0, 0 );
   add( "C28.relay.reuse",    []{ vpmc::reuse_memory(); relay< Bg >( 4, 1, 1, PLAIN ); }, 1, 1 );
   add( "C28.relay",          []{ relay< Bg >( 2, 1, 1, PLAIN ); } );
   add( "C28.relay.peek",     []{ relay< Bg >( 2, 2, 1, PEEK ); } );
   add( "C28.gather",         []{ gather< Bg >( 2, 2, vpmc::choose( 2 ) ); }, 0, 1 );
   add( "C28.gather.three",   []{ gather< Bg >( 3, 1, false ); }, 0, 1 );
   add( "C28.gather.obj",     []{ gather< Sm >( 2, 1, true ); }, 0, 1 );
   add( "C28.long",           []{ const int c( vpmc::choose( 2 ) ); relay_long< Bg >( vpmc::thorough() ? 2000 : 600, c ? 5 : 1, vpmc::choose( 2 ) ); }, 0, 0 );
   add( "C28.long.reuse",     []{ vpmc::reuse_memory(); const int c( vpmc::choose( 2 ) ); relay_long< Bg >( vpmc::thorough() ? 2000 : 600, c ? 5 : 1, vpmc::choose( 2 ) ); }, 0, 0 );
   add( "C28.inplace",        []{ in_place( 3 ); } );
   add( "C28.keep.obj",       []{ keep< Sm >( 2 ); } );
   add( "C28.keep.bigobj",    []{ keep< Bg >( 1 ); }, 0, 0 );
   add( "C28.both.obj",       []{ both< Sm >( 2 ); } );
   add( "C28.both.bigobj",    []{ both< Bg >( 1 ); }, 0, 0 );
   return( vpmc::main( argc, argv, v ) );
}
