// PROPS: C10 C11 C12 C13 C14 C20
/* whole graphs executed by map::exe() */
#include "rt.h"
#include <memory>
using namespace rt;
namespace
{
/* Src -> Snk */
template < class T > void pipe2( int n, int buf, Style a = PLAIN, Style b = PLAIN, bool sig = false )
{
   reset();
   { Src< T > g( n, 0, 1, a, sig ); Snk< T > s( 0, 1, b ); raft::map m; m.link( &g, "0", &s, "0", buf ); go( m ); want( 0, n ); if( sig ) want_sig( 0, n ); else VP_CHECK( s.sigs == 0, "%d elements came with signals nobody sent", s.sigs ); }
   clean();
}
/* Src -> Pass -> Snk */
template < class T > void pipe3( int n, int b1, int b2, Style a, Style p, Style s, bool sig = true )
{
   reset();
   { Src< T > g( n, 0, 1, a, sig ); Pass< T > x( 1, p ); Snk< T > k( 0, 1, s ); raft::map m; m.link( &g, "0", &x, "0", b1 ); m.link( &x, "0", &k, "0", b2 );
     go( m ); want( 0, n ); if( sig ) want_sig( 0, n ); else VP_CHECK( k.sigs == 0, "%d elements came with signals nobody sent", k.sigs ); }
   clean();
}
/* Src with two outputs -> two sinks */
template < class T > void fork2( int n, int buf )
{
   reset();
   { Src< T > g( n, 0, 2 ); Snk< T > a( 0 ), b( 1 ); raft::map m; m.link( &g, "0", &a, "0", buf ); m.link( &g, "1", &b, "0", buf ); go( m ); want( 0, n ); want( 1, n ); }
   clean();
}
/* Src -> Pass(2 outputs) -> two sinks */
template < class T > void passfork( int n, int buf, Style st )
{
   reset();
   { Src< T > g( n ); Pass< T > p( 2, st ); Snk< T > a( 0 ), b( 1 ); raft::map m; m.link( &g, "0", &p, "0", buf ); m.link( &p, "0", &a, "0", buf ); m.link( &p, "1", &b, "0", buf ); go( m ); want( 0, n ); want( 1, n ); }
   clean();
}
/* two sources -> one sink with two inputs, lengths n1, n2 */
template < class T > void merge( int n1, int n2, int buf, bool all = false )
{
   reset();
   { Src< T > a( n1 ), b( n2, 100 ); Snk< T > k( 0, 2, PLAIN, all ); raft::map m; m.link( &a, "0", &k, "0", buf ); m.link( &b, "0", &k, "1", buf ); go( m );
     want( 0, all ? std::min( n1, n2 ) : n1 ); want( 1, all ? std::min( n1, n2 ) : n2, 100 ); }
   if( n1 == n2 || ! all ) clean(); else VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* three sources, one sink */
template < class T > void merge3( int n1, int n2, int n3, int buf )
{
   reset();
   { Src< T > a( n1 ), b( n2, 20 ), c( n3, 40 ); Snk< T > k( 0, 3 ); raft::map m; m.link( &a, "0", &k, "0", buf ); m.link( &b, "0", &k, "1", buf ); m.link( &c, "0", &k, "2", buf ); go( m );
     want( 0, n1 ); want( 1, n2, 20 ); want( 2, n3, 40 ); }
   clean();
}
/* any number of sources, each with its own number of elements, one sink; the
 * highest port numbers are as good as the lowest */
template < class T > void many( int k, int maxn, bool all, int buf )
{
   reset();
   int n[ 8 ], least( 99 ); for( int i = 0; i < k; i++ ){ n[ i ] = vpmc::choose( maxn + 1 ); least = std::min( least, n[ i ] ); }
   {
      std::vector< std::unique_ptr< Src< T > > > g; Snk< T > s( 0, k, PLAIN, all ); raft::map m;
      for( int i = 0; i < k; i++ ){ g.emplace_back( new Src< T >( n[ i ], 10 * i ) ); m.link( g.back().get(), "0", &s, std::to_string( i ), buf ); }
      go( m );
      for( int i = 0; i < k; i++ ) want( i, all ? least : n[ i ], 10 * i );
   }
   if( ! all ) clean(); else VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* takes one element of each input, sends them on to its outputs in turn */
template < class T > struct Zip : Base
{
   int ins, outs; Zip( int i, int o ) : ins( i ), outs( o )
   { for( int k = 0; k < i; k++ ) input.addPort< T >( std::to_string( k ) ); for( int k = 0; k < o; k++ ) output.addPort< T >( std::to_string( k ) ); sched_behav = raft::all_port; }
   virtual raft::kstatus body()
   {
      has_data( ins, ins );
      for( int k = 0; k < ins; k++ ){ T v( Tr< T >::make( 0 ) ); input[ std::to_string( k ) ].template pop< T >( v ); output[ std::to_string( k % outs ) ].template push< T >( v ); }
      return( raft::proceed );
   }
};
template < class T > struct Cnt : Base
{
   int got = 0; Cnt(){ input.addPort< T >( "0" ); }
   virtual raft::kstatus body(){ has_data(); T v( Tr< T >::make( 0 ) ); input[ "0" ].template pop< T >( v ); got++; vpmc::progress(); return( raft::proceed ); }
};
template < class T > void zip( int k, int o, int n, int buf, bool uneven )
{
   reset();
   {
      std::vector< std::unique_ptr< Src< T > > > g; std::vector< std::unique_ptr< Cnt< T > > > s; Zip< T > z( k, o ); raft::map m;
      for( int i = 0; i < k; i++ ){ g.emplace_back( new Src< T >( n + ( uneven ? i : 0 ), 10 * i ) ); m.link( g.back().get(), "0", &z, std::to_string( i ), buf ); }
      std::vector< int > want_n( o ); for( int i = 0; i < k; i++ ) want_n[ i % o ] += n;
      for( int i = 0; i < o; i++ ){ s.emplace_back( new Cnt< T > ); m.link( &z, std::to_string( i ), s.back().get(), "0", buf ); }
      go( m );
      for( int i = 0; i < o; i++ ) VP_CHECK( s[ i ]->got == want_n[ i ], "output %d sent %d elements of %d", i, s[ i ]->got, want_n[ i ] );
   }
   if( ! uneven ) clean(); else VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* many streams between two kernels, many kernels in a row, many side by side */
template < class T > struct Wide : Base
{
   int n; bool in; std::vector< int > cnt, want_cap; std::vector< int > give; int step = 0;
   Wide( int n, bool in ) : n( n ), in( in ), cnt( n ), want_cap( n ), give( n )
   { for( int k = 0; k < n; k++ ) ( in ? input : output ).template addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      Port &p( in ? input : output );
      if( step == 0 ) for( int k = 0; k < n; k++ )
      {
         FIFO &f( p[ std::to_string( k ) ] );
         VP_CHECK( want_cap[ k ] == 0 || (int) f.capacity() == want_cap[ k ], "stream %d of %d has room for %d, not %d", k, n, (int) f.capacity(), want_cap[ k ] );
      }
      step++; bool any( false );
      for( int k = 0; k < n; k++ )
      {
         FIFO &f( p[ std::to_string( k ) ] );
         if( in ){ if( f.size() == 0 ) continue; T v( Tr< T >::make( 0 ) ); f.template pop< T >( v ); cnt[ k ]++; any = true; VP_CHECK( (int) Tr< T >::id( v ) == ( k % 50 ) * 4 + cnt[ k ], "stream %d delivered %d", k, (int) Tr< T >::id( v ) ); }
         else if( step <= give[ k ] ){ f.template push< T >( Tr< T >::make( ( k % 50 ) * 4 + step ) ); any = true; }
      }
      vpmc::progress();
      if( in ){ if( ! any ) has_data( n ); return( raft::proceed ); }
      return( any ? raft::proceed : raft::stop );
   }
};
template < class T > void cable( int n, int how, int buf )
{
   reset();
   {
      Wide< T > a( n, false ), b( n, true ); raft::map m;
      for( int k = 0; k < n; k++ )
      {
         /* to all, to the last one only, to one somewhere, to none but with different numbers */
         a.give[ k ] = how == 0 ? 2 : how == 1 ? ( k + 1 == n ? 3 : 0 ) : how == 2 ? ( k == n / 2 ? 3 : 0 ) : k % 3;
         const int c( buf < 0 ? 1 + k % 7 : buf ); a.want_cap[ k ] = b.want_cap[ k ] = c;
         m.link( &a, std::to_string( k ), &b, std::to_string( k ), c );
      }
      go( m );
      for( int k = 0; k < n; k++ ) VP_CHECK( b.cnt[ k ] == a.give[ k ], "stream %d of %d delivered %d elements of %d", k, n, b.cnt[ k ], a.give[ k ] );
   }
   clean();
}
void cables( int how, int buf )
{
   vpmc::set_patience( 10000 );
   static const int N[] = { 2, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129 };
   cable< int >( N[ vpmc::choose( 17 ) ], how, buf );
}
template < class T > void chain_of( int k, int n, int buf )
{
   vpmc::set_patience( 10000 );
   reset();
   {
      Src< T > g( n ); Snk< T > s; std::vector< std::unique_ptr< Pass< T > > > p; raft::map m; raft::kernel *last( &g );
      for( int i = 0; i < k; i++ ){ p.emplace_back( new Pass< T >() ); m.link( last, "0", p.back().get(), "0", buf ); last = p.back().get(); }
      m.link( last, "0", &s, "0", buf ); go( m ); want( 0, n ); VP_CHECK( n == 0 || starts > k, "some of %d kernels never ran", k );
   }
   clean();
}
template < class T > void side_by_side( int k, int n, int buf )
{
   vpmc::set_patience( 10000 );
   reset();
   {
      Wide< T > g( k, false ), s( k, true ); std::vector< std::unique_ptr< Pass< T > > > p; raft::map m;
      for( int i = 0; i < k; i++ )
      {
         g.give[ i ] = n; p.emplace_back( new Pass< T >() ); g.want_cap[ i ] = s.want_cap[ i ] = buf;
         m.link( &g, std::to_string( i ), p.back().get(), "0", buf ); m.link( p.back().get(), "0", &s, std::to_string( i ), buf );
      }
      go( m );
      for( int i = 0; i < k; i++ ) VP_CHECK( s.cnt[ i ] == n, "branch %d of %d delivered %d elements of %d", i, k, s.cnt[ i ], n );
      VP_CHECK( starts >= k, "some kernels never ran" );
   }
   clean();
}
/* many graphs of one thread each side: every pair is a part of one map */
template < class T > void pairs_of( int k, int n, int buf )
{
   vpmc::set_patience( 10000 );
   reset();
   {
      std::vector< std::unique_ptr< Src< T > > > g; std::vector< std::unique_ptr< Cnt< T > > > s; raft::map m;
      for( int i = 0; i < k; i++ ){ g.emplace_back( new Src< T >( n + i % 3 ) ); s.emplace_back( new Cnt< T >() ); m.link( g.back().get(), "0", s.back().get(), "0", buf ); }
      go( m );
      for( int i = 0; i < k; i++ ) VP_CHECK( s[ i ]->got == n + i % 3, "pair %d of %d delivered %d elements of %d", i, k, s[ i ]->got, n + i % 3 );
   }
   clean();
}
/* many kernels send to one; some end at once, the others later and slowly */
template < class T > void many_ends( int k )
{
   vpmc::set_patience( 10000 );
   reset();
   {
      /* the slow ones: the first, the last or one in the middle; ports are looked at in the order of their names */
      const int how( vpmc::choose( 4 ) );
      Wide< T > s( k, true ); std::vector< std::unique_ptr< Src< T > > > g; std::vector< int > n( k ); raft::map m;
      std::vector< std::string > name; for( int i = 0; i < k; i++ ) name.push_back( std::to_string( i ) );
      std::sort( name.begin(), name.end() );
      for( int i = 0; i < k; i++ )
      {
         const int port( std::stoi( name[ i ] ) );
         const bool late( how == 0 ? i == k - 1 : how == 1 ? i == 0 : how == 2 ? i == k / 2 : i >= k - 3 );
         n[ port ] = late ? 3 : i % 2;
         g.emplace_back( new Src< T >( n[ port ], ( port % 50 ) * 4, 1, PLAIN, false, late ? 20 : 0 ) ); s.want_cap[ port ] = 4;
         m.link( g.back().get(), "0", &s, name[ i ], 4 );
      }
      go( m );
      for( int i = 0; i < k; i++ ) VP_CHECK( s.cnt[ i ] == n[ i ], "input %d of %d delivered %d elements of %d", i, k, s.cnt[ i ], n[ i ] );
   }
   clean();
}
/* a kernel closes some of its outputs itself, goes on with the others and stops */
template < class T > struct Closer : Base
{
   int outs, mask, i = 0; Closer( int outs, int mask ) : outs( outs ), mask( mask ){ for( int k = 0; k < outs; k++ ) output.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      i++;
      for( int k = 0; k < outs; k++ )
      {
         FIFO &f( output[ std::to_string( k ) ] );
         if( mask >> k & 1 && i > 1 ){ if( i == 2 ) f.invalidate(); continue; }
         f.template push< T >( Tr< T >::make( k * 10 + i ) );
      }
      return( i == 3 ? raft::stop : raft::proceed );
   }
};
template < class T > void closer( int outs )
{
   reset();
   {
      const int mask( vpmc::choose( 1 << outs ) ); Closer< T > g( outs, mask ); std::vector< std::unique_ptr< Snk< T > > > s; raft::map m;
      for( int k = 0; k < outs; k++ ){ s.emplace_back( new Snk< T >( k ) ); m.link( &g, std::to_string( k ), s.back().get(), "0", 1 ); }
      go( m );
      for( int k = 0; k < outs; k++ ) want( k, mask >> k & 1 ? 1 : 3, k * 10 );
   }
   clean();
}
/* kernels whose identifiers are far apart */
struct Nobody : raft::kernel { virtual raft::kstatus run(){ return( raft::stop ); } };
template < class T > void far_ids( int gap, int n )
{
   reset();
   {
      auto skip = [&]{ for( int i = 1; i < gap; i++ ){ Nobody x; } };
      Src< T > g( n, 0, 2 ); skip(); Pass< T > p; skip(); Pass< T > q; skip(); Snk< T > k( 0, 2 ); raft::map m;
      m.link( &g, "0", &p, "0", 1 ); m.link( &g, "1", &q, "0", 1 ); m.link( &p, "0", &k, "0", 1 ); m.link( &q, "0", &k, "1", 1 ); go( m ); want( 0, n ); want( 1, n );
   }
   clean();
}
/* long runs: nothing changes after any number of elements */
template < class T > void long_run( int n, int shape, int buf )
{
   reset();
   if( shape == 0 ){ LSrc< T > g( n ); Pass< T > p( 1, SCOPED ), q( 1, PEEK ); LSnk< T > k; raft::map m; m.link( &g, "0", &p, "0", buf ); m.link( &p, "0", &q, "0", buf ); m.link( &q, "0", &k, "0", buf ); go( m ); VP_CHECK( k.got == n, "%d of %d elements were received", k.got, n ); }
   else if( shape == 1 ){ LSrc< T > a( n ), b( n / 2, 100000 ), c( n + 9, 200000 ); LSnk< T > k( 3 ); raft::map m; m.link( &a, "0", &k, "0", buf ); m.link( &b, "0", &k, "1", buf ); m.link( &c, "0", &k, "2", buf ); go( m );
      VP_CHECK( k.last[ 0 ] == n && k.last[ 1 ] == n / 2 && k.last[ 2 ] == n + 9, "%d, %d, %d elements were received of %d, %d, %d", k.last[ 0 ], k.last[ 1 ], k.last[ 2 ], n, n / 2, n + 9 ); }
   else{ LSrc< T > g( n, 0, 2 ); LSnk< T > a, b; Pass< T > p; raft::map m; m.link( &g, "0", &a, "0", buf ); m.link( &g, "1", &p, "0", buf ); m.link( &p, "0", &b, "0", buf ); go( m ); VP_CHECK( a.got == n && b.got == n, "%d and %d of %d elements were received", a.got, b.got, n ); }
   clean();
}
/* one source feeding many branches, gathered again by one sink */
template < class T > void broad( int k, int n, int buf )
{
   reset();
   {
      Src< T > g( n, 0, k, PLAIN, true ); Snk< T > s( 0, k ); std::vector< std::unique_ptr< Pass< T > > > p; raft::map m;
      for( int i = 0; i < k; i++ )
      {
         p.emplace_back( new Pass< T >( 1, i % 2 ? PEEK : SCOPED ) );
         m.link( &g, std::to_string( i ), p.back().get(), "0", buf ); m.link( p.back().get(), "0", &s, std::to_string( i ), buf );
      }
      go( m );
      for( int i = 0; i < k; i++ ){ want( i, n ); want_sig( i, n ); }
   }
   clean();
}
/* every kernel belongs to the map, any number of them */
template < class T > void owned_many( int k, int n )
{
   reset();
   {
      raft::map m; Src< T > first( n ); Pass< T > proto; Snk< T > last( 0 );
      raft::kernel *at( first.clone() );
      for( int i = 0; i < k; i++ ){ auto *p( proto.clone() ); m.link( at, "0", p, "0", 1 ); at = p; }
      m.link( at, "0", last.clone(), "0", 1 );
      go( m ); want( 0, n );
   }
   clean();
}
/* every shape of one to three sources, each with a chain of kernels, into one
 * sink or into one each, linked in one order or the other */
template < class T > void shapes( int maxs, int maxlen )
{
   reset();
   {
      const int ns( 1 + vpmc::choose( maxs ) ), one( vpmc::choose( 2 ) ), back( vpmc::choose( 2 ) );
      int len[ 3 ], ch[ 3 ]; for( int i = 0; i < ns; i++ ){ len[ i ] = vpmc::choose( maxlen + 1 ); ch[ i ] = vpmc::choose( 3 ); vpmc::note( "%d elements over %d kernels", len[ i ], ch[ i ] ); }
      std::vector< std::unique_ptr< raft::kernel > > own;
      struct E { raft::kernel *a, *b; std::string pb; }; std::vector< E > es;
      raft::kernel *merged( nullptr ); if( one ) own.emplace_back( merged = new Snk< T >( 0, ns ) );
      for( int i = 0; i < ns; i++ )
      {
         raft::kernel *at( new Src< T >( len[ i ], 10 * i ) ); own.emplace_back( at );
         for( int j = 0; j < ch[ i ]; j++ ){ auto *p( new Pass< T >( 1, j ? PEEK : PLAIN ) ); own.emplace_back( p ); es.push_back( { at, p, "0" } ); at = p; }
         if( one ) es.push_back( { at, merged, std::to_string( i ) } ); else { auto *s( new Snk< T >( i ) ); own.emplace_back( s ); es.push_back( { at, s, "0" } ); }
      }
      { raft::map m; for( std::size_t i = 0; i < es.size(); i++ ){ const E &e( es[ back ? es.size() - 1 - i : i ] ); m.link( e.a, "0", e.b, e.pb, 1 ); }
        go( m ); }
      for( int i = 0; i < ns; i++ ) want( i, len[ i ], 10 * i );
   }
   clean();
}
/* Src(2) -> Pass, Pass -> Snk(2) */
template < class T > void diamond( int n, int buf, bool all, Style st = PLAIN )
{
   reset();
   { Src< T > g( n, 0, 2 ); Pass< T > p( 1, st ), q( 1, st ); Snk< T > k( 0, 2, PLAIN, all ); raft::map m;
     m.link( &g, "0", &p, "0", buf ); m.link( &g, "1", &q, "0", buf ); m.link( &p, "0", &k, "0", buf ); m.link( &q, "0", &k, "1", buf ); go( m ); want( 0, n ); want( 1, n ); }
   clean();
}
/* two independent pipes in one map */
template < class T > void two_pipes( int n, int buf )
{
   reset();
   { Src< T > a( n ), b( n, 100 ); Snk< T > x( 0 ), y( 1 ); raft::map m; m.link( &a, "0", &x, "0", buf ); m.link( &b, "0", &y, "0", buf ); go( m ); want( 0, n ); want( 1, n, 100 ); }
   clean();
}
/* two maps executed at the same time by two threads of the program */
template < class T, class ... How > void two_maps( int n, int buf, bool build )
{
   reset();
   {
      auto one = [=]( int slot, int base )
      {
         Src< T > a( n, base ); Snk< T > x( slot ); raft::map m; m.link( &a, "0", &x, "0", buf );
         in_exe( 1 ); m.exe< How... >(); in_exe( -1 );
      };
      if( build ) { std::thread t( one, 1, 100 ); one( 0, 0 ); t.join(); }
      else
      {
         Src< T > a( n ), b( n, 100 ); Snk< T > x( 0 ), y( 1 ); raft::map m, o; m.link( &a, "0", &x, "0", buf ); o.link( &b, "0", &y, "0", buf );
         std::thread t( [&](){ in_exe( 1 ); o.exe< How... >(); in_exe( -1 ); } ); in_exe( 1 ); m.exe< How... >(); in_exe( -1 ); t.join();
      }
      want( 0, n ); want( 1, n, 100 );
   }
   clean();
}
/* one map after another in the same program, and the same kernels never twice */
template < class T > void in_turn( int n, int buf )
{
   reset();
   for( int r = 0; r < 2; r++ ){ Src< T > a( n, r * 100 ); Snk< T > x( r ); raft::map m; m.link( &a, "0", &x, "0", buf ); go( m ); want( r, n, r * 100 ); }
   clean();
}
/* a middle kernel that stops after m of n elements (enough room upstream) */
template < class T > void early( int n, int m, Style st = PLAIN )
{
   reset();
   { Src< T > g( n ); Pass< T > p( 1, st, m ); Snk< T > k( 0 ); raft::map mp; mp.link( &g, "0", &p, "0", n ); mp.link( &p, "0", &k, "0", 1 ); go( mp ); want( 0, m ); VP_CHECK( p.runs == m, "the kernel ran %d times after asking to stop at %d", p.runs, m ); }
   VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* one kernel of a pair stops early; the other branch goes on */
template < class T > void early_branch( int n )
{
   reset();
   { Src< T > g( n, 0, 2 ); Pass< T > p( 1, PLAIN, 1 ), q; Snk< T > k( 0, 2 ); raft::map m;
     m.link( &g, "0", &p, "0", n ); m.link( &g, "1", &q, "0", 1 ); m.link( &p, "0", &k, "0", 1 ); m.link( &q, "0", &k, "1", 1 ); go( m ); want( 0, 1 ); want( 1, n ); }
   VP_CHECK( vpmc::live_threads() == 0, "threads left" );
}
/* kernels made by the library (make / clone) are destroyed with the map, once */
template < class T > void owned( int n )
{
   reset();
   { Src< T > g( n ); Pass< T > p; raft::map m;
     auto *p2( p.clone() );
     m.link( &g, "0", p2, "0", 1 ); m += *p2 >> raft::kernel::make< Pass< T > >() >> raft::kernel::make< Snk< T > >( 0 );
     go( m ); want( 0, n ); VP_CHECK( destroyed == 0, "%d kernels destroyed before their map", destroyed ); }
   VP_CHECK( destroyed == 5, "%d of 5 kernels destroyed with the map and the scope", destroyed );
   clean();
}
/* streams have the requested capacity, both ends see the same one, edges do not share */
struct CapS : Base
{
   int want_cap, i = 0, outs;
   CapS( int c, int outs ) : want_cap( c ), outs( outs ){ for( int k = 0; k < outs; k++ ) output.addPort< int >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      for( int k = 0; k < outs; k++ )
      {
         FIFO &f( output[ std::to_string( k ) ] );
         const int c( f.capacity() );
         VP_CHECK( c == ( want_cap + k ), "a stream asked for with capacity %d has capacity %d", want_cap + k, c );
         VP_CHECK( (int) f.space_avail() == c, "an unused stream of capacity %d has room for %d", c, (int) f.space_avail() );
         /* fill it without waiting */
         for( int j = 0; j < c; j++ ) f.push< int >( Tr< int >::make( 10 * k + j + 1 ) );
         VP_CHECK( f.space_avail() <= (std::size_t) c, "free space is out of range" );
      }
      return( raft::stop );
   }
};
template < int OUTS, class ... How > void capacity( int c )
{
   reset();
   { CapS g( c, OUTS ); Snk< int > a( 0 ), b( 1 ); raft::map m; m.link( &g, "0", &a, "0", c ); if( OUTS > 1 ) m.link( &g, "1", &b, "0", c + 1 ); in_exe( 1 ); m.exe< How... >(); in_exe( -1 );
     want( 0, c ); if( OUTS > 1 ) want( 1, c + 1, 10 ); }
   clean();
}
/* a kernel counts its own runs; naps make the others overtake it */
template < class T > void runs( int n, int nap1, int nap2 )
{
   reset();
   { Src< T > g( n, 0, 1, PLAIN, false, nap1 ); Pass< T > p; Snk< T > k( 0, 1, PLAIN, false, nap2 ); raft::map m; m.link( &g, "0", &p, "0", 1 ); m.link( &p, "0", &k, "0", 1 ); go( m );
     want( 0, n ); VP_CHECK( g.runs == n, "the source ran %d times for %d elements", g.runs, n ); VP_CHECK( p.runs == n && k.runs == n, "kernels taking one element per run ran %d and %d times for %d elements", p.runs, k.runs, n );
     VP_CHECK( g.ended, "the source never stopped" ); VP_CHECK( g.thread != p.thread && p.thread != k.thread, "two kernels shared a thread" ); }
   clean();
}
/* a kernel without any work to do stops at its first run */
struct Once : Base { int *hits; Once( int *h ) : hits( h ){ output.addPort< int >( "0" ); } virtual raft::kstatus body(){ ( *hits )++; return( raft::stop ); } };
void once( int sinks )
{
   reset();
   { int h[ 2 ] = { 0, 0 }; Once a( &h[ 0 ] ), b( &h[ 1 ] ); Snk< int > k( 0, 2 ); raft::map m; m.link( &a, "0", &k, "0", 1 ); m.link( &b, "0", &k, "1", 1 ); go( m );
     VP_CHECK( h[ 0 ] == 1 && h[ 1 ] == 1, "kernels that stop at once ran %d and %d times", h[ 0 ], h[ 1 ] ); VP_CHECK( k.runs == 0, "a kernel without input data ran %d times", k.runs ); }
   clean();
}
/* a kernel without outputs that asks to stop after m of n elements while more are there;
 * one without inputs and outputs left over cannot exist, so this is the only other way to stop */
struct Quit : Base
{
   int m, ins; Quit( int m, int ins = 1 ) : m( m ), ins( ins ){ for( int k = 0; k < ins; k++ ) input.addPort< int >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      has_data( ins );
      for( int k = 0; k < ins; k++ ) if( avail( std::to_string( k ) ) ){ int v( 0 ); input[ std::to_string( k ) ].pop< int >( v ); rec( k, v ); break; }
      return( runs == m ? raft::stop : raft::proceed );
   }
};
void sink_stops( int n, int m, int ins )
{
   reset();
   { Src< int > g( n, 0, ins ); Quit q( m, ins ); raft::map mp; for( int k = 0; k < ins; k++ ) mp.link( &g, std::to_string( k ), &q, std::to_string( k ), n ); go( mp );
     VP_CHECK( q.runs == m && q.ended, "a sink that stops at its run %d ran %d times", m, q.runs ); VP_CHECK( R[ 0 ].n + R[ 1 ].n == m, "%d elements were taken", R[ 0 ].n + R[ 1 ].n ); }
   clean();
}
template < class M > void empty_map(){ reset(); { raft::map m; go( m ); } clean(); }
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const char *n, std::function< void() > f, int q = 1, int t = 2 ){ v.push_back( { n, f, q, t, false, true } ); };
   /* --- C10: everything arrives and exe() returns */
   add( "C10.pipe2.int.deep",   []{ pipe2< int >( 1, 1 ); }, 2, 2 );
   add( "C10.pipe2.int",        []{ pipe2< int >( 3, 1 ); } );
   add( "C10.pipe2.int.cap2",   []{ pipe2< int >( 4, 2, PLAIN, PLAIN, true ); } );
   add( "C10.pipe2.default",    []{ pipe2< int >( 3, 0 ); } );
   add( "C10.pipe2.none",       []{ pipe2< int >( 0, 1 ); } );
   add( "C10.pipe2.scoped",     []{ pipe2< Pod >( 3, 1, SCOPED, SCOPED, true ); } );
   add( "C10.pipe2.peek",       []{ pipe2< Sm >( 3, 1, ASEND, PEEK, true ); } );
   add( "C10.pipe2.bigobj",     []{ pipe2< Bg >( 3, 2, SCOPED, SCOPED, true ); } );
   add( "C10.pipe2.string",     []{ pipe2< std::string >( 3, 1, PLAIN, PEEK, true ); } );
   add( "C10.pipe3.int",        []{ pipe3< int >( 3, 1, 1, PLAIN, PLAIN, PLAIN ); } );
   add( "C10.pipe3.obj",        []{ pipe3< Sm >( 3, 1, 2, SCOPED, PEEK, SCOPED ); } );
   add( "C10.pipe3.bigobj",     []{ pipe3< Bg >( 3, 1, 2, PLAIN, PLAIN, PEEK ); } );
   add( "C10.fork.int",         []{ fork2< int >( 2, 1 ); } );
   add( "C10.passfork.int",     []{ passfork< int >( 2, 1, PLAIN ); } );
   add( "C10.merge.int",        []{ merge< int >( 2, 3, 1 ); } );
   add( "C10.merge.empty",      []{ merge< int >( 0, 2, 1 ); } );
   add( "C10.diamond.int",      []{ diamond< int >( 2, 1, false ); } );
   add( "C10.broad",            []{ const int k( 2 + vpmc::choose( 5 ) ); broad< int >( k, vpmc::choose( 3 ), 1 ); }, 0, 0 );
   add( "C10.broad.bigobj",     []{ broad< Bg >( 2 + vpmc::choose( 5 ), 2, 1 ); }, 0, 0 );
   add( "C10.long.int",         []{ const int sh( vpmc::choose( 3 ) ); static const int C[] = { 0, 1, 3 }; long_run< int >( vpmc::thorough() ? 5000 : 2000, sh, C[ vpmc::choose( 3 ) ] ); }, 0, 0 );
   add( "C10.long.obj",         []{ const int sh( vpmc::choose( 3 ) ); static const int C[] = { 0, 1, 3 }; long_run< Sm >( 1500, sh, C[ vpmc::choose( 3 ) ] ); }, 0, 0 );
   add( "C10.chain",            []{ static const int N[] = { 7, 15, 16, 30, 31, 32, 33, 50 }; chain_of< int >( N[ vpmc::choose( 8 ) ], 2, 1 ); }, 0, 0 );
   add( "C10.side",             []{ static const int N[] = { 7, 15, 16, 30, 31, 32, 33, 50 }; side_by_side< int >( N[ vpmc::choose( 8 ) ], 2, 1 + vpmc::choose( 2 ) ); }, 0, 0 );
   add( "C10.pairs",            []{ static const int N[] = { 3, 7, 8, 15, 16, 17, 25 }; pairs_of< int >( N[ vpmc::choose( 7 ) ], 2, 1 ); }, 0, 0 );
   add( "C11.side",             []{ static const int N[] = { 7, 15, 16, 30, 31, 32, 33, 50 }; side_by_side< int >( N[ vpmc::choose( 8 ) ], 1, 1 ); }, 0, 0 );
   add( "C11.pairs",            []{ static const int N[] = { 3, 7, 8, 15, 16, 17, 25 }; pairs_of< int >( N[ vpmc::choose( 7 ) ], 1, 1 ); }, 0, 0 );
   add( "C12.cable",            []{ const int h( vpmc::choose( 4 ) ); cables( h, 4 ); }, 0, 0 );
   add( "C13.cable",            []{ const int h( vpmc::choose( 4 ) ); cables( h, 1 ); }, 0, 0 );
   add( "C12.ends.many",        []{ static const int N[] = { 7, 15, 16, 17, 24, 31, 32, 33, 45 }; many_ends< int >( N[ vpmc::choose( 9 ) ] ); }, 0, 0 );
   add( "C13.closes",           []{ closer< int >( 2 + vpmc::choose( 2 ) ); }, 1, 2 );
   add( "C13.closes.obj",       []{ closer< Sm >( 3 ); }, 0, 1 );
   add( "C13.chain",            []{ static const int N[] = { 7, 15, 16, 30, 31, 32, 33, 50 }; chain_of< Sm >( N[ vpmc::choose( 8 ) ], vpmc::choose( 3 ), 1 ); }, 0, 0 );
   add( "C14.side",             []{ static const int N[] = { 7, 16, 31, 32, 33, 50 }; side_by_side< Sm >( N[ vpmc::choose( 6 ) ], 1, 1 ); }, 0, 0 );
   add( "C20.cable",            []{ cables( 0, -1 ); }, 0, 0 );
   add( "C10.ids",              []{ far_ids< int >( 1 << vpmc::choose( 13 ), 2 ); }, 0, 0 );
   add( "C10.two_pipes",        []{ two_pipes< int >( 2, 1 ); } );
   add( "C10.shapes",           []{ shapes< int >( 3, 2 ); }, 0, 0 );
   add( "C10.shapes.two",       []{ shapes< Sm >( 2, 1 ); }, 0, 1 );
   /* --- C11: how kernels are run */
   add( "C10.two_maps",         []{ two_maps< int, partition_dummy, simple_schedule, stdalloc, no_parallel >( 2, 1, false ); } );
   add( "C10.two_maps.full",    []{ two_maps< Sm >( 1, 1, false ); }, 0, 1 );
   add( "C10.two_maps.build",   []{ two_maps< int, partition_dummy, simple_schedule, stdalloc, no_parallel >( 1, 1, true ); } );
   add( "C10.in_turn",          []{ in_turn< Bg >( 1, 1 ); } );
   add( "C11.runs",             []{ runs< int >( 2, 0, 0 ); }, 1, 2 );
   add( "C11.runs.slowsource",  []{ runs< int >( 2, 2, 0 ); } );
   add( "C11.runs.slowsink",    []{ runs< int >( 3, 0, 2 ); } );
   add( "C11.sinkstop",         []{ sink_stops( 3, 1, 1 ); } );
   add( "C11.sinkstop2",        []{ sink_stops( 3, 2, 2 ); } );
   add( "C13.sinkstop",         []{ sink_stops( 2, 1, 2 ); } );
   add( "C11.once",             []{ once( 2 ); } );
   add( "C11.fork",             []{ fork2< Sm >( 2, 2 ); } );
   add( "C11.deep",             []{ pipe2< int >( 1, 1 ); }, 2, 2 );
   /* --- C12: readiness */
   add( "C12.all.merge",        []{ merge< int >( 2, 2, 1, true ); } );
   add( "C12.all.merge.deep",   []{ merge< int >( 1, 1, 1, true ); }, 1, 2 );
   add( "C12.all.diamond",      []{ diamond< int >( 2, 1, true ); } );
   add( "C12.all.unequal",      []{ merge< int >( 2, 3, 2, true ); } );
   add( "C12.any.short",        []{ merge< int >( 1, 3, 1, false ); } );
   add( "C12.all.three",        []{ many< int >( 3, 2, true, 2 ); }, 0, 1 );
   add( "C12.all.four",         []{ many< int >( 4, 1 , true, 1 ); }, 0, 1 );
   add( "C12.all.zip",          []{ const int k( 2 + vpmc::choose( 3 ) ), o( 1 + vpmc::choose( k ) ); zip< int >( k, o, vpmc::choose( 3 ), 8, vpmc::choose( 2 ) ); }, 0, 0 );
   add( "C12.all.zip1",         []{ const int k( 2 + vpmc::choose( 2 ) ), o( 1 + vpmc::choose( k ) ); zip< int >( k, o, 1 + vpmc::choose( 3 ), 1, false ); }, 0, 0 );
   add( "C12.all.zip2",         []{ zip< int >( 2, 2, 1, 1, false ); } );
   add( "C12.any.wide",         []{ many< int >( 3 + vpmc::choose( 4 ), 1, false, 1 ); }, 0, 0 );
   add( "C12.any.three",        []{ merge3< int >( 1, 0, 2, 1 ); } );
   add( "C12.any.merge",        []{ merge< int >( 3, 1, 1, false ); } );
   /* --- C13: stopping */
   add( "C13.early.int",        []{ early< int >( 3, 1 ); } );
   add( "C13.early.obj",        []{ early< Sm >( 3, 2 ); } );
   add( "C13.branch",           []{ early_branch< int >( 2 ); } );
   add( "C13.broad",            []{ const int k( 2 + vpmc::choose( 5 ) ); broad< Sm >( k, vpmc::choose( 3 ), 1 ); }, 0, 0 );
   add( "C13.source",           []{ pipe2< int >( 2, 1 ); }, 1, 2 );
   add( "C13.source.deep",      []{ pipe2< int >( 1, 2 ); }, 2, 2 );
   add( "C13.once",             []{ once( 2 ); } );
   /* --- C14: nothing is left behind */
   add( "C14.owned.int",        []{ owned< int >( 2 ); } );
   add( "C14.owned.obj",        []{ owned< Sm >( 2 ); } );
   add( "C14.owned.bigobj",     []{ owned< Bg >( 2 ); } );
   add( "C14.shapes",           []{ shapes< Bg >( 3, 1 ); }, 0, 0 );
   add( "C14.leftover",         []{ sink_stops( 1 + vpmc::choose( 3 ), 1, 1 + vpmc::choose( 2 ) ); } );
   add( "C14.owned.many",       []{ owned_many< int >( 3 + vpmc::choose( 12 ), 2 ); }, 0, 0 );
   add( "C14.empty",            []{ empty_map< raft::map >(); } );
   add( "C14.deep",             []{ pipe2< Bg >( 1, 1, PLAIN, SCOPED ); }, 2, 2 );
   /* --- C20 allocation */
   add( "C20.capacity1",        []{ capacity< 1 >( 1 ); }, 2 );
   add( "C20.std1",             []{ capacity< 1, partition_dummy, simple_schedule, stdalloc, no_parallel >( 1 ); }, 2 );
   add( "C20.std3",             []{ capacity< 2, partition_dummy, simple_schedule, stdalloc, no_parallel >( 3 ); } );
   add( "C20.capacity3",        []{ capacity< 2 >( 3 ); } );
   return( vpmc::main( argc, argv, v ) );
}
