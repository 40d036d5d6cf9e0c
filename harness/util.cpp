// PROPS: C29
// C29: ranges of numbers, sets of kernels and running statistics hold exactly what was put in
#include <vector>
/* sets of anything, the way the library's own test uses them */
#define TEST_WO_RAFT 1
#include "raftinc/kset.tcc"
#undef TEST_WO_RAFT
#include "rt.h"
#include <cmath>
#include "raftinc/utility.hpp"
#include "raftinc/streamingstat.tcc"
#include "raftinc/kernelkeeper.tcc"
using namespace rt;
namespace {
template < class A, class B > void range_( int lo, int hi, int parts )
{
   using T = std::common_type_t< A, B >;
   reset();
   {
      const int n( ( hi - lo ) * parts + 1 );
      const A a( (A) ( lo + (T) vpmc::choose( n ) / (T) parts ) ); const B b( (B) ( lo + (T) vpmc::choose( n ) / (T) parts ) );
      const int di( vpmc::choose( 5 ) ); const T d( di == 0 ? (T) 1 : (T) di / (T) parts );
      if( ! ( d > 0 ) ) return;
      const auto r( di == 0 ? raft::range( a, b ) : raft::range( a, b, d ) );
      std::vector< T > w;
      if( (T) a < (T) b ) for( T x( a ); ; x = (T) ( x + d ) ){ w.push_back( x ); if( (T) ( (T) b - x ) < d ) break; }
      else for( T x( a ); ; x = (T) ( x - d ) ){ w.push_back( x ); if( (T) ( x - (T) b ) < d ) break; }
      VP_CHECK( r.size() == w.size(), "the numbers from %g to %g in steps of %g: %d instead of %d", (double) a, (double) b, (double) d, (int) r.size(), (int) w.size() );
      for( std::size_t i = 0; i < w.size(); i++ ) VP_CHECK( r[ i ] == w[ i ], "the numbers from %g to %g in steps of %g: number %d is %g instead of %g", (double) a, (double) b, (double) d, (int) i, (double) r[ i ], (double) w[ i ] );
   }
   clean();
}
/* the same at the far ends of what the type can hold, long ones, and steps of any size */
template < class T > void range_far()
{
   using W = __int128; const W lo( std::numeric_limits< T >::min() ), hi( std::numeric_limits< T >::max() );
   reset();
   {
      std::vector< W > at{ lo, hi, 0, lo + 1, hi - 1 }, len{ 0, 1, 2, 3, 5, 126, 127, 128, 129, 254, 255, 256, 257, 300, 4097, 65535, 65536, 65537, hi / 2, hi / 2 + 1, hi - 1, hi, hi - lo - 1, hi - lo }, st{ 1, 2, 3, 7, 127, 255, 256, 65536, hi / 2, hi / 2 + 1, hi - 1, hi };
      for( int b : { 15, 16, 24, 31, 32, 53, 62, 63 } ) for( int d = -1; d <= 1; d++ ){ at.push_back( ( (W) 1 << b ) + d ); at.push_back( -( (W) 1 << b ) + d ); }
      const W a( at[ vpmc::choose( (int) at.size() ) ] ), n( len[ vpmc::choose( (int) len.size() ) ] ), d( st[ vpmc::choose( (int) st.size() ) ] ); const bool up( vpmc::choose( 2 ) ); const W b( up ? a + n : a - n );
      if( a < lo || a > hi || b < lo || b > hi || d > hi || n / d > 70000 ) return;
      if( n / d > 300 && a != 0 && b != 0 && a != hi && b != lo ) return;
      const auto r( raft::range( (T) a, (T) b, (T) d ) );
      VP_CHECK( (W) r.size() == n / d + 1, "the numbers from %lld to %lld in steps of %lld are %lld, not %lld", (long long) a, (long long) b, (long long) d, (long long) ( n / d + 1 ), (long long) r.size() );
      for( std::size_t i = 0; i < r.size(); i++ ) VP_CHECK( (W) r[ i ] == ( up ? a + (W) i * d : a - (W) i * d ), "the numbers from %lld to %lld in steps of %lld: number %d is %lld", (long long) a, (long long) b, (long long) d, (int) i, (long long) r[ i ] );
   }
   clean();
}
template < class S > void kset_look( S &&s, std::vector< int* > want )
{
   VP_CHECK( s.size() == want.size(), "a set of %d has the size %d", (int) want.size(), (int) s.size() );
   std::size_t i( 0 ); for( auto &x : s ){ VP_CHECK( i < want.size() && &x.get() == want[ i ], "element %d of a set of %d is another one", (int) i, (int) want.size() ); i++; }
   VP_CHECK( i == want.size(), "%d elements in a set of %d", (int) i, (int) want.size() );
   i = 0; for( auto it( s.cbegin() ); it != s.cend(); ++it, ++i ) VP_CHECK( &it->get() == want[ i ], "element %d of a set of %d is another one", (int) i, (int) want.size() );
   VP_CHECK( i == want.size(), "%d elements in a set of %d", (int) i, (int) want.size() );
}
void kset_()
{
   reset();
   {
      static int v[ 4 ]; const int n( 1 + vpmc::choose( 5 ) ); int k[ 5 ]; std::vector< int* > w;
      for( int i = 0; i < n; i++ ){ k[ i ] = vpmc::choose( 3 ); w.push_back( &v[ k[ i ] ] ); }
      switch( n )
      {
         case 1: kset_look( raft::kset( v[ k[ 0 ] ] ), w ); break;
         case 2: kset_look( raft::kset( v[ k[ 0 ] ], v[ k[ 1 ] ] ), w ); break;
         case 3: kset_look( raft::kset( v[ k[ 0 ] ], v[ k[ 1 ] ], v[ k[ 2 ] ] ), w ); break;
         case 4: kset_look( raft::kset( v[ k[ 0 ] ], v[ k[ 1 ] ], v[ k[ 2 ] ], v[ k[ 3 ] ] ), w ); break;
         case 5: { auto s( raft::kset( v[ k[ 0 ] ], v[ k[ 1 ] ], v[ k[ 2 ] ], v[ k[ 3 ] ], v[ k[ 4 ] ] ) ); auto t( std::move( s ) ); kset_look( t, w ); } break;
      }
   }
   clean();
}
template < class T > void stat_( int len )
{
   reset();
   {
      raft::streamingstat< T > s; std::vector< double > x;
      for( int i = 0; i < len; i++ )
      {
         const int c( vpmc::choose( 6 ) );
         if( c == 5 ){ s.reset(); x.clear(); continue; }
         const T v( (T) ( c - 1 ) * 3 ); s.update( v ); x.push_back( (double) v );
         double m( 0 ), q( 0 ); for( double y : x ) m += y; m /= x.size(); for( double y : x ) q += ( y - m ) * ( y - m ); q = std::sqrt( q / x.size() );
         const double gm( s.template mean< double >() ), gf( s.template mean< float >() ), gq( s.template std< double >() );
         VP_CHECK( std::fabs( gm - m ) < 1e-6 && std::fabs( gf - m ) < 1e-4, "the mean of %d numbers is %g, reported as %g", (int) x.size(), m, gm );
         VP_CHECK( std::fabs( gq - q ) < 1e-3 || ( std::isnan( gq ) && q < 1e-6 ), "the deviation of %d numbers is %g, reported as %g", (int) x.size(), q, gq );
      }
   }
   clean();
}
/* threads add to and go through the same set */
void keeper_( int writers, int each, bool reader )
{
   reset();
   {
      kernelkeeper kk; static char mem[ 16 ]; auto at = [ & ]( int i ){ return( reinterpret_cast< raft::kernel* >( mem + i ) ); };
      std::vector< std::thread > th;
      for( int w = 0; w < writers; w++ ) th.emplace_back( [ &, w ]{ for( int i = 0; i < each; i++ ) kk += at( w * each + i ); kk += at( 15 ); } );
      if( reader )
      {
         std::size_t before( 0 );
         for( int r = 0; r < 2; r++ )
         {
            auto &c( kk.acquire() ); std::size_t n( 0 ); const std::size_t s( c.size() );
            for( auto *k : c ){ const long i( reinterpret_cast< char* >( k ) - mem ); VP_CHECK( i >= 0 && ( i < writers * each || i == 15 ), "an element nobody added" ); n++; vpmc::point(); }
            VP_CHECK( n == s && n >= before, "a set held by one thread changed from %d to %d elements", (int) s, (int) n ); before = n;
            kk.release();
         }
      }
      for( auto &t : th ) t.join();
      const std::size_t want( writers * each + 1 ); VP_CHECK( kk.size() == want, "%d elements added, %d in the set", (int) want, (int) kk.size() );
      auto &c( kk.acquire() ); for( std::size_t i = 0; i < want; i++ ) VP_CHECK( c.count( at( i + 1 == want ? 15 : (int) i ) ) == 1, "element %d is not in the set", (int) i ); kk.release();
   }
   clean();
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const char *n, std::function< void() > f, int q = 0, int t = 0 ){ v.push_back( { n, f, q, t, false, true } ); };
   add( "C29.range.int",      []{ range_< int, int >( -5, 5, 1 ); } );
   add( "C29.range.unsigned", []{ range_< unsigned, unsigned >( 0, 9, 1 ); } );
   add( "C29.range.mixed",    []{ range_< int, long long >( -4, 5, 1 ); } );
   add( "C29.range.char",     []{ range_< signed char, signed char >( -5, 5, 1 ); } );
   add( "C29.range.size",     []{ range_< std::size_t, std::size_t >( 0, 9, 1 ); } );
   add( "C29.range.real",     []{ range_< double, double >( -2, 2, 4 ); } );
   add( "C29.range.intreal",  []{ range_< int, float >( -3, 3, 4 ); } );
   add( "C29.range.realint",  []{ range_< double, long long >( -3, 3, 4 ); } );
   add( "C29.range.far.int",      []{ range_far< int >(); } );
   add( "C29.range.far.long",     []{ range_far< long long >(); } );
   add( "C29.range.far.size",     []{ range_far< std::size_t >(); } );
   add( "C29.range.far.unsigned", []{ range_far< unsigned >(); } );
   add( "C29.range.far.char",     []{ range_far< signed char >(); } );
   add( "C29.range.far.short",    []{ range_far< unsigned short >(); } );
   add( "C29.kset",           []{ kset_(); } );
   add( "C29.stat.int",       []{ stat_< int >( vpmc::thorough() ? 6 : 5 ); } );
   add( "C29.stat.double",    []{ stat_< double >( vpmc::thorough() ? 6 : 5 ); } );
   add( "C29.stat.float",     []{ stat_< float >( vpmc::thorough() ? 6 : 5 ); } );
   add( "C29.keeper.two",     []{ keeper_( 2, 1, false ); }, 4, 6 );
   add( "C29.keeper.read",    []{ keeper_( 2, 1, true ); }, 3, 5 );
   add( "C29.keeper.three",   []{ keeper_( 3, 2, false ); }, 2, 3 );
   return( vpmc::main( argc, argv, v ) );
}
