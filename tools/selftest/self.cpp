// PROPS: 
#include <vpmc.h>
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <cstdlib>
namespace {
struct Rng{ unsigned x; unsigned operator()( unsigned n ){ x ^= x << 13; x ^= x >> 17; x ^= x << 5; return( x % n ); } };
long V[ 4 ]; std::atomic< int > A; std::mutex M;
struct Op{ int k, v; };
VP_QUIET void go( unsigned seed, std::vector< std::vector< Op > > &p, int nt, int len )
{ Rng r{ seed * 2654435761u + 1 }; p.resize( nt ); for( auto &t : p ) for( int i = 0; i < len; i++ ) t.push_back( { (int) r( 9 ), (int) r( 3 ) } ); }
std::uint64_t run( const std::vector< Op > &ops, int me )
{
   std::uint64_t h( me );
   for( auto &o : ops )
   {
      switch( o.k )
      {
      case 0: case 1: h = vpmc::mix( h, V[ o.v ] ); break;
      case 2: case 3: V[ o.v ] = (long)( h & 0xff ) + me; break;
      case 4: V[ o.v ]++; break;
      case 5: { std::lock_guard< std::mutex > g( M ); h = vpmc::mix( h, V[ 3 ] ); V[ 3 ] += me + 1; } break;
      case 6: sched_yield(); break;
      case 7: h = vpmc::mix( h, A.fetch_add( me + 1 ) ); break;
      case 8: if( M.try_lock() ){ h = vpmc::mix( h, 5 ); V[ 3 ] ^= 3; M.unlock(); } break;
      }
   }
   return( h );
}
void body( unsigned seed, int nt, int len )
{
   for( auto &v : V ) v = 0; A = 0;
   std::vector< std::vector< Op > > p; go( seed, p, nt, len );
   std::uint64_t out[ 4 ] = {};
   { std::vector< std::thread > t; for( int i = 0; i < nt; i++ ) t.emplace_back( [&, i]{ out[ i ] = run( p[ i ], i ); } ); for( auto &x : t ) x.join(); }
   std::uint64_t h( 1 ); for( auto v : out ) h = vpmc::mix( h, v ); for( auto v : V ) h = vpmc::mix( h, v ); vpmc::observe( h ); vpmc::observe( A );
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   for( unsigned s = 0; s < 300; s++ ) v.push_back( { "S." + std::to_string( s ), [s]{ body( s, s % 2 ? 2 : 3, s % 2 ? 7 : 5 ); }, 2, 3, false, true } );
   return( vpmc::main( argc, argv, v ) );
}
