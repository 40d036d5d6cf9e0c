// PROPS: C06
/* A stream that a third thread enlarges while the producer and the consumer
 * use it: every write and read operation, every element class, every schedule
 * up to the deviation bound.  The resize may happen anywhere, any number of
 * times, or not at all. */
#include "fifo_util.h"
using namespace el;

namespace
{
struct Cnt { int wdone, rstart, maxcap, resizes; };
Cnt C;
VP_QUIET void reset( int cap ){ C = Cnt{ 0, 0, cap, 0 }; }
VP_QUIET void grown( int cap ){ C.maxcap = cap; C.resizes++; vpmc::observe( 7000 + cap ); vpmc::progress(); }
VP_QUIET void growing( int cap ){ if( cap > C.maxcap ) C.maxcap = cap; }
VP_QUIET void wr_done( int k )
{
   C.wdone += k; vpmc::progress();
   VP_CHECK( C.wdone - C.rstart <= C.maxcap, "%d elements were accepted although only %d were taken out of a stream of capacity at most %d", C.wdone, C.rstart, C.maxcap );
}
VP_QUIET void rd_start( int k ){ C.rstart += k; }
VP_QUIET void rd_done( int k ){ vpmc::observe( k ); vpmc::progress(); }
VP_QUIET int maxcap(){ return( C.maxcap ); }
raft::signal sig_of( int id ){ return( id % 3 == 0 ? SIGA : id % 3 == 1 ? raft::none : raft::eof ); }

constexpr int NW = 6, NR = 6;
const char *wn[] = { "push", "allocate/send", "allocate_s", "insert", "allocate_range/send_range", "deallocate+push" };
const char *rn[] = { "pop", "pop_range", "pop_s", "peek/unpeek/recycle", "peek_range/recycle", "peek/unpeek/pop" };
struct Conf { int w, r, cap, n; bool close, sizes; int resizes; };

template < class T > void producer( FIFO *f, const Conf &c )
{
   int id( 1 );
   while( id <= c.n )
   {
      const raft::signal s( sig_of( id ) );
      switch( c.w )
      {
         case 0: { T v( Tr< T >::make( id ) ); f->push< T >( v, s ); wr_done( 1 ); id++; } break;
         case 1: { auto &x( f->allocate< T >() ); Tr< T >::set( x, id ); f->send( s ); wr_done( 1 ); id++; } break;
         case 2: { { auto x( f->allocate_s< T >() ); Tr< T >::set( *x, id ); x.sig() = s; } wr_done( 1 ); id++; } break;
         case 3: { std::vector< T > v; for( int i = 0; i < c.n; i++ ) v.push_back( Tr< T >::make( id + i ) );
                   f->insert( v.begin(), v.end(), SIGB ); wr_done( c.n ); id += c.n; } break;
         case 4: { int k( c.cap < 2 ? 1 : 2 ); if( k > c.n - id + 1 ) k = c.n - id + 1;
                   auto v( f->allocate_range< T >( k ) ); for( int i = 0; i < k; i++ ) Tr< T >::set( v[ i ].get(), id + i ); f->send_range( SIGB ); wr_done( k ); id += k; } break;
         case 5: { auto &x( f->allocate< T >() ); Tr< T >::set( x, 99 ); f->deallocate(); f->push< T >( Tr< T >::make( id ), s ); wr_done( 1 ); id++; } break;
      }
      if( c.sizes )
      {
         const int sp( f->space_avail() );
         VP_CHECK( sp >= 0 && sp <= maxcap(), "the producer was told that %d slots are free in a stream of capacity at most %d", sp, maxcap() );
         const int cp( f->capacity() );
         VP_CHECK( cp >= c.cap && cp <= maxcap(), "capacity() is %d, the stream has between %d and %d slots", cp, c.cap, maxcap() );
      }
   }
   if( c.close ) f->invalidate();
}
raft::signal exp_sig( const Conf &c, int id )
{
   if( c.w == 3 ) return( id == c.n ? SIGB : raft::none );
   if( c.w == 4 ){ const int k( c.cap < 2 ? 1 : 2 ); return( id % k == 0 || id == c.n ? SIGB : raft::none ); }
   return( sig_of( id ) );
}
template < class T > struct Reader
{
   FIFO *f; Q< T > &q; const Conf &c; int next = 1;
   void got( const T &v, raft::signal s )
   {
      const int g( Tr< T >::id( v ) );
      VP_CHECK( g == next, "%s received element %d, expected %d", rn[ c.r ], g, next );
      VP_CHECK( s == exp_sig( c, g ), "element %d arrived with signal %u instead of %u", g, (unsigned) s, (unsigned) exp_sig( c, g ) );
      next++;
   }
   void one( int want )
   {
      switch( c.r )
      {
         case 0: { T v( Tr< T >::make( 200 ) ); raft::signal s( SIGB ); rd_start( 1 ); f->pop< T >( v, &s ); rd_done( 1 ); got( v, s ); } break;
         case 1: { std::vector< std::pair< T, raft::signal > > v( want, std::make_pair( Tr< T >::make( 200 ), SIGB ) ); rd_start( want ); f->pop_range< T >( v, want ); rd_done( want );
                   for( auto &p : v ) got( p.first, p.second ); } break;
         case 2: { rd_start( 1 ); { auto x( f->pop_s< T >() ); got( *x, x.sig() ); } rd_done( 1 ); } break;
         case 3: { raft::signal s( SIGB ); rd_start( 1 ); auto &x( f->peek< T >( &s ) ); got( x, s ); f->unpeek(); f->recycle( 1 ); rd_done( 1 ); } break;
         case 4: if constexpr( ! Tr< T >::ext ) { int k( c.cap < 2 ? 1 : 2 ); if( k > want ) k = want; rd_start( k );
                   { auto r( f->peek_range< T >( k ) ); for( int i = 0; i < k; i++ ){ auto p( r[ i ] ); got( p.ele, p.sig ); } } f->recycle( k ); rd_done( k ); } break;
         case 5: { raft::signal s( SIGB ); rd_start( 1 ); { auto &x( f->peek< T >( &s ) ); got( x, s ); next--; } f->unpeek(); T v( Tr< T >::make( 200 ) ); f->pop< T >( v, &s ); rd_done( 1 ); got( v, s ); } break;
      }
      if( Tr< T >::ext ) q.gc();
      if( c.sizes )
      {
         const int sz( f->size() );
         VP_CHECK( sz <= maxcap(), "size() is %d, larger than the capacity %d", sz, maxcap() );
      }
   }
};
template < class T > void run( const Conf &c )
{
   vpmc::note( "%s cap %d n %d: %s -> %s%s%s", Tr< T >::name(), c.cap, c.n, wn[ c.w ], rn[ c.r ], c.close ? ", then closed" : "", c.sizes ? ", asking sizes" : "" );
   reset( c.cap );
   const long base( live() );
   {
      Q< T > q( c.cap ); FIFO *f( q.f );
      volatile bool exit_alloc( false );
      std::thread p( [&]{ producer< T >( f, c ); } );
      std::thread m( [&]{
         int cap( c.cap );
         for( int i = 0; i < c.resizes && ! exit_alloc; i++ )
         {
            cap *= 2; growing( cap );
            f->resize( cap, 16, exit_alloc );
            if( (int) f->capacity() == cap ) grown( cap );
            else cap /= 2;
         } } );
      {
         Reader< T > r{ f, q, c };
         if( ! c.close ) while( r.next <= c.n ) r.one( c.n - r.next + 1 );
         else
         {
            bool end( false );
            while( ! end )
            {
               try{ r.one( 1 ); }
               catch( ClosedPortAccessException & ){ end = true; }
            }
            VP_CHECK( r.next == c.n + 1, "the end of the stream was reported after %d of %d elements", r.next - 1, c.n );
            VP_CHECK( f->is_invalid(), "drained, but not reported as closed" );
         }
      }
      p.join();
      exit_alloc = true;
      m.join();
      VP_CHECK( f->size() == 0, "%zu elements left in a stream that was read completely", f->size() );
      const int cp( f->capacity() );
      int k( c.cap ); while( k < cp ) k *= 2;
      VP_CHECK( k == cp && cp <= maxcap(), "capacity %d after growing a stream of %d slots to at most %d", cp, c.cap, maxcap() );
      VP_CHECK( (int) f->space_avail() == cp, "an empty stream of capacity %d reports %zu free slots", cp, f->space_avail() );
      if( Tr< T >::tracked ) VP_CHECK( live() == base, "%ld elements were never destroyed", live() - base );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed", vpmc::live_blocks(), vpmc::live_bytes() );
}
template < class T > bool legal( int w, int r ){ return( ! ( w == 4 && ! Tr< T >::plain ) && ! ( r == 4 && Tr< T >::ext ) ); }
template < class T > void star( int cap0, int caps, bool close, bool sizes, int resizes )
{
   Conf c; c.cap = cap0 + vpmc::choose( caps ); const int k( vpmc::choose( NW + NR - 1 ) ); if( k < NW ){ c.w = k; c.r = 0; }else{ c.w = 0; c.r = k - NW + 1; }
   if( ! legal< T >( c.w, c.r ) ) return;
   c.n = c.cap + 1; c.close = close; c.sizes = sizes; c.resizes = resizes;
   run< T >( c );
}
template < class T > void add( std::vector< vpmc::Scenario > &v )
{
   const std::string n( Tr< T >::name() );
   const bool rep( std::is_same< T, int >::value || std::is_same< T, Sm >::value );
   const int q( rep ? 2 : 1 );
   v.push_back( { "C06.conc." + n, []{ star< T >( 2, 2, false, false, 1 ); }, q, q + 1 } );
   v.push_back( { "C06.twice." + n, []{ star< T >( 2, 1, false, false, 2 ); }, 1, q + 1 } );
   v.push_back( { "C06.close." + n, []{ star< T >( 2, 1, true, false, 1 ); }, q, q + 1 } );
   v.push_back( { "C06.sizes." + n, []{ star< T >( 2, 1, false, true, 1 ); }, 1, q + 1 } );
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   add< int >( v ); add< unsigned char >( v ); add< Pod >( v ); add< Sm >( v ); add< std::string >( v ); add< Bg >( v ); add< BigPod >( v );
   return( vpmc::main( argc, argv, v ) );
}
