// PROPS: C01 C02 C03 C04 C05 C06
/* One producer thread and one consumer thread on a stream: every pair of
 * write and read operations, every element class, capacities 1..3, under
 * every schedule up to the deviation bound. */
#include "fifo_util.h"
using namespace el;

namespace
{
/* harness bookkeeping, not scheduling points */
struct Cnt { int wstart, wdone, rstart, rdone, cap; bool closed; };
Cnt C;
VP_QUIET void wr_start( int k ){ C.wstart += k; }
VP_QUIET void wr_done( int k )
{
   C.wdone += k; vpmc::progress(); vpmc::observe( 1 );
   VP_CHECK( C.wdone - C.rstart <= C.cap, "%d elements were accepted although only %d were taken out of a stream of capacity %d", C.wdone, C.rstart, C.cap );
}
VP_QUIET void rd_start( int k ){ C.rstart += k; }
VP_QUIET void rd_done( int k ){ C.rdone += k; vpmc::progress(); vpmc::observe( 2 ); }
VP_QUIET int rdone(){ return( C.rdone ); }
VP_QUIET int wstart(){ return( C.wstart ); }
VP_QUIET int wdone(){ return( C.wdone ); }
VP_QUIET int rstart(){ return( C.rstart ); }
VP_QUIET void reset( int cap ){ C = Cnt{ 0, 0, 0, 0, cap, false }; }
VP_QUIET void set_cap( int c ){ C.cap = c; }

raft::signal sig_of( int id ){ return( id % 3 == 0 ? SIGA : id % 3 == 1 ? raft::none : raft::eof ); }
const char *wn[] = { "push", "allocate/send", "allocate_s", "insert", "allocate_range/send_range", "deallocate+push" };
const char *rn[] = { "pop", "pop_range", "pop_s", "peek/unpeek/recycle", "peek_range/recycle", "peek/unpeek/pop" };
constexpr int NW = 6, NR = 6;

struct Conf { int w, r, cap, n; bool sigs, close, sizes; int steps; };

template < class T > void producer( FIFO *f, const Conf &c )
{
   int id( 1 );
   while( id <= c.n )
   {
      const raft::signal s( c.sigs ? sig_of( id ) : raft::none );
      switch( c.w )
      {
         case 0: { wr_start( 1 ); T v( Tr< T >::make( id ) ); f->push< T >( v, s ); wr_done( 1 ); id++; } break;
         case 1: { wr_start( 1 ); alloc< T >( *f, id ); f->send( s ); wr_done( 1 ); id++; } break;
         case 2: { wr_start( 1 ); { auto x( alloc_s< T >( *f, id ) ); x.sig() = s; } wr_done( 1 ); id++; } break;
         case 3: { const int k( c.n ); std::vector< T > v; for( int i = 0; i < k; i++ ) v.push_back( Tr< T >::make( id + i ) );
                   wr_start( k ); f->insert( v.begin(), v.end(), c.sigs ? SIGB : raft::none ); wr_done( k ); id += k; } break;
         case 4: { int k( c.cap < 2 ? 1 : 2 ); if( k > c.n - id + 1 ) k = c.n - id + 1; wr_start( k );
                   auto v( f->allocate_range< T >( k ) ); for( int i = 0; i < k; i++ ) Tr< T >::set( v[ i ].get(), id + i ); f->send_range( c.sigs ? SIGB : raft::none ); wr_done( k ); id += k; } break;
         case 5: { wr_start( 1 ); auto &x( f->allocate< T >() ); Tr< T >::set( x, 99 ); f->deallocate(); f->push< T >( Tr< T >::make( id ), s ); wr_done( 1 ); id++; } break;
      }
      if( c.sizes )
      {
         const int d( wdone() ); 
         const int sp( f->space_avail() );
         VP_CHECK( sp >= 0 && sp <= c.cap - ( d - rstart() ), "the producer was told that %d slots are free, at most %d are", sp, c.cap - ( d - rstart() ) );
      }
   }
   if( c.close ) f->invalidate();
}

/* the signal every element was sent with */
raft::signal exp_sig( const Conf &c, int id )
{
   if( ! c.sigs ) return( raft::none );
   if( c.w == 3 ) return( id == c.n ? SIGB : raft::none );
   if( c.w == 4 ){ const int k( c.cap < 2 ? 1 : 2 ); return( id % k == 0 || id == c.n ? SIGB : raft::none ); }
   return( sig_of( id ) );
}

template < class T > struct Reader
{
   FIFO *f; Q< T > &q; const Conf &c; int next = 1;
   void got( const T &v, raft::signal s )
   {
      const int g( Tr< T >::id( v ) );
      VP_CHECK( g == next, "%s received element %d, expected %d", rn[ c.r ], g, next );
      VP_CHECK( s == exp_sig( c, g ), "element %d arrived with signal %u instead of %u", g, (unsigned) s, (unsigned) exp_sig( c, g ) );
      next++;
   }
   void one( int want )
   {
      switch( c.r )
      {
         case 0: { T v( Tr< T >::make( 200 ) ); raft::signal s( SIGB ); rd_start( 1 ); f->pop< T >( v, &s ); rd_done( 1 ); got( v, s ); } break;
         case 1: { std::vector< std::pair< T, raft::signal > > v( want, std::make_pair( Tr< T >::make( 200 ), SIGB ) ); rd_start( want ); f->pop_range< T >( v, want ); rd_done( want );
                   for( auto &p : v ) got( p.first, p.second ); } break;
         case 2: { rd_start( 1 ); { auto x( f->pop_s< T >() ); got( *x, x.sig() ); } rd_done( 1 ); } break;
         case 3: { raft::signal s( SIGB ), s2( SIGB ); rd_start( 1 ); auto &x( f->peek< T >( &s ) ); got( x, s ); next--; 
                   auto &y( f->peek< T >( &s2 ) ); VP_CHECK( &y == &x, "two peeks show different elements" ); got( y, s2 ); f->unpeek(); f->recycle( 1 ); rd_done( 1 ); } break;
         case 4: if constexpr( ! Tr< T >::ext ) { int k( c.cap < 2 ? 1 : 2 ); if( k > want ) k = want; rd_start( k );
                   { auto r( f->peek_range< T >( k ) ); for( int i = 0; i < k; i++ ){ auto p( r[ i ] ); got( p.ele, p.sig ); } } f->recycle( k ); rd_done( k ); } break;
         case 5: { raft::signal s( SIGB ); rd_start( 1 ); { auto &x( f->peek< T >( &s ) ); got( x, s ); next--; } f->unpeek(); T v( Tr< T >::make( 200 ) ); f->pop< T >( v, &s ); rd_done( 1 ); got( v, s ); } break;
      }
      if( Tr< T >::ext ) q.gc();
      if( c.sizes )
      {
         const int sz( f->size() );
         VP_CHECK( sz <= C.cap, "size() is %d, larger than the capacity %d", sz, C.cap );
         VP_CHECK( sz <= wstart() - rdone(), "the consumer was told of %d elements, at most %d were sent and not read", sz, wstart() - rdone() );
      }
   }
};

template < class T > void run( const Conf &c )
{
   vpmc::note( "%s cap %d n %d: %s -> %s", Tr< T >::name(), c.cap, c.n, wn[ c.w ], rn[ c.r ] );
   reset( c.cap );
   const long base( live() );
   {
      Q< T > q( c.cap ); FIFO *f( q.f );
      std::thread p( [&]{ producer< T >( f, c ); } );
      {
         Reader< T > r{ f, q, c };
         if( ! c.close ) while( r.next <= c.n ) r.one( c.n - r.next + 1 );
         else
         {
            bool end( false );
            Conf single( c );
            while( ! end )
            {
               try{ r.one( 1 ); }
               catch( ClosedPortAccessException & ){ end = true; vpmc::observe( 3 ); }
            }
            VP_CHECK( r.next == c.n + 1, "the end of the stream was reported after %d of %d elements", r.next - 1, c.n );
            VP_CHECK( f->is_invalid(), "drained, but not reported as closed" );
         }
      }
      p.join();
      VP_CHECK( f->size() == 0, "%zu elements left in a stream that was read completely", f->size() );
      VP_CHECK( (int) f->space_avail() == c.cap, "an empty stream of capacity %d reports %zu free slots", c.cap, f->space_avail() );
      if( Tr< T >::tracked ) VP_CHECK( live() == base, "%ld elements were never destroyed", live() - base );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed", vpmc::live_blocks(), vpmc::live_bytes() );
}
template < class T > bool legal( int w, int r ){ return( ! ( w == 4 && ! Tr< T >::plain ) && ! ( r == 4 && Tr< T >::ext ) ); }

/* every pair of operations */
template < class T > void pairs( int maxcap, bool all )
{
   Conf c; c.cap = 1 + vpmc::choose( maxcap );
   if( all ){ const int k( vpmc::choose( NW * NR ) ); c.w = k / NR; c.r = k % NR; }
   else{ const int k( vpmc::choose( NW + NR - 1 ) ); if( k < NW ){ c.w = k; c.r = 0; }else{ c.w = 0; c.r = k - NW + 1; } }
   if( ! legal< T >( c.w, c.r ) ) return;
   c.n = c.cap + 2; c.sigs = false; c.close = false; c.sizes = false;
   run< T >( c );
}
template < class T > void one_pair( int w, int r, int cap, int n )
{
   Conf c; c.cap = cap; c.w = w; c.r = r; c.n = n; c.sigs = false; c.close = false; c.sizes = false;
   run< T >( c );
}
template < class T > void sizes()
{
   Conf c; c.cap = 1 + vpmc::choose( 3 ); const int k( vpmc::choose( NW + NR - 1 ) ); if( k < NW ){ c.w = k; c.r = 0; }else{ c.w = 0; c.r = k - NW + 1; }
   if( ! legal< T >( c.w, c.r ) ) return;
   c.n = c.cap + 2; c.sigs = false; c.close = false; c.sizes = true;
   run< T >( c );
}
template < class T > void closing()
{
   Conf c; c.cap = 1 + vpmc::choose( 2 ); const int k( vpmc::choose( NW + NR - 1 ) ); if( k < NW ){ c.w = k; c.r = 0; }else{ c.w = 0; c.r = k - NW + 1; }
   if( ! legal< T >( c.w, c.r ) ) return;
   c.n = vpmc::choose( 4 ); c.sigs = false; c.close = true; c.sizes = false;
   if( c.n == 0 && c.w == 3 ) return;
   run< T >( c );
}
template < class T > void signals()
{
   Conf c; c.cap = 1 + vpmc::choose( 3 ); const int k( vpmc::choose( NW * NR ) ); c.w = k / NR; c.r = k % NR;
   if( ! legal< T >( c.w, c.r ) ) return;
   c.n = c.cap + 2; c.sigs = true; c.close = false; c.sizes = false;
   run< T >( c );
}
/* range read at the end of a stream: a partial range is refused, and what is
 * there can still be read */
template < class T > void range_end()
{
   const int cap( 2 + vpmc::choose( 2 ) ), n( vpmc::choose( cap ) );
   vpmc::note( "%s cap %d: %d sent, then closed; peek_range(%d)", Tr< T >::name(), cap, n, cap );
   reset( cap );
   const long base( live() );
   {
      Q< T > q( cap ); FIFO *f( q.f );
      std::thread p( [&]{ for( int i = 1; i <= n; i++ ) f->push< T >( Tr< T >::make( i ) ); f->invalidate(); } );
      int t( 0 );
      try{ f->peek_range< T >( cap ); }catch( NoMoreDataException & ){ t = 1; }catch( ClosedPortAccessException & ){ t = 2; }
      VP_CHECK( t == ( n == 0 ? 2 : 1 ), "peek_range of %d on a stream closed after %d elements ended with outcome %d", cap, n, t );
      for( int i = 1; i <= n; i++ ){ T v( Tr< T >::make( 200 ) ); f->pop< T >( v ); VP_CHECK( (int) Tr< T >::id( v ) == i, "element %d came out as %u", i, Tr< T >::id( v ) ); }
      try{ T v( Tr< T >::make( 200 ) ); f->pop< T >( v ); t = 9; }catch( ClosedPortAccessException & ){}
      VP_CHECK( t != 9, "pop returned an element that was never sent" );
      p.join();
      if( Tr< T >::tracked ) VP_CHECK( live() == base, "%ld elements were never destroyed", live() - base );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* many more elements than any small counter can hold, between two threads */
template < class T > void many( int n )
{
   const int cap( 1 + vpmc::choose( 3 ) ), way( vpmc::choose( 4 ) );
   vpmc::note( "%s cap %d: %d elements, way %d", Tr< T >::name(), cap, n, way );
   {
      Q< T > q( cap ); FIFO *f( q.f );
      auto id( []( int k ){ return( k % 190 + 1 ); } );
      auto sg( []( int k ){ return( k % 7 == 3 ? SIGA : raft::none ); } );
      std::thread p( [&]
      {
         for( int k = 0; k < n; k++ )
         {
            if( way & 1 ){ alloc< T >( *f, id( k ) ); f->send( sg( k ) ); }
            else f->push< T >( Tr< T >::make( id( k ) ), sg( k ) );
            vpmc::progress();
         }
      } );
      for( int k = 0; k < n; k++ )
      {
         raft::signal s( SIGB );
         if( way & 2 ){ auto &x( f->peek< T >( &s ) ); VP_CHECK( (int) Tr< T >::id( x ) == id( k ), "element %d of %d is %u, expected %d", k, n, (unsigned) Tr< T >::id( x ), id( k ) ); f->recycle( 1 ); }
         else{ T v( Tr< T >::make( 200 ) ); f->pop< T >( v, &s ); VP_CHECK( (int) Tr< T >::id( v ) == id( k ), "element %d of %d is %u, expected %d", k, n, (unsigned) Tr< T >::id( v ), id( k ) ); }
         VP_CHECK( s == sg( k ), "element %d of %d has signal %u", k, n, (unsigned) s );
         if( Tr< T >::ext ) q.gc();
         vpmc::progress();
      }
      p.join();
      VP_CHECK( f->size() == 0 && (int) f->space_avail() == cap, "after %d elements an empty stream of %d has %zu elements and %zu free slots", n, cap, f->size(), f->space_avail() );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed", vpmc::live_blocks(), vpmc::live_bytes() );
}

template < class T > void add( std::vector< vpmc::Scenario > &v )
{
   const std::string n( Tr< T >::name() );
   /* the quick tier goes to two deviations for one type of each storage class */
   const bool rep( std::is_same< T, int >::value || std::is_same< T, Sm >::value );
   const int q( rep ? 2 : 1 );
   v.push_back( { "C01.pushpop." + n, []{ one_pair< T >( 0, 0, 2, 3 ); }, 3, 4 } );
   v.push_back( { "C01.star." + n, []{ pairs< T >( 2, false ); }, 2, 3 } );
   v.push_back( { "C01.pairs." + n, []{ pairs< T >( 3, true ); }, 1, q + 1 } );
   v.push_back( { "C02.sizes." + n, []{ sizes< T >(); }, q, q + 1 } );
   v.push_back( { "C03.close." + n, []{ closing< T >(); }, 2, 3 } );
   v.push_back( { "C04.conc." + n, []{ signals< T >(); }, 1, q + 1 } );
   if constexpr( ! Tr< T >::ext ) v.push_back( { "C03.range." + n, []{ range_end< T >(); }, 3, 4 } );
   if( Tr< T >::tracked ) v.push_back( { "C05.conc." + n, []{ pairs< T >( 2, false ); }, 2, 3 } );
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   add< int >( v ); add< unsigned char >( v ); add< Pod >( v ); add< Sm >( v ); add< std::string >( v ); add< Bg >( v ); add< BigPod >( v );
   v.push_back( { "C01.many.int", []{ many< int >( vpmc::thorough() ? 70000 : 700 ); }, 0, 0 } );
   v.push_back( { "C01.many.obj", []{ many< Sm >( 700 ); }, 0, 0 } );
   v.push_back( { "C01.many.bigobj", []{ many< Bg >( 700 ); }, 0, 0 } );
   return( vpmc::main( argc, argv, v ) );
}
