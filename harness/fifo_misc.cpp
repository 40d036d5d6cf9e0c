// PROPS: C08 C09 C14
/* streams over the caller's own array (C08) and the statistics a stream keeps
 * about waiting (C09) */
#include "rt.h"
using namespace rt;

namespace
{
/* ---------------------------------------------------------------- C08 */
/* a T array on the heap, elements 1..n, freed by the caller at the end */
template < class T > struct Arr
{
   T *p; int n;
   Arr( int n ) : p( new T[ n ] ), n( n ){ for( int i = 0; i < n; i++ ) Tr< T >::set( p[ i ], i + 1 ); }
   ~Arr(){ delete[]( p ); }
   void intact( const char *when ){ for( int i = 0; i < n; i++ ) VP_CHECK( (int) Tr< T >::id( p[ i ] ) == i + 1, "the caller's element %d was altered %s", i, when ); }
};
/* every sequence of receive operations on a stream over an array of n elements */
template < class T > void inplace_seq( int maxn, int depth )
{
   {
      const int n( 1 + vpmc::choose( maxn ) );
      const int start( vpmc::choose( 2 ) * 3 );
      Arr< T > a( n );
      Q< T > q( n, a.p, start );
      FIFO &f( *q.f );
      int r( 0 ); bool closed( false );
      for( int d = 0; d < depth; d++ )
      {
         VP_CHECK( (int) f.size() == n - r && (int) f.capacity() == n && (int) f.space_avail() == r, "a stream over %d elements, %d taken: size %d, capacity %d, space %d", n, r, (int) f.size(), (int) f.capacity(), (int) f.space_avail() );
         int op( vpmc::choose( 8 ) );
         if( op == 6 ){ if( ! closed ){ f.invalidate(); closed = true; vpmc::note( "close;" ); } continue; }
         if( op == 7 ){ volatile bool ex( false ); f.resize( n * 2, 16, ex ); vpmc::note( "resize;" ); VP_CHECK( (int) f.capacity() == n, "a stream over the caller's array was resized" ); continue; }
         if( r == n )
         {
            if( ! closed ){ f.invalidate(); closed = true; }
            bool t( false ); T v( Tr< T >::make( 99 ) );
            try{ if( op & 1 ) f.template pop< T >( v ); else f.template peek< T >(); }catch( ClosedPortAccessException & ){ t = true; }
            VP_CHECK( t, "a drained, closed stream did not report its end" );
            break;
         }
         raft::signal s( SIGB );
         switch( op )
         {
            case 0: { T v( Tr< T >::make( 99 ) ); f.template pop< T >( v, &s ); vpmc::note( "pop;" ); VP_CHECK( (int) Tr< T >::id( v ) == r + 1, "pop gave element %d, not %d", (int) Tr< T >::id( v ), r + 1 ); VP_CHECK( s == raft::none, "signal %d", (int) s ); r++; } break;
            case 1: { T &v( f.template peek< T >( &s ) ); vpmc::note( "peek+recycle;" ); VP_CHECK( &v == a.p + r, "peek does not refer to the caller's element" ); VP_CHECK( s == raft::none, "signal %d", (int) s ); f.recycle( 1 ); r++; } break;
            case 2: { { auto v( f.template pop_s< T >() ); vpmc::note( "pop_s;" ); VP_CHECK( &( *v ) == a.p + r, "pop_s does not refer to the caller's element" ); VP_CHECK( v.sig() == raft::none, "signal" ); } r++; } break;
            case 3: { const int k( 1 + vpmc::choose( n - r ) ); { auto v( f.template peek_range< T >( k ) ); vpmc::note( "peek_range(%d);", k );
                        VP_CHECK( (int) v.getindex() == start, "getindex() is %d, the range was given start index %d", (int) v.getindex(), start );
                        for( int i = 0; i < k; i++ ){ auto p( v[ i ] ); VP_CHECK( &p.ele == a.p + r + i, "peek_range does not refer to the caller's element" ); VP_CHECK( p.sig == raft::none, "signal %d", (int) p.sig ); } } 
                        if( vpmc::choose( 2 ) ){ f.recycle( k ); r += k; } } break;
            case 4: { const int k( 1 + vpmc::choose( n - r ) ); std::vector< std::pair< T, raft::signal > > v( k, std::make_pair( Tr< T >::make( 99 ), SIGB ) ); f.template pop_range< T >( v, k ); vpmc::note( "pop_range(%d);", k );
                        for( int i = 0; i < k; i++ ) VP_CHECK( (int) Tr< T >::id( v[ i ].first ) == r + i + 1 && v[ i ].second == raft::none, "pop_range gave element %d, not %d", (int) Tr< T >::id( v[ i ].first ), r + i + 1 ); r += k; } break;
            case 5: { const int k( 1 + vpmc::choose( n - r ) ); f.recycle( k ); vpmc::note( "recycle(%d);", k ); r += k; } break;
         }
         a.intact( "by receiving" );
         vpmc::progress();
      }
      vpmc::observe( r );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* the for_each kernel over an array of n elements and `ports` streams */
template < class T > struct FSnk : Base
{
   const T *base; int lo, hi, got = 0; Style st; bool *moved;
   FSnk( const T *base, int lo, int hi, Style st ) : base( base ), lo( lo ), hi( hi ), st( st ){ input.addPort< T >( "0" ); }
   virtual raft::kstatus body()
   {
      FIFO &f( input[ "0" ] );
      has_data();
      if( st == PEEK )
      {
         T &v( f.template peek< T >() );
         VP_CHECK( &v == base + lo + got, "the element is not the caller's own" );
         VP_CHECK( (int) Tr< T >::id( v ) == lo + got + 1, "element %d, expected %d", (int) Tr< T >::id( v ), lo + got + 1 );
         f.recycle( 1 );
      }
      else if( st == RANGE )
      {
         const int k( f.size() );
         { auto r( f.template peek_range< T >( k ) );
           VP_CHECK( (int) r.getindex() == lo, "the chunk starts at %d, getindex() is %d", lo, (int) r.getindex() );
           for( int i = 0; i < k; i++ ) VP_CHECK( &( r[ i ].ele ) == base + lo + got + i, "the element is not the caller's own" ); }
         f.recycle( k ); got += k - 1;
      }
      else
      {
         T v( Tr< T >::make( 99 ) ); f.template pop< T >( v );
         VP_CHECK( (int) Tr< T >::id( v ) == lo + got + 1, "element %d, expected %d", (int) Tr< T >::id( v ), lo + got + 1 );
      }
      got++; vpmc::progress();
      VP_CHECK( got <= hi - lo, "more than the %d elements of the chunk were received", hi - lo );
      return( raft::proceed );
   }
};
template < class T > void foreach( int n, int ports, Style st )
{
   reset();
   {
      Arr< T > a( n );
      {
         raft::for_each< T > fe( a.p, n, ports );
         std::vector< std::unique_ptr< FSnk< T > > > k;
         raft::map m; const int inc( n / ports );
         for( int i = 0; i < ports; i++ )
         {
            k.emplace_back( new FSnk< T >( a.p, i * inc, i + 1 == ports ? n : ( i + 1 ) * inc, st ) );
            m.link( &fe, std::to_string( i ), k.back().get(), "0" );
         }
         go( m );
         int sum( 0 );
         for( int i = 0; i < ports; i++ ) sum += k[ i ]->got;
         VP_CHECK( sum == n, "the kernels received %d of the array's %d elements", sum, n );
      }
      a.intact( "by the run" );
   }
   clean();
}
/* a kernel of one's own over the caller's memory: any number of bytes, the part of an element at their end is none */
template < class T > struct Mine : Base
{
   Mine( void *p, std::size_t bytes, int ports ) : Base( p, bytes ){ output.template addInPlacePorts< T >( ports ); }
   virtual raft::kstatus body(){ return( raft::stop ); }
};
template < class T > void own_bytes( int n, int ports, int more, Style st )
{
   reset();
   {
      Arr< T > a( n + 1 );
      {
         Mine< T > fe( a.p, n * sizeof( T ) + more, ports );
         std::vector< std::unique_ptr< FSnk< T > > > k;
         raft::map m; const int inc( n / ports );
         for( int i = 0; i < ports; i++ )
         {
            k.emplace_back( new FSnk< T >( a.p, i * inc, i + 1 == ports ? n : ( i + 1 ) * inc, st ) );
            m.link( &fe, std::to_string( i ), k.back().get(), "0" );
         }
         go( m );
         int sum( 0 );
         for( int i = 0; i < ports; i++ ) sum += k[ i ]->got;
         VP_CHECK( sum == n, "the kernels received %d of the array's %d elements", sum, n );
      }
      a.intact( "by the run" );
   }
   clean();
}
void class_array()
{
   {
      Arr< Sm > a( 2 );
      { Q< Sm > q( 2, a.p, 0 ); Sm v( 0 ); q->pop< Sm >( v ); VP_CHECK( v.v == 1, "element %u, not 1", v.v ); }
      VP_CHECK( live() == 2, "popping destroyed %ld of the caller's 2 objects", 2 - live() );
   }
}
void big_array()
{
   Arr< BigPod > a( 2 );
   Q< BigPod > q( 2, a.p, 0 );
   BigPod v( Tr< BigPod >::make( 99 ) ); q->pop< BigPod >( v ); VP_CHECK( v.v[ 0 ] == 1, "element %u, not 1", v.v[ 0 ] );
   a.intact( "by receiving" );
}

/* ---------------------------------------------------------------- C09 */
struct Counts { unsigned w = 0, r = 0; };
template < class T > void stats_seq( int depth )
{
   {
      const int cap( 1 + vpmc::choose( 3 ) );
      Q< T > q( cap ); FIFO &f( *q.f ); int n( 0 ), id( 0 ); Counts c;
      for( int d = 0; d < depth; d++ )
      {
         int ops[ 16 ], m( 0 );
         const int sp( cap - n );
         if( sp > 0 ){ ops[ m++ ] = 0; ops[ m++ ] = 1; ops[ m++ ] = 2; ops[ m++ ] = 9; if( Tr< T >::plain ) ops[ m++ ] = 3; }
         if( n > 0 ){ ops[ m++ ] = 4; ops[ m++ ] = 5; }
         ops[ m++ ] = 6; ops[ m++ ] = 7; ops[ m++ ] = 8;
         switch( ops[ vpmc::choose( m ) ] )
         {
            case 0: f.template push< T >( Tr< T >::make( ++id ) ); n++; c.w++; vpmc::note( "push;" ); break;
            case 1: { auto &x( f.template allocate< T >() ); Tr< T >::set( x, ++id ); f.send(); } n++; c.w++; vpmc::note( "send;" ); break;
            case 2: { const int k( 1 + vpmc::choose( sp ) ); std::vector< T > v; for( int i = 0; i < k; i++ ) v.push_back( Tr< T >::make( ++id ) ); f.insert( v.begin(), v.end() ); n += k; c.w += k; vpmc::note( "insert(%d);", k ); } break;
            case 3: { const int k( 1 + vpmc::choose( sp ) ); auto v( f.template allocate_range< T >( k ) ); for( int i = 0; i < k; i++ ) Tr< T >::set( v[ i ].get(), ++id ); f.send_range(); n += k; c.w += k; vpmc::note( "send_range(%d);", k ); } break;
            case 4: { T v( Tr< T >::make( 99 ) ); f.template pop< T >( v ); n--; c.r++; vpmc::note( "pop;" ); } break;
            case 5: { const int k( 1 + vpmc::choose( n ) ); std::vector< std::pair< T, raft::signal > > v( k, std::make_pair( Tr< T >::make( 99 ), SIGB ) ); f.template pop_range< T >( v, k ); n -= k; c.r += k; vpmc::note( "pop_range(%d);", k ); } break;
            case 6: { Blocked b; f.get_zero_write_stats( b ); vpmc::note( "write stats;" ); VP_CHECK( b.bec.count == c.w, "%u elements were sent since the last reading, the stream counted %u", c.w, b.bec.count ); VP_CHECK( b.bec.blocked == 0, "a send that did not wait was counted as waiting" ); c.w = 0; } break;
            case 7: { Blocked b; f.get_zero_read_stats( b ); vpmc::note( "read stats;" ); VP_CHECK( b.bec.count == c.r, "%u elements were popped since the last reading, the stream counted %u", c.r, b.bec.count ); VP_CHECK( b.bec.blocked == 0, "a pop that did not wait was counted as waiting" ); c.r = 0; } break;
            case 8: { const float x( f.get_frac_write_blocked() ); vpmc::note( "blocked fraction;" ); VP_CHECK( x == 0.0f, "the waiting fraction of a producer that never waited is %f", x ); c.w = 0; } break;
            case 9: { { auto x( f.template allocate_s< T >() ); Tr< T >::set( *x, ++id ); } n++; c.w++; vpmc::note( "allocate_s;" ); } break;
         }
         if( Tr< T >::ext ) q.gc();
         vpmc::progress();
      }
      while( n-- > 0 ){ T v( Tr< T >::make( 99 ) ); f.template pop< T >( v ); }
      if( Tr< T >::ext ) q.gc();
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* counts of a long period between two readings */
void stats_long( unsigned total )
{
   {
      const int cap( 1 + vpmc::choose( 3 ) ); const int way( vpmc::choose( 3 ) );
      Q< int > q( cap ); FIFO &f( *q.f ); unsigned n( 0 );
      vpmc::note( "cap %d, way %d, %u elements;", cap, way, total );
      for( ; n < total; )
      {
         unsigned k( 1 );
         if( way == 0 ) f.push< int >( Tr< int >::make( n % 250 ) );
         else if( way == 1 ){ std::vector< int > v( cap, Tr< int >::make( 1 ) ); f.insert( v.begin(), v.end() ); k = cap; }
         else { auto v( f.allocate_range< int >( cap ) ); for( auto &x : v ) Tr< int >::set( x.get(), 3 ); f.send_range(); k = cap; }
         n += k;
         if( way == 2 ){ std::vector< std::pair< int, raft::signal > > v( k ); f.pop_range< int >( v, k ); }
         else for( unsigned i = 0; i < k; i++ ){ int v( 0 ); f.pop< int >( v ); }
      }
      Blocked w, r; f.get_zero_write_stats( w ); f.get_zero_read_stats( r );
      VP_CHECK( w.bec.count == n && w.bec.blocked == 0, "%u elements were sent without waiting, the stream says %u sent, waited %u", n, w.bec.count, w.bec.blocked );
      VP_CHECK( r.bec.count == n && r.bec.blocked == 0, "%u elements were popped without waiting, the stream says %u popped, waited %u", n, r.bec.count, r.bec.blocked );
      f.get_zero_write_stats( w ); f.get_zero_read_stats( r );
      VP_CHECK( w.all == 0 && r.all == 0, "the counts are not reset by a reading" );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* readings are plain values: they can be copied, and added up over the periods
 * in which nobody waited */
void stats_value()
{
   Blocked a, b; VP_CHECK( a.all == 0, "a new reading is not empty" );
   const unsigned big[ 4 ] = { 0, 1, 70000, 0xfffffff0u };
   a.bec.count = big[ vpmc::choose( 4 ) ]; a.bec.blocked = vpmc::choose( 2 ); b.bec.count = vpmc::choose( 3 ) * 5; b.bec.blocked = vpmc::choose( 2 );
   Blocked c( a ), d; d = b;
   VP_CHECK( c.bec.count == a.bec.count && c.bec.blocked == a.bec.blocked && d.bec.count == b.bec.count && d.bec.blocked == b.bec.blocked, "the copy of a reading differs from it" );
   c += d;
   VP_CHECK( c.bec.count == a.bec.count + ( b.bec.blocked ? 0 : b.bec.count ) && c.bec.blocked == a.bec.blocked && d.bec.count == b.bec.count, "%u (waited %u) += %u (waited %u) is %u (waited %u)",
      a.bec.count, a.bec.blocked, b.bec.count, b.bec.blocked, c.bec.count, c.bec.blocked );
}
/* producer sends n (one by one, by style) into capacity cap; the consumer
 * starts taking after `hold` elements were sent and the producer waits */
template < class T > void stats_conc( int n, int cap, int style, bool slow_consumer, bool slow_producer )
{
   {
      Q< T > q( cap ); FIFO &f( *q.f );
      std::thread pr( [&]{
         if( slow_producer ) std::this_thread::sleep_for( std::chrono::milliseconds( 50 ) );
         for( int i = 1; i <= n; i++ )
         {
            if( style == 0 ) f.push< T >( Tr< T >::make( i ) );
            else if( style == 1 ){ auto &x( f.allocate< T >() ); Tr< T >::set( x, i ); f.send(); }
            else if constexpr( Tr< T >::plain ){ auto v( f.allocate_range< T >( 1 ) ); Tr< T >::set( v[ 0 ].get(), i ); f.send_range(); }
            vpmc::progress();
         }
      } );
      std::thread co( [&]{
         if( slow_consumer ) std::this_thread::sleep_for( std::chrono::milliseconds( 50 ) );
         for( int i = 1; i <= n; i++ ){ T v( Tr< T >::make( 99 ) ); f.pop< T >( v ); vpmc::progress(); }
      } );
      pr.join(); co.join();
      if( Tr< T >::ext ) q.gc();
      Blocked w, r; f.get_zero_write_stats( w ); f.get_zero_read_stats( r );
      VP_CHECK( (int) w.bec.count == n, "%d elements were sent, the stream counted %u", n, w.bec.count );
      VP_CHECK( (int) r.bec.count == n, "%d elements were popped, the stream counted %u", n, r.bec.count );
      VP_CHECK( w.bec.blocked <= 1 && r.bec.blocked <= 1, "waiting flags %u %u", w.bec.blocked, r.bec.blocked );
      if( n <= cap ) VP_CHECK( w.bec.blocked == 0, "a producer with room for everything was counted as waiting" );
      vpmc::observe( w.bec.blocked * 2 + r.bec.blocked );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* the fraction the monitor uses: set when the producer waits */
template < class T > void stats_wait( int style )
{
   {
      Q< T > q( 1 ); FIFO &f( *q.f ); volatile bool go( false );
      f.push< T >( Tr< T >::make( 1 ) );
      Blocked w; f.get_zero_write_stats( w );
      std::thread pr( [&]{
         if( style == 0 ) f.push< T >( Tr< T >::make( 2 ) );
         else if( style == 1 ){ auto &x( f.allocate< T >() ); Tr< T >::set( x, 2 ); f.send(); }
         else if constexpr( Tr< T >::plain ){ auto v( f.allocate_range< T >( 1 ) ); Tr< T >::set( v[ 0 ].get(), 2 ); f.send_range(); }
      } );
      std::this_thread::sleep_for( std::chrono::milliseconds( 50 ) );
      /* nobody took anything: the producer has waited since it got here, if it did */
      T v( Tr< T >::make( 99 ) ); f.pop< T >( v );
      pr.join();
      const float x( f.get_frac_write_blocked() );
      VP_CHECK( x == 0.0f || x == 1.0f, "one element was sent, the waiting fraction is %f", x );
      vpmc::observe( x );
      const float y( f.get_frac_write_blocked() );
      VP_CHECK( y == 0.0f, "the waiting fraction is %f right after it was read and reset", y );
      f.pop< T >( v );
      if( Tr< T >::ext ) q.gc();
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* deterministic: the stream's own occupancy query tells that the producer has
 * looked at a full stream, so it waits; likewise for the consumer */
struct Probe : RingBuffer< int, Type::Heap, false >
{
   using base = RingBuffer< int, Type::Heap, false >;
   int looked = 0, who = -1;
   Probe( std::size_t n ) : base( n, 16 ){}
   FIFO &fifo(){ return( *(FIFO*) this ); }
};
void wait_flag( bool producer )
{
   Q< int > q( 1 ); FIFO &f( *q.f );
   if( producer ) f.push< int >( Tr< int >::make( 1 ) );
   Blocked b; f.get_zero_write_stats( b );
   int stage( 0 );
   std::thread t( [&]{ if( producer ) f.push< int >( Tr< int >::make( 2 ) ); else { int v( 0 ); f.pop< int >( v ); } stage = 1; } );
   /* at least 20 of its own turns later it must have seen the stream and waited */
   for( int i = 0; i < 60; i++ ) std::this_thread::yield();
   VP_CHECK( stage == 0, "an operation that has to wait returned" );
   if( producer )
   {
      int v( 0 ); f.pop< int >( v ); t.join();
      f.get_zero_write_stats( b ); VP_CHECK( b.bec.blocked == 1, "a send that waited was not counted as waiting" ); VP_CHECK( b.bec.count == 1, "count %u", b.bec.count );
   }
   else
   {
      f.push< int >( Tr< int >::make( 1 ) ); t.join();
      f.get_zero_read_stats( b ); VP_CHECK( b.bec.blocked == 1, "a pop that waited was not counted as waiting" ); VP_CHECK( b.bec.count == 1, "count %u", b.bec.count );
   }
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const std::string &n, std::function< void() > f, int q = 1, int t = 2 ){ v.push_back( { n, f, q, t } ); };
   add( "C14.foreach",      []{ foreach< int >( 4, 1 + vpmc::choose( 3 ), PLAIN ); }, 0, 1 );
   add( "C08.seq.int",    []{ inplace_seq< int >( vpmc::thorough() ? 5 : 4, vpmc::thorough() ? 6 : 5 ); }, 0, 0 );
   add( "C08.seq.double", []{ inplace_seq< double >( 3, vpmc::thorough() ? 6 : 4 ); }, 0, 0 );
   add( "C08.seq.uchar",  []{ inplace_seq< unsigned char >( 3, vpmc::thorough() ? 6 : 4 ); }, 0, 0 );
   add( "C08.foreach.one",     []{ foreach< int >( 3, 1, PEEK ); } );
   add( "C08.foreach.two",     []{ foreach< int >( 5, 2, PLAIN ); } );
   add( "C08.foreach.three",   []{ foreach< int >( 7, 3, PEEK ); } );
   add( "C08.foreach.many",    []{ const int n( 1 + vpmc::choose( 26 ) ), k( 1 + vpmc::choose( std::min( n, 13 ) ) ); vpmc::note( "%d elements, %d ports", n, k ); foreach< int >( n, k, vpmc::choose( 2 ) ? RANGE : PEEK ); }, 0, 0 );
   add( "C08.bytes.int",       []{ const int n( 1 + vpmc::choose( 9 ) ), k( 1 + vpmc::choose( n ) ), x( vpmc::choose( sizeof( int ) ) ); own_bytes< int >( n, k, x, vpmc::choose( 2 ) ? PEEK : PLAIN ); }, 0, 0 );
   add( "C08.bytes.double",    []{ const int n( 1 + vpmc::choose( 4 ) ), k( 1 + vpmc::choose( n ) ), x( vpmc::choose( sizeof( double ) ) ); own_bytes< double >( n, k, x, RANGE ); }, 0, 0 );
   add( "C08.bytes.uchar",     []{ const int n( 1 + vpmc::choose( 9 ) ), k( 1 + vpmc::choose( n ) ); own_bytes< unsigned char >( n, k, 0, PEEK ); }, 0, 0 );
   add( "C08.foreach.range",   []{ foreach< int >( 5, 2, RANGE ); } );
   add( "C08.foreach.double",  []{ foreach< double >( 3, 2, PLAIN ); } );
   add( "C08.class",           []{ class_array(); }, 0, 0 );
   add( "C08.big",             []{ big_array(); }, 0, 0 );
   add( "C09.seq.int",    []{ stats_seq< int >( vpmc::thorough() ? 6 : 5 ); }, 0, 0 );
   add( "C09.seq.obj",    []{ stats_seq< Sm >( vpmc::thorough() ? 5 : 4 ); }, 0, 0 );
   add( "C09.seq.bigobj", []{ stats_seq< Bg >( vpmc::thorough() ? 5 : 4 ); }, 0, 0 );
   for( int st = 0; st < 3; st++ )
   {
      const std::string n( std::to_string( st ) );
      add( "C09.conc.int." + n,    [=]{ stats_conc< int >( 3, 1, st, false, false ); }, 2, 3 );
      add( "C09.room.int." + n,    [=]{ stats_conc< int >( 2, 2, st, true, false ); }, 2, 3 );
      add( "C09.wait.int." + n,    [=]{ stats_wait< int >( st ); }, 2, 3 );
      if( st < 2 ){ add( "C09.conc.obj." + n, [=]{ stats_conc< Sm >( 2, 1, st, false, false ); }, 2, 3 );
                    add( "C09.conc.bigobj." + n, [=]{ stats_conc< Bg >( 2, 1, st, false, false ); }, 2, 3 );
                    add( "C09.wait.bigobj." + n, [=]{ stats_wait< Bg >( st ); }, 2, 3 ); }
   }
   add( "C09.long",  []{ stats_long( vpmc::thorough() ? 400000 : 100000 ); }, 0, 0 );
   add( "C09.value", stats_value, 0, 0 );
   add( "C09.flag.send", []{ wait_flag( true ); }, 0, 0 );
   add( "C09.flag.pop",  []{ wait_flag( false ); }, 0, 0 );
   return( vpmc::main( argc, argv, v ) );
}
