// PROPS: C07 C04 C05 C06
/* Sequential conformance: every sequence of stream operations up to a depth,
 * against a plain list. */
#include "fifo_util.h"
using namespace el;

namespace
{
struct MEl { unsigned id; raft::signal sig; };
struct Model
{
   MEl e[ 8 ]; int n = 0; int cap = 0; unsigned next = 1; int r = 0, w = 0;
   bool closed = false, alloc = false, peeked = false; unsigned alloc_id = 0;
   void put( unsigned id, raft::signal s ){ e[ n ].id = id; e[ n ].sig = s; n++; w = ( w + 1 ) % cap; }
   void drop( int k ){ for( int i = k; i < n; i++ ) e[ i - k ] = e[ i ]; n -= k; r = ( r + k ) % cap; }
};

enum Op { PUSH, PUSHR, ALLOCSEND, ALLOC, SEND, DEALLOC, SENDNOP, ALLOC_S, INSERTV, INSERTL, ARANGE,
          POP, POPNOSIG, POP_S, PEEK, UNPEEK, RECYCLE, POP_RANGE, PEEK_RANGE, CLOSE, POPCLOSED, PEEKCLOSED, RECCLOSED, PRCLOSED, RESIZE, NOPS };
static const char *opn[] = { "push", "push&&", "allocate+send", "allocate", "send", "deallocate", "send(none pending)", "allocate_s", "insert(vector)", "insert(list)",
   "allocate_range+send_range", "pop", "pop(nosig)", "pop_s", "peek", "unpeek", "recycle", "pop_range", "peek_range", "invalidate", "pop on closed", "peek on closed", "recycle on closed", "peek_range on closed", "resize" };

template < class T > struct Seq
{
   Q< T > &Qq; FIFO &q; Model &m; bool sigs; bool resizing;
   raft::signal pick_sig()
   {
      if( ! sigs ) return( raft::none );
      const int c( vpmc::choose( 3 ) );
      return( c == 0 ? raft::none : c == 1 ? SIGA : raft::eof );
   }
   void want( unsigned id, const T &v, const char *what )
   {
      const unsigned g( Tr< T >::id( v ) );
      VP_CHECK( g == id, "%s returned element %u, the reference queue has %u", what, g, id );
   }
   void wants( raft::signal got, raft::signal exp, const char *what )
   { VP_CHECK( got == exp, "%s returned signal %u, the element was sent with %u", what, (unsigned) got, (unsigned) exp ); }
   void check()
   {
      VP_CHECK( (int) q.capacity() == m.cap, "capacity() is %zu, expected %d", q.capacity(), m.cap );
      VP_CHECK( (int) q.size() == m.n, "size() is %zu, expected %d", q.size(), m.n );
      VP_CHECK( (int) q.space_avail() == m.cap - m.n, "space_avail() is %zu, expected %d", q.space_avail(), m.cap - m.n );
      VP_CHECK( q.is_invalid() == m.closed, "is_invalid() is %d", (int) q.is_invalid() );
   }
   bool legal( int op )
   {
      const int sp( m.cap - m.n );
      const bool wr( ! m.closed && ! m.alloc && sp > 0 );
      switch( op )
      {
         case PUSH: case PUSHR: case ALLOCSEND: case ALLOC: case ALLOC_S: case INSERTV: return( wr );
         case INSERTL: return( wr && sp > 1 );
         case ARANGE: return( wr && Tr< T >::plain );
         case SEND: return( m.alloc );
         case DEALLOC: return( m.alloc );
         case SENDNOP: return( ! m.alloc && ! m.closed );
         case POP: case POPNOSIG: case POP_S: case RECYCLE: case POP_RANGE: return( m.n > 0 && ! m.peeked );
         case PEEK: return( m.n > 0 );
         case UNPEEK: return( m.peeked );
         case PEEK_RANGE: return( m.n > 0 && ! m.peeked && ! Tr< T >::ext );
         case CLOSE: return( ! m.closed && ! m.alloc );
         case POPCLOSED: case PEEKCLOSED: case RECCLOSED: return( m.closed && m.n == 0 && ! m.peeked );
         case PRCLOSED: return( m.closed && ! m.peeked && ! Tr< T >::ext && m.n < m.cap );
         case RESIZE: return( resizing && ! m.closed && ! m.alloc && ! m.peeked && m.r < m.w && m.cap < 6 );
      }
      return( false );
   }
   void step()
   {
      int ops[ NOPS ], n( 0 );
      for( int o = 0; o < NOPS; o++ ) if( legal( o ) ) ops[ n++ ] = o;
      const int op( ops[ vpmc::choose( n ) ] );
      vpmc::note( "%s;", opn[ op ] );
      const int sp( m.cap - m.n );
      switch( op )
      {
         case PUSH: { const raft::signal s( pick_sig() ); T v( Tr< T >::make( m.next ) ); q.template push< T >( v, s ); m.put( m.next++, s ); } break;
         case PUSHR: { q.template push< T >( Tr< T >::make( m.next ) ); m.put( m.next++, raft::none ); } break;
         case ALLOCSEND: { const raft::signal s( pick_sig() ); alloc< T >( q, m.next ); q.send( s ); m.put( m.next++, s ); } break;
         case ALLOC: { alloc< T >( q, m.next ); m.alloc_id = m.next++; m.alloc = true; } break;
         case SEND: { const raft::signal s( pick_sig() ); q.send( s ); m.put( m.alloc_id, s ); m.alloc = false; } break;
         case DEALLOC: { q.deallocate(); m.alloc = false; } break;
         case SENDNOP: { q.send( SIGB ); if( Tr< T >::plain ) q.send_range( SIGB ); } break;
         case ALLOC_S: { const raft::signal s( pick_sig() ); { auto x( alloc_s< T >( q, m.next ) ); x.sig() = s; } m.put( m.next++, s ); } break;
         case INSERTV: { const int k( 1 + vpmc::choose( sp ) ); const raft::signal s( pick_sig() ); std::vector< T > v;
                         for( int i = 0; i < k; i++ ){ v.push_back( Tr< T >::make( m.next ) ); m.put( m.next++, i + 1 == k ? s : raft::none ); }
                         q.insert( v.begin(), v.end(), s ); } break;
         case INSERTL: { const int k( 2 ); const raft::signal s( SIGA ); std::list< T > v;
                         for( int i = 0; i < k; i++ ){ v.push_back( Tr< T >::make( m.next ) ); m.put( m.next++, i + 1 == k ? s : raft::none ); }
                         q.insert( v.begin(), v.end(), s ); } break;
         case ARANGE: { const int k( 1 + vpmc::choose( sp ) ); const raft::signal s( pick_sig() ); auto v( q.template allocate_range< T >( k ) );
                        VP_CHECK( (int) v.size() == k, "allocate_range(%d) gave %zu slots", k, v.size() );
                        for( int i = 0; i < k; i++ ) Tr< T >::set( v[ i ].get(), m.next + i );
                        q.send_range( s );
                        for( int i = 0; i < k; i++ ){ m.put( m.next++, i + 1 == k ? s : raft::none ); } } break;
         case POP: { T v( Tr< T >::make( 200 ) ); raft::signal s( SIGB ); q.template pop< T >( v, &s ); want( m.e[ 0 ].id, v, "pop" ); wants( s, m.e[ 0 ].sig, "pop" ); m.drop( 1 ); } break;
         case POPNOSIG: { T v( Tr< T >::make( 200 ) ); q.template pop< T >( v ); want( m.e[ 0 ].id, v, "pop" ); m.drop( 1 ); } break;
         case POP_S: { { auto x( q.template pop_s< T >() ); want( m.e[ 0 ].id, *x, "pop_s" ); wants( x.sig(), m.e[ 0 ].sig, "pop_s" ); 
                         VP_CHECK( (int) q.size() == m.n, "pop_s removed the element before it was released" ); } m.drop( 1 ); } break;
         case PEEK: { raft::signal s( SIGB ); auto &x( q.template peek< T >( &s ) ); want( m.e[ 0 ].id, x, "peek" ); wants( s, m.e[ 0 ].sig, "peek" ); m.peeked = true; } break;
         case UNPEEK: { q.unpeek(); m.peeked = false; } break;
         case RECYCLE: { const int k( 1 + vpmc::choose( m.n ) ); q.recycle( k ); m.drop( k ); } break;
         case POP_RANGE: { const int k( 1 + vpmc::choose( m.n ) ); std::vector< std::pair< T, raft::signal > > v( k, std::make_pair( Tr< T >::make( 200 ), SIGB ) ); q.template pop_range< T >( v, k );
                           for( int i = 0; i < k; i++ ){ want( m.e[ i ].id, v[ i ].first, "pop_range" ); wants( v[ i ].second, m.e[ i ].sig, "pop_range" ); } m.drop( k ); } break;
         case PEEK_RANGE: if constexpr( ! Tr< T >::ext ) { const int k( 1 + vpmc::choose( m.n ) );
                           { auto r( q.template peek_range< T >( k ) ); VP_CHECK( (int) r.size() == k, "peek_range(%d) has size %zu", k, r.size() );
                             for( int i = 0; i < k; i++ ){ auto p( r[ i ] ); want( m.e[ i ].id, p.ele, "peek_range" ); wants( p.sig, m.e[ i ].sig, "peek_range" ); }
                             bool threw( false ); try{ r[ k ]; }catch( std::length_error & ){ threw = true; }
                             VP_CHECK( threw, "peek_range: index past the range was accepted" ); } } break;
         case CLOSE: { q.invalidate(); m.closed = true; } break;
         case POPCLOSED: { bool t( false ); T v( Tr< T >::make( 200 ) ); try{ q.template pop< T >( v ); }catch( ClosedPortAccessException & ){ t = true; }
                           VP_CHECK( t, "pop on a closed, drained stream did not report the end of the stream" ); } break;
         case PEEKCLOSED: { bool t( false ); try{ q.template peek< T >(); }catch( ClosedPortAccessException & ){ t = true; }
                           VP_CHECK( t, "peek on a closed, drained stream did not report the end of the stream" ); } break;
         case RECCLOSED: { q.recycle( 1 ); } break;
         case PRCLOSED: if constexpr( ! Tr< T >::ext ) { int t( 0 ); try{ q.template peek_range< T >( m.n + 1 ); }catch( ClosedPortAccessException & ){ t = 1; }catch( NoMoreDataException & ){ t = 2; }
                           VP_CHECK( t == ( m.n == 0 ? 1 : 2 ), "peek_range past the end of a closed stream reported %d", t ); } break;
         case RESIZE: { volatile bool ex( false ); const int nc( m.cap + 1 + vpmc::choose( 2 ) ); q.resize( nc, 16, ex ); m.cap = nc; m.w = ( m.r + m.n ) % nc; } break;
      }
      if( Tr< T >::ext ) Qq.gc();
      check();
   }
   std::uint64_t hash()
   {
      std::uint64_t h( m.cap * 1000 + m.n ); h = vpmc::mix( h, m.r ); h = vpmc::mix( h, m.w );
      for( int i = 0; i < m.n; i++ ) h = vpmc::mix( h, m.e[ i ].sig );
      h = vpmc::mix( h, m.closed | m.alloc << 1 | m.peeked << 2 );
      /* ids count up: keep their parity, which selects short or long strings */
      return( vpmc::mix( h, m.n ? m.e[ 0 ].id & 1 : m.next & 1 ) );
   }
};

template < class T > void seq( int depth, bool prune, bool sigs, bool resizing, int maxcap )
{

   {
      Model m; m.cap = 1 + vpmc::choose( maxcap );
      vpmc::note( "%s cap %d:", Tr< T >::name(), m.cap );
      const long base( live() );
      Q< T > *Q0( new Q< T >( m.cap ) ); FIFO *q( Q0->f );
      const std::size_t blocks( vpmc::live_blocks() );
      Seq< T > s{ *Q0, *Q0->f, m, sigs, resizing };
      s.check();
      for( int d = 0; d < depth; d++ )
      {
         s.step();
         if( prune ) vpmc::prune_if_seen( vpmc::mix( s.hash(), d ) );
         const long kept( m.n + ( m.alloc ? 1 : 0 ) );
         if( Tr< T >::tracked ) VP_CHECK( live() - base == kept, "%ld live elements, the stream should hold %ld", live() - base, kept );
         if( Tr< T >::ext && ! resizing ) VP_CHECK( vpmc::live_blocks() - blocks == (std::size_t) kept, "%ld element blocks allocated, the stream holds %ld", (long)( vpmc::live_blocks() - blocks ), kept );
         vpmc::progress();
      }
      vpmc::observe( s.hash() );
      /* drain: everything sent and not yet consumed is still there, in order */
      if( m.peeked ){ q->unpeek(); m.peeked = false; }
      if( m.alloc ){ q->deallocate(); m.alloc = false; }
      while( m.n > 0 )
      {
         T v( Tr< T >::make( 200 ) ); raft::signal g( SIGB ); q->template pop< T >( v, &g );
         s.want( m.e[ 0 ].id, v, "final pop" ); s.wants( g, m.e[ 0 ].sig, "final pop" ); m.drop( 1 );
      }
      if( Tr< T >::ext ) Q0->gc();
      s.check();
      if( Tr< T >::tracked ) VP_CHECK( live() == base, "%ld elements were never destroyed", live() - base );
      delete( Q0 );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed", vpmc::live_blocks(), vpmc::live_bytes() );
}
/* one long history: counters that wrap or saturate show */
template < class T > void lng( unsigned total )
{
   {
      const std::size_t cap( 1 + vpmc::choose( 3 ) ); const int way( vpmc::choose( 3 ) );
      vpmc::note( "%s cap %zu: %u elements", Tr< T >::name(), cap, total );
      Q< T > *Q0( new Q< T >( cap ) ); FIFO &q( *Q0->f );
      unsigned in( 0 ), out( 0 );
      auto id( []( unsigned k ){ return( k % 250 ); } );
      auto sg( []( unsigned k ){ return( k % 7 == 3 ? SIGA : raft::none ); } );
      while( out < total )
      {
         /* fill up (or, way 1, keep at most one), then take all but (way 2) one */
         const std::size_t lim( way == 1 ? 1 : cap );
         while( in - out < lim )
         {
            VP_CHECK( q.space_avail() == cap - ( in - out ), "after %u elements space_avail() is %zu, expected %zu", in, q.space_avail(), cap - ( in - out ) );
            if( way == 2 && Tr< T >::plain && in - out == 0 )
            { auto v( q.template allocate_range< T >( cap ) ); for( auto &x : v ) Tr< T >::set( x.get(), id( in++ ) ); q.send_range( sg( in - 1 ) ); }
            else if( in % 3 == 0 ){ alloc< T >( q, id( in ) ); q.send( way == 2 && Tr< T >::plain ? raft::none : sg( in ) ); in++; }
            else{ T v( Tr< T >::make( id( in ) ) ); q.template push< T >( v, way == 2 && Tr< T >::plain ? raft::none : sg( in ) ); in++; }
         }
         const std::size_t left( way == 2 && ! Tr< T >::plain && cap > 1 ? 1 : 0 );
         while( in - out > left )
         {
            VP_CHECK( q.size() == in - out, "after %u elements size() is %zu, expected %u", in, q.size(), in - out );
            T v( Tr< T >::make( 251 ) ); raft::signal s( SIGB ); q.template pop< T >( v, &s );
            VP_CHECK( Tr< T >::id( v ) == id( out ), "element %u of a long history is %u, expected %u", out, Tr< T >::id( v ), id( out ) );
            if( way != 2 || ! Tr< T >::plain ) VP_CHECK( s == sg( out ), "element %u of a long history has signal %u", out, (unsigned) s );
            out++;
         }
         if( Tr< T >::ext ) Q0->gc();
         vpmc::progress();
      }
      while( out < in ){ T v( Tr< T >::make( 251 ) ); q.template pop< T >( v ); out++; }
      if( Tr< T >::ext ) Q0->gc();
      delete( Q0 );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks (%zu bytes) never freed", vpmc::live_blocks(), vpmc::live_bytes() );
}
template < class T > void add( std::vector< vpmc::Scenario > &v )
{
   const std::string n( Tr< T >::name() );
   v.push_back( { "C07.deep." + n, []{ seq< T >( vpmc::thorough() ? 24 : 14, true, false, false, vpmc::thorough() ? 5 : 4 ); }, 0, 0 } );
   v.push_back( { "C04.deep." + n, []{ seq< T >( vpmc::thorough() ? 14 : 9, true, true, false, vpmc::thorough() ? 4 : 3 ); }, 0, 0 } );
   v.push_back( { "C06.seq." + n, []{ seq< T >( vpmc::thorough() ? 10 : 7, true, true, true, 3 ); }, 0, 0 } );
   v.push_back( { "C06.deep." + n, []{ seq< T >( vpmc::thorough() ? 16 : 10, true, false, true, 3 ); }, 0, 0 } );
   v.push_back( { "C07.all4." + n, []{ seq< T >( vpmc::thorough() ? 6 : 4, false, false, false, 3 ); }, 0, 0 } );
   v.push_back( { "C04.all3." + n, []{ seq< T >( vpmc::thorough() ? 4 : 3, false, true, false, 2 ); }, 0, 0 } );
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   add< int >( v ); add< unsigned char >( v ); add< double >( v ); add< Pod >( v ); add< Sm >( v ); add< std::string >( v ); add< Bg >( v ); add< BigPod >( v );
   v.push_back( { "C07.long.int", []{ lng< int >( vpmc::thorough() ? 400000 : 140000 ); }, 0, 0 } );
   v.push_back( { "C07.long.obj", []{ lng< Sm >( 3000 ); }, 0, 0 } );
   v.push_back( { "C07.long.bigobj", []{ lng< Bg >( 3000 ); }, 0, 0 } );
   return( vpmc::main( argc, argv, v ) );
}
