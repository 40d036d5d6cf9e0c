// PROPS: C18 C21 C24
/* the library's own kernels, executed in graphs */
#include <random>
#include <algorithm>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <vpmc.h>
/* the selection shuffles the names of the ports: every permutation is explored */
namespace std
{
inline int vp_perm = -1;   /* >= 0: the same permutation all along */
template < class It, class G > void vp_shuffle( It b, It e, G && )
{
   if( vp_perm >= 0 ){ int p( vp_perm ); for( auto n( e - b ); n > 1; p /= n, n-- ) std::iter_swap( b + ( n - 1 ), b + p % n ); return; }
   for( auto n( e - b ); n > 1; n-- ) std::iter_swap( b + ( n - 1 ), b + vpmc::choose( (int) n ) );
}
}
#define shuffle vp_shuffle
#include "rt.h"
#include <raft>
#include <raftio>
#include <raftalgorithm>
#include <raftrandom>
#undef shuffle
using namespace rt;
namespace
{
const bool fed_by_the_library( foreign = true );
/* ---------------------------------------------------------------- C18 */
/* slots 0..k-1 together received 1..n once each, every slot in increasing order */
VP_QUIET void want_parts( int k, int n )
{
   for( int s = 0; s < k; s++ ) vpmc::quiet( &R[ s ], false );
   for( int i = 1; i <= n; i++ )
   {
      int c( 0 ); for( int s = 0; s < k; s++ ) for( int j = 0; j < R[ s ].n; j++ ) c += R[ s ].v[ j ] == i;
      VP_CHECK( c == 1, "element %d came out of the split %d times", i, c );
   }
   int t( 0 ); for( int s = 0; s < k; s++ ){ t += R[ s ].n; for( int j = 1; j < R[ s ].n; j++ ) VP_CHECK( R[ s ].v[ j ] > R[ s ].v[ j - 1 ], "output %d of the split is out of order", s ); }
   VP_CHECK( t == n, "%d elements came out of the split, %d went in", t, n );
}
/* Src -> split -> k sinks */
template < class T > void split_( int n, int k, int in, int out, int nap )
{
   reset();
   {
      Src< T > g( n, 0, 1, PLAIN, true ); raft::split< T > s( k ); std::vector< std::unique_ptr< Snk< T > > > d; raft::map m; m.link( &g, "0", &s, "0", in );
      for( int i = 0; i < k; i++ ){ d.emplace_back( new Snk< T >( i, 1, PLAIN, false, nap ) ); m.link( &s, std::to_string( i ), d.back().get(), "0", out ); }
      go( m ); want_parts( k, n );
      for( auto &x : d ) want_sig( x->slot, n );
   }
   clean();
}
/* k Srcs -> join -> sink; source j sends n elements numbered from 20 * j */
template < class T > void join_( int n, int k, int in, int out, Style st = PLAIN, int nap = 0 )
{
   reset();
   {
      raft::join< T > j( k ); Snk< T > d( 0, 1, st, false, nap ); std::vector< std::unique_ptr< Src< T > > > g; raft::map m;
      for( int i = 0; i < k; i++ ){ g.emplace_back( new Src< T >( n, 20 * i, 1, PLAIN, true ) ); m.link( g.back().get(), "0", &j, std::to_string( i ), in ); }
      m.link( &j, "0", &d, "0", out );
      go( m );
      want_sig( 0, n, 20 );
      std::vector< int > at( k, 0 );
      VP_CHECK( R[ 0 ].n == k * n, "%d of %d elements came through the join", R[ 0 ].n, k * n );
      for( int i = 0; i < R[ 0 ].n; i++ )
      {
         const int v( R[ 0 ].v[ i ] - 1 ); const int s( v / 20 );
         VP_CHECK( v >= 0 && s < k && v % 20 == at[ s ], "element %d of source %d came through the join out of turn", v % 20 + 1, s ); at[ s ]++;
      }
   }
   clean();
}
/* Src -> split -> k Pass -> join -> sink */
template < class T > void splitjoin( int n, int k, int cap )
{
   reset();
   {
      Src< T > g( n, 0, 1, PLAIN, true ); raft::split< T > s( k ); raft::join< T > j( k ); Snk< T > d; std::vector< std::unique_ptr< Pass< T > > > p; raft::map m; m.link( &g, "0", &s, "0", cap );
      for( int i = 0; i < k; i++ ){ p.emplace_back( new Pass< T >() ); m.link( &s, std::to_string( i ), p.back().get(), "0", cap ); m.link( p.back().get(), "0", &j, std::to_string( i ), cap ); }
      m.link( &j, "0", &d, "0", cap );
      go( m ); want_set( 0, n ); want_sig( 0, n );
   }
   clean();
}
/* long runs through a split, a join, or both */
template < class T > void long_sj( int n, int k, int shape, int cap )
{
   reset();
   if( shape == 0 )
   {
      LSrc< T > g( n ); raft::split< T > s( k ); std::vector< std::unique_ptr< LSnk< T > > > d; raft::map m; m.link( &g, "0", &s, "0", cap ); int got( 0 );
      for( int i = 0; i < k; i++ ){ d.emplace_back( new LSnk< T >( 1, 100000, 0 ) ); m.link( &s, std::to_string( i ), d.back().get(), "0", cap ); }
      go( m ); for( auto &x : d ) got += x->got; VP_CHECK( got == n, "%d of %d elements came through the split", got, n );
   }
   else if( shape == 1 )
   {
      raft::join< T > j( k ); LSnk< T > d; std::vector< std::unique_ptr< LSrc< T > > > g; raft::map m;
      for( int i = 0; i < k; i++ ){ g.emplace_back( new LSrc< T >( n, 100000 * i ) ); m.link( g.back().get(), "0", &j, std::to_string( i ), cap ); }
      m.link( &j, "0", &d, "0", cap ); go( m ); for( int i = 0; i < k; i++ ) VP_CHECK( d.last[ i ] == n, "%d of %d elements of source %d came through the join", d.last[ i ], n, i );
   }
   else
   {
      LSrc< T > g( n ); raft::split< T > s( k ); raft::join< T > j( k ); std::vector< std::unique_ptr< Pass< T > > > p; raft::map m; m.link( &g, "0", &s, "0", cap );
      struct Any : Base { std::vector< char > seen; int n = 0; Any( int x ) : seen( x + 1 ){ input.addPort< T >( "0" ); }
         virtual raft::kstatus body(){ has_data(); raft::signal sg; T v( Num< T >::make( 0 ) ); input[ "0" ].template pop< T >( v, &sg ); const int x( Num< T >::num( v ) );
            VP_CHECK( x > 0 && x < (int) seen.size() && ! seen[ x ], "element %d came through twice, or was never sent", x ); VP_CHECK( sg == sig_of( x ), "element %d has signal %d, not %d", x, (int) sg, (int) sig_of( x ) ); seen[ x ] = 1; n++; vpmc::progress(); return( raft::proceed ); } } d( n );
      for( int i = 0; i < k; i++ ){ p.emplace_back( new Pass< T >( 1, SCOPED ) ); m.link( &s, std::to_string( i ), p.back().get(), "0", cap ); m.link( p.back().get(), "0", &j, std::to_string( i ), cap ); }
      m.link( &j, "0", &d, "0", cap ); go( m ); VP_CHECK( d.n == n, "%d of %d elements came through", d.n, n );
   }
   clean();
}
/* a kernel of the user's own that spreads what it receives, or gathers what it is sent, with the library's method */
template < class T > struct Spread : Base
{
   int ins, outs; raft::signal s = raft::none; T v; bool have = false;
   /* whatever the library calls its default */
   roundrobin how;
   Spread( int i, int o ) : ins( i ), outs( o ), v( Tr< T >::make( 0 ) ){ for( int k = 0; k < i; k++ ) input.addPort< T >( std::to_string( k ) ); for( int k = 0; k < o; k++ ) output.addPort< T >( std::to_string( k ) ); }
   virtual raft::kstatus body()
   {
      if( ins == 1 ) input[ "0" ].template pop< T >( v, &s ); else VP_CHECK( how.template get< T >( v, s, input ), "nothing was received although there was data" );
      if( outs == 1 ) output[ "0" ].template push< T >( v, s ); else VP_CHECK( how.send( v, s, output ), "an element could not be sent" );
      return( raft::proceed );
   }
};
template < class T > void spread( int n, int ins, int outs )
{
   reset();
   {
      std::vector< std::unique_ptr< Src< T > > > g; std::vector< std::unique_ptr< Snk< T > > > d; Spread< T > s( ins, outs ); raft::map m;
      for( int i = 0; i < ins; i++ ){ g.emplace_back( new Src< T >( ins == 1 ? n : n - i, ins == 1 ? 0 : 20 * i, 1, PLAIN, true ) ); m.link( g.back().get(), "0", &s, std::to_string( i ), 2 ); }
      for( int i = 0; i < outs; i++ ){ d.emplace_back( new Snk< T >( i ) ); m.link( &s, std::to_string( i ), d.back().get(), "0", 2 ); }
      go( m );
      if( ins == 1 ){ want_parts( outs, n ); for( auto &x : d ) want_sig( x->slot, n ); }
      else
      {
         std::vector< int > at( ins, 0 ); int tot( 0 ); for( int i = 0; i < ins; i++ ) tot += n - i;
         VP_CHECK( R[ 0 ].n == tot, "%d of %d elements arrived", R[ 0 ].n, tot ); want_sig( 0, n, 20, 1 );
         for( int i = 0; i < R[ 0 ].n; i++ ){ const int x( R[ 0 ].v[ i ] - 1 ), k( x / 20 ); VP_CHECK( x >= 0 && k < ins && x % 20 == at[ k ], "element %d of source %d arrived out of turn", x % 20 + 1, k ); at[ k ]++; }
      }
   }
   clean();
}
/* ---------------------------------------------------------------- C21 */
template < class T > void read_write( int n, int cap )
{
   reset();
   {
      std::vector< T > a, b; for( int i = 1; i <= n; i++ ) a.push_back( Tr< T >::make( i ) );
      { auto r( raft::read_each< T >( a.begin(), a.end() ) ); auto w( raft::write_each< T >( std::back_inserter( b ) ) ); raft::map m; m.link( &r, "0", &w, "0", cap ); go( m ); }
      VP_CHECK( (int) a.size() == n && (int) b.size() == n, "%d of %d items were copied", (int) b.size(), n );
      for( int i = 0; i < n; i++ ){ VP_CHECK( Tr< T >::id( b[ i ] ) == i + 1, "item %d became %d", i + 1, Tr< T >::id( b[ i ] ) ); VP_CHECK( Tr< T >::id( a[ i ] ) == i + 1, "the source was changed" ); }
   }
   clean();
}
template < class T > void read_only( int n, int cap, Style st )
{
   reset();
   { std::vector< T > a; for( int i = 1; i <= n; i++ ) a.push_back( Tr< T >::make( i ) );
     { auto r( raft::read_each< T >( a.begin(), a.end() ) ); Snk< T > k( 0, 1, st ); raft::map m; m.link( &r, "0", &k, "0", cap ); go( m ); want( 0, n ); } }
   clean();
}
template < class T > void write_only( int n, int cap, Style st )
{
   reset();
   { std::vector< T > b; { Src< T > g( n, 0, 1, st ); auto w( raft::write_each< T >( std::back_inserter( b ) ) ); raft::map m; m.link( &g, "0", &w, "0", cap ); go( m ); }
     VP_CHECK( (int) b.size() == n, "%d of %d items were written", (int) b.size(), n ); for( int i = 0; i < n; i++ ) VP_CHECK( Tr< T >::id( b[ i ] ) == i + 1, "item %d became %d", i + 1, Tr< T >::id( b[ i ] ) ); }
   clean();
}
/* values small enough to print */
struct Num : Base
{
   int n, base, i = 0; Num( int n, int base ) : n( n ), base( base ){ output.addPort< int >( "0" ); }
   virtual raft::kstatus body(){ if( i == n ) return( raft::stop ); output[ "0" ].push< int >( base + ++i ); return( raft::proceed ); }
};
/* a print kernel, or a copy of one, with k inputs */
template < class P > void print_( int n, int k, bool copy, const char *delim )
{
   reset();
   {
      std::ostringstream os;
      {
         /* the copy belongs to the map it is linked in */
         P orig( os, k ); raft::kernel *p( copy ? orig.clone() : &orig );
         VP_CHECK( (int) p->input.count() == k, "a %s of a print kernel with %d inputs has %d", copy ? "copy" : "first", k, (int) p->input.count() );
         std::vector< std::unique_ptr< Num > > g; raft::map m;
         for( int i = 0; i < k; i++ ){ g.emplace_back( new Num( n, 10 * ( i + 1 ) ) ); m.link( g.back().get(), "0", p, std::to_string( i ), 2 ); }
         go( m );
      }
      /* two digits each, then the delimiter */
      std::string s( os.str() ); const std::string d( delim ); std::vector< int > at( k, 0 ); int t( 0 );
      while( ! s.empty() )
      {
         const int v( s.size() >= 2 ? std::stoi( s.substr( 0, 2 ) ) : -1 ); const int q( v / 10 - 1 );
         VP_CHECK( v >= 0 && q < k && v % 10 == ++at[ q ], "item %d of input %d was not printed in its turn", v % 10, q );
         VP_CHECK( s.size() >= 2 + d.size() && s.substr( 2, d.size() ) == d, "an item was printed without its delimiter" ); s = s.substr( 2 + d.size() ); t++;
      }
      VP_CHECK( t == k * n, "%d of %d items were printed", t, k * n );
   }
   clean();
}
/* function kernels */
void lambda_same( int n, int ins, int outs )
{
   reset();
   {
      int calls( 0 );
      raft::lambdak< int > f( ins, outs, [ & ]( Port &in, Port &out ) -> raft::kstatus
      {
         calls++;
         VP_CHECK( (int) in.count() == ins && (int) out.count() == outs, "the function got other ports" );
         for( int i = 0; i < ins; i++ ) if( in[ std::to_string( i ) ].size() > 0 ){ int v( 0 ); in[ std::to_string( i ) ].pop< int >( v ); for( int o = 0; o < outs; o++ ) out[ std::to_string( o ) ].push< int >( v ); return( raft::proceed ); }
         return( raft::proceed );
      } );
      std::vector< std::unique_ptr< raft::kernel > > k; raft::map m;
      for( int i = 0; i < ins; i++ ){ k.emplace_back( new Src< int >( n, 20 * i ) ); m.link( k.back().get(), "0", &f, std::to_string( i ), 1 ); }
      for( int o = 0; o < outs; o++ ){ k.emplace_back( new Snk< int >( o ) ); m.link( &f, std::to_string( o ), k.back().get(), "0", 1 ); }
      go( m );
      for( int o = 0; o < outs; o++ ) VP_CHECK( R[ o ].n == n * ins, "%d of %d", R[ o ].n, n * ins );
      VP_CHECK( calls >= n * ins, "the function was called %d times", calls );
   }
   clean();
}
void lambda_types()
{
   reset();
   {
      raft::lambdak< int, Pod, double > f( 2, 1, []( Port &in, Port &out ) -> raft::kstatus
      {
         int a( 0 ); Pod b{}; in[ "0" ].pop< int >( a ); in[ "1" ].pop< Pod >( b );
         out[ "0" ].push< double >( Tr< double >::make( Tr< int >::id( a ) ) );
         VP_CHECK( Tr< Pod >::id( b ) == Tr< int >::id( a ), "items of two inputs do not match" );
         return( raft::proceed );
      } );
      Src< int > g( 2 ); Src< Pod > h( 2 ); Snk< double > d; raft::map m; m.link( &g, "0", &f, "0", 1 ); m.link( &h, "0", &f, "1", 1 ); m.link( &f, "0", &d, "0", 1 ); go( m ); want( 0, 2 );
      bool t( false ); raft::lambdak< int, Pod > x( 1, 1, []( Port &, Port & ){ return( raft::stop ); } ); Snk< int > y; raft::map m2;
      try{ m2.link( &x, "0", &y, "0" ); }catch( PortTypeMismatchException & ){ t = true; } VP_CHECK( t, "the ports of a function kernel have the wrong types" );
   }
   clean();
}
void random_( int n )
{
   reset();
   {
      std::vector< int > b; using rnd = raft::random_variate< std::minstd_rand, std::uniform_int_distribution, int >;
      { rnd r( n, 3, 9 ); raft::kernel *k( vpmc::choose( 2 ) ? r.clone() : &r ); auto w( raft::write_each< int >( std::back_inserter( b ) ) ); raft::map m; m.link( k, "0", &w, "0", 2 ); go( m ); }
      VP_CHECK( (int) b.size() == n, "%d of %d variates", (int) b.size(), n ); for( int v : b ) VP_CHECK( v >= 3 && v <= 9, "variate %d is out of range", v );
   }
   clean();
}
/* the bytes of a file; a file in memory */
struct MemFile
{
   int fd; std::string path;
   VP_QUIET MemFile( const std::string &s ){ fd = memfd_create( "vp", 0 ); if( fd < 0 || write( fd, s.data(), s.size() ) != (ssize_t) s.size() ) vpmc::fail( "harness: no memfd" ); path = "/proc/self/fd/" + std::to_string( fd ); }
   VP_QUIET ~MemFile(){ close( fd ); }
};
template < class C > struct Chunks : raft::kernel
{
   const std::string &want; std::size_t offset; std::vector< std::pair< std::size_t, std::size_t > > got; std::vector< raft::signal > sig; std::vector< std::uint64_t > index; int style;
   Chunks( const std::string &w, std::size_t offset, int style ) : want( w ), offset( offset ), style( style ){ input.addPort< C >( "0" ); }
   void take( C &c, raft::signal s )
   {
      VP_CHECK( c.length < C::getChunkSize() && c.start_position + c.length <= want.size(), "a chunk of %d bytes from %d of a file of %d", (int) c.length, (int) c.start_position, (int) want.size() );
      VP_CHECK( std::memcmp( c.buffer, want.data() + c.start_position, c.length ) == 0 && c.buffer[ c.length ] == 0, "a chunk holds other bytes than the file" );
      std::string t; for( auto it( c.begin() ); it != c.end(); ++it ) t += *it; VP_CHECK( t == std::string( c.buffer, c.length ), "the bytes iterated are not those of the chunk" );
      for( std::size_t i = 0; i < c.length; i++ ) VP_CHECK( c[ i ] == c.buffer[ i ], "the bytes indexed are not those of the chunk" );
      got.emplace_back( c.start_position, c.length ); sig.push_back( s ); index.push_back( c.index );
   }
   virtual raft::kstatus run()
   {
      FIFO &f( input[ "0" ] ); raft::signal s( raft::none );
      if( style == 0 ){ C &c( f.template peek< C >( &s ) ); take( c, s ); f.unpeek(); f.recycle( 1 ); }
      else if( style == 1 ){ C c; f.template pop< C >( c, &s ); take( c, s ); }
      else { auto c( f.template pop_s< C >() ); C d( *c ); take( d, c.sig() ); }
      return( raft::proceed );
   }
};
template < std::size_t S > void file_( int maxlen, int mul )
{
   using C = raft::filechunk< S >;
   reset();
   {
      const int len( vpmc::choose( maxlen + 1 ) * mul ); const int off( vpmc::choose( S - 2 < 4 ? S - 2 : 4 ) ); const int style( vpmc::choose( 3 ) );
      std::string text; for( int i = 0; i < len; i++ ) text += (char)( 'A' + ( i * 7 + i / 11 ) % 50 );
      MemFile mf( text ); Chunks< C > k( text, off, style );
      { raft::filereader< C > r( mf.path, off ); raft::map m; m.link( &r, "0", &k, "0", 2 ); go( m ); }
      std::size_t upto( 0 );
      for( std::size_t i = 0; i < k.got.size(); i++ )
      {
         VP_CHECK( k.index[ i ] == i, "chunk %d has index %d", (int) i, (int) k.index[ i ] );
         VP_CHECK( k.got[ i ].first == ( i == 0 ? 0 : upto - off ), "file of %d bytes, chunks of %d, overlap %d: chunk %d starts at %d after the bytes to %d", len, (int) S - 1, off, (int) i, (int) k.got[ i ].first, (int) upto );
         upto = k.got[ i ].first + k.got[ i ].second;
         VP_CHECK( ( k.sig[ i ] == raft::eof ) == ( i + 1 == k.got.size() ), "chunk %d of %d carries signal %d", (int) i + 1, (int) k.got.size(), (int) k.sig[ i ] );
      }
      VP_CHECK( (int) upto == len, "file of %d bytes, chunks of %d, overlap %d: only %d bytes were delivered", len, (int) S - 1, off, (int) upto );
   }
   clean();
}
/* search: every text of up to len letters, every term of up to tl; the text in one chunk at some position, or as a file in chunks that overlap by one less than the term */
struct Feed : raft::kernel
{
   using C = raft::filechunk< 16 >; std::string t; std::size_t at; Feed( const std::string &t, std::size_t at ) : t( t ), at( at ){ output.addPort< C >( "0" ); }
   virtual raft::kstatus run(){ C &c( output[ "0" ].allocate< C >() ); std::memcpy( c.buffer, t.data(), t.size() ); c.buffer[ t.size() ] = 0; c.length = t.size(); c.start_position = at; output[ "0" ].send(); return( raft::stop ); }
};
std::string word( int max, bool empty ){ std::string s; const int n( empty ? vpmc::choose( max + 1 ) : 1 + vpmc::choose( max ) ); for( int i = 0; i < n; i++ ) s += (char)( 'a' + vpmc::choose( 2 ) ); return( s ); }
void search_( int len, int tl, bool file )
{
   reset();
   {
      const std::string text( word( len, true ) ), term( word( tl, false ) ); const std::size_t at( file ? 0 : 10 * vpmc::choose( 2 ) );
      std::vector< raft::match_t > got, want;
      for( std::size_t i = text.find( term ); i != std::string::npos; i = text.find( term, i + 1 ) ) want.emplace_back( at + i, at + i + term.size() );
      {
         auto w( raft::write_each< raft::match_t >( std::back_inserter( got ) ) ); raft::map m;
         if( ! file ){ Feed f( text, at ); raft::search< Feed::C, raft::stdlib > s( term ); m.link( &f, "0", &s, "0", 1 ); m.link( &s, "0", &w, "0", 2 ); go( m ); }
         else { using C = raft::filechunk< 5 >; MemFile mf( text ); raft::filereader< C > f( mf.path, (long) term.size() - 1 ); raft::search< C, raft::stdlib > s( term ); m.link( &f, "0", &s, "0", 1 ); m.link( &s, "0", &w, "0", 2 ); go( m ); }
      }
      VP_CHECK( got == want, "searching \"%s\" for \"%s\" found %d places of %d, the first at %d instead of %d", text.c_str(), term.c_str(), (int) got.size(), (int) want.size(), got.empty() ? -1 : (int) got[ 0 ].first, want.empty() ? -1 : (int) want[ 0 ].first );
   }
   clean();
}
/* ---------------------------------------------------------------- C24 */
struct Sel : Base
{
   int named, total = 0; bool still; int empty = 0;
   Sel( int named, bool still ) : named( named ), still( still ){ input.addPort< int >( "a", "b", "c" ); }
   virtual raft::kstatus body()
   {
      if( still ) std::this_thread::sleep_for( std::chrono::milliseconds( 5 ) );
      const char *nm[] = { "a", "b", "c" }; int size[ 3 ]; for( int i = 0; i < 3; i++ ) size[ i ] = input[ nm[ i ] ].size();
      auto r( named == 3 ? raft::select::in( input, "a", "b", "c" ) : named == 2 ? raft::select::in( input, "a", "c" ) : raft::select::in( input, "b" ) );
      int which( -1 ); for( int i = 0; i < 3; i++ ) if( &r.second.get() == &input[ nm[ i ] ] ) which = i;
      VP_CHECK( which >= 0 && ( named == 3 || ( named == 2 && which != 1 ) || ( named == 1 && which == 1 ) ), "a stream that was not named was selected" );
      if( still )
      {
         int any( 0 ); for( int i = 0; i < 3; i++ ) if( named == 3 || ( named == 2 && i != 1 ) || ( named == 1 && i == 1 ) ) any += size[ i ];
         VP_CHECK( ( r.first > 0 ) == ( any > 0 ), any ? "nothing was selected although there was data" : "a stream without data was selected" );
         VP_CHECK( (int) r.first == size[ which ], "selected %d elements of a stream holding %d", (int) r.first, size[ which ] );
      }
      vpmc::observe( which );
      if( r.first > 0 )
      {
         const auto t0( vpmc::now_ns() );
         for( std::size_t i = 0; i < r.first; i++ ){ int v( 0 ); r.second.get().pop< int >( v ); rec( which, Tr< int >::id( v ) ); total++; }
      }
      else
      {
         empty++;
         /* the ports not named are drained, so that the graph ends */
         for( int i = 0; i < 3; i++ ) if( size[ i ] > 0 && ( named == 2 ? i == 1 : named == 1 && i != 1 ) ){ int v( 0 ); input[ nm[ i ] ].pop< int >( v ); rec( i, Tr< int >::id( v ) ); total++; }
      }
      return( raft::proceed );
   }
};
void select_( int n0, int n1, int n2, int named, bool still )
{
   reset(); std::vp_perm = still ? -1 : vpmc::choose( 6 );
   {
      Src< int > a( n0 ), b( n1, 20 ), c( n2, 40 ); Sel s( named, still ); raft::map m;
      m.link( &a, "0", &s, "a", 4 ); m.link( &b, "0", &s, "b", 4 ); m.link( &c, "0", &s, "c", 4 ); go( m ); want( 0, n0 ); want( 1, n1, 20 ); want( 2, n2, 40 );
   }
   clean();
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const char *n, std::function< void() > f, int q = 1, int t = 2 ){ v.push_back( { n, f, q, t, false, true } ); };
   add( "C18.split.one",        []{ split_< int >( 3, 1, 4, 4, 0 ); } );
   add( "C18.split.two",        []{ split_< int >( 3, 2, 1, 1, 0 ); } );
   add( "C18.split.burst",      []{ split_< int >( 4, 2, 4, 1, 0 ); } );
   add( "C18.split.slow",       []{ split_< int >( 4, 2, 4, 2, 2 ); } );
   add( "C18.split.obj",        []{ split_< Sm >( 3, 2, 2, 1, 0 ); } );
   add( "C18.split.empty",      []{ split_< int >( 0, 2, 2, 1, 0 ); } );
   add( "C18.join.one",         []{ join_< int >( 2, 1, 1, 1 ); } );
   add( "C18.join.two",         []{ join_< int >( 2, 2, 1, 1 ); } );
   add( "C18.join.slow",        []{ join_< int >( 2, 2, 2, 1, PLAIN, 2 ); } );
   add( "C18.join.obj",         []{ join_< Sm >( 2, 2, 1, 2, SCOPED ); } );
   add( "C18.join.bigobj",      []{ join_< Bg >( 2, 2, 2, 1, PEEK ); } );
   add( "C18.join.string",      []{ join_< std::string >( 2, 2, 1, 1 ); } );
   add( "C18.join.empty",       []{ join_< int >( 0, 2, 1, 1 ); } );
   add( "C18.long.int",         []{ const int sh( vpmc::choose( 3 ) ), c( vpmc::choose( 3 ) ); long_sj< int >( vpmc::thorough() ? 1500 : 800, 2 + vpmc::choose( 2 ), sh, c == 2 ? 5 : c ); }, 0, 0 );
   add( "C18.long.obj",         []{ const int sh( vpmc::choose( 3 ) ), c( vpmc::choose( 3 ) ); long_sj< Sm >( 500, 2 + vpmc::choose( 2 ), sh, c == 2 ? 5 : 1 + c ); }, 0, 0 );
   add( "C18.split.wide",       []{ const int k( 3 + vpmc::choose( 9 ) ); split_< int >( k + vpmc::choose( 3 ), k, 4, 1, 0 ); }, 0, 0 );
   add( "C18.join.wide",        []{ join_< int >( 2, 3 + vpmc::choose( 9 ), 1, 1 ); }, 0, 0 );
   add( "C18.splitjoin.wide",   []{ splitjoin< int >( 5, 3 + vpmc::choose( 2 ), 1 ); }, 0, 1 );
   add( "C18.splitjoin",        []{ splitjoin< int >( 2, 2, 1 ); } );
   add( "C18.splitjoin.cap2",   []{ splitjoin< Sm >( 3, 2, 2 ); } );
   add( "C18.method.send",      []{ spread< int >( 3, 1, 2 ); } );
   add( "C18.method.get",       []{ spread< int >( 2, 2, 1 ); } );
   add( "C21.copy",             []{ read_write< int >( 3, 1 ); } );
   add( "C21.copy.obj",         []{ read_write< Sm >( 3, 2 ); } );
   add( "C21.copy.empty",       []{ read_write< int >( 0, 1 ); } );
   add( "C21.read.obj",         []{ read_only< Bg >( 3, 1, PEEK ); } );
   add( "C21.read.string",      []{ read_only< std::string >( 3, 2, SCOPED ); } );
   add( "C21.write.pod",        []{ write_only< Pod >( 3, 2, ASEND ); } );
   add( "C21.print",            []{ print_< raft::print< int, ',' > >( 2, 2, false, "," ); } );
   add( "C21.print.nodelim",    []{ print_< raft::print< int > >( 2, 1, false, "" ); } );
   add( "C21.print.copy",       []{ print_< raft::print< int, ' ' > >( 2, 2, true, " " ); } );
   add( "C21.print.copy0",      []{ print_< raft::print< int > >( 2, 3, true, "" ); } );
   add( "C21.lambda.pass",      []{ lambda_same( 2, 1, 1 ); } );
   add( "C21.lambda.fan",       []{ lambda_same( 1, 2, 2 ); } );
   add( "C21.lambda.types",     []{ lambda_types(); } );
   add( "C21.random",           []{ random_( 3 ); } );
   add( "C21.file.small",       []{ file_< 4 >( 13, 1 ); }, 0, 0 );
   add( "C21.file.medium",      []{ file_< 6 >( 26, 1 ); }, 0, 0 );
   add( "C21.file.large",       []{ file_< 128 >( 45, 9 ); }, 0, 0 );
   add( "C21.file.sched",       []{ file_< 4 >( 4, 2 ); }, 0, 1 );
   add( "C21.search",           []{ search_( vpmc::thorough() ? 8 : 6, 3, false ); }, 0, 0 );
   add( "C21.search.file",      []{ search_( vpmc::thorough() ? 9 : 7, 3, true ); }, 0, 0 );
   add( "C24.three",            []{ select_( 1, 1, 1, 3, false ); } );
   add( "C24.two",              []{ select_( 2, 1, 0, 3, false ); } );
   add( "C24.named2",           []{ select_( 1, 1, 1, 2, false ); } );
   add( "C24.still",            []{ select_( vpmc::choose( 3 ), vpmc::choose( 3 ), vpmc::choose( 3 ), 3, true ); }, 0, 0 );
   add( "C24.still.named",      []{ select_( vpmc::choose( 3 ), vpmc::choose( 3 ), vpmc::choose( 3 ), 1 + vpmc::choose( 2 ), true ); }, 0, 0 );
   return( vpmc::main( argc, argv, v ) );
}
