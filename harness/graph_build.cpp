// PROPS: C14 C15 C16 C17 C19 C23 C26
/* construction of graphs: links, operator expressions, traversal, ports, ids,
 * drawing. Every execution is one program over the public interface. */
#include "rt.h"
#include <sstream>
#include <algorithm>
#include "graphtools.hpp"
#include "makedot.hpp"
using namespace rt;
namespace
{
using S = std::string;
/* a map that tells what it contains */
struct M : raft::map
{
   static std::vector< raft::kernel* > list( kernelkeeper &k ){ auto &c( k.acquire() ); std::vector< raft::kernel* > v( c.begin(), c.end() ); k.release(); return( v ); }
   std::vector< raft::kernel* > all(){ return( list( all_kernels ) ); }
   std::vector< raft::kernel* > sources(){ return( list( source_kernels ) ); }
   std::vector< raft::kernel* > dests(){ return( list( dst_kernels ) ); }
};
struct Edge
{
   raft::kernel *a; S ap; raft::kernel *b; S bp; bool ooo; std::size_t buf;
   bool operator < ( const Edge &o ) const { return( std::tie( a, ap, b, bp, ooo, buf ) < std::tie( o.a, o.ap, o.b, o.bp, o.ooo, o.buf ) ); }
   bool operator == ( const Edge &o ) const { return( ! ( *this < o ) && ! ( o < *this ) ); }
};
/* every edge, seen from its source kernel: each kernel on its own is traversed */
std::vector< Edge > edges( std::vector< raft::kernel* > ks )
{
   std::vector< Edge > v;
   std::sort( ks.begin(), ks.end() );
   GraphTools::BFS( ks, [&]( PortInfo &a, PortInfo &b, void * ){
      VP_CHECK( a.other_kernel == b.my_kernel && b.other_kernel == a.my_kernel && a.other_name == b.my_name && b.other_name == a.my_name, "the two ends of an edge do not name each other" );
      VP_CHECK( a.out_of_order == b.out_of_order && a.fixed_buffer_size == b.fixed_buffer_size, "the two ends of an edge disagree" );
      v.push_back( { a.my_kernel, a.my_name, b.my_kernel, b.my_name, a.out_of_order, a.fixed_buffer_size } );
   } );
   std::sort( v.begin(), v.end() );
   return( v );
}

/* ---------------------------------------------------------------- C16 */
/* node of kind k: ins inputs "i0".., outs outputs "o0".. */
int CNT[ 16 ];                  /* elements a sink of that kind received */
struct Node : Base
{
   int kind, ins, outs; bool orig = true;
   Node( int kind, int ins, int outs ) : kind( kind ), ins( ins ), outs( outs )
   {
      for( int i = 0; i < ins; i++ ) input.addPort< int >( "i" + std::to_string( i ) );
      for( int i = 0; i < outs; i++ ) output.addPort< int >( "o" + std::to_string( i ) );
   }
   Node( const Node &o ) : Node( o.kind, o.ins, o.outs ){ orig = false; }
   CLONE();
   VP_QUIET void count(){ CNT[ kind ]++; }
   virtual raft::kstatus body()
   {
      if( ins == 0 ){ for( int i = 0; i < outs; i++ ) output[ "o" + std::to_string( i ) ].push< int >( 1 ); return( raft::stop ); }
      for( int i = 0; i < ins; i++ )
      {
         FIFO &f( input[ "i" + std::to_string( i ) ] );
         if( f.size() == 0 ) continue;
         int v; f.pop< int >( v ); vpmc::progress();
         for( int j = 0; j < outs; j++ ) output[ "o" + std::to_string( j ) ].push< int >( v );
         if( outs == 0 ) count();
      }
      return( raft::proceed );
   }
};
enum Op { CONT, SPLIT, JOIN };
const char *OPS[] = { ">>", "<=", ">=" };
/* a whole expression k0 op1 k1 ... as the reference understands it */
struct Expr
{
   std::vector< Op > op;         /* op[i] lies between kernel i and i + 1 */
   std::vector< int > ins, outs; /* of kernel i */
   std::vector< int > match;     /* for a join: index of its split, or -1 */
   std::vector< int > ooo;       /* op[i] is marked as out of order */
   int n() const { return( ins.size() ); }
};
struct RefNode { int kind; std::vector< std::pair< int, int > > in, out; /* (node, port) */ bool ooo; };
struct Ref
{
   std::vector< RefNode > v;
   int make( const Expr &e, int k ){ v.push_back( { k, std::vector< std::pair< int, int > >( e.ins[ k ], { -1, -1 } ), std::vector< std::pair< int, int > >( e.outs[ k ], { -1, -1 } ), k < (int) e.ooo.size() && e.ooo[ k ] } ); return( v.size() - 1 ); }
   void join( int a, int ap, int b, int bp ){ v[ a ].out[ ap ] = { b, bp }; v[ b ].in[ bp ] = { a, ap }; }
   /* one copy of kernels from..to of the expression; the frontier it leaves.
    * 'from' is entered through node x if x >= 0 */
   std::vector< int > build( const Expr &e, int from, int to, int x )
   {
      std::vector< int > front{ x < 0 ? make( e, from ) : x };
      int i( from );
      while( i < to )
      {
         const Op o( e.op[ i ] );
         if( o == CONT ){ std::vector< int > nf; for( int f : front ){ int d( make( e, i + 1 ) ); join( f, 0, d, 0 ); nf.push_back( d ); } front = nf; i++; }
         else if( o == SPLIT )
         {
            /* up to the matching join, or the end */
            int j( i + 1 ), m( -1 );
            for( ; j < (int) e.op.size(); j++ ) if( e.op[ j ] == JOIN && e.match[ j ] == i ){ m = j; break; }
            std::vector< int > nf;
            for( int f : front )
            {
               std::vector< int > outs;
               for( int p = 0; p < e.outs[ i ]; p++ )
               {
                  int c( make( e, i + 1 ) ); join( f, p, c, 0 );
                  auto r( build( e, i + 1, m < 0 ? to : m, c ) );
                  outs.insert( outs.end(), r.begin(), r.end() );
               }
               if( m < 0 ) nf.insert( nf.end(), outs.begin(), outs.end() );
               else { int d( make( e, m + 1 ) ); for( int q = 0; q < e.ins[ m + 1 ]; q++ ) join( outs[ q ], 0, d, q ); nf.push_back( d ); }
            }
            front = nf;
            if( m < 0 ) return( front );
            i = m + 1;
         }
         else return( front );   /* unmatched join: handled by whole() */
      }
      return( front );
   }
   std::vector< int > srcs, dsts;
   void whole( const Expr &e )
   {
      int dj( -1 ); for( int i = 0; i < (int) e.op.size(); i++ ) if( e.op[ i ] == JOIN && e.match[ i ] < 0 ) dj = i;
      if( dj < 0 ){ srcs = { 0 }; dsts = build( e, 0, e.n() - 1, -1 ); return; }
      int d( -1 );
      std::vector< int > ends;
      for( int p = 0; p < e.ins[ dj + 1 ]; p++ ){ srcs.push_back( v.size() ); auto r( build( e, 0, dj, -1 ) ); ends.push_back( r[ 0 ] ); }
      d = make( e, dj + 1 );
      for( int p = 0; p < e.ins[ dj + 1 ]; p++ ) join( ends[ p ], 0, d, p );
      dsts = build( e, dj + 1, e.n() - 1, d );
   }
};
/* enumerate an expression with up to maxk kernels */
Expr choose_expr( int maxk, int maxp, bool orders = false )
{
   Expr e; std::vector< int > open; bool dup( false ); int mult( 1 );
   const int k( 2 + vpmc::choose( maxk - 1 ) );
   std::vector< int > width;
   e.ins.push_back( 0 );
   bool onlycont( true );
   for( int i = 0; i + 1 < k; i++ )
   {
      Op o;
      /* a join without an open split duplicates everything before it: only
       * after a plain chain, once */
      std::vector< Op > can{ CONT, SPLIT };
      if( ! open.empty() ) can.push_back( JOIN ); else if( onlycont && ! dup ) can.push_back( JOIN );
      o = can[ vpmc::choose( can.size() ) ];
      e.op.push_back( o ); e.match.push_back( -1 );
      if( o == CONT ){ e.outs.push_back( 1 ); e.ins.push_back( 1 ); }
      else if( o == SPLIT ){ const int p( 1 + vpmc::choose( maxp ) ); e.outs.push_back( p ); e.ins.push_back( 1 ); open.push_back( i ); onlycont = false; mult *= p; }
      else
      {
         e.outs.push_back( 1 );
         if( open.empty() ){ const int p( 1 + vpmc::choose( maxp ) ); e.ins.push_back( p ); dup = true; onlycont = false; }
         else { e.match.back() = open.back(); e.ins.push_back( e.outs[ open.back() ] ); open.pop_back(); }
      }
   }
   if( orders ) for( auto o : e.op ) e.ooo.push_back( o == CONT && vpmc::choose( 2 ) );
   e.outs.push_back( 0 );
   return( e );
}
/* evaluate the expression with the operators, in any grouping they allow */
struct Val { raft::kernel *k = nullptr; kpair *p = nullptr; int lo, hi; };
template < class K > Val apply( Op o, Val a, Val b, bool ooo = false )
{
   Val r; r.lo = a.lo; r.hi = b.hi;
   kpair *p( nullptr );
   if( ooo ) p = a.k ? &( *a.k >> raft::order::out >> *b.k ) : &( *a.p >> raft::order::out >> *b.k );
   else if( a.k && b.k ){ switch( o ){ case CONT: p = &( *a.k >> *b.k ); break; case SPLIT: p = &( *a.k <= *b.k ); break; case JOIN: p = &( *a.k >= *b.k ); } }
   else if( a.p && b.k ){ switch( o ){ case CONT: p = &( *a.p >> *b.k ); break; case SPLIT: break; case JOIN: p = &( *a.p >= *b.k ); } }
   else if( a.k && b.p ){ switch( o ){ case CONT: break; case SPLIT: p = &( *a.k <= *b.p ); break; case JOIN: p = &( *a.k >= *b.p ); } }
   else switch( o ){ case JOIN: p = &( *a.p >= *b.p ); break; default: break; }
   r.p = p; return( r );
}
/* all groupings: choose the root operator of lo..hi (kernels) */
bool groupable( const Expr &e, int lo, int hi );
std::vector< int > roots( const Expr &e, int lo, int hi )
{
   std::vector< int > r;
   for( int i = lo; i < hi; i++ )
   {
      const bool lk( i == lo ), rk( i + 1 == hi );
      switch( e.op[ i ] )
      {
         case CONT: if( ! rk ) continue; break;
         case SPLIT: if( ! lk ) continue; break;
         case JOIN:
            /* what it joins lies on its left, inside this group */
            if( e.match[ i ] >= 0 ? e.match[ i ] < lo : lo != 0 ) continue;
      }
      if( groupable( e, lo, i ) && groupable( e, i + 1, hi ) ) r.push_back( i );
   }
   return( r );
}
bool groupable( const Expr &e, int lo, int hi ){ return( lo == hi || ! roots( e, lo, hi ).empty() ); }
S text;
Val evaluate( const Expr &e, std::vector< std::unique_ptr< Node > > &k, int lo, int hi )
{
   if( lo == hi ){ Val v; v.k = k[ lo ].get(); v.lo = v.hi = lo; text += "k" + std::to_string( lo ); return( v ); }
   auto r( roots( e, lo, hi ) );
   const int i( r[ vpmc::choose( r.size() ) ] );
   text += "("; auto a( evaluate( e, k, lo, i ) ); const bool ooo( i < (int) e.ooo.size() && e.ooo[ i ] ); text += S( " " ) + OPS[ e.op[ i ] ] + ( ooo ? " order::out >> " : " " ); auto b( evaluate( e, k, i + 1, hi ) ); text += ")";
   return( apply< raft::kernel >( e.op[ i ], a, b, ooo ) );
}
/* the map holds the graph of the reference; what corresponds to what */
std::map< raft::kernel*, int > same_graph( M &m, Ref &ref, raft::kernel *first, std::vector< raft::kernel* > &of )
{
   /* compare: kernels, kinds, edges, from the first source outwards */
   auto all( m.all() );
   VP_CHECK( all.size() == ref.v.size(), "%d kernels, the expression describes %d", (int) all.size(), (int) ref.v.size() );
   auto ed( edges( m.sources() ) );
   std::map< std::pair< raft::kernel*, S >, std::pair< raft::kernel*, S > > fw, bw; std::map< std::pair< raft::kernel*, S >, bool > oo;
   for( auto &x : ed ){ fw[ { x.a, x.ap } ] = { x.b, x.bp }; bw[ { x.b, x.bp } ] = { x.a, x.ap }; oo[ { x.a, x.ap } ] = x.ooo; }
   std::map< raft::kernel*, int > at; std::vector< raft::kernel* > work; of.assign( ref.v.size(), nullptr );
   auto same = [&]( raft::kernel *x, int r )
   {
      if( of[ r ] == x ) return;
      VP_CHECK( of[ r ] == nullptr && ! at.count( x ), "kernels are wired differently from the expression" );
      VP_CHECK( static_cast< Node* >( x )->kind == ref.v[ r ].kind, "a copy of k%d stands where the expression has k%d", static_cast< Node* >( x )->kind, ref.v[ r ].kind );
      of[ r ] = x; at[ x ] = r; work.push_back( x );
   };
   same( first, ref.srcs[ 0 ] );
   for( std::size_t w = 0; w < work.size(); w++ )
   {
      auto *x( work[ w ] ); const int r( at[ x ] );
      for( std::size_t p = 0; p < ref.v[ r ].out.size(); p++ )
      {
         auto it( fw.find( { x, "o" + std::to_string( p ) } ) );
         VP_CHECK( it != fw.end(), "output o%d of a k%d is not connected", (int) p, ref.v[ r ].kind );
         VP_CHECK( it->second.second == "i" + std::to_string( ref.v[ r ].out[ p ].second ), "output o%d of a k%d goes to input %s", (int) p, ref.v[ r ].kind, it->second.second.c_str() );
         { const bool o( oo[ { x, "o" + std::to_string( p ) } ] ); VP_CHECK( o == ref.v[ r ].ooo, "the edge leaving a k%d is %sout of order", ref.v[ r ].kind, o ? "" : "not " ); }
         same( it->second.first, ref.v[ r ].out[ p ].first );
      }
      for( std::size_t p = 0; p < ref.v[ r ].in.size(); p++ )
      {
         auto it( bw.find( { x, "i" + std::to_string( p ) } ) );
         VP_CHECK( it != bw.end(), "input i%d of a k%d is not connected", (int) p, ref.v[ r ].kind );
         same( it->second.first, ref.v[ r ].in[ p ].first );
      }
   }
   VP_CHECK( at.size() == all.size(), "%d kernels of the map are not part of the graph", (int) ( all.size() - at.size() ) );
   std::size_t ne( 0 ); for( auto &r : ref.v ) ne += r.out.size();
   VP_CHECK( ed.size() == ne, "%d edges, the expression describes %d", (int) ed.size(), (int) ne );
   return( at );
}
void expression( int maxk, int maxp, bool run, bool orders = false )
{
   reset(); text = ""; for( auto &c : CNT ) c = 0;
   {
      Expr e( choose_expr( maxk, maxp, orders ) );
      Ref ref; ref.whole( e );
      if( ref.v.size() > ( run ? 10u : 24u ) || ! groupable( e, 0, e.n() - 1 ) ) return;
      std::vector< std::unique_ptr< Node > > k;
      for( int i = 0; i < e.n(); i++ ) k.emplace_back( new Node( i, e.ins[ i ], e.outs[ i ] ) );
      M m;
      Val v( evaluate( e, k, 0, e.n() - 1 ) );
      S what( text ); for( int i = 0; i < e.n(); i++ ) what += " k" + std::to_string( i ) + ":" + std::to_string( e.ins[ i ] ) + "/" + std::to_string( e.outs[ i ] );
      vpmc::note( "%s;", what.c_str() );
      auto ret( m += *v.p );
      std::vector< raft::kernel* > of; auto at( same_graph( m, ref, k[ 0 ].get(), of ) );
      for( auto &q : k ) VP_CHECK( at.count( q.get() ), "the caller's own k%d is not part of the graph", q->kind );
      /* the ends handed back */
      auto ends = [&]( kernel_pair_t::endpoint_ret_type r, std::vector< int > w, const char *n )
      {
         std::set< raft::kernel* > a, b; int cnt( 0 );
         for( auto it( r.first ); it != r.second; ++it ){ a.insert( &it->get() ); cnt++; }
         for( int x : w ) b.insert( of[ x ] );
         VP_CHECK( a == b && cnt == (int) w.size(), "the %s kernels returned (%d) are not those of the graph (%d)", n, cnt, (int) w.size() );
      };
      ends( ret.getSrc(), ref.srcs, "source" ); ends( ret.getDst(), ref.dsts, "destination" );
      VP_CHECK( ret.getSrcSize() == ref.srcs.size() && ret.getDstSize() == ref.dsts.size(), "the sizes returned are wrong" );
      /* sources and sinks of the map */
      std::set< raft::kernel* > ms, md, rs, rd;
      for( auto *x : m.sources() ) ms.insert( x ); for( auto *x : m.dests() ) md.insert( x );
      for( std::size_t r = 0; r < ref.v.size(); r++ ){ if( ref.v[ r ].in.empty() ) rs.insert( of[ r ] ); if( ref.v[ r ].out.empty() ) rd.insert( of[ r ] ); }
      VP_CHECK( ms == rs && md == rd, "the map's source or destination kernels are not those of the graph" );
      if( run )
      {
         /* elements reaching the sinks: one per path */
         std::function< long( int ) > paths = [&]( int r ) -> long { if( ref.v[ r ].out.empty() ) return( 1 ); long s( 0 ); for( auto &o : ref.v[ r ].out ) s += paths( o.first ); return( s ); };
         long want( 0 ); for( int s : ref.srcs ) want += paths( s );
         go( m );
         VP_CHECK( CNT[ e.n() - 1 ] == want, "%d elements reached the end, %ld were sent", CNT[ e.n() - 1 ], want );
      }
   }
   S().swap( text ); clean( "after the map" );
}
/* the same with kernels made in the expression */
void made( int which, bool run )
{
   reset(); for( auto &c : CNT ) c = 0;
   int total( 0 ); long want( 0 );
   {
      using raft::kernel;
      M m; Expr e;
      auto K = []( int kind, int i, int o ){ return( kernel::make< Node >( kind, i, o ) ); };
      auto shape = [&]( std::vector< Op > op, std::vector< int > in, std::vector< int > out, std::vector< int > match ){ e.op = op; e.ins = in; e.outs = out; e.match = match; };
      kernel_pair_t ret; Node a( 0, 0, 1 ), a2( 0, 0, 2 );
      switch( which )
      {
         case 0: ret = m += K( 0, 0, 1 ) >> K( 1, 1, 1 ) >> K( 2, 1, 0 ); shape( { CONT, CONT }, { 0, 1, 1 }, { 1, 1, 0 }, { -1, -1 } ); break;
         case 1: ret = m += K( 0, 0, 2 ) <= K( 1, 1, 0 ); shape( { SPLIT }, { 0, 1 }, { 2, 0 }, { -1 } ); break;
         case 2: ret = m += K( 0, 0, 2 ) <= K( 1, 1, 1 ) >= K( 2, 2, 0 ); shape( { SPLIT, JOIN }, { 0, 1, 2 }, { 2, 1, 0 }, { -1, 0 } ); break;
         case 3: ret = m += K( 0, 0, 2 ) <= K( 1, 1, 1 ) >> K( 2, 1, 1 ) >= K( 3, 2, 1 ) >> K( 4, 1, 0 ); shape( { SPLIT, CONT, JOIN, CONT }, { 0, 1, 1, 2, 1 }, { 2, 1, 1, 1, 0 }, { -1, -1, 0, -1 } ); break;
         case 4: ret = m += K( 0, 0, 1 ) >= K( 1, 3, 0 ); shape( { JOIN }, { 0, 3 }, { 1, 0 }, { -1 } ); break;
         case 5: ret = m += K( 0, 0, 1 ) >= K( 1, 2, 1 ) >> K( 2, 1, 0 ); shape( { JOIN, CONT }, { 0, 2, 1 }, { 1, 1, 0 }, { -1, -1 } ); break;
         case 6: ret = m += K( 0, 0, 1 ) >> K( 1, 1, 1 ) >> K( 2, 1, 1 ) >= K( 3, 2, 0 ); shape( { CONT, CONT, JOIN }, { 0, 1, 1, 2 }, { 1, 1, 1, 0 }, { -1, -1, -1 } ); break;
         case 7: ret = m += a >> K( 1, 1, 1 ) >> K( 2, 1, 0 ); shape( { CONT, CONT }, { 0, 1, 1 }, { 1, 1, 0 }, { -1, -1 } ); break;
         case 8: ret = m += ( a2 <= ( K( 1, 1, 1 ) >> K( 2, 1, 1 ) ) ) >= K( 3, 2, 0 ); shape( { SPLIT, CONT, JOIN }, { 0, 1, 1, 2 }, { 2, 1, 1, 0 }, { -1, -1, 0 } ); break;
         case 9: ret = m += K( 0, 0, 3 ) <= ( K( 1, 1, 2 ) <= K( 2, 1, 1 ) >= K( 3, 2, 1 ) ) >= K( 4, 3, 0 ); shape( { SPLIT, SPLIT, JOIN, JOIN }, { 0, 1, 1, 2, 3 }, { 3, 2, 1, 1, 0 }, { -1, -1, 1, 0 } ); break;
      }
      int marks( 0 );
      switch( which )
      {
         /* many ways at every level */
         case 16: { const int p( 2 + vpmc::choose( 5 ) ), q( 2 + vpmc::choose( run ? 2 : 4 ) ); vpmc::note( "%d ways, each split into %d;", p, q );
                    ret = m += K( 0, 0, p ) <= ( K( 1, 1, q ) <= K( 2, 1, 1 ) >= K( 3, q, 1 ) ) >= K( 4, p, 0 ); shape( { SPLIT, SPLIT, JOIN, JOIN }, { 0, 1, 1, q, p }, { p, q, 1, 1, 0 }, { -1, -1, 1, 0 } ); } break;
         case 17: { const int p( 2 + vpmc::choose( 3 ) ), q( 2 + vpmc::choose( 3 ) ), r( 2 + vpmc::choose( 2 ) ); vpmc::note( "%d ways, each split into %d, each split into %d;", p, q, r );
                    ret = m += K( 0, 0, p ) <= ( K( 1, 1, q ) <= ( K( 2, 1, r ) <= K( 3, 1, 1 ) >= K( 4, r, 1 ) ) >= K( 5, q, 1 ) ) >= K( 6, p, 0 );
                    shape( { SPLIT, SPLIT, SPLIT, JOIN, JOIN, JOIN }, { 0, 1, 1, 1, r, q, p }, { p, q, r, 1, 1, 1, 0 }, { -1, -1, -1, 2, 1, 0 } ); } break;
         case 18: { const int p( 2 + vpmc::choose( 6 ) ); ret = m += K( 0, 0, 1 ) >> K( 1, 1, 1 ) >= K( 2, p, 0 ); shape( { CONT, JOIN }, { 0, 1, p }, { 1, 1, 0 }, { -1, -1 } ); } break;
         case 10: ret = m += a >> raft::order::out >> K( 1, 1, 1 ) >> K( 2, 1, 0 ); shape( { CONT, CONT }, { 0, 1, 1 }, { 1, 1, 0 }, { -1, -1 } ); marks = 1; break;
         case 11: ret = m += K( 0, 0, 1 ) >> K( 1, 1, 1 ) >> raft::order::out >> K( 2, 1, 0 ); shape( { CONT, CONT }, { 0, 1, 1 }, { 1, 1, 0 }, { -1, -1 } ); marks = 2; break;
         case 12: ret = m += a >> raft::order::out >> K( 1, 1, 1 ) >> raft::order::out >> K( 2, 1, 0 ); shape( { CONT, CONT }, { 0, 1, 1 }, { 1, 1, 0 }, { -1, -1 } ); marks = 3; break;
         case 13: ret = m += K( 0, 0, 1 ) >= ( K( 1, 2, 1 ) >> K( 2, 1, 0 ) ); shape( { JOIN, CONT }, { 0, 2, 1 }, { 1, 1, 0 }, { -1, -1 } ); break;
         case 14: ret = m += ( K( 0, 0, 1 ) >> K( 1, 1, 1 ) ) >= ( K( 2, 2, 1 ) >> K( 3, 1, 0 ) ); shape( { CONT, JOIN, CONT }, { 0, 1, 2, 1 }, { 1, 1, 1, 0 }, { -1, -1, -1 } ); break;
         case 15: ret = m += K( 0, 0, 5 ) <= K( 1, 1, 1 ) >= K( 2, 5, 0 ); shape( { SPLIT, JOIN }, { 0, 1, 5 }, { 5, 1, 0 }, { -1, 0 } ); break;
      }
      for( auto &x : edges( m.all() ) ) VP_CHECK( x.ooo == bool( marks >> static_cast< Node* >( x.a )->kind & 1 ), "the edge leaving a k%d is %sout of order", static_cast< Node* >( x.a )->kind, x.ooo ? "" : "not " );
      Ref ref; ref.whole( e ); total = ref.v.size() + ( which == 7 || which == 8 || which == 10 || which == 12 ? 1 : 2 );
      VP_CHECK( m.all().size() == ref.v.size(), "%d kernels, the expression describes %d", (int) m.all().size(), (int) ref.v.size() );
      std::size_t ne( 0 ); for( auto &r : ref.v ) ne += r.out.size();
      VP_CHECK( edges( m.sources() ).size() == ne, "%d edges, the expression describes %d", (int) edges( m.sources() ).size(), (int) ne );
      VP_CHECK( ret.getSrcSize() == ref.srcs.size() && ret.getDstSize() == ref.dsts.size(), "the sizes returned are wrong" );
      /* in full where there is one place to begin */
      if( ref.srcs.size() == 1 && marks == 0 ){ std::vector< raft::kernel* > of; same_graph( m, ref, *m.sources().begin(), of ); }
      std::function< long( int ) > paths = [&]( int r ) -> long { if( ref.v[ r ].out.empty() ) return( 1 ); long s( 0 ); for( auto &o : ref.v[ r ].out ) s += paths( o.first ); return( s ); };
      for( int s : ref.srcs ) want += paths( s );
      if( run ){ go( m ); VP_CHECK( CNT[ e.n() - 1 ] == want, "%d elements reached the end, %ld were sent", CNT[ e.n() - 1 ], want ); }
      VP_CHECK( destroyed == 0, "%d kernels destroyed before their map", destroyed );
   }
   VP_CHECK( destroyed == total, "%d kernels destroyed with the map, %d existed", destroyed, total );
   S().swap( text ); clean( "after the map" );
}
/* names hold for every copy that a split or a join makes */
void named_copies()
{
   reset();
   {
      const int which( vpmc::choose( 3 ) ), k( 2 + vpmc::choose( 3 ) ), x( vpmc::choose( 2 ) ), y( vpmc::choose( 2 ) );
      const S in[] = { "i0", "i1" }, on[] = { "o0", "o1" };
      Node a( 0, 0, which == 0 ? 1 : k ), b( 1, 2, 2 ), d( 3, 1, 1 ), c( 2, k, 0 ); M m;
      switch( which )
      {
         case 0: m += a >> b[ in[ x ] ][ on[ y ] ] >= c; break;
         case 1: m += a <= b[ in[ x ] ][ on[ y ] ] >= c; break;
         case 2: m += a <= ( d >> b[ in[ x ] ][ on[ y ] ] ) >= c; break;
      }
      std::map< S, int > at; int n( 0 ), into( 0 ); std::set< raft::kernel* > bs;
      for( auto &e : edges( m.sources() ) )
      {
         n++; const int ka( static_cast< Node* >( e.a )->kind ), kb( static_cast< Node* >( e.b )->kind );
         if( kb == 1 ){ VP_CHECK( e.bp == in[ x ], "an edge goes to input %s of a copy, not %s", e.bp.c_str(), in[ x ].c_str() ); into++; bs.insert( e.b ); }
         if( ka == 1 ){ VP_CHECK( e.ap == on[ y ], "an edge leaves by output %s of a copy, not %s", e.ap.c_str(), on[ y ].c_str() ); VP_CHECK( kb == 2 && ++at[ e.bp ] == 1, "an edge goes to the wrong place" ); }
      }
      VP_CHECK( (int) bs.size() == k && into == k && (int) at.size() == k && n == ( which == 2 ? 3 : 2 ) * k, "%d edges and %d copies instead of %d", n, (int) bs.size(), k );
   }
   clean();
}
/* named ports, in every order, over two expressions */
void named()
{
   reset();
   {
      const char *on[] = { "o0", "o1" }, *in[] = { "i0", "i1" };
      Node a( 0, 0, 2 ), b( 1, 2, 2 ), c( 2, 2, 0 ); M m;
      const int x( vpmc::choose( 2 ) ), y( vpmc::choose( 2 ) ), z( vpmc::choose( 2 ) ), w( vpmc::choose( 2 ) );
      m += a[ on[ x ] ] >> b[ in[ y ] ][ on[ z ] ] >> c[ in[ w ] ];
      std::vector< Edge > want{ { &a, on[ x ], &b, in[ y ], false, 0 }, { &b, on[ z ], &c, in[ w ], false, 0 } };
      std::sort( want.begin(), want.end() );
      VP_CHECK( edges( m.sources() ) == want, "named ports are not connected as written (%d %d %d %d)", x, y, z, w );
      m += a[ on[ ! x ] ] >> b[ in[ ! y ] ]; m += b[ on[ ! z ] ] >> c[ in[ ! w ] ];
      want.push_back( { &a, on[ ! x ], &b, in[ ! y ], false, 0 } ); want.push_back( { &b, on[ ! z ], &c, in[ ! w ], false, 0 } );
      std::sort( want.begin(), want.end() );
      VP_CHECK( edges( m.sources() ) == want, "named ports are not connected as written in a second expression (%d %d %d %d)", x, y, z, w );
      /* a name given too often is refused */
      bool t( false ); try{ a[ "o0" ][ "o1" ][ "o0" ]; }catch( AmbiguousPortAssignmentException & ){ t = true; }
      VP_CHECK( t, "a third port name was accepted" );
   }
   clean();
}
/* order specifications mark exactly the edge they stand on */
void orders()
{
   reset();
   {
      const int n( 3 ), mask( vpmc::choose( 1 << n ) );
      std::vector< std::unique_ptr< Node > > k;
      for( int i = 0; i <= n; i++ ) k.emplace_back( new Node( i, i > 0, i < n ) );
      M m; kpair *p( nullptr );
      for( int i = 0; i < n; i++ )
      {
         if( i == 0 ) p = ( mask & 1 ) ? &( *k[ 0 ] >> raft::order::out >> *k[ 1 ] ) : &( *k[ 0 ] >> *k[ 1 ] );
         else p = ( mask >> i & 1 ) ? &( *p >> raft::order::out >> *k[ i + 1 ] ) : &( *p >> *k[ i + 1 ] );
      }
      m += *p;
      std::vector< Edge > want;
      for( int i = 0; i < n; i++ ) want.push_back( { k[ i ].get(), "o0", k[ i + 1 ].get(), "i0", bool( mask >> i & 1 ), 0 } );
      std::sort( want.begin(), want.end() );
      VP_CHECK( edges( m.sources() ) == want, "edges or order marks differ from the expression (mask %d)", mask );
   }
   clean();
}
/* splits and joins of many ways: the i-th output of the split kernel leads to a
 * chain of its own, which ends at the i-th input of the join kernel */
void ways( int most )
{
   reset();
   {
      const int k( 6 + vpmc::choose( most - 5 ) ), shape( vpmc::choose( 4 ) );
      vpmc::quiet( CNT, sizeof( CNT ) );
      Node a( 0, 0, k ), b( 1, 1, 1 ), d( 3, 1, 1 ), c( 2, k, 0 ), e( 4, 1, 0 );
      M m;
      switch( shape )
      {
         case 0: m += a <= b >= c; break;
         case 1: m += a <= e; break;
         case 2: m += a <= b >> d >= c; break;
         case 3: m += a <= b >> raft::order::out >> d >= c; break;
      }
      const int len( shape == 1 ? 1 : shape == 0 ? 1 : 2 );
      std::vector< S > on, in;
      for( int i = 0; i < k; i++ ){ on.push_back( "o" + std::to_string( i ) ); in.push_back( "i" + std::to_string( i ) ); }
      std::sort( on.begin(), on.end() ); std::sort( in.begin(), in.end() );
      const auto ed( edges( m.all() ) );
      VP_CHECK( (int) ed.size() == k * ( shape == 1 ? 1 : len + 1 ), "%d edges for %d ways of shape %d", (int) ed.size(), k, shape );
      VP_CHECK( (int) m.all().size() == 1 + k * len + ( shape != 1 ), "%d kernels for %d ways of shape %d", (int) m.all().size(), k, shape );
      std::set< raft::kernel* > seen;
      auto next( [&]( raft::kernel *x, const S &port ){ const Edge *f( nullptr ); for( auto &y : ed ) if( y.a == x && y.ap == port ){ VP_CHECK( f == nullptr, "two edges leave one port" ); f = &y; } VP_CHECK( f != nullptr, "way %s is not connected", port.c_str() ); return( *f ); } );
      for( int i = 0; i < k; i++ )
      {
         raft::kernel *x( &a ); S port( on[ i ] );
         for( int j = 0; j < len; j++ )
         {
            const Edge f( next( x, port ) );
            x = f.b; port = "o0";
            VP_CHECK( f.bp == "i0" && static_cast< Node* >( x )->kind == ( shape == 1 ? 4 : j == 0 ? 1 : 3 ), "way %d leads to another kernel", i );
            VP_CHECK( seen.insert( x ).second, "two ways share a kernel" );
            VP_CHECK( f.ooo == ( shape == 3 && j == 1 ), "order mark of way %d", i );
         }
         if( shape == 1 ) continue;
         const Edge f( next( x, port ) );
         VP_CHECK( f.b == &c && f.bp == in[ i ], "way %d ends at port %s, not at the %d-th", i, f.bp.c_str(), i );
      }
   }
   clean();
}
/* names of one letter, given as values or variables, with and without order marks,
 * used up by the expression they stand in */
struct Mid : Base
{
   Mid( int ins, int outs ){ const char *n[] = { "x", "y" }; for( int i = 0; i < ins; i++ ) input.addPort< int >( S( n[ i ] ) ); for( int i = 0; i < outs; i++ ) output.addPort< int >( S( n[ i ] ) ); }
   virtual raft::kstatus body(){ return( raft::stop ); }
};
void named_orders()
{
   reset();
   {
      const S n[] = { "x", "y" };
      Mid a( 0, 2 ), b( 2, 2 ), c( 2, 0 ); M m;
      const int x( vpmc::choose( 2 ) ), y( vpmc::choose( 2 ) ), z( vpmc::choose( 2 ) ), w( vpmc::choose( 2 ) ), mask( vpmc::choose( 16 ) );
      const bool var( vpmc::choose( 2 ) );
      using namespace raft;
      kernel &ka( var ? a[ n[ x ] ] : a[ S( n[ x ] ) ] );
      kernel &kb( var ? b[ n[ y ] ][ n[ z ] ] : b[ S( n[ y ] ) ][ S( n[ z ] ) ] );
      kernel &kc( var ? c[ n[ w ] ] : c[ S( n[ w ] ) ] );
      kpair &p( mask & 1 ? ka >> order::out >> kb : ka >> kb );
      kpair &q( mask & 2 ? p >> order::out >> kc : p >> kc );
      m += q;
      std::vector< Edge > want{ { &a, n[ x ], &b, n[ y ], bool( mask & 1 ), 0 }, { &b, n[ z ], &c, n[ w ], bool( mask & 2 ), 0 } };
      std::sort( want.begin(), want.end() );
      VP_CHECK( edges( m.sources() ) == want, "named ports are not connected as written (%d %d %d %d, order %d)", x, y, z, w, mask );
      { kernel &l( a[ S( n[ ! x ] ) ] ), &r( b[ S( n[ ! y ] ) ] ); m += mask & 4 ? l >> order::out >> r : l >> r; }
      { kernel &l( b[ S( n[ ! z ] ) ] ), &r( c[ S( n[ ! w ] ) ] ); m += mask & 8 ? l >> order::out >> r : l >> r; }
      want.push_back( { &a, n[ ! x ], &b, n[ ! y ], bool( mask & 4 ), 0 } ); want.push_back( { &b, n[ ! z ], &c, n[ ! w ], bool( mask & 8 ), 0 } );
      std::sort( want.begin(), want.end() );
      VP_CHECK( edges( m.sources() ) == want, "named ports are not connected as written in a second expression (%d %d %d %d, order %d)", x, y, z, w, mask );
   }
   clean();
}
/* kernels made by the library that no expression uses are destroyed once */
void unused()
{
   reset();
   {
      const int n( vpmc::choose( 4 ) ), how( vpmc::choose( 3 ) );
      {
         for( int i = 0; i < n; i++ )
         {
            auto w( raft::kernel::make< Node >( i, 1, 1 ) );
            if( how == 1 ){ auto v( w ); }
            if( how == 2 ){ M m; Node a( 5, 0, 1 ); m += a >> raft::kernel_wrapper( w ) >> raft::kernel::make< Node >( 6, 1, 0 ); }
         }
      }
      VP_CHECK( destroyed == ( how == 2 ? 3 * n : n ), "%d kernels destroyed, %d existed", destroyed, how == 2 ? 3 * n : n );
   }
   clean();
}
/* an expression with an ill-formed link: nothing of it is left behind */
struct Bad : Node
{
   Bad( int kind, int bad ) : Node( kind, 0, 0 )
   {
      /* 1: another type, 2: two inputs, 3: no input, 4: two outputs, 5: no output */
      if( bad == 1 ) input.addPort< double >( "i0" ); else if( bad != 3 ) input.addPort< int >( "i0" );
      if( bad == 2 ) input.addPort< int >( "i1" );
      if( bad != 5 ) output.addPort< int >( "o0" );
      if( bad == 4 ) output.addPort< int >( "o1" );
   }
   Bad( const Bad &o ) : Node( o.kind, 0, 0 ){ orig = false; input.addPort< int >( "i0" ); output.addPort< int >( "o0" ); }
   CLONE();
};
void refused_expr()
{
   reset();
   int total( 0 );
   {
      using raft::kernel;
      const int at( vpmc::choose( 3 ) ), bad( 1 + vpmc::choose( 5 ) ), form( vpmc::choose( 5 ) ), then( vpmc::choose( 2 ) );
      if( form == 2 && at == 2 && bad == 3 ) return;   /* joining into a kernel without inputs: an assertion */
      auto K = [&]( int i ){ total++; return( i == at ? kernel::make< Bad >( i + 1, bad ) : kernel::make< Bad >( i + 1, 0 ) ); };
      Node a( 0, 0, 1 ), a2( 5, 0, 2 ); Node z( 6, 1, 0 ); 
      {
         M m; int c( 0 );
         try
         {
            switch( form )
            {
               case 0: { auto x( K( 0 ) ); auto y( K( 1 ) ); auto w( K( 2 ) ); m += a >> raft::kernel_wrapper( x ) >> raft::kernel_wrapper( y ) >> raft::kernel_wrapper( w ) >> z; } break;
               case 1: { auto x( K( 0 ) ); auto y( K( 1 ) ); m += a2 <= ( raft::kernel_wrapper( x ) >> raft::kernel_wrapper( y ) ); } break;
               case 2: { auto x( K( 0 ) ); auto y( K( 1 ) ); auto w( K( 2 ) ); total++; m += raft::kernel_wrapper( x ) >> raft::kernel_wrapper( y ) >= ( raft::kernel_wrapper( w ) >> kernel::make< Node >( 9, 1, 0 ) ); } break;
               case 3: { auto x( K( 0 ) ); auto y( K( 1 ) ); m += a >> raft::order::out >> raft::kernel_wrapper( x ) >> raft::kernel_wrapper( y ) >> z; } break;
               case 4: { auto x( K( 0 ) ); auto y( K( 1 ) ); m += a >> raft::kernel_wrapper( x ); m += a >> raft::kernel_wrapper( y ) >> z; } break;
            }
         }
         catch( RaftException & ){ c = 1; }
         vpmc::note( "at %d bad %d form %d: %s", at, bad, form, c ? "refused" : "accepted" );
         if( form == 4 ) VP_CHECK( c == 1, "an output linked twice was accepted" );
         if( form != 2 && form != 1 && at == 0 && bad <= 3 ) VP_CHECK( c == 1, "an ill-formed link was accepted" );
         if( then ){ Node b( 7, 0, 1 ), d( 8, 1, 0 ); m += b >> d; }
      }
      /* the caller's own are alive, copies of theirs are not */
      VP_CHECK( destroyed >= total, "%d kernels destroyed, %d were made", destroyed, total );
   }
   S().swap( text ); clean( "after a refused expression" );
}
/* kernel_pair_t: a plain record of two lists */
void pairs( int depth )
{
   Node n[ 3 ] = { { 0, 0, 1 }, { 1, 0, 1 }, { 2, 0, 1 } };
   const int how( vpmc::choose( 3 ) );
   kernel_pair_t p( how == 0 ? kernel_pair_t() : how == 1 ? kernel_pair_t( &n[ 0 ], &n[ 1 ] ) : kernel_pair_t( n[ 1 ], n[ 2 ] ) );
   std::vector< raft::kernel* > s, d;
   if( how == 1 ){ s = { &n[ 0 ] }; d = { &n[ 1 ] }; } else if( how == 2 ){ s = { &n[ 1 ] }; d = { &n[ 2 ] }; }
   for( int i = 0; i < depth; i++ )
   {
      switch( vpmc::choose( 4 ) )
      {
         case 0: { auto &x( n[ vpmc::choose( 3 ) ] ); p.addSrc( x ); s.push_back( &x ); } break;
         case 1: { auto &x( n[ vpmc::choose( 3 ) ] ); p.addDst( x ); d.push_back( &x ); } break;
         case 2: p.clearSrc(); s.clear(); break;
         case 3: p.clearDst(); d.clear(); break;
      }
      VP_CHECK( p.getSrcSize() == s.size() && p.getDstSize() == d.size(), "sizes %d %d, expected %d %d", (int) p.getSrcSize(), (int) p.getDstSize(), (int) s.size(), (int) d.size() );
      std::vector< raft::kernel* > x, y;
      auto r( p.getSrc() ); for( auto it( r.first ); it != r.second; ++it ) x.push_back( &it->get() );
      auto q( p.getDst() ); for( auto it( q.first ); it != q.second; ++it ) y.push_back( &it->get() );
      VP_CHECK( x == s && y == d, "the kernels listed are not those added" );
   }
}

/* ---------------------------------------------------------------- C15 */
template < class A, class B > struct Two : Base
{
   int stopped = 0;
   Two( int ins, int outs )
   {
      if( ins > 0 ) input.addPort< A >( "x" ); if( ins > 1 ) input.addPort< B >( "y" );
      if( outs > 0 ) output.addPort< A >( "x" ); if( outs > 1 ) output.addPort< B >( "y" );
   }
   virtual raft::kstatus body(){ return( raft::stop ); }
};
enum Fault { NOTFOUND = 1, AMBIGUOUS = 2, MISMATCH = 4, DOUBLE = 8 };
template < class X, class Y > void links( int depth )
{
   reset();
   {
      /* a kernel with two outputs (types X, Y) and one with one; same for inputs */
      Two< X, Y > s0( 0, 2 ), s1( 0, 1 ), d0( 2, 0 ), d1( 1, 0 );
      Base *S_[] = { &s0, &s1 }, *D_[] = { &d0, &d1 };
      const int np[] = { 2, 1 };
      M m; std::vector< Edge > want; std::set< raft::kernel* > kern;
      const char *names[] = { "", "x", "y", "zz" };
      for( int i = 0; i < depth; i++ )
      {
         const int a( vpmc::choose( 2 ) ), ap( vpmc::choose( 4 ) ), b( vpmc::choose( 2 ) ), bp( vpmc::choose( 4 ) ), buf( i == 1 ? 0 : i + 2 );
         /* which faults does the call have */
         int fault( 0 ), ra( -1 ), rb( -1 );
         auto res = [&]( int p, int n ) -> int { if( p == 0 ){ if( n > 1 ){ fault |= AMBIGUOUS; return( -1 ); } return( 1 ); } if( p > n ){ fault |= NOTFOUND; return( -1 ); } return( p ); };
         ra = res( ap, np[ a ] ); rb = res( bp, np[ b ] );
         if( ra > 0 && rb > 0 )
         {
            if( ra != rb && ! std::is_same< X, Y >::value ) fault |= MISMATCH;
            for( auto &e : want ) if( ( e.a == S_[ a ] && e.ap == names[ ra ] ) || ( e.b == D_[ b ] && e.bp == names[ rb ] ) ) fault |= DOUBLE;
         }
         int got( 0 );
         try
         {
            auto r( m.link( S_[ a ], names[ ap ], D_[ b ], names[ bp ], buf ) );
            VP_CHECK( r.getSrcSize() == 1 && r.getDstSize() == 1 && &r.getSrc().first->get() == S_[ a ] && &r.getDst().first->get() == D_[ b ], "link returned other kernels" );
         }
         catch( PortNotFoundException &e ){ got = NOTFOUND; VP_CHECK( e.what() != nullptr && *e.what(), "an exception without a message" ); }
         catch( AmbiguousPortAssignmentException &e ){ got = AMBIGUOUS; VP_CHECK( *e.what(), "an exception without a message" ); }
         catch( PortTypeMismatchException &e ){ got = MISMATCH; VP_CHECK( *e.what(), "an exception without a message" ); }
         catch( PortDoubleInitializeException &e ){ got = DOUBLE; VP_CHECK( *e.what(), "an exception without a message" ); }
         vpmc::note( "link(s%d.%s,d%d.%s,%d)->%d;", a, names[ ap ], b, names[ bp ], buf, got );
         VP_CHECK( fault == 0 ? got == 0 : ( fault & got ) != 0, "a link with fault %d was answered by %d", fault, got );
         if( ! fault ){ want.push_back( { S_[ a ], names[ ra ], D_[ b ], names[ rb ], false, (std::size_t) buf } ); kern.insert( S_[ a ] ); kern.insert( D_[ b ] ); }
         std::sort( want.begin(), want.end() );
         auto v( m.all() );
         VP_CHECK( std::set< raft::kernel* >( v.begin(), v.end() ) == kern, "after %s link the map has %d kernels, not %d", fault ? "a rejected" : "a", (int) v.size(), (int) kern.size() );
         VP_CHECK( edges( { S_[ 0 ], S_[ 1 ] } ) == want, "the edges after %s link are not those linked", fault ? "a rejected" : "a" );
      }
      /* executed exactly if every port of every linked kernel is connected */
      bool whole( true );
      for( int i = 0; i < 2; i++ )
      {
         int c( 0 ), d( 0 ); for( auto &e : want ){ c += e.a == S_[ i ]; d += e.b == D_[ i ]; }
         if( kern.count( S_[ i ] ) ) whole = whole && c == np[ i ];
         if( kern.count( D_[ i ] ) ) whole = whole && d == np[ i ];
      }
      bool un( false );
      try{ go( m ); }catch( PortUnconnectedException &e ){ un = true; inside = 0; VP_CHECK( *e.what(), "an exception without a message" ); }
      VP_CHECK( un == ! whole, un ? "a connected graph was refused" : "a graph with an unconnected port was executed" );
      if( un ) VP_CHECK( starts == 0 && vpmc::live_threads() == 0, "kernels or threads were started for a refused graph" );
   }
   clean();
}
/* refused for an open port, completed, then executed, or refused again */
void links_retry()
{
   reset();
   {
      const int k( 1 + vpmc::choose( 3 ) ), rounds( vpmc::choose( 3 ) ); Src< int > g( 2, 0, k ); Snk< int > t( 0, k ); raft::map m;
      for( int i = 0; i < k; i++ )
      {
         if( i == 0 && k == 1 ) break;
         if( i == k - 1 ) break;
         m.link( &g, std::to_string( i ), &t, std::to_string( i ), 1 );
      }
      if( k == 1 ){ m.link( &g, "0", &t, "0", 1 ); }
      else for( int r = 0; r <= rounds; r++ )
      {
         bool un( false ); try{ in_exe( 1 ); m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 ); }catch( PortUnconnectedException &e ){ un = true; inside = 0; }
         VP_CHECK( un && starts == 0, "a graph with an unconnected port was executed" );
      }
      if( k > 1 ) m.link( &g, std::to_string( k - 1 ), &t, std::to_string( k - 1 ), 1 );
      in_exe( 1 ); m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 );
      for( int i = 0; i < k; i++ ) want( i, 2 );
   }
   clean();
}
/* any number of ports, one of them not connected, or all of them */
void links_wide()
{
   reset();
   {
      const int k( 3 + vpmc::choose( 10 ) ), where( vpmc::choose( 4 ) ), gap( where == 3 ? -1 : vpmc::choose( k ) );
      /* where: the gap is at an output of the first, an input of the last or an output of the one in the middle */
      Src< int > g( 1, 0, 1 + k ); Snk< int > t( 0, k ); Pass< int > p( k ); std::vector< std::unique_ptr< raft::kernel > > own;
      auto sink = [ & ]() -> raft::kernel*{ own.emplace_back( new Snk< int >( 14 ) ); return( own.back().get() ); };
      raft::map m;
      m.link( &g, std::to_string( k ), &p, "0", 1 );
      for( int i = 0; i < k; i++ )
      {
         const S n( std::to_string( i ) ); const bool hole( i == gap );
         if( where == 0 && hole ){ raft::kernel *s( new Src< int >( 1 ) ); own.emplace_back( s ); m.link( s, "0", &t, n, 1 ); }
         else if( where == 1 && hole ) m.link( &g, n, sink(), "0", 1 );
         else m.link( &g, n, &t, n, 1 );
         if( ! ( where == 2 && hole ) ) m.link( &p, n, sink(), "0", 1 );
      }
      bool un( false );
      try{ in_exe( 1 ); m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 ); }catch( PortUnconnectedException &e ){ un = true; inside = 0; }
      VP_CHECK( un == ( gap >= 0 ), un ? "a connected graph was refused" : "a graph with an unconnected port was executed" );
      if( un ) VP_CHECK( starts == 0 && vpmc::live_threads() == 0, "kernels or threads were started for a refused graph" );
      else for( int i = 0; i < k; i++ ) want( i, 1 );
   }
   clean();
}
/* the same with kernels in the middle, cycles included: any output may be linked to
 * any input of any kernel, also its own */
void links_mid( int depth )
{
   reset();
   {
      Mid s( 0, 1 ), p( 1, 1 ), q( 2, 2 ), t( 1, 0 ), none( 0, 0 );
      Mid *K[] = { &s, &p, &q, &t, &none }; const int ni[] = { 0, 1, 2, 1, 0 }, no[] = { 1, 1, 2, 0, 0 };
      M m; std::vector< Edge > want; std::set< raft::kernel* > kern; const char *names[] = { "", "x", "y" };
      bool adj[ 5 ][ 5 ] = {};
      for( int i = 0; i < depth; i++ )
      {
         const int a( vpmc::choose( 5 ) ), b( vpmc::choose( 5 ) );
         /* names that make a difference */
         const int ap( vpmc::choose( no[ a ] > 1 ? 3 : 2 ) ), bp( vpmc::choose( ni[ b ] > 1 ? 3 : 2 ) );
         int fault( 0 );
         auto res = [&]( int p, int n ) -> int { if( p == 0 && n > 1 ){ fault |= AMBIGUOUS; return( -1 ); } if( n == 0 || p > n ){ fault |= NOTFOUND; return( -1 ); } return( p == 0 ? 1 : p ); };
         const int ra( res( ap, no[ a ] ) ), rb( res( bp, ni[ b ] ) );
         if( ra > 0 && rb > 0 ) for( auto &e : want ) if( ( e.a == K[ a ] && e.ap == names[ ra ] ) || ( e.b == K[ b ] && e.bp == names[ rb ] ) ) fault |= DOUBLE;
         int got( 0 );
         try{ const S an( names[ ap ] ), bn( names[ bp ] ); m.link( K[ a ], an, K[ b ], bn ); }
         catch( PortNotFoundException &e ){ got = NOTFOUND; VP_CHECK( *e.what(), "an exception without a message" ); }
         catch( AmbiguousPortAssignmentException &e ){ got = AMBIGUOUS; VP_CHECK( *e.what(), "an exception without a message" ); }
         catch( PortDoubleInitializeException &e ){ got = DOUBLE; VP_CHECK( *e.what(), "an exception without a message" ); }
         vpmc::note( "link(%d.%s,%d.%s)->%d;", a, names[ ap ], b, names[ bp ], got );
         VP_CHECK( fault == 0 ? got == 0 : ( fault & got ) != 0, "a link with fault %d was answered by %d", fault, got );
         if( ! fault ){ want.push_back( { K[ a ], names[ ra ], K[ b ], names[ rb ], false, 0 } ); kern.insert( K[ a ] ); kern.insert( K[ b ] ); adj[ a ][ b ] = true; }
         std::sort( want.begin(), want.end() );
         auto v( m.all() );
         VP_CHECK( std::set< raft::kernel* >( v.begin(), v.end() ) == kern, "after %s link the map has %d kernels, not %d", fault ? "a rejected" : "a", (int) v.size(), (int) kern.size() );
         VP_CHECK( edges( { K[ 0 ], K[ 1 ], K[ 2 ], K[ 3 ] } ) == want, "the edges after %s link are not those linked", fault ? "a rejected" : "a" );
         auto sv( m.sources() );
         VP_CHECK( (int) sv.size() == (int) kern.count( &s ), "the map has %d source kernels", (int) sv.size() );
      }
      bool whole( true );
      for( int i = 0; i < 4; i++ )
      {
         int c( 0 ), d( 0 ); for( auto &e : want ){ c += e.a == K[ i ]; d += e.b == K[ i ]; }
         if( kern.count( K[ i ] ) ) whole = whole && c == no[ i ] && d == ni[ i ];
      }
      /* without cycles, and everything fed by the source: it runs */
      for( int k = 0; k < 5; k++ ) for( int i = 0; i < 5; i++ ) for( int j = 0; j < 5; j++ ) if( adj[ i ][ k ] && adj[ k ][ j ] ) adj[ i ][ j ] = true;
      bool cyclic( false ); for( int i = 0; i < 5; i++ ) cyclic = cyclic || adj[ i ][ i ];
      if( ! whole || ! cyclic )
      {
         bool un( false );
         try{ go( m ); }catch( PortUnconnectedException &e ){ un = true; inside = 0; VP_CHECK( *e.what(), "an exception without a message" ); }
         VP_CHECK( un == ! whole, un ? "a connected graph was refused" : "a graph with an unconnected port was executed" );
         if( un ) VP_CHECK( starts == 0 && vpmc::live_threads() == 0, "kernels or threads were started for a refused graph" );
      }
   }
   clean();
}
/* kernels that cannot be duplicated, mismatching types in expressions, executing twice */
struct NoClone : Base { NoClone( int i, int o ){ for( int k = 0; k < i; k++ ) input.addPort< int >( std::to_string( k ) ); for( int k = 0; k < o; k++ ) output.addPort< int >( std::to_string( k ) ); } virtual raft::kstatus body(){ return( raft::stop ); } };
void refused()
{
   reset();
   bool t( false );
   switch( vpmc::choose( 9 ) )
   {
      case 0: { Node a( 0, 0, 2 ); NoClone b( 1, 0 ); M m; try{ m += a <= b; }catch( CloneNotImplementedException & ){ t = true; } } break;
      case 1: { NoClone a( 0, 1 ); Node b( 1, 2, 0 ); M m; try{ m += a >= b; }catch( CloneNotImplementedException & ){ t = true; } } break;
      case 2: { Node a( 0, 0, 1 ); Two< double, int > b( 1, 0 ); M m; try{ m += a >> b; }catch( PortTypeMismatchException & ){ t = true; } } break;
      case 3: { Node a( 0, 0, 2 ), b( 1, 1, 0 ); M m; try{ m += a >> b; }catch( AmbiguousPortAssignmentException & ){ t = true; } } break;
      case 4: { Node a( 0, 0, 1 ), b( 1, 1, 0 ), c( 2, 1, 0 ); M m; m += a >> b; try{ m += a >> c; }catch( PortDoubleInitializeException & ){ t = true; } } break;
      /* at most two names can be given to a kernel, written as a value or a variable */
      case 5: { Mid q( 2, 2 ); try{ q[ "x" ][ "y" ][ "x" ]; }catch( AmbiguousPortAssignmentException & ){ t = true; } } break;
      case 6: { Mid q( 2, 2 ); const S x( "x" ), y( "y" ); try{ q[ x ][ y ][ x ]; }catch( AmbiguousPortAssignmentException & ){ t = true; } } break;
      /* kernels without the port that the operator needs */
      case 7: { Mid a( 0, 0 ), b( 1, 0 ); M m; try{ m += a >> b; }catch( PortNotFoundException & ){ t = true; } } break;
      case 8: { Mid a( 0, 1 ), b( 0, 0 ); M m; try{ m += a >> b; }catch( PortNotFoundException & ){ t = true; } } break;
   }
   VP_CHECK( t, "an invalid expression was accepted" );
   VP_CHECK( starts == 0 && vpmc::live_threads() == 0, "kernels or threads were started" );
}
/* every exception of the library is catchable as its base and carries its message */
void exceptions()
{
   {
   const S msg( vpmc::choose( 2 ) ? "a message" : S( 300, 'm' ) );
   auto check = [&]( auto tag )
   {
      using E = decltype( tag );
      int c( 0 );
      try{ throw E( msg ); }catch( RaftException &e ){ c = 1; VP_CHECK( S( e.what() ).find( msg ) != S::npos, "the message is lost" ); }catch( ... ){ c = 2; }
      VP_CHECK( c == 1, "an exception of the library is not a RaftException" );
      c = 0; try{ throw E( msg ); }catch( std::exception &e ){ c = 1; }catch( ... ){ c = 2; }
      VP_CHECK( c == 1, "an exception of the library is not a std::exception" );
      /* copies keep it */
      E a( msg ); { E b( a ); VP_CHECK( S( b.what() ) == S( a.what() ), "a copy has another message" ); } VP_CHECK( S( a.what() ).find( msg ) != S::npos, "the message is lost with a copy" );
   };
   check( PortNotFoundException( "" ) ); check( PortDoubleInitializeException( "" ) ); check( PortTypeMismatchException( "" ) ); check( AmbiguousPortAssignmentException( "" ) );
   check( ClosedPortAccessException( "" ) ); check( NoMoreDataException( "" ) ); check( PortAlreadyExists( "" ) ); check( PortUnconnectedException( "" ) );
   check( InvalidTopologyOperationException( "" ) ); check( CloneNotImplementedException( "" ) );
   /* they are told apart */
   int c( 0 ); try{ throw PortNotFoundException( msg ); }catch( PortDoubleInitializeException & ){ c = 1; }catch( ClosedPortAccessException & ){ c = 2; }catch( PortException & ){ c = 3; }
   VP_CHECK( c == 3, "two kinds of exceptions are not told apart" );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* ---------------------------------------------------------------- C17 */
/* every graph of n kernels with up to 'outs' outputs each: each output goes to
 * one kernel or nowhere */
struct GNode : Base
{
   int id; GNode( int id, int n, int outs ) : id( id )
   /* a kernel linked to itself uses one name on both sides */
   { for( int a = 0; a < n; a++ ) for( int p = 0; p < 3; p++ ) input.addPort< int >( name( a, p ) ); for( int p = 0; p < outs; p++ ) output.addPort< int >( std::to_string( p ) ); }
   S name( int a, int p ){ return( a == id ? std::to_string( p ) : std::to_string( a ) + "." + std::to_string( p ) ); }
   virtual raft::kstatus body(){ return( raft::stop ); }
};
/* vary: every kernel has its own number of outputs, all of them are sources */
void traverse( int n, int maxouts, bool vary = false )
{
   reset();
   {
      std::vector< std::unique_ptr< GNode > > k; std::vector< int > no; for( int i = 0; i < n; i++ ){ no.push_back( vary ? vpmc::choose( maxouts + 1 ) : maxouts ); k.emplace_back( new GNode( i, n, no[ i ] ) ); }
      M m; std::vector< std::vector< int > > to( n );
      for( int i = 0; i < n; i++ ) for( int p = 0; p < no[ i ]; p++ )
      {
         const int t( vpmc::choose( n + 1 ) - 1 ); to[ i ].push_back( t );
         if( t >= 0 ) m.link( k[ i ].get(), std::to_string( p ), k[ t ].get(), k[ t ]->name( i, p ) );
         vpmc::note( "%d.%d->%d;", i, p, t );
      }
      const int src( vary ? ( 1 << n ) - 1 : 1 + vpmc::choose( ( 1 << n ) - 1 ) );
      std::set< raft::kernel* > ss; std::vector< raft::kernel* > sv; std::set< int > reach; std::vector< int > w;
      for( int i = 0; i < n; i++ ) if( src >> i & 1 ){ ss.insert( k[ i ].get() ); sv.push_back( k[ i ].get() ); reach.insert( i ); w.push_back( i ); }
      bool dangling( false ); std::set< S > want;
      for( std::size_t i = 0; i < w.size(); i++ ) for( int p = 0; p < no[ w[ i ] ]; p++ )
      {
         const int t( to[ w[ i ] ][ p ] );
         if( t < 0 ){ dangling = true; continue; }
         want.insert( std::to_string( w[ i ] ) + "." + std::to_string( p ) + ">" + std::to_string( t ) );
         if( reach.insert( t ).second ) w.push_back( t );
      }
      int data( 0 );
      for( int mode = 0; mode < 2; mode++ )
      {
         std::set< S > got;
         auto f = [&]( PortInfo &a, PortInfo &b, void *d )
         {
            VP_CHECK( d == &data, "the traversal passes on other data" );
            const S e( std::to_string( static_cast< GNode* >( a.my_kernel )->id ) + "." + a.my_name + ">" + std::to_string( static_cast< GNode* >( b.my_kernel )->id ) );
            VP_CHECK( b.my_name == static_cast< GNode* >( b.my_kernel )->name( static_cast< GNode* >( a.my_kernel )->id, std::stoi( a.my_name ) ), "an edge is shown with another input port" );
            VP_CHECK( got.insert( e ).second, "edge %s visited twice", e.c_str() );
         };
         if( mode == 0 ) GraphTools::BFS( ss, f, &data ); else GraphTools::BFS( sv, f, &data );
         if( mode == 1 ){ got.clear(); auto rep( sv ); rep.push_back( sv.front() ); rep.insert( rep.begin(), sv.back() ); GraphTools::BFS( rep, f, &data ); }   /* a list that repeats itself */
         VP_CHECK( got == want, "%d edges visited, %d are reachable", (int) got.size(), (int) want.size() );
      }
      std::multiset< int > vis; std::vector< int > order;
      GraphTools::BFS( ss, vertex_func( [&]( raft::kernel *x, void *d ){ VP_CHECK( d == &data, "the traversal passes on other data" ); vis.insert( static_cast< GNode* >( x )->id ); order.push_back( static_cast< GNode* >( x )->id ); } ), &data );
      VP_CHECK( vis == std::multiset< int >( reach.begin(), reach.end() ), "%d kernels visited, %d are reachable", (int) vis.size(), (int) reach.size() );
      /* unconnected ports are reported when asked for */
      bool t( false );
      try{ GraphTools::BFS( sv, []( PortInfo &, PortInfo &, void * ){}, &data, true ); }catch( PortException & ){ t = true; }
      VP_CHECK( t == dangling, t ? "a connected graph was reported as unconnected" : "an unconnected port was not reported" );
      /* and the traversal leaves nothing locked behind */
      int again( 0 ); GraphTools::BFS( ss, [&]( PortInfo &, PortInfo &, void * ){ again++; }, &data );
      VP_CHECK( again == (int) want.size(), "a second traversal visited %d edges", again );
   }
   clean();
}

/* one kernel with n outputs, each to a kernel of its own, which all send on to one kernel */
struct SNode : Base { int id; SNode( int id, int in, int out ) : id( id ){ for( int i = 0; i < in; i++ ) input.addPort< int >( std::to_string( i ) ); for( int i = 0; i < out; i++ ) output.addPort< int >( std::to_string( i ) ); } virtual raft::kstatus body(){ return( raft::stop ); } };
void star( int n, bool back )
{
   reset();
   {
      SNode a( 0, 0, n ), z( n + 1, n, back ? 1 : 0 ), w( n + 2, 1, 0 ); std::vector< std::unique_ptr< SNode > > k; M m;
      for( int i = 0; i < n; i++ )
      {
         k.emplace_back( new SNode( i + 1, 1, 1 ) ); const S p( std::to_string( i ) );
         m.link( &a, p, k.back().get(), "0" ); m.link( k.back().get(), "0", &z, p );
      }
      if( back ) m.link( &z, "0", &w, "0" );
      std::vector< raft::kernel* > sv{ &a }; std::set< raft::kernel* > ss{ &a };
      /* the whole graph given as the place to start from, everything twice */
      std::vector< raft::kernel* > av( m.all() ); { const auto c( av ); av.insert( av.end(), c.rbegin(), c.rend() ); }
      std::set< raft::kernel* > as( av.begin(), av.end() );
      for( int mode = 0; mode < 4; mode++ )
      {
         std::set< std::pair< int, int > > got;
         auto f = [&]( PortInfo &x, PortInfo &y, void * ){ VP_CHECK( got.insert( { static_cast< SNode* >( x.my_kernel )->id, static_cast< SNode* >( y.my_kernel )->id } ).second, "an edge was visited twice" ); };
         switch( mode ){ case 0: GraphTools::BFS( sv, f, nullptr, true ); break; case 1: GraphTools::BFS( ss, f, nullptr, true ); break; case 2: GraphTools::BFS( av, f, nullptr, true ); break; default: GraphTools::BFS( as, f, nullptr, true ); }
         VP_CHECK( (int) got.size() == 2 * n + ( back ? 1 : 0 ), "%d edges visited of %d", (int) got.size(), 2 * n + ( back ? 1 : 0 ) );
         for( int i = 1; i <= n; i++ ) VP_CHECK( got.count( { 0, i } ) && got.count( { i, n + 1 } ), "the edges of kernel %d were not visited", i );
      }
      std::set< int > vis; GraphTools::BFS( ss, vertex_func( [&]( raft::kernel *x, void * ){ VP_CHECK( vis.insert( static_cast< SNode* >( x )->id ).second, "a kernel was visited twice" ); } ), nullptr );
      VP_CHECK( (int) vis.size() == n + 2 + ( back ? 1 : 0 ), "%d kernels visited of %d", (int) vis.size(), n + 2 + ( back ? 1 : 0 ) );
   }
   clean();
}

/* ---------------------------------------------------------------- C19 */
struct PK : Base { virtual raft::kstatus body(){ return( raft::stop ); } };
/* kernels with a great many ports */
/* walking over all of them takes long: give it time */
int lots(){ vpmc::set_patience( 20000 ); static const int N[] = { 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 }; return( N[ vpmc::choose( 16 ) ] ); }
void links_far()
{
   reset();
   {
      const int n( lots() ), g( vpmc::choose( 4 ) ), gap( g == 0 ? 0 : g == 1 ? n / 2 : g == 2 ? n - 1 : -1 ), side( g == 3 ? 0 : vpmc::choose( 2 ) );
      SNode a( 0, 0, n ), b( 1, n, 0 ), x( 2, 0, 1 ), y( 3, 1, 0 ); M m;
      /* which of them is meant must be said */
      bool amb( false ); try{ m += a >> y; }catch( AmbiguousPortAssignmentException & ){ amb = true; } VP_CHECK( amb, "one of %d outputs was chosen", n );
      amb = false; try{ m += x >> b; }catch( AmbiguousPortAssignmentException & ){ amb = true; } VP_CHECK( amb, "one of %d inputs was chosen", n );
      for( int i = 0; i < n; i++ )
      {
         const S p( std::to_string( i ) );
         if( i != gap ) m.link( &a, p, &b, p ); else if( side ) m.link( &a, p, &y, "0" ); else m.link( &x, "0", &b, p );
      }
      /* what is linked stays so */
      bool t( false ); try{ m.link( &a, std::to_string( gap == n - 1 ? 0 : n - 1 ), &b, std::to_string( gap == n - 1 ? 0 : n - 1 ) ); }catch( PortDoubleInitializeException & ){ t = true; }
      VP_CHECK( t, "a port was linked twice" );
      bool un( false );
      try{ in_exe( 1 ); m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); in_exe( -1 ); }catch( PortUnconnectedException & ){ un = true; inside = 0; }
      VP_CHECK( un == ( gap >= 0 ), un ? "a connected graph was refused" : "a graph with an unconnected port was executed" );
      if( un ) VP_CHECK( starts == 0 && vpmc::live_threads() == 0, "kernels or threads were started for a refused graph" );
   }
   clean();
}
void ports_lots()
{
   {
      PK k; const int n( lots() ); Port &p( vpmc::choose( 2 ) ? k.input : k.output ); std::map< S, bool > want;
      for( int i = 0; i < n; i++ ){ const S x( std::to_string( ( i * 37 ) % 1009 ) ); if( i % 3 ) p.addPort< int >( S( x ) ); else p.addPort< double >( S( x ) ); want[ x ] = i % 3; }
      VP_CHECK( p.count() == want.size(), "%d ports declared, there are %d", (int) want.size(), (int) p.count() );
      auto it( p.begin() );
      for( auto &w : want )
      {
         VP_CHECK( it != p.end() && it.name() == w.first, "iteration shows another port" ); ++it;
         VP_CHECK( p.getPortType( S( w.first ) ) == ( w.second ? std::type_index( typeid( int ) ) : std::type_index( typeid( double ) ) ), "port %s has another type", w.first.c_str() );
         bool t( false ); try{ p.addPort< float >( S( w.first ) ); }catch( PortAlreadyExists & ){ t = true; }
         VP_CHECK( t, "a second port %s was accepted", w.first.c_str() );
      }
      VP_CHECK( it == p.end() && p.count() == want.size(), "iteration shows more ports than declared" );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
void dot_lots()
{
   {
      const int n( lots() ); SNode a( 0, 0, n ), b( 1, n, 0 ); M m; for( int i = 0; i < n; i++ ) m.link( &a, std::to_string( i ), &b, std::to_string( n - 1 - i ) );
      std::stringstream ss; raft::make_dot::run( ss, m ); const S d( ss.str() );
      int arrows( 0 ); for( auto p( d.find( "->" ) ); p != S::npos; p = d.find( "->", p + 2 ) ) arrows++;
      VP_CHECK( arrows == n, "%d edges drawn of %d", arrows, n );
      for( int i = 0; i < n; i++ ){ const S e( "\"" + std::to_string( i ) + " to " + std::to_string( n - 1 - i ) + " " ); const auto p( d.find( e ) ); VP_CHECK( p != S::npos && d.find( e, p + 1 ) == S::npos, "edge %d is drawn otherwise than once", i ); }
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* edges of several types */
struct Red { int a; }; struct Tan { int a; }; struct Redder { int a; };
struct TNode : raft::kernel
{
   TNode( int n, bool in ){ Port &p( in ? input : output ); for( int i = 0; i < n; i++ ){ const S x( std::to_string( i ) ); switch( i % 6 ){ case 0: p.addPort< int >( S( x ) ); break; case 1: p.addPort< double >( S( x ) ); break; case 2: p.addPort< Red >( S( x ) ); break; case 3: p.addPort< Tan >( S( x ) ); break; case 4: p.addPort< Redder >( S( x ) ); break; default: p.addPort< float >( S( x ) ); } } }
   virtual raft::kstatus run(){ return( raft::stop ); }
};
void dot_types()
{
   {
      const int n( 1 + vpmc::choose( 12 ) ); TNode a( n, false ), b( n, true ); M m; for( int i = 0; i < n; i++ ) m.link( &a, std::to_string( i ), &b, std::to_string( i ) );
      std::stringstream ss; raft::make_dot::run( ss, m ); const S d( ss.str() ); static const char *t[] = { "(int)", "(double)", "Red)", "Tan)", "Redder)", "(float)" };
      for( int i = 0; i < n; i++ ){ const S e( "\"" + std::to_string( i ) + " to " + std::to_string( i ) + " " ); const auto p( d.find( e ) ), q( d.find( "\n", p ) ); VP_CHECK( p != S::npos && d.substr( p, q - p ).find( t[ i % 6 ] ) != S::npos, "no arrow is drawn with port %d and the type %s", i, t[ i % 6 ] ); }
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
void ports( int depth )
{
   {
      PK k; Port &p( vpmc::choose( 2 ) ? k.input : k.output );
      std::map< S, int > want; const char *names[] = { "b", "a", "10", "2" };
      for( int i = 0; i < depth; i++ )
      {
         const int a( vpmc::choose( 4 ) ), ty( vpmc::choose( 3 ) );
         bool t( false ); const bool had( want.count( names[ a ] ) );
         try{ if( ty == 0 ) p.addPort< int >( S( names[ a ] ) ); else if( ty == 1 ) p.addPort< double >( S( names[ a ] ) ); else p.addPort< S >( S( names[ a ] ) ); }
         catch( PortAlreadyExists & ){ t = true; }
         VP_CHECK( t == had, t ? "a new port was refused" : "a second port of the same name was accepted" );
         if( ! had ) want[ names[ a ] ] = ty;
         VP_CHECK( p.count() == want.size() && p.hasPorts() == ! want.empty(), "%d ports, expected %d", (int) p.count(), (int) want.size() );
         std::vector< S > seen; for( auto it( p.begin() ); it != p.end(); ++it ) seen.push_back( it.name() );
         std::vector< S > ref; for( auto &w : want ) ref.push_back( w.first );
         VP_CHECK( seen == ref, "iteration shows %d ports of %d, or in another order", (int) seen.size(), (int) ref.size() );
         VP_CHECK( ( p.begin() == p.end() ) == want.empty(), "begin() and end() of the ports" );
         for( int n = 0; n < 4; n++ )
         {
            bool f( false ), g( false );
            try{ const auto &ti( p.getPortType( S( names[ n ] ) ) ); const int w( want[ names[ n ] ] ); VP_CHECK( ti == ( w == 0 ? std::type_index( typeid( int ) ) : w == 1 ? std::type_index( typeid( double ) ) : std::type_index( typeid( S ) ) ), "port %s has another type", names[ n ] ); }
            catch( PortNotFoundException & ){ f = true; want.erase( names[ n ] ); }
            try{ (void) &p[ S( names[ n ] ) ]; }catch( PortNotFoundException & ){ g = true; }
            bool h( false ); { S var( names[ n ] ); try{ (void) &p[ var ]; }catch( PortNotFoundException & ){ h = true; } }
            VP_CHECK( g == h, "a port is found by a value but not by a variable, or the other way round" );
            const bool have( std::find( ref.begin(), ref.end(), S( names[ n ] ) ) != ref.end() );
            VP_CHECK( f == ! have && g == ! have, "an unknown port was found, or a known one was not" );
            if( ! have ) want.erase( names[ n ] );
         }
      }
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* several at once; input and output are separate */
void ports_many()
{
   PK k; k.input.addPort< int >( S( "c" ), S( "a" ), S( "b" ) ); k.output.addPort< double >( S( "a" ), S( "z" ) );
   VP_CHECK( k.input.count() == 3 && k.output.count() == 2, "%d and %d ports", (int) k.input.count(), (int) k.output.count() );
   S n; for( auto it( k.input.begin() ); it != k.input.end(); ++it ) n += it.name(); for( auto it( k.output.begin() ); it != k.output.end(); ++it ) n += it.name();
   VP_CHECK( n == "abcaz", "ports %s", n.c_str() );
   VP_CHECK( k.input.getPortType( S( "a" ) ) == std::type_index( typeid( int ) ) && k.output.getPortType( S( "a" ) ) == std::type_index( typeid( double ) ), "port types" );
}
/* any number of names in one declaration, long and alike ones too */
template < class T > void ports_declared( Port &p, std::vector< S > n )
{
   switch( n.size() )
   {
      case 1: p.addPort< T >( S( n[ 0 ] ) ); break; case 2: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ) ); break;
      case 3: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ) ); break; case 4: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ), S( n[ 3 ] ) ); break;
      case 5: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ), S( n[ 3 ] ), S( n[ 4 ] ) ); break;
      case 6: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ), S( n[ 3 ] ), S( n[ 4 ] ), S( n[ 5 ] ) ); break;
      case 7: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ), S( n[ 3 ] ), S( n[ 4 ] ), S( n[ 5 ] ), S( n[ 6 ] ) ); break;
      case 8: p.addPort< T >( S( n[ 0 ] ), S( n[ 1 ] ), S( n[ 2 ] ), S( n[ 3 ] ), S( n[ 4 ] ), S( n[ 5 ] ), S( n[ 6 ] ), S( n[ 7 ] ) ); break;
   }
}
void ports_wide()
{
   {
      PK k; Port &p( vpmc::choose( 2 ) ? k.input : k.output ); const int len( vpmc::choose( 3 ) ), first( 1 + vpmc::choose( 8 ) ), second( 1 + vpmc::choose( 8 ) );
      const S pre( len == 0 ? 0 : len == 1 ? 15 : 100, 'p' ); std::map< S, bool > want; std::vector< S > a, b;
      for( int i = 0; i < first; i++ ){ a.push_back( pre + std::to_string( 7 * i % 8 + 10 ) ); want[ a.back() ] = true; }
      for( int i = 0; i < second; i++ ){ b.push_back( pre + std::to_string( 3 * i % 8 ) ); want[ b.back() ] = false; }
      ports_declared< int >( p, a ); ports_declared< double >( p, b );
      VP_CHECK( p.count() == want.size(), "%d ports declared, there are %d", (int) want.size(), (int) p.count() );
      auto it( p.begin() );
      for( auto &w : want )
      {
         VP_CHECK( it != p.end() && it.name() == w.first, "iteration shows another port" ); ++it;
         VP_CHECK( p.getPortType( S( w.first ) ) == ( w.second ? std::type_index( typeid( int ) ) : std::type_index( typeid( double ) ) ), "port %s has another type", w.first.c_str() );
      }
      VP_CHECK( it == p.end(), "iteration shows more ports than declared" );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}
/* in an executed graph the ports reached by name and by iteration are the same streams */
struct PIter : Base
{
   int n; bool in; PIter( int n, bool in ) : n( n ), in( in ){ for( int i = 0; i < n; i++ ) ( in ? input : output ).addPort< int >( "p" + std::to_string( ( i * 7 ) % n ) ); }
   virtual raft::kstatus body()
   {
      Port &p( in ? input : output ); int c( 0 ); std::set< FIFO* > seen;
      for( auto it( p.begin() ); it != p.end(); ++it, c++ )
      {
         VP_CHECK( &( *it ) == &p[ it.name() ], "port %s: iteration shows another stream", it.name().c_str() );
         VP_CHECK( seen.insert( &( *it ) ).second, "two ports share a stream" );
         if( ! in ) ( *it ).push< int >( std::stoi( it.name().substr( 1 ) ) );
         else if( ( *it ).size() > 0 ){ int v; ( *it ).pop< int >( v ); VP_CHECK( v == std::stoi( it.name().substr( 1 ) ), "port %s received element %d", it.name().c_str(), v ); rec( 0, v ); }
      }
      VP_CHECK( c == n, "%d ports iterated of %d", c, n );
      return( in ? raft::proceed : raft::stop );
   }
};
void ports_run( int n )
{
   reset();
   { PIter a( n, false ), b( n, true ); M m; for( int i = 0; i < n; i++ ) m.link( &a, "p" + std::to_string( i ), &b, "p" + std::to_string( i ) ); go( m ); VP_CHECK( R[ 0 ].n == n, "%d elements of %d", R[ 0 ].n, n ); }
   clean();
}

/* a second declaration that is refused changes nothing, not even for the data */
void ports_twice()
{
   reset();
   const int n( 3 ), side( vpmc::choose( 2 ) ), ty( vpmc::choose( 3 ) ), many( vpmc::choose( 3 ) );
   {
      Src< Sm > a( n ); Snk< Sm > b; raft::kernel *k( side ? (raft::kernel*) &a : &b ); Port &p( side ? k->output : k->input );
      for( int i = 0; i <= many; i++ )
      {
         bool t( false );
         try{ if( ty == 0 ) p.addPort< double >( S( "0" ) ); else if( ty == 1 ) p.addPort< S >( S( "0" ) ); else p.addPort< Sm >( S( "0" ) ); }catch( PortAlreadyExists & ){ t = true; }
         VP_CHECK( t, "a second port of the same name was accepted" );
      }
      M m; m.link( &a, "0", &b, "0", 1 + vpmc::choose( 2 ) ); go( m ); want( 0, n );
   }
   clean();
}

/* ---------------------------------------------------------------- C23 */
struct Mem : Base { Mem( void *p, std::size_t n ){} virtual raft::kstatus body(){ return( raft::stop ); } };
struct InPlace : raft::kernel { InPlace( void *p, std::size_t n ) : raft::kernel( p, n ){} InPlace( const InPlace &o ){} CLONE(); virtual raft::kstatus run(){ return( raft::stop ); } };
void ids( int depth )
{
   {
      int buf[ 4 ]; std::vector< std::unique_ptr< raft::kernel > > v; std::vector< std::size_t > id;
      for( int i = 0; i < depth; i++ )
      {
         switch( vpmc::choose( 4 ) )
         {
            case 0: v.emplace_back( new Node( 0, 1, 1 ) ); break;
            case 1: v.emplace_back( new InPlace( buf, sizeof( buf ) ) ); break;
            case 2: { Node n( 1, 0, 0 ); v.emplace_back( n.clone() ); } break;
            case 3: { raft::for_each< int > *f( new raft::for_each< int >( buf, 4, 2 ) ); v.emplace_back( f ); } break;
         }
         id.push_back( v.back()->get_id() );
         for( std::size_t a = 0; a < v.size(); a++ )
         {
            VP_CHECK( v[ a ]->get_id() == id[ a ], "the id of a kernel changed" );
            for( std::size_t b = 0; b < a; b++ ) VP_CHECK( id[ a ] != id[ b ], "kernels %d and %d have the same id %d", (int) b, (int) a, (int) id[ a ] );
         }
      }
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* far more kernels than are ever alive at once */
void ids_many( int n )
{
   {
      static int buf[ 4 ]; InPlace first( buf, sizeof( buf ) ); const std::size_t id0( first.get_id() );
      std::vector< std::size_t > id; id.reserve( n + 1 ); id.push_back( id0 );
      for( int i = 0; i < n; i++ )
      {
         if( i % 3 == 0 ){ std::unique_ptr< raft::kernel > k( first.clone() ); id.push_back( k->get_id() ); }
         else { InPlace k( buf, sizeof( buf ) ); id.push_back( k.get_id() ); }
      }
      std::sort( id.begin(), id.end() );
      VP_CHECK( first.get_id() == id0, "the id of a kernel changed" );
      for( std::size_t i = 1; i < id.size(); i++ ) VP_CHECK( id[ i ] != id[ i - 1 ], "two of %d kernels have the id %d", n, (int) id[ i ] );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* kernels created by several threads at the same time */
void ids_threads( int threads, int each )
{
   {
      std::size_t id[ 3 ][ 3 ]; std::vector< std::unique_ptr< raft::kernel > > own[ 3 ]; std::vector< std::thread > t; static int buf[ 4 ];
      for( int i = 0; i < threads; i++ )
         t.emplace_back( [ &, i ](){ for( int k = 0; k < each; k++ ){ own[ i ].emplace_back( ( i + k ) % 2 ? (raft::kernel*) new InPlace( buf, sizeof( buf ) ) : new Node( 0, 0, 0 ) ); id[ i ][ k ] = own[ i ].back()->get_id(); } } );
      for( auto &x : t ) x.join();
      for( int a = 0; a < threads * each; a++ ) for( int b = 0; b < a; b++ )
         VP_CHECK( id[ a / each ][ a % each ] != id[ b / each ][ b % each ], "two kernels created by %s have the same id %d", a / each == b / each ? "one thread" : "two threads", (int) id[ a / each ][ a % each ] );
      for( int a = 0; a < threads * each; a++ ) VP_CHECK( own[ a / each ][ a % each ]->get_id() == id[ a / each ][ a % each ], "the id of a kernel changed" );
   }
   VP_CHECK( vpmc::live_blocks() == 0, "%zu blocks never freed", vpmc::live_blocks() );
}

/* ---------------------------------------------------------------- C26 */
/* what the drawing of a map says */
struct Dot { std::multiset< long > v; std::multiset< std::pair< long, long > > e; std::vector< std::pair< std::pair< long, long >, S > > label; bool framed; };
Dot parse( const S &s )
{
   Dot d; d.framed = s.rfind( "digraph", 0 ) == 0 && s.find( '}' ) != S::npos;
   std::size_t i( s.find( '{' ) );
   if( i == S::npos ) return( d );
   i++;
   /* statements end in ';', quotes may hold anything */
   S st; bool q( false ); std::vector< S > all;
   for( ; i < s.size(); i++ ){ if( s[ i ] == '"' ) q = ! q; if( ! q && ( s[ i ] == ';' || s[ i ] == '}' ) ){ all.push_back( st ); st.clear(); if( s[ i ] == '}' ) break; } else st += s[ i ]; }
   for( auto &x : all )
   {
      std::size_t a( x.find_first_not_of( " \t\n" ) ); if( a == S::npos || ! isdigit( x[ a ] ) ) continue;
      const long id( atol( x.c_str() + a ) ); const std::size_t br( x.find( '[' ) ), ar( x.find( "->" ) );
      if( ar != S::npos && ( br == S::npos || ar < br ) ) { d.e.insert( { id, atol( x.c_str() + ar + 2 ) } ); d.label.push_back( { { id, atol( x.c_str() + ar + 2 ) }, x } ); } else d.v.insert( id );
   }
   return( d );
}
void dot_check( M &m, const S &s )
{
   Dot d( parse( s ) ); VP_CHECK( d.framed, "the drawing is not a digraph: %s", s.c_str() );
   std::multiset< long > v; for( auto *k : m.all() ) v.insert( k->get_id() );
   VP_CHECK( d.v == v, "%d kernels drawn, the map has %d", (int) d.v.size(), (int) v.size() );
   std::multiset< std::pair< long, long > > e; for( auto &x : edges( m.sources() ) ) e.insert( { (long) x.a->get_id(), (long) x.b->get_id() } );
   VP_CHECK( d.e == e, "%d edges drawn, the map has %d, or others", (int) d.e.size(), (int) e.size() );
   /* what is written at an arrow: its two ports, the type and the order mark */
   for( auto &x : edges( m.sources() ) )
   {
      bool found( false );
      for( auto it( d.label.begin() ); it != d.label.end() && ! found; ++it )
         if( it->first.first == (long) x.a->get_id() && it->first.second == (long) x.b->get_id() && it->second.find( "\"" + x.ap + " to " + x.bp + " " ) != S::npos &&
            it->second.find( "(int)" ) != S::npos && it->second.find( x.ooo ? "OoO=true" : "OoO=false" ) != S::npos ){ d.label.erase( it ); found = true; }
      VP_CHECK( found, "no arrow is drawn with the ports %s and %s, the type int and order mark %d", x.ap.c_str(), x.bp.c_str(), x.ooo );
   }
}
void dot_expr( int maxk, int maxp, bool orders = false )
{
   reset(); text = "";
   {
      Expr e( choose_expr( maxk, maxp, orders ) );
      Ref ref; ref.whole( e );
      if( ref.v.size() > 24u || ! groupable( e, 0, e.n() - 1 ) ) return;
      std::vector< std::unique_ptr< Node > > k;
      for( int i = 0; i < e.n(); i++ ) k.emplace_back( new Node( i, e.ins[ i ], e.outs[ i ] ) );
      M m; Val v( evaluate( e, k, 0, e.n() - 1 ) ); m += *v.p;
      std::size_t ne( 0 ); for( auto &r : ref.v ) ne += r.out.size();
      std::ostringstream os; raft::make_dot::run( os, m );
      dot_check( m, os.str() );
      VP_CHECK( parse( os.str() ).e.size() == ne && parse( os.str() ).v.size() == ref.v.size(), "%d edges drawn, the graph has %d", (int) parse( os.str() ).e.size(), (int) ne );
   }
   S().swap( text ); clean( "after the map" );
}
/* graphs with in-place kernels and order marks */
void dot_foreach()
{
   reset();
   {
      const int many( vpmc::choose( 2 ) ), n( many ? 10 + vpmc::choose( 3 ) : 1 + vpmc::choose( 3 ) ), len( many ? 14 : 5 ), pre( vpmc::choose( 2 ) ), cap( vpmc::choose( 2 ) * 20 );
      int buf[ 14 ] = { 1, 2, 3, 4, 5 };
      std::unique_ptr< PK > dummy; if( pre ) dummy.reset( new PK );
      raft::for_each< int > fe( buf, len, n ); std::vector< std::unique_ptr< Snk< int > > > k; M m;
      for( int i = 0; i < n; i++ ){ k.emplace_back( new Snk< int > ); m.link( &fe, std::to_string( i ), k.back().get(), "0", cap ? cap + i : 0 ); }
      std::ostringstream os; raft::make_dot::run( os, m ); dot_check( m, os.str() );
      for( int i = 0; i < n; i++ )
      {
         S t( "\"" + std::to_string( i ) + " to 0 " ), at( os.str() ); auto b( at.find( t ) ); VP_CHECK( b != S::npos, "port %d is not drawn", i );
         at = at.substr( b, at.find( "]", b ) - b );
         const int sz( i + 1 == n ? len - ( n - 1 ) * ( len / n ) : len / n ), off( i * ( len / n ) );
         VP_CHECK( at.find( "size: " + std::to_string( sz ) + "\n" ) != S::npos && at.find( "start_offset: " + std::to_string( off ) + "\n" ) != S::npos && at.find( "fixed_buffer_size: " + std::to_string( cap ? cap + i : 0 ) + "\n" ) != S::npos, "port %d of %d over %d elements is not drawn with its %d elements from %d on", i, n, len, sz, off );
      }
   }
   S().swap( text ); clean( "after the map" );
}
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
   auto add = [&]( const char *n, std::function< void() > f, int q = 0, int t = 0 ){ v.push_back( { n, f, q, t } ); };
   add( "C15.links",        []{ links< int, double >( vpmc::thorough() ? 4 : 3 ); } );
   add( "C15.links.same",   []{ links< int, int >( vpmc::thorough() ? 4 : 3 ); } );
   add( "C15.links.mid",    []{ links_mid( vpmc::thorough() ? 4 : 3 ); } );
   add( "C15.retry",        []{ links_retry(); } );
   add( "C15.links.wide",   []{ links_wide(); } );
   add( "C15.links.far",    []{ links_far(); }, 0, 0 );
   add( "C19.lots",         []{ ports_lots(); }, 0, 0 );
   add( "C26.types",        []{ dot_types(); }, 0, 0 );
   add( "C26.lots",         []{ dot_lots(); }, 0, 0 );
   add( "C15.refused",      []{ refused(); } );
   add( "C15.exceptions",   []{ exceptions(); } );
   add( "C16.shapes",       []{ expression( vpmc::thorough() ? 8 : 7, 3, false ); } );
   add( "C16.shapes.run",   []{ expression( vpmc::thorough() ? 7 : 6, 2, true ); }, 0, 0 );
   static const char *mn[] = { "C16.made.chain", "C16.made.split", "C16.made.splitjoin", "C16.made.long", "C16.made.dup", "C16.made.dupchain", "C16.made.chaindup", "C16.made.mixed", "C16.made.mixed2", "C16.made.nested",
      "C16.made.order1", "C16.made.order2", "C16.made.order3", "C16.made.joinchain", "C16.made.joinchains", "C16.made.five", "C16.made.wide", "C16.made.three", "C16.made.widejoin" };
   for( int i = 0; i < 19; i++ ) add( mn[ i ], [=]{ made( i, i < 16 || i == 18 ); }, 0, i < 16 ? 1 : 0 );
   add( "C16.named.copies", []{ named_copies(); } );
   add( "C16.named",        []{ named(); } );
   add( "C16.named.orders", []{ named_orders(); } );
   add( "C14.refused",      []{ refused_expr(); } );
   add( "C14.unused",       []{ unused(); } );
   add( "C16.shapes.orders",[]{ expression( vpmc::thorough() ? 7 : 6, 2, false, true ); } );
   add( "C16.wide",         []{ expression( vpmc::thorough() ? 5 : 4, 5, false ); } );
   add( "C16.orders",       []{ orders(); } );
   add( "C16.ways",         []{ ways( vpmc::thorough() ? 60 : 20 ); } );
   add( "C16.pairs",        []{ pairs( vpmc::thorough() ? 6 : 4 ); } );
   add( "C17.two",          []{ traverse( 2, 2 ); } );
   add( "C17.three",        []{ traverse( 3, 2 ); } );
   add( "C17.four",         []{ traverse( 4, vpmc::thorough() ? 2 : 1 ); } );
   add( "C17.five",         []{ traverse( 5, 1, true ); } );
   add( "C17.varied",       []{ traverse( 3, 2, true ); } );
   add( "C17.wide",         []{ traverse( 2, 3 ); } );
   add( "C17.star",         []{ const int n( 1 + vpmc::choose( vpmc::thorough() ? 70 : 40 ) ); star( n, vpmc::choose( 2 ) ); }, 0, 0 );
   add( "C17.star.far",     []{ static const int N[] = { 63, 64, 65, 127, 128, 129, 255, 256, 257 }; star( N[ vpmc::choose( 9 ) ], true ); }, 0, 0 );
   add( "C19.sequence",     []{ ports( vpmc::thorough() ? 4 : 3 ); } );
   add( "C19.wide",         []{ ports_wide(); } );
   add( "C19.many",         []{ ports_many(); } );
   add( "C19.run",          []{ ports_run( 3 ); }, 1, 2 );
   add( "C19.run.twice",    []{ ports_twice(); }, 0, 1 );
   add( "C19.run.ten",      []{ ports_run( 11 ); }, 0, 1 );
   add( "C23.ids",          []{ ids( vpmc::thorough() ? 7 : 5 ); } );
   add( "C23.many",         []{ ids_many( vpmc::thorough() ? 200000 : 70000 ); } );
   add( "C23.threads",      []{ ids_threads( 2, 2 ); }, 2, 3 );
   add( "C23.threads3",     []{ ids_threads( 3, 1 ); }, 2, 3 );
   add( "C26.shapes",       []{ dot_expr( vpmc::thorough() ? 6 : 5, 3 ); } );
   add( "C26.orders",       []{ dot_expr( vpmc::thorough() ? 6 : 5, 2, true ); } );
   add( "C26.foreach",      []{ dot_foreach(); } );
   return( vpmc::main( argc, argv, v ) );
}
