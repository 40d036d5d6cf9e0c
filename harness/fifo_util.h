#ifndef FIFO_UTIL_H
#define FIFO_UTIL_H 1
#include <list>
#include <vector>
#include <thread>
#include <raft>
#include "elems.h"

/* a stream as the library builds it, plus the ownership sets that the
 * scheduler attaches for element types kept outside of the queue */
struct Access : FIFO
{
   static void set( FIFO &f, ptr_map_t *in, ptr_set_t *out, ptr_set_t *ip, ptr_set_t *op )
   {
      ( f.*( &Access::setPtrMap ) )( in ); ( f.*( &Access::setPtrSet ) )( out );
      ( f.*( &Access::setInPeekSet ) )( ip ); ( f.*( &Access::setOutPeekSet ) )( op );
   }
};
template < class T > struct Q
{
   FIFO *f; ptr_map_t in; ptr_set_t out, in_peek, out_peek;
   Q( std::size_t n, void *data = nullptr, std::size_t start = 0 )
   {
      f = RingBuffer< T, Type::Heap, false >::make_new_fifo( n, data ? start : 16, data );
      Access::set( *f, &in, &out, &in_peek, &out_peek );
   }
   ~Q(){ delete( f ); }
   FIFO *operator -> (){ return( f ); }
   /* what the scheduler does after a kernel's run: free recycled elements */
   void gc()
   {
      for( auto &p : in ) if( out.find( p.first ) == out.end() ) p.second( reinterpret_cast< void* >( p.first ) );
      in.clear(); out.clear(); in_peek.clear();
   }
};
static const raft::signal SIGA( static_cast< raft::signal >( 5000 ) );
static const raft::signal SIGB( static_cast< raft::signal >( 5001 ) );
#endif
