/* element types of the stream harnesses. Every value carries an id, spread
 * over all of its bytes, so that torn, stale or mixed-up copies show. */
#ifndef ELEMS_H
#define ELEMS_H 1
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vpmc.h>

namespace el
{
/* ledger of live tracked objects; not a scheduling point, restored between
 * executions like every other static */
struct Ledger
{
   static constexpr int N = 256;
   const void *p[ N ];
   int n;
   long made, gone;
   bool by_addr;   /* false: only count (objects may be relocated bytewise) */
};
inline Ledger L = { {}, 0, 0, 0, true };

VP_QUIET inline void born( const void *p )
{
   vpmc::quiet( p );
   L.made++;
   if( ! L.by_addr ) return;
   for( int i = 0; i < L.n; i++ ) if( L.p[ i ] == p )
      vpmc::fail( "object constructed on top of a live object (previous one never destroyed)" );
   if( L.n == Ledger::N ) vpmc::fail( "harness: ledger full" );
   L.p[ L.n++ ] = p;
}
VP_QUIET inline void dead( const void *p )
{
   vpmc::quiet( p );
   L.gone++;
   if( ! L.by_addr ) return;
   for( int i = 0; i < L.n; i++ ) if( L.p[ i ] == p ){ L.p[ i ] = L.p[ --L.n ]; return; }
   vpmc::fail( "object destroyed twice (or never constructed)" );
}
VP_QUIET inline void alive( const void *p )
{
   vpmc::quiet( p, false );
   if( ! L.by_addr ) return;
   for( int i = 0; i < L.n; i++ ) if( L.p[ i ] == p ) return;
   vpmc::fail( "use of an object that is not alive" );
}
VP_QUIET inline long live(){ return( L.made - L.gone ); }

/* tracked class held inline in the queue */
struct Sm
{
   std::uint32_t v, chk;
   Sm( std::uint32_t x = 0 ) : v( x ), chk( ~x ){ born( this ); }
   Sm( const Sm &o ) : v( o.v ), chk( o.chk ){ alive( &o ); born( this ); }
   Sm &operator = ( const Sm &o ){ alive( &o ); alive( this ); v = o.v; chk = o.chk; return( *this ); }
   ~Sm(){ dead( this ); v = chk = 0xdeadbeef; }
};
/* tracked class allocated outside of the queue */
struct Bg
{
   std::uint32_t v[ 32 ];
   Bg( std::uint32_t x = 0 ){ fill( x ); born( this ); }
   Bg( const Bg &o ){ alive( &o ); std::memcpy( v, o.v, sizeof( v ) ); born( this ); }
   Bg &operator = ( const Bg &o ){ alive( &o ); alive( this ); std::memcpy( v, o.v, sizeof( v ) ); return( *this ); }
   ~Bg(){ dead( this ); for( auto &x : v ) x = 0xdeadbeef; }
   void fill( std::uint32_t x ){ for( int i = 0; i < 32; i++ ) v[ i ] = x + i; }
};
/* plain data, several words, inline class */
struct Pod { std::uint32_t v[ 6 ]; };
/* plain data larger than a cache line */
struct BigPod { std::uint32_t v[ 40 ]; };

template < class T > struct Tr;
template <> struct Tr< int >
{
   static constexpr bool tracked = false, ext = false, plain = true;
   static const char *name(){ return( "int" ); }
   static int make( unsigned id ){ return( (int)( id * 0x01010101u ) ); }
   static unsigned id( const int &x ){ return( ( (unsigned) x & 0xff ) * 0x01010101u == (unsigned) x ? ( (unsigned) x & 0xff ) : 9999 ); }
   static void set( int &x, unsigned id ){ x = make( id ); }
};
template <> struct Tr< unsigned char >
{
   static constexpr bool tracked = false, ext = false, plain = true;
   static const char *name(){ return( "uchar" ); }
   static unsigned char make( unsigned id ){ return( id ); }
   static unsigned id( const unsigned char &x ){ return( x ); }
   static void set( unsigned char &x, unsigned id ){ x = id; }
};
template <> struct Tr< double >
{
   static constexpr bool tracked = false, ext = false, plain = true;
   static const char *name(){ return( "double" ); }
   static double make( unsigned id ){ return( id + 0.5 ); }
   static unsigned id( const double &x ){ return( x == (unsigned) x + 0.5 && x < 256 ? (unsigned) x : 9999 ); }
   static void set( double &x, unsigned id ){ x = id + 0.5; }
};
template <> struct Tr< Pod >
{
   static constexpr bool tracked = false, ext = false, plain = true;
   static const char *name(){ return( "pod" ); }
   static Pod make( unsigned id ){ Pod p; set( p, id ); return( p ); }
   static unsigned id( const Pod &x ){ for( int i = 0; i < 6; i++ ) if( x.v[ i ] != x.v[ 0 ] + i ) return( 9999 ); return( x.v[ 0 ] ); }
   static void set( Pod &x, unsigned id ){ for( int i = 0; i < 6; i++ ) x.v[ i ] = id + i; }
};
template <> struct Tr< BigPod >
{
   static constexpr bool tracked = false, ext = true, plain = false;
   static const char *name(){ return( "bigpod" ); }
   static BigPod make( unsigned id ){ BigPod p; set( p, id ); return( p ); }
   static unsigned id( const BigPod &x ){ for( int i = 0; i < 40; i++ ) if( x.v[ i ] != x.v[ 0 ] + i ) return( 9999 ); return( x.v[ 0 ] ); }
   static void set( BigPod &x, unsigned id ){ for( int i = 0; i < 40; i++ ) x.v[ i ] = id + i; }
};
template <> struct Tr< Sm >
{
   static constexpr bool tracked = true, ext = false, plain = false;
   static const char *name(){ return( "obj" ); }
   static Sm make( unsigned id ){ return( Sm( id ) ); }
   static unsigned id( const Sm &x ){ alive( &x ); return( x.chk == ~x.v ? x.v : 9999 ); }
   static void set( Sm &x, unsigned id ){ alive( &x ); x.v = id; x.chk = ~id; }
};
template <> struct Tr< Bg >
{
   static constexpr bool tracked = true, ext = true, plain = false;
   static const char *name(){ return( "bigobj" ); }
   static Bg make( unsigned id ){ return( Bg( id ) ); }
   static unsigned id( const Bg &x ){ alive( &x ); for( int i = 0; i < 32; i++ ) if( x.v[ i ] != x.v[ 0 ] + i ) return( 9999 ); return( x.v[ 0 ] ); }
   static void set( Bg &x, unsigned id ){ alive( &x ); x.fill( id ); }
};
template <> struct Tr< std::string >
{
   static constexpr bool tracked = false, ext = false, plain = false;
   static const char *name(){ return( "string" ); }
   /* ids alternate between short (in object) and long (heap) strings */
   static std::string make( unsigned id ){ return( ( id & 1 ) ? std::string( 3, (char)( 'A' + id ) ) : std::string( 40, (char)( 'A' + id ) ) ); }
   static unsigned id( const std::string &x )
   {
      if( x.empty() ) return( 9998 );
      const unsigned i( (unsigned)( x[ 0 ] - 'A' ) );
      return( x == make( i ) ? i : 9999 );
   }
   static void set( std::string &x, unsigned id ){ x = make( id ); }
};
/* a slot made with and without arguments for the constructor */
template < class T, class F > T &alloc( F &f, unsigned id )
{
   if constexpr( std::is_class< T >::value ) if( id & 1 ) return( f.template allocate< T >( Tr< T >::make( id ) ) );
   T &x( f.template allocate< T >() ); Tr< T >::set( x, id ); return( x );
}
template < class T, class F > auto alloc_s( F &f, unsigned id )
{
   if constexpr( std::is_class< T >::value ) { if( id & 1 ) return( f.template allocate_s< T >( Tr< T >::make( id ) ) ); }
   auto x( f.template allocate_s< T >() ); Tr< T >::set( *x, id ); return( x );
}
}
#endif
