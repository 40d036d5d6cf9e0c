/* Stand-in for the git submodule "demangle". */
#ifndef VP_STUB_DEMANGLE
#define VP_STUB_DEMANGLE 1
#include <cxxabi.h>
#include <cstdlib>
#include <string>
namespace raft
{
static inline std::string demangle( const char * const n )
{
   int st( 0 );
   char *p( abi::__cxa_demangle( n, nullptr, nullptr, &st ) );
   std::string out( st == 0 && p != nullptr ? p : n );
   std::free( p );
   return( out );
}
}
#endif
