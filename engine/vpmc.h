/* vpmc - a stateless model checker for real C++ code.
 *
 * The code under test is compiled with clang's -fsanitize=thread
 * instrumentation but linked against this runtime instead of libtsan, so
 * every memory access, atomic, mutex, thread and sleep operation becomes an
 * event of a cooperative scheduler.  A scenario body is executed once per
 * schedule; the explorer enumerates every schedule with at most B deviations
 * from the default (non-preemptive, fair round robin) one, and every value of
 * every choose().
 */
#ifndef VPMC_H
#define VPMC_H 1
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace vpmc
{
/** report a property violation and abandon this execution **/
[[noreturn]] void fail( const char *fmt, ... ) __attribute__((format(printf,1,2)));
/** a nondeterministic data choice in [0,n): every value is explored **/
int  choose( int n );
/** something useful happened: resets the no-progress (livelock) counter **/
void progress();
/** add to the outcome fingerprint of this execution **/
void observe( std::uint64_t v );
void observe( const std::string &s );
/** explicit-state pruning: abandon this execution when the canonical state
 * 'h' was already reached (and is, or will be, expanded by another one) **/
void prune_if_seen( std::uint64_t h );
/** heap blocks / bytes allocated in this execution and not yet freed **/
std::size_t live_blocks();
std::size_t live_bytes();
/** number of threads created in this execution that have not ended **/
int  live_threads();
/** id of the calling thread: 0 is the scenario body **/
int  self();
/** events executed so far **/
std::uint64_t now_events();
/** virtual nanoseconds **/
std::uint64_t now_ns();
/** give up the processor once **/
void yield();
/** a visible scheduling point of its own (a preemption may happen here) **/
void point();
/** true while the address range lies in live heap memory (or outside the heap) **/
bool readable( const void *p, std::size_t n );
/** description printed with a violation (operation log) **/
void note( const char *fmt, ... ) __attribute__((format(printf,1,2)));
/** from here on malloc hands out the block freed last that fits, as real
 * allocators do; by default no address is used twice in an execution **/
void reuse_memory();
/** limit of fair rounds without progress before an execution is 'stuck' **/
void set_patience( int rounds );
/** exit() is expected from the code under test: it calls h and ends the
 * execution, which counts as complete (nullptr: exit() is a violation) **/
void on_exit( void (*h)( int ) );
/** with Scenario::cache: harness state at p, hidden from the scheduler by
 * VP_QUIET, is read or written: the order of such accesses is part of the state **/
void quiet( const void *p, bool write = true );
/** the tier this run was asked for **/
bool thorough();

struct Scenario
{
   std::string name;
   std::function< void() > body;
   int  quick;      /* deviation bound, quick tier   */
   int  thorough;   /* deviation bound, thorough tier */
   bool fork_each = false; /* run every execution in its own process */
   bool cache = false;     /* do not explore a happens-before state twice */
};
int main( int argc, char **argv, std::vector< Scenario > list );
/** mix helper for fingerprints **/
static inline std::uint64_t mix( std::uint64_t h, std::uint64_t v )
{
   h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
   h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
   return( h );
}
}
#define VP_CHECK( c, ... ) do{ if( ! ( c ) ){ vpmc::fail( __VA_ARGS__ ); } }while( 0 )
/** harness bookkeeping that must not be a scheduling point **/
#define VP_QUIET __attribute__((no_sanitize("thread")))
#endif
