// PROPS: 
#include <vpmc.h>
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <future>
#include <latch>
#include <semaphore>
#include <atomic>
#include <vector>
#include <string>
#include <chrono>
#include <semaphore.h>
#include <pthread.h>
namespace {
thread_local int tl = 7; thread_local std::string ts( "abc" ); thread_local std::vector< int > tv;
int cnt; std::atomic< int > dt; struct D{ ~D(){ dt++; } }; thread_local D d;
void tls(){
   dt = 0;
   std::vector< std::thread > t; int out[ 3 ] = {};
   for( int i = 0; i < 3; i++ ) t.emplace_back( [&, i]{ (void) &d; for( int k = 0; k < 3; k++ ){ tl += i; vpmc::point(); tv.push_back( i ); ts += "x"; } out[ i ] = tl * 100 + (int) tv.size() * 10 + (int) ts.size(); } );
   for( auto &x : t ) x.join();
   for( int i = 0; i < 3; i++ ) VP_CHECK( out[ i ] == ( 7 + 3 * i ) * 100 + 30 + 6, "tls" );
   VP_CHECK( dt == 3 && tl == 7, "dtors" );
   VP_CHECK( vpmc::live_threads() == 0, "threads" );
}
void once(){ static std::once_flag *f; f = new std::once_flag; cnt = 0; int seen[ 3 ];
   { std::vector< std::thread > t; for( int i = 0; i < 3; i++ ) t.emplace_back( [&, i]{ std::call_once( *f, []{ vpmc::point(); cnt++; vpmc::point(); } ); seen[ i ] = cnt; } ); for( auto &x : t ) x.join(); }
   VP_CHECK( cnt == 1 && seen[ 0 ] == 1 && seen[ 1 ] == 1 && seen[ 2 ] == 1, "once" ); delete f; }
void shm(){ std::shared_mutex m; int v = 0; std::atomic< int > r( 0 ), w( 0 ); bool both = false;
   auto rd = [&]{ std::shared_lock< std::shared_mutex > g( m ); if( ++r == 2 ) both = true; VP_CHECK( w == 0, "reader with writer" ); int x = v; vpmc::point(); VP_CHECK( x == v, "changed" ); r--; };
   auto wr = [&]{ std::unique_lock< std::shared_mutex > g( m ); w++; VP_CHECK( w == 1 && r == 0, "writer alone" ); v++; vpmc::point(); v++; w--; };
   std::thread a( rd ), b( rd ), c( wr ), d( wr ); a.join(); b.join(); c.join(); d.join(); VP_CHECK( v == 4, "v" ); vpmc::observe( both ); }
void fut(){ std::promise< int > p; auto f = p.get_future(); std::thread t( [&]{ p.set_value( 5 ); } ); VP_CHECK( f.get() == 5, "get" ); t.join();
   auto a = std::async( std::launch::async, []{ return 6; } ); VP_CHECK( a.get() == 6, "async" ); }
void lat(){ std::latch l( 3 ); int n = 0; std::mutex m; std::vector< std::thread > t; for( int i = 0; i < 2; i++ ) t.emplace_back( [&]{ { std::lock_guard< std::mutex > g( m ); n++; } l.arrive_and_wait(); VP_CHECK( n == 2, "n" ); } );
   l.arrive_and_wait(); VP_CHECK( n == 2, "n" ); for( auto &x : t ) x.join(); }
void aw(){ std::atomic< int > a( 0 ); std::thread t( [&]{ a.wait( 0 ); VP_CHECK( a == 1, "a" ); } ); a = 1; a.notify_one(); t.join(); }
void sem(){ std::counting_semaphore< 4 > s( 0 ); int x = 0; std::thread t( [&]{ x = 1; s.release(); } ); s.acquire(); VP_CHECK( x == 1, "x" ); t.join();
   sem_t q; sem_init( &q, 0, 1 ); int in = 0; auto f = [&]{ sem_wait( &q ); VP_CHECK( ++in == 1, "in" ); vpmc::point(); in--; sem_post( &q ); }; std::thread a( f ), b( f ); a.join(); b.join(); sem_destroy( &q ); }
void spin(){ pthread_spinlock_t l; pthread_spin_init( &l, 0 ); int in = 0; auto f = [&]{ pthread_spin_lock( &l ); VP_CHECK( ++in == 1, "in" ); vpmc::point(); in--; pthread_spin_unlock( &l ); }; std::thread a( f ), b( f ); a.join(); b.join(); }
void timed(){ std::timed_mutex m; m.lock(); bool got = true; std::thread t( [&]{ got = m.try_lock_for( std::chrono::milliseconds( 5 ) ); if( got ) m.unlock(); } ); std::this_thread::sleep_for( std::chrono::milliseconds( 2 ) ); vpmc::point(); m.unlock(); t.join(); vpmc::observe( got ); }
void rec(){ std::recursive_mutex m; int n = 0; auto f = [&]{ m.lock(); m.lock(); n++; m.unlock(); vpmc::point(); n++; m.unlock(); }; std::thread a( f ), b( f ); a.join(); b.join(); VP_CHECK( n == 4, "n" ); }
void dead(){ std::latch l( 2 ); std::thread t( [&]{ l.wait(); } ); t.join(); }
void jt(){ int n = 0; { std::jthread t( [&]( std::stop_token s ){ while( ! s.stop_requested() ) vpmc::yield(); n = 1; } ); } VP_CHECK( n == 1, "n" ); }
}
int main( int argc, char **argv )
{
   std::vector< vpmc::Scenario > v;
#define X( N ) v.push_back( { "P." #N, N, 2, 2, false, true } );
   X( tls ) X( once ) X( shm ) X( fut ) X( lat ) X( aw ) X( sem ) X( spin ) X( timed ) X( rec ) X( dead ) X( jt )
   return( vpmc::main( argc, argv, v ) );
}
