/** instantiation unit for kernel sets, as the library's own test uses them (never linked or run) **/
#define TEST_WO_RAFT 1
#include <cstddef>
#include <iterator>
#include "raftinc/kset.tcc"
namespace probe {
struct K { int v; };
using S1 = raft::ksetr< K >;
using S2 = raft::ksetr< K, K >;
using S4 = raft::ksetr< K, K, K, K >;
void s_ctor1( void *p, K &a ) { new ( p ) raft::ksetr< K& >( a ); }
void s_ctor4( void *p, K &a, K &b, K &c, K &d ) { new ( p ) raft::ksetr< K&, K&, K&, K& >( a, b, c, d ); }
void s_make3( K &a, K &b, K &c, void (*f)( raft::ksetr< K&, K&, K& > & ) ) { auto s( raft::kset( a, b, c ) ); f( s ); }
void s_move( void *p, raft::ksetr< K&, K&, K& > &o ) { new ( p ) raft::ksetr< K&, K&, K& >( std::move( o ) ); }
std::size_t s_size3( raft::ksetr< K&, K&, K& > &o ) { return( o.size() ); }
std::size_t s_size1( raft::ksetr< K& > &o ) { return( o.size() ); }
}
template class raft::ksetr< probe::K&, probe::K&, probe::K& >;
