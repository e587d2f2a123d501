/**
 * inst.cpp - instantiation unit.  It is only ever translated to compiler
 * intermediate representation and inspected; it is never linked or run.
 * Every template of RaftLib whose behaviour a property speaks about is
 * instantiated here with element types of the three storage classes the
 * library distinguishes.  The special members of the class types are declared
 * only, so that each construction, copy and destruction of an element stays
 * visible as a call in the IR.
 */
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <list>
#include <random>
#include <iterator>
#include <array>
#include <raft>
#include <raftio>
#include <raftalgorithm>
#include <raftmath>
#include <raftrandom>
#include <raftmanip>
#include <raftutility>
#include "raftinc/streamingstat.tcc"
#include "raftinc/portexception.hpp"
#include "raftinc/kernelexception.hpp"
#include "raftinc/mapexception.hpp"

namespace probe {

using Num = long;                       // inline, not a class

struct Small                            // inline class
{
   Small();
   Small( int );
   Small( const Small & );
   Small &operator=( const Small & );
   ~Small();
   long a;
   int  b;
};

struct Big                              // larger than a cache line
{
   Big();
   Big( int );
   Big( const Big & );
   Big &operator=( const Big & );
   ~Big();
   long payload[ 32 ];
};

std::ostream &operator<<( std::ostream &, const Small & );
std::ostream &operator<<( std::ostream &, const Big & );

} // namespace probe

template class RingBuffer< probe::Num,   Type::Heap, false >;
template class RingBuffer< probe::Small, Type::Heap, false >;
template class RingBuffer< probe::Big,   Type::Heap, false >;
template class RingBuffer< probe::Num,   Type::Heap, true >;
template class RingBuffer< probe::Small, Type::Heap, true >;
template class RingBuffer< probe::Big,   Type::Heap, true >;
template class RingBuffer< bool,         Type::Heap, false >;

namespace probe {

/** one small function per form of stream access **/
#define PROBE_OPS( K, T ) \
void u_push_##K( FIFO &f, const T &v, const raft::signal s ) { f.push< T >( v, s ); } \
void u_pushr_##K( FIFO &f, T &v, const raft::signal s ) { f.push( std::move( static_cast< const T& >( v ) ), s ); } \
void u_pop_##K( FIFO &f, T &v, raft::signal *s ) { f.pop< T >( v, s ); } \
T &u_peek_##K( FIFO &f, raft::signal *s ) { return( f.peek< T >( s ) ); } \
T &u_allocate_##K( FIFO &f ) { return( f.allocate< T >() ); } \
void u_range_##K( FIFO &f, const std::size_t n, std::vector< std::reference_wrapper< T > > &o ) \
   { o = f.allocate_range< T >( n ); } \
void u_insvec_##K( FIFO &f, std::vector< T > &v, const raft::signal s ) { f.insert( v.begin(), v.end(), s ); } \
void u_inslist_##K( FIFO &f, std::list< T > &v, const raft::signal s ) { f.insert( v.begin(), v.end(), s ); } \
void u_poprange_##K( FIFO &f, std::vector< std::pair< T, raft::signal > > &v, const std::size_t n ) { f.pop_range< T >( v, n ); } \
void u_pops_##K( FIFO &f ) { auto x( f.pop_s< T >() ); touch( &(*x), x.sig() ); } \
void u_pops2_##K( FIFO &f ) { auto x( f.pop_s< T >() ); auto y( x ); touch( &(*y), y.sig() ); } \
void u_allocs_##K( FIFO &f ) { auto x( f.allocate_s< T >() ); touch( &(*x), raft::none ); x.sig() = raft::eof; } \
void u_allocs2_##K( FIFO &f ) { auto x( f.allocate_s< T >() ); x.sig() = raft::eof; auto y( x ); touch( &(*y), raft::none ); }
#define PROBE_ARGS( K, T ) \
T &u_allocarg_##K( FIFO &f, const T &v ) { return( f.allocate< T >( v ) ); } \
void u_allocsarg_##K( FIFO &f, const T &v ) { auto x( f.allocate_s< T >( v ) ); touch( &(*x), raft::none ); }
#define PROBE_RANGE( K, T ) \
void u_peekrange_##K( FIFO &f, const std::size_t n, const std::size_t i ) \
   { auto r( f.peek_range< T >( n ) ); auto p( r[ i ] ); touch( &p.ele, p.sig ); touch( nullptr, r.size() ); } \
void u_peekrange2_##K( FIFO &f, const std::size_t n ) \
   { auto r( f.peek_range< T >( n ) ); auto q( r ); touch( nullptr, q.size() ); }

void touch( const void *p, std::size_t n );
inline void touch( const void *p, Buffer::Signal &s ) { touch( p, (raft::signal) s ); }

PROBE_OPS( num, Num )
PROBE_OPS( small, Small )
PROBE_OPS( big, Big )
PROBE_ARGS( small, Small )
PROBE_ARGS( big, Big )
PROBE_RANGE( num, Num )
PROBE_RANGE( small, Small )
void u_recycle( FIFO &f, const std::size_t n ) { f.recycle( n ); }

} // namespace probe

template class raft::split< probe::Num,   roundrobin >;
template class raft::split< probe::Small, roundrobin >;
template class raft::join<  probe::Num,   roundrobin >;
template class raft::join<  probe::Small, roundrobin >;
template class raft::join<  probe::Big,   roundrobin >;
template class raft::print< probe::Num,   '\n' >;
template class raft::print< probe::Num,   '\0' >;
template class raft::print< probe::Small, '\n' >;
template class raft::for_each< probe::Num >;
template class raft::for_each< probe::Small >;
template class raft::lambdak< probe::Num >;
template class raft::lambdak< probe::Num, probe::Small, probe::Num >;
template class raft::readeach<  probe::Num, std::vector< probe::Num >::iterator >;
template class raft::writeeach< probe::Num, std::back_insert_iterator< std::vector< probe::Num > > >;
template class raft::filereader< raft::filechunk< 256 >, false >;
template class raft::search< raft::filechunk< 256 >, raft::stdlib >;
template class raft::random_variate< std::mt19937, std::uniform_int_distribution, int >;
template class raft::streamingstat< double >;
template struct raft::filechunk< 256 >;
template class raft::chunk_iterator< 256 >;
template raft::chunk_iterator< 256 > &raft::chunk_iterator< 256 >::operator += ( const unsigned long );

template bool Port::addInPlacePorts< short >( const std::size_t );
template bool Port::addInPlacePorts< int >( const std::size_t );

template class PortExceptionBase< 0 >;
template class PortExceptionBase< 1 >;
template class PortExceptionBase< 2 >;
template class PortExceptionBase< 3 >;
template class PortExceptionBase< 4 >;
template class PortExceptionBase< 5 >;
template class PortExceptionBase< 6 >;
template class PortExceptionBase< 7 >;
template class KernelExceptionBase< 0 >;
template class MapExceptionBase< 0 >;

namespace probe {

struct Leaf : public raft::kernel
{
   Leaf() : raft::kernel() { input.addPort< Num >( "a", "b" ); output.addPort< Num >( "0" ); }
   Leaf( void * const p, const std::size_t n ) : raft::kernel( p, n ) { output.addInPlacePorts< Num >( 3 ); }
   Leaf( const Leaf & ) : raft::kernel() {}
   CLONE();
   raft::kstatus run() override { return raft::proceed; }
};

/** more ports at once, and made with parameters **/
struct Wide : public raft::kernel
{
   Wide( int, double ) : raft::kernel() { input.addPort< Num >( "a", "b", "c", "d", "e", "f" ); }
   Wide( int ) : raft::kernel() { output.addPort< Num >( "a", "b", "c" ); }
   raft::kstatus run() override { return raft::proceed; }
};

void use_kernels( Leaf &x, Leaf &y, raft::map &m, FIFO &p, FIFO &q )
{
   m += raft::kernel::make< Wide >( 1 ) >> raft::kernel::make< Wide >( 1, 2.0 );
   m += x >> y;
   m += x[ "0" ] >> y[ "a" ];
   m += x >> raft::order::out >> y;
   m += x <= y >= x;
   m += raft::kernel::make< Leaf >() >> raft::kernel::make< Leaf >();
   m.exe();
   m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >();
   m.exe< partition_basic, simple_schedule, dynalloc, basic_parallel >();
   Num a( 0 ), b( 0 );
   (void) raft::sum< Num >( p, q );
   (void) a; (void) b;
}

bool u_send_one( roundrobin &r, Num &v, const raft::signal s, Port &p ) { return( r.send< Num >( v, s, p ) ); }
bool u_send_one( roundrobin &r, double &v, const raft::signal s, Port &p ) { return( r.send< double >( v, s, p ) ); }

/** modifiers of kernels whose application stays visible **/
struct ModA { static void invoke( raft::kernel && ); };
struct ModB { static void invoke( raft::kernel && ); };
using kernel_refs = std::reference_wrapper< raft::kernel >;
std::array< kernel_refs, 3 > u_manip_three( Leaf &a, Leaf &b, Leaf &c ) { return( raft::manip< ModA, ModB >::bind( a, b, c ) ); }
std::array< kernel_refs, 1 > u_manip_one( Leaf &a ) { return( raft::manip< ModA >::bind( a ) ); }
struct ModC { static void invoke( raft::kernel &&k ); };
std::array< kernel_refs, 1 > u_manip_one3( Leaf &a ) { return( raft::manip< ModA, ModB, ModC >::bind( a ) ); }
std::array< kernel_refs, 4 > u_manip_four( Leaf &a, Leaf &b, Leaf &c, Leaf &d ) { return( raft::manip< ModA >::bind( a, b, c, d ) ); }
void u_manip_group( Leaf &a ) { raft::manip< raft::parallel::affinity_group< 3 > >::bind( a ); }
void u_manip_core( Leaf &a ) { raft::manip< raft::parallel::device< raft::parallel::cpu, 5 > >::bind( a ); }

std::vector< int > u_range_i( const int a, const int b, const int d ) { return( raft::range< int, int >( a, b, d ) ); }
std::vector< unsigned > u_range_u( const unsigned a, const unsigned b, const unsigned d ) { return( raft::range< unsigned, unsigned >( a, b, d ) ); }
std::vector< double > u_range_d( const double a, const double b, const double d ) { return( raft::range< double, double >( a, b, d ) ); }
std::vector< long > u_range_m( const int a, const long b, const long d ) { return( raft::range< int, long >( a, b, d ) ); }

long u_sum_1( FIFO &a ) { return( raft::sum< long >( a ) ); }
long u_sum_3( FIFO &a, FIFO &b, FIFO &c ) { return( raft::sum< long >( a, b, c ) ); }
double u_sum_d( FIFO &a, FIFO &b ) { return( raft::sum< double >( a, b ) ); }
long u_mult_1( FIFO &a ) { return( raft::mult< long >( a ) ); }
long u_mult_3( FIFO &a, FIFO &b, FIFO &c ) { return( raft::mult< long >( a, b, c ) ); }
double u_mult_d( FIFO &a, FIFO &b ) { return( raft::mult< double >( a, b ) ); }

void u_link_default( raft::map &m, Leaf &x, Leaf &y ) { m.link( &x, "0", &y, "a" ); }

template < class W > void use_assign( W &a, const W &b )
{
   if constexpr( std::is_copy_assignable< W >::value ) { a = b; }
}
void use_wrapper( raft::kernel_wrapper &a, const raft::kernel_wrapper &b )
{
   use_assign( a, b );
}

Num u_sum( FIFO &p, FIFO &q ) { return( raft::sum< Num >( p, q ) ); }
Num u_mult( FIFO &p, FIFO &q ) { return( raft::mult< Num >( p, q ) ); }

raft::select_t u_select_1( Port &p, std::string &a ) { return( raft::select::in( p, a ) ); }
raft::select_t u_select_2( Port &p, std::string &a, std::string &b ) { return( raft::select::in( p, a, b ) ); }
raft::select_t u_select_3( Port &p, std::string &a, std::string &b, std::string &c ) { return( raft::select::in( p, a, b, c ) ); }

void use_each( std::vector< Num > &v )
{
   auto r( raft::read_each< Num >( v.begin(), v.end() ) );
   auto w( raft::write_each< Num >( std::back_inserter( v ) ) );
}

} // namespace probe

/** one throw of each library error, so that its type can be recognised **/
namespace probe {
void x_closed()   { throw ClosedPortAccessException( "" ); }
void x_nomore()   { throw NoMoreDataException( "" ); }
void x_typemis()  { throw PortTypeMismatchException( "" ); }
void x_dblinit()  { throw PortDoubleInitializeException( "" ); }
void x_exists()   { throw PortAlreadyExists( "" ); }
void x_notfound() { throw PortNotFoundException( "" ); }
void x_ambig()    { throw AmbiguousPortAssignmentException( "" ); }
void x_copy( const PortNotFoundException &e ) { throw PortNotFoundException( e ); }
void x_assign( PortNotFoundException &a, const PortNotFoundException &b ) { a = b; }
void x_unconn()   { throw PortUnconnectedException( "" ); }
} // namespace probe

/** values of the library's enumerations, by name **/
#define K( n, v ) extern "C" std::uint64_t probe_const_##n() { return static_cast< std::uint64_t >( v ); }
K( stop, raft::stop )
K( proceed, raft::proceed )
K( any_port, raft::any_port )
K( all_port, raft::all_port )
K( quit, raft::quit )
K( term, raft::term )
K( none, raft::none )
K( eof, raft::eof )
K( max_system, raft::MAX_SYSTEM_SIGNAL )
#undef K
