/** every documented form of joining two sides of a chain is there, and gives a pair that can be continued **/
#include <raft>
#include <type_traits>
#include <utility>
namespace wit {
template < class... > using void_ = void;
#define FORM( N, OP ) \
template < class L, class R, class = void > struct N { using type = void; }; \
template < class L, class R > struct N< L, R, void_< decltype( std::declval< L >() OP std::declval< R >() ) > > { using type = decltype( std::declval< L >() OP std::declval< R >() ); };
FORM( seq, >> )
FORM( fan, <= )
FORM( red, >= )
template < class T, class X > constexpr bool is = std::is_same< typename T::type, X >::value;
using K = raft::kernel &; using W = raft::kernel_wrapper &&; using P = kpair &; using O = const raft::order::spec &&;
static_assert( is< seq< K, K >, P > && is< seq< W, W >, P > && is< seq< K, W >, P >, "M08.form|kernels are joined in sequence with >>" );
static_assert( is< seq< P, K >, P > && is< seq< P, W >, P >, "M08.form|a chain is continued with >>" );
static_assert( is< seq< K, O >, LOoOkpair & > && is< seq< LOoOkpair &, K >, P > && is< seq< LOoOkpair &, W >, P >, "M08.form|a kernel is joined out of order" );
static_assert( is< seq< P, O >, ROoOkpair & > && is< seq< ROoOkpair &, K >, P > && is< seq< ROoOkpair &, W >, P >, "M08.form|a chain is continued out of order" );
static_assert( is< fan< K, K >, P > && is< fan< W, W >, P > && is< fan< K, P >, P > && is< fan< W, P >, P >, "M08.form|a kernel is split with <=" );
static_assert( is< red< K, K >, P > && is< red< W, W >, P > && is< red< P, K >, P > && is< red< P, W >, P > && is< red< P, P >, P > && is< red< K, P >, P > && is< red< W, P >, P >, "M08.form|chains are reduced with >=" );
static_assert( ! std::is_same< LOoOkpair, ROoOkpair >::value && ! std::is_same< LOoOkpair, kpair >::value && ! std::is_same< ROoOkpair, kpair >::value, "M08.form|what an order applies to is told apart" );
}
