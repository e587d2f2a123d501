/** kernels carry their identity: it is not copied **/
#include <raft>
#include <type_traits>
#include <utility>
namespace wit {
struct leaf : public raft::kernel { leaf() : raft::kernel() {} raft::kstatus run() override { return raft::stop; } };
static_assert( ! std::is_copy_constructible< leaf >::value, "M10.copy|a kernel is not copied implicitly" );
static_assert( ! std::is_move_constructible< leaf >::value, "M10.copy|a kernel is not moved implicitly" );
static_assert( ! std::is_copy_assignable< leaf >::value && ! std::is_move_assignable< leaf >::value, "M10.copy|a kernel is not assigned" );
static_assert( sizeof( decltype( std::declval< leaf & >().get_id() ) ) == sizeof( std::size_t ), "M10.get|the identifier is as wide as the counter" );
}
