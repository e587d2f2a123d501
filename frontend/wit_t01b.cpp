/** generated by tools/gent01.py: every storage class decision at the cache line size the unit is compiled with **/
#include <cstdint>
#include <string>
#include <vector>
#include <cstddef>
#include <raft>
#include "raftinc/alloc_traits.tcc"
namespace wit {
template < std::size_t N > struct Bytes { Bytes(); Bytes( const Bytes & ); ~Bytes(); char b[ N ]; };
template < std::size_t N > struct Triv { char b[ N ]; };
template < std::size_t N > struct NoDef { NoDef( int ); NoDef( const NoDef & ); ~NoDef(); char b[ N ]; };
template < std::size_t N > struct Poly { Poly(); virtual ~Poly(); char b[ N ]; };
template < std::size_t N > struct Fin final { Fin(); char b[ N ]; };
template < std::size_t N > struct NoCopy { NoCopy(); NoCopy( const NoCopy & ) = delete; char b[ N ]; };
struct alignas( 64 ) Al { int a; };
struct alignas( 128 ) Al2 { int a; };
struct Empty {};
template < class A, class B > struct same { static constexpr bool value = false; };
template < class A > struct same< A, A > { static constexpr bool value = true; };

static_assert( fits_in_cache_line< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value && inline_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value && ! ext_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value, "T01.line|class one below the line: in place" );
static_assert( inline_class_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value && ! inline_nonclass_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value && ! ext_class_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value && ! ext_mem_alloc< Bytes< L1D_CACHE_LINE_SIZE - 1 > >::value, "T01.unique|class one below the line: exactly one class" );
static_assert( inline_nonclass_alloc< char[ L1D_CACHE_LINE_SIZE - 1 ] >::value && ! ext_mem_alloc< char[ L1D_CACHE_LINE_SIZE - 1 ] >::value, "T01.line|array one below the line: in place" );
static_assert( same< decltype( Buffer::Data< Bytes< L1D_CACHE_LINE_SIZE - 1 >, Type::Heap >::store ), Bytes< L1D_CACHE_LINE_SIZE - 1 > * >::value, "T01.buffer|class one below the line: the buffer holds the elements" );
static_assert( fits_in_cache_line< Bytes< L1D_CACHE_LINE_SIZE  > >::value && inline_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value && ! ext_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value, "T01.line|class exactly the line: in place" );
static_assert( inline_class_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value && ! inline_nonclass_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value && ! ext_class_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value && ! ext_mem_alloc< Bytes< L1D_CACHE_LINE_SIZE  > >::value, "T01.unique|class exactly the line: exactly one class" );
static_assert( inline_nonclass_alloc< char[ L1D_CACHE_LINE_SIZE  ] >::value && ! ext_mem_alloc< char[ L1D_CACHE_LINE_SIZE  ] >::value, "T01.line|array exactly the line: in place" );
static_assert( same< decltype( Buffer::Data< Bytes< L1D_CACHE_LINE_SIZE  >, Type::Heap >::store ), Bytes< L1D_CACHE_LINE_SIZE  > * >::value, "T01.buffer|class exactly the line: the buffer holds the elements" );
static_assert( ! fits_in_cache_line< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value && ! inline_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value && ext_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value, "T01.line|class one above the line: out of line" );
static_assert( ! inline_class_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value && ! inline_nonclass_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value && ext_class_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value && ! ext_mem_alloc< Bytes< L1D_CACHE_LINE_SIZE + 1 > >::value, "T01.unique|class one above the line: exactly one class" );
static_assert( ! inline_nonclass_alloc< char[ L1D_CACHE_LINE_SIZE + 1 ] >::value && ext_mem_alloc< char[ L1D_CACHE_LINE_SIZE + 1 ] >::value && ! ext_class_alloc< char[ L1D_CACHE_LINE_SIZE + 1 ] >::value, "T01.line|array one above the line: out of line" );
static_assert( same< decltype( Buffer::Data< Bytes< L1D_CACHE_LINE_SIZE + 1 >, Type::Heap >::store ), Bytes< L1D_CACHE_LINE_SIZE + 1 > ** >::value, "T01.buffer|class one above the line: the buffer holds pointers" );
} // namespace wit
