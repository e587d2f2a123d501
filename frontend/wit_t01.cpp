/** generated by tools/gent01.py: every storage class decision, type by type **/
#include <cstdint>
#include <string>
#include <vector>
#include <cstddef>
#include <raft>
#include "raftinc/alloc_traits.tcc"
namespace wit {
template < std::size_t N > struct Bytes { Bytes(); Bytes( const Bytes & ); ~Bytes(); char b[ N ]; };
template < std::size_t N > struct Triv { char b[ N ]; };
template < std::size_t N > struct NoDef { NoDef( int ); NoDef( const NoDef & ); ~NoDef(); char b[ N ]; };
template < std::size_t N > struct Poly { Poly(); virtual ~Poly(); char b[ N ]; };
template < std::size_t N > struct Fin final { Fin(); char b[ N ]; };
template < std::size_t N > struct NoCopy { NoCopy(); NoCopy( const NoCopy & ) = delete; char b[ N ]; };
struct alignas( 64 ) Al { int a; };
struct alignas( 128 ) Al2 { int a; };
struct Empty {};
template < class A, class B > struct same { static constexpr bool value = false; };
template < class A > struct same< A, A > { static constexpr bool value = true; };

static_assert( inline_nonclass_alloc< bool >::value && ! inline_class_alloc< bool >::value && ! ext_class_alloc< bool >::value && ! ext_mem_alloc< bool >::value, "T01.unique|bool: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< bool >::value && inline_alloc< bool >::value && ! ext_alloc< bool >::value, "T01.line|bool: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< bool, Type::Heap >::store ), bool * >::value, "T01.buffer|bool: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< char >::value && ! inline_class_alloc< char >::value && ! ext_class_alloc< char >::value && ! ext_mem_alloc< char >::value, "T01.unique|char: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char >::value && inline_alloc< char >::value && ! ext_alloc< char >::value, "T01.line|char: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< char, Type::Heap >::store ), char * >::value, "T01.buffer|char: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< short >::value && ! inline_class_alloc< short >::value && ! ext_class_alloc< short >::value && ! ext_mem_alloc< short >::value, "T01.unique|short: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< short >::value && inline_alloc< short >::value && ! ext_alloc< short >::value, "T01.line|short: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< short, Type::Heap >::store ), short * >::value, "T01.buffer|short: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< int >::value && ! inline_class_alloc< int >::value && ! ext_class_alloc< int >::value && ! ext_mem_alloc< int >::value, "T01.unique|int: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< int >::value && inline_alloc< int >::value && ! ext_alloc< int >::value, "T01.line|int: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< int, Type::Heap >::store ), int * >::value, "T01.buffer|int: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< long >::value && ! inline_class_alloc< long >::value && ! ext_class_alloc< long >::value && ! ext_mem_alloc< long >::value, "T01.unique|long: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< long >::value && inline_alloc< long >::value && ! ext_alloc< long >::value, "T01.line|long: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< long, Type::Heap >::store ), long * >::value, "T01.buffer|long: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< unsigned long long >::value && ! inline_class_alloc< unsigned long long >::value && ! ext_class_alloc< unsigned long long >::value && ! ext_mem_alloc< unsigned long long >::value, "T01.unique|unsigned long long: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< unsigned long long >::value && inline_alloc< unsigned long long >::value && ! ext_alloc< unsigned long long >::value, "T01.line|unsigned long long: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< unsigned long long, Type::Heap >::store ), unsigned long long * >::value, "T01.buffer|unsigned long long: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< float >::value && ! inline_class_alloc< float >::value && ! ext_class_alloc< float >::value && ! ext_mem_alloc< float >::value, "T01.unique|float: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< float >::value && inline_alloc< float >::value && ! ext_alloc< float >::value, "T01.line|float: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< float, Type::Heap >::store ), float * >::value, "T01.buffer|float: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< double >::value && ! inline_class_alloc< double >::value && ! ext_class_alloc< double >::value && ! ext_mem_alloc< double >::value, "T01.unique|double: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< double >::value && inline_alloc< double >::value && ! ext_alloc< double >::value, "T01.line|double: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< double, Type::Heap >::store ), double * >::value, "T01.buffer|double: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< long double >::value && ! inline_class_alloc< long double >::value && ! ext_class_alloc< long double >::value && ! ext_mem_alloc< long double >::value, "T01.unique|long double: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< long double >::value && inline_alloc< long double >::value && ! ext_alloc< long double >::value, "T01.line|long double: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< long double, Type::Heap >::store ), long double * >::value, "T01.buffer|long double: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< wchar_t >::value && ! inline_class_alloc< wchar_t >::value && ! ext_class_alloc< wchar_t >::value && ! ext_mem_alloc< wchar_t >::value, "T01.unique|wchar_t: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< wchar_t >::value && inline_alloc< wchar_t >::value && ! ext_alloc< wchar_t >::value, "T01.line|wchar_t: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< wchar_t, Type::Heap >::store ), wchar_t * >::value, "T01.buffer|wchar_t: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< char16_t >::value && ! inline_class_alloc< char16_t >::value && ! ext_class_alloc< char16_t >::value && ! ext_mem_alloc< char16_t >::value, "T01.unique|char16_t: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char16_t >::value && inline_alloc< char16_t >::value && ! ext_alloc< char16_t >::value, "T01.line|char16_t: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< char16_t, Type::Heap >::store ), char16_t * >::value, "T01.buffer|char16_t: the buffer holds the elements themselves" );
static_assert( inline_nonclass_alloc< std::nullptr_t >::value && ! inline_class_alloc< std::nullptr_t >::value && ! ext_class_alloc< std::nullptr_t >::value && ! ext_mem_alloc< std::nullptr_t >::value, "T01.unique|nullptr_t: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< std::nullptr_t >::value && inline_alloc< std::nullptr_t >::value && ! ext_alloc< std::nullptr_t >::value, "T01.line|nullptr_t: fits the cache line and is kept in place" );
static_assert( inline_nonclass_alloc< char[1] >::value && ! inline_class_alloc< char[1] >::value && ! ext_class_alloc< char[1] >::value && ! ext_mem_alloc< char[1] >::value, "T01.unique|char[1]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char[1] >::value && inline_alloc< char[1] >::value && ! ext_alloc< char[1] >::value, "T01.line|char[1]: fits the cache line and is kept in place" );
static_assert( inline_nonclass_alloc< char[2] >::value && ! inline_class_alloc< char[2] >::value && ! ext_class_alloc< char[2] >::value && ! ext_mem_alloc< char[2] >::value, "T01.unique|char[2]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char[2] >::value && inline_alloc< char[2] >::value && ! ext_alloc< char[2] >::value, "T01.line|char[2]: fits the cache line and is kept in place" );
static_assert( inline_nonclass_alloc< char[8] >::value && ! inline_class_alloc< char[8] >::value && ! ext_class_alloc< char[8] >::value && ! ext_mem_alloc< char[8] >::value, "T01.unique|char[8]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char[8] >::value && inline_alloc< char[8] >::value && ! ext_alloc< char[8] >::value, "T01.line|char[8]: fits the cache line and is kept in place" );
static_assert( inline_nonclass_alloc< char[63] >::value && ! inline_class_alloc< char[63] >::value && ! ext_class_alloc< char[63] >::value && ! ext_mem_alloc< char[63] >::value, "T01.unique|char[63]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char[63] >::value && inline_alloc< char[63] >::value && ! ext_alloc< char[63] >::value, "T01.line|char[63]: fits the cache line and is kept in place" );
static_assert( inline_nonclass_alloc< char[64] >::value && ! inline_class_alloc< char[64] >::value && ! ext_class_alloc< char[64] >::value && ! ext_mem_alloc< char[64] >::value, "T01.unique|char[64]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< char[64] >::value && inline_alloc< char[64] >::value && ! ext_alloc< char[64] >::value, "T01.line|char[64]: fits the cache line and is kept in place" );
static_assert( ! inline_nonclass_alloc< char[65] >::value && ! inline_class_alloc< char[65] >::value && ! ext_class_alloc< char[65] >::value && ext_mem_alloc< char[65] >::value, "T01.unique|char[65]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[65] >::value && ! inline_alloc< char[65] >::value && ext_alloc< char[65] >::value, "T01.line|char[65]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< char[66] >::value && ! inline_class_alloc< char[66] >::value && ! ext_class_alloc< char[66] >::value && ext_mem_alloc< char[66] >::value, "T01.unique|char[66]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[66] >::value && ! inline_alloc< char[66] >::value && ext_alloc< char[66] >::value, "T01.line|char[66]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< char[100] >::value && ! inline_class_alloc< char[100] >::value && ! ext_class_alloc< char[100] >::value && ext_mem_alloc< char[100] >::value, "T01.unique|char[100]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[100] >::value && ! inline_alloc< char[100] >::value && ext_alloc< char[100] >::value, "T01.line|char[100]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< char[128] >::value && ! inline_class_alloc< char[128] >::value && ! ext_class_alloc< char[128] >::value && ext_mem_alloc< char[128] >::value, "T01.unique|char[128]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[128] >::value && ! inline_alloc< char[128] >::value && ext_alloc< char[128] >::value, "T01.line|char[128]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< char[129] >::value && ! inline_class_alloc< char[129] >::value && ! ext_class_alloc< char[129] >::value && ext_mem_alloc< char[129] >::value, "T01.unique|char[129]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[129] >::value && ! inline_alloc< char[129] >::value && ext_alloc< char[129] >::value, "T01.line|char[129]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< char[4096] >::value && ! inline_class_alloc< char[4096] >::value && ! ext_class_alloc< char[4096] >::value && ext_mem_alloc< char[4096] >::value, "T01.unique|char[4096]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< char[4096] >::value && ! inline_alloc< char[4096] >::value && ext_alloc< char[4096] >::value, "T01.line|char[4096]: exceeds the cache line and is kept out of line" );
static_assert( inline_nonclass_alloc< long[8] >::value && ! inline_class_alloc< long[8] >::value && ! ext_class_alloc< long[8] >::value && ! ext_mem_alloc< long[8] >::value, "T01.unique|long[8]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< long[8] >::value && inline_alloc< long[8] >::value && ! ext_alloc< long[8] >::value, "T01.line|long[8]: fits the cache line and is kept in place" );
static_assert( ! inline_nonclass_alloc< long[9] >::value && ! inline_class_alloc< long[9] >::value && ! ext_class_alloc< long[9] >::value && ext_mem_alloc< long[9] >::value, "T01.unique|long[9]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< long[9] >::value && ! inline_alloc< long[9] >::value && ext_alloc< long[9] >::value, "T01.line|long[9]: exceeds the cache line and is kept out of line" );
static_assert( inline_nonclass_alloc< int[4][4] >::value && ! inline_class_alloc< int[4][4] >::value && ! ext_class_alloc< int[4][4] >::value && ! ext_mem_alloc< int[4][4] >::value, "T01.unique|int[4][4]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< int[4][4] >::value && inline_alloc< int[4][4] >::value && ! ext_alloc< int[4][4] >::value, "T01.line|int[4][4]: fits the cache line and is kept in place" );
static_assert( ! inline_nonclass_alloc< int[4][5] >::value && ! inline_class_alloc< int[4][5] >::value && ! ext_class_alloc< int[4][5] >::value && ext_mem_alloc< int[4][5] >::value, "T01.unique|int[4][5]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< int[4][5] >::value && ! inline_alloc< int[4][5] >::value && ext_alloc< int[4][5] >::value, "T01.line|int[4][5]: exceeds the cache line and is kept out of line" );
static_assert( inline_nonclass_alloc< Bytes<1>[64] >::value && ! inline_class_alloc< Bytes<1>[64] >::value && ! ext_class_alloc< Bytes<1>[64] >::value && ! ext_mem_alloc< Bytes<1>[64] >::value, "T01.unique|Bytes<1>[64]: exactly one class, in place, not a class" );
static_assert( fits_in_cache_line< Bytes<1>[64] >::value && inline_alloc< Bytes<1>[64] >::value && ! ext_alloc< Bytes<1>[64] >::value, "T01.line|Bytes<1>[64]: fits the cache line and is kept in place" );
static_assert( ! inline_nonclass_alloc< Bytes<1>[65] >::value && ! inline_class_alloc< Bytes<1>[65] >::value && ! ext_class_alloc< Bytes<1>[65] >::value && ext_mem_alloc< Bytes<1>[65] >::value, "T01.unique|Bytes<1>[65]: exactly one class, out of line, array" );
static_assert( ! fits_in_cache_line< Bytes<1>[65] >::value && ! inline_alloc< Bytes<1>[65] >::value && ext_alloc< Bytes<1>[65] >::value, "T01.line|Bytes<1>[65]: exceeds the cache line and is kept out of line" );
static_assert( ! inline_nonclass_alloc< Bytes<1> >::value && inline_class_alloc< Bytes<1> >::value && ! ext_class_alloc< Bytes<1> >::value && ! ext_mem_alloc< Bytes<1> >::value, "T01.unique|class of 1 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<1> >::value && inline_alloc< Bytes<1> >::value && ! ext_alloc< Bytes<1> >::value, "T01.line|class of 1 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<1>, Type::Heap >::store ), Bytes<1> * >::value, "T01.buffer|class of 1 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<2> >::value && inline_class_alloc< Bytes<2> >::value && ! ext_class_alloc< Bytes<2> >::value && ! ext_mem_alloc< Bytes<2> >::value, "T01.unique|class of 2 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<2> >::value && inline_alloc< Bytes<2> >::value && ! ext_alloc< Bytes<2> >::value, "T01.line|class of 2 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<2>, Type::Heap >::store ), Bytes<2> * >::value, "T01.buffer|class of 2 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<3> >::value && inline_class_alloc< Bytes<3> >::value && ! ext_class_alloc< Bytes<3> >::value && ! ext_mem_alloc< Bytes<3> >::value, "T01.unique|class of 3 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<3> >::value && inline_alloc< Bytes<3> >::value && ! ext_alloc< Bytes<3> >::value, "T01.line|class of 3 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<3>, Type::Heap >::store ), Bytes<3> * >::value, "T01.buffer|class of 3 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<8> >::value && inline_class_alloc< Bytes<8> >::value && ! ext_class_alloc< Bytes<8> >::value && ! ext_mem_alloc< Bytes<8> >::value, "T01.unique|class of 8 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<8> >::value && inline_alloc< Bytes<8> >::value && ! ext_alloc< Bytes<8> >::value, "T01.line|class of 8 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<8>, Type::Heap >::store ), Bytes<8> * >::value, "T01.buffer|class of 8 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<16> >::value && inline_class_alloc< Bytes<16> >::value && ! ext_class_alloc< Bytes<16> >::value && ! ext_mem_alloc< Bytes<16> >::value, "T01.unique|class of 16 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<16> >::value && inline_alloc< Bytes<16> >::value && ! ext_alloc< Bytes<16> >::value, "T01.line|class of 16 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<16>, Type::Heap >::store ), Bytes<16> * >::value, "T01.buffer|class of 16 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<32> >::value && inline_class_alloc< Bytes<32> >::value && ! ext_class_alloc< Bytes<32> >::value && ! ext_mem_alloc< Bytes<32> >::value, "T01.unique|class of 32 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<32> >::value && inline_alloc< Bytes<32> >::value && ! ext_alloc< Bytes<32> >::value, "T01.line|class of 32 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<32>, Type::Heap >::store ), Bytes<32> * >::value, "T01.buffer|class of 32 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<33> >::value && inline_class_alloc< Bytes<33> >::value && ! ext_class_alloc< Bytes<33> >::value && ! ext_mem_alloc< Bytes<33> >::value, "T01.unique|class of 33 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<33> >::value && inline_alloc< Bytes<33> >::value && ! ext_alloc< Bytes<33> >::value, "T01.line|class of 33 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<33>, Type::Heap >::store ), Bytes<33> * >::value, "T01.buffer|class of 33 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<48> >::value && inline_class_alloc< Bytes<48> >::value && ! ext_class_alloc< Bytes<48> >::value && ! ext_mem_alloc< Bytes<48> >::value, "T01.unique|class of 48 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<48> >::value && inline_alloc< Bytes<48> >::value && ! ext_alloc< Bytes<48> >::value, "T01.line|class of 48 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<48>, Type::Heap >::store ), Bytes<48> * >::value, "T01.buffer|class of 48 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<62> >::value && inline_class_alloc< Bytes<62> >::value && ! ext_class_alloc< Bytes<62> >::value && ! ext_mem_alloc< Bytes<62> >::value, "T01.unique|class of 62 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<62> >::value && inline_alloc< Bytes<62> >::value && ! ext_alloc< Bytes<62> >::value, "T01.line|class of 62 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<62>, Type::Heap >::store ), Bytes<62> * >::value, "T01.buffer|class of 62 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<63> >::value && inline_class_alloc< Bytes<63> >::value && ! ext_class_alloc< Bytes<63> >::value && ! ext_mem_alloc< Bytes<63> >::value, "T01.unique|class of 63 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<63> >::value && inline_alloc< Bytes<63> >::value && ! ext_alloc< Bytes<63> >::value, "T01.line|class of 63 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<63>, Type::Heap >::store ), Bytes<63> * >::value, "T01.buffer|class of 63 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<64> >::value && inline_class_alloc< Bytes<64> >::value && ! ext_class_alloc< Bytes<64> >::value && ! ext_mem_alloc< Bytes<64> >::value, "T01.unique|class of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Bytes<64> >::value && inline_alloc< Bytes<64> >::value && ! ext_alloc< Bytes<64> >::value, "T01.line|class of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Bytes<64>, Type::Heap >::store ), Bytes<64> * >::value, "T01.buffer|class of 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Bytes<65> >::value && ! inline_class_alloc< Bytes<65> >::value && ext_class_alloc< Bytes<65> >::value && ! ext_mem_alloc< Bytes<65> >::value, "T01.unique|class of 65 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<65> >::value && ! inline_alloc< Bytes<65> >::value && ext_alloc< Bytes<65> >::value, "T01.line|class of 65 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<65>, Type::Heap >::store ), Bytes<65> ** >::value, "T01.buffer|class of 65 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<66> >::value && ! inline_class_alloc< Bytes<66> >::value && ext_class_alloc< Bytes<66> >::value && ! ext_mem_alloc< Bytes<66> >::value, "T01.unique|class of 66 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<66> >::value && ! inline_alloc< Bytes<66> >::value && ext_alloc< Bytes<66> >::value, "T01.line|class of 66 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<66>, Type::Heap >::store ), Bytes<66> ** >::value, "T01.buffer|class of 66 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<72> >::value && ! inline_class_alloc< Bytes<72> >::value && ext_class_alloc< Bytes<72> >::value && ! ext_mem_alloc< Bytes<72> >::value, "T01.unique|class of 72 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<72> >::value && ! inline_alloc< Bytes<72> >::value && ext_alloc< Bytes<72> >::value, "T01.line|class of 72 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<72>, Type::Heap >::store ), Bytes<72> ** >::value, "T01.buffer|class of 72 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<96> >::value && ! inline_class_alloc< Bytes<96> >::value && ext_class_alloc< Bytes<96> >::value && ! ext_mem_alloc< Bytes<96> >::value, "T01.unique|class of 96 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<96> >::value && ! inline_alloc< Bytes<96> >::value && ext_alloc< Bytes<96> >::value, "T01.line|class of 96 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<96>, Type::Heap >::store ), Bytes<96> ** >::value, "T01.buffer|class of 96 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<127> >::value && ! inline_class_alloc< Bytes<127> >::value && ext_class_alloc< Bytes<127> >::value && ! ext_mem_alloc< Bytes<127> >::value, "T01.unique|class of 127 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<127> >::value && ! inline_alloc< Bytes<127> >::value && ext_alloc< Bytes<127> >::value, "T01.line|class of 127 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<127>, Type::Heap >::store ), Bytes<127> ** >::value, "T01.buffer|class of 127 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<128> >::value && ! inline_class_alloc< Bytes<128> >::value && ext_class_alloc< Bytes<128> >::value && ! ext_mem_alloc< Bytes<128> >::value, "T01.unique|class of 128 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<128> >::value && ! inline_alloc< Bytes<128> >::value && ext_alloc< Bytes<128> >::value, "T01.line|class of 128 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<128>, Type::Heap >::store ), Bytes<128> ** >::value, "T01.buffer|class of 128 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<129> >::value && ! inline_class_alloc< Bytes<129> >::value && ext_class_alloc< Bytes<129> >::value && ! ext_mem_alloc< Bytes<129> >::value, "T01.unique|class of 129 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<129> >::value && ! inline_alloc< Bytes<129> >::value && ext_alloc< Bytes<129> >::value, "T01.line|class of 129 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<129>, Type::Heap >::store ), Bytes<129> ** >::value, "T01.buffer|class of 129 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<256> >::value && ! inline_class_alloc< Bytes<256> >::value && ext_class_alloc< Bytes<256> >::value && ! ext_mem_alloc< Bytes<256> >::value, "T01.unique|class of 256 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<256> >::value && ! inline_alloc< Bytes<256> >::value && ext_alloc< Bytes<256> >::value, "T01.line|class of 256 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<256>, Type::Heap >::store ), Bytes<256> ** >::value, "T01.buffer|class of 256 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<1024> >::value && ! inline_class_alloc< Bytes<1024> >::value && ext_class_alloc< Bytes<1024> >::value && ! ext_mem_alloc< Bytes<1024> >::value, "T01.unique|class of 1024 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<1024> >::value && ! inline_alloc< Bytes<1024> >::value && ext_alloc< Bytes<1024> >::value, "T01.line|class of 1024 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<1024>, Type::Heap >::store ), Bytes<1024> ** >::value, "T01.buffer|class of 1024 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Bytes<65536> >::value && ! inline_class_alloc< Bytes<65536> >::value && ext_class_alloc< Bytes<65536> >::value && ! ext_mem_alloc< Bytes<65536> >::value, "T01.unique|class of 65536 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Bytes<65536> >::value && ! inline_alloc< Bytes<65536> >::value && ext_alloc< Bytes<65536> >::value, "T01.line|class of 65536 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Bytes<65536>, Type::Heap >::store ), Bytes<65536> ** >::value, "T01.buffer|class of 65536 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Triv<64> >::value && inline_class_alloc< Triv<64> >::value && ! ext_class_alloc< Triv<64> >::value && ! ext_mem_alloc< Triv<64> >::value, "T01.unique|trivial struct of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Triv<64> >::value && inline_alloc< Triv<64> >::value && ! ext_alloc< Triv<64> >::value, "T01.line|trivial struct of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Triv<64>, Type::Heap >::store ), Triv<64> * >::value, "T01.buffer|trivial struct of 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Triv<65> >::value && ! inline_class_alloc< Triv<65> >::value && ext_class_alloc< Triv<65> >::value && ! ext_mem_alloc< Triv<65> >::value, "T01.unique|trivial struct of 65 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Triv<65> >::value && ! inline_alloc< Triv<65> >::value && ext_alloc< Triv<65> >::value, "T01.line|trivial struct of 65 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Triv<65>, Type::Heap >::store ), Triv<65> ** >::value, "T01.buffer|trivial struct of 65 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< NoDef<64> >::value && inline_class_alloc< NoDef<64> >::value && ! ext_class_alloc< NoDef<64> >::value && ! ext_mem_alloc< NoDef<64> >::value, "T01.unique|class without default constructor, 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< NoDef<64> >::value && inline_alloc< NoDef<64> >::value && ! ext_alloc< NoDef<64> >::value, "T01.line|class without default constructor, 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< NoDef<64>, Type::Heap >::store ), NoDef<64> * >::value, "T01.buffer|class without default constructor, 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< NoDef<65> >::value && ! inline_class_alloc< NoDef<65> >::value && ext_class_alloc< NoDef<65> >::value && ! ext_mem_alloc< NoDef<65> >::value, "T01.unique|class without default constructor, 65 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< NoDef<65> >::value && ! inline_alloc< NoDef<65> >::value && ext_alloc< NoDef<65> >::value, "T01.line|class without default constructor, 65 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< NoDef<65>, Type::Heap >::store ), NoDef<65> ** >::value, "T01.buffer|class without default constructor, 65 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Poly<56> >::value && inline_class_alloc< Poly<56> >::value && ! ext_class_alloc< Poly<56> >::value && ! ext_mem_alloc< Poly<56> >::value, "T01.unique|polymorphic class of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Poly<56> >::value && inline_alloc< Poly<56> >::value && ! ext_alloc< Poly<56> >::value, "T01.line|polymorphic class of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Poly<56>, Type::Heap >::store ), Poly<56> * >::value, "T01.buffer|polymorphic class of 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Poly<64> >::value && ! inline_class_alloc< Poly<64> >::value && ext_class_alloc< Poly<64> >::value && ! ext_mem_alloc< Poly<64> >::value, "T01.unique|polymorphic class of 72 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Poly<64> >::value && ! inline_alloc< Poly<64> >::value && ext_alloc< Poly<64> >::value, "T01.line|polymorphic class of 72 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Poly<64>, Type::Heap >::store ), Poly<64> ** >::value, "T01.buffer|polymorphic class of 72 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Al >::value && inline_class_alloc< Al >::value && ! ext_class_alloc< Al >::value && ! ext_mem_alloc< Al >::value, "T01.unique|aligned class of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Al >::value && inline_alloc< Al >::value && ! ext_alloc< Al >::value, "T01.line|aligned class of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Al, Type::Heap >::store ), Al * >::value, "T01.buffer|aligned class of 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Al2 >::value && ! inline_class_alloc< Al2 >::value && ext_class_alloc< Al2 >::value && ! ext_mem_alloc< Al2 >::value, "T01.unique|over-aligned class of 128 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Al2 >::value && ! inline_alloc< Al2 >::value && ext_alloc< Al2 >::value, "T01.line|over-aligned class of 128 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Al2, Type::Heap >::store ), Al2 ** >::value, "T01.buffer|over-aligned class of 128 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< Empty >::value && inline_class_alloc< Empty >::value && ! ext_class_alloc< Empty >::value && ! ext_mem_alloc< Empty >::value, "T01.unique|empty class: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Empty >::value && inline_alloc< Empty >::value && ! ext_alloc< Empty >::value, "T01.line|empty class: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Empty, Type::Heap >::store ), Empty * >::value, "T01.buffer|empty class: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< std::string >::value && inline_class_alloc< std::string >::value && ! ext_class_alloc< std::string >::value && ! ext_mem_alloc< std::string >::value, "T01.unique|std::string: exactly one class, in place, class" );
static_assert( fits_in_cache_line< std::string >::value && inline_alloc< std::string >::value && ! ext_alloc< std::string >::value, "T01.line|std::string: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< std::string, Type::Heap >::store ), std::string * >::value, "T01.buffer|std::string: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< std::vector<int> >::value && inline_class_alloc< std::vector<int> >::value && ! ext_class_alloc< std::vector<int> >::value && ! ext_mem_alloc< std::vector<int> >::value, "T01.unique|std::vector<int>: exactly one class, in place, class" );
static_assert( fits_in_cache_line< std::vector<int> >::value && inline_alloc< std::vector<int> >::value && ! ext_alloc< std::vector<int> >::value, "T01.line|std::vector<int>: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< std::vector<int>, Type::Heap >::store ), std::vector<int> * >::value, "T01.buffer|std::vector<int>: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Fin<64> >::value && inline_class_alloc< Fin<64> >::value && ! ext_class_alloc< Fin<64> >::value && ! ext_mem_alloc< Fin<64> >::value, "T01.unique|final class of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< Fin<64> >::value && inline_alloc< Fin<64> >::value && ! ext_alloc< Fin<64> >::value, "T01.line|final class of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< Fin<64>, Type::Heap >::store ), Fin<64> * >::value, "T01.buffer|final class of 64 bytes: the buffer holds the elements themselves" );
static_assert( ! inline_nonclass_alloc< Fin<65> >::value && ! inline_class_alloc< Fin<65> >::value && ext_class_alloc< Fin<65> >::value && ! ext_mem_alloc< Fin<65> >::value, "T01.unique|final class of 65 bytes: exactly one class, out of line, class" );
static_assert( ! fits_in_cache_line< Fin<65> >::value && ! inline_alloc< Fin<65> >::value && ext_alloc< Fin<65> >::value, "T01.line|final class of 65 bytes: exceeds the cache line and is kept out of line" );
static_assert( same< decltype( Buffer::Data< Fin<65>, Type::Heap >::store ), Fin<65> ** >::value, "T01.buffer|final class of 65 bytes: the buffer holds pointers to the elements" );
static_assert( ! inline_nonclass_alloc< NoCopy<64> >::value && inline_class_alloc< NoCopy<64> >::value && ! ext_class_alloc< NoCopy<64> >::value && ! ext_mem_alloc< NoCopy<64> >::value, "T01.unique|not copyable class of 64 bytes: exactly one class, in place, class" );
static_assert( fits_in_cache_line< NoCopy<64> >::value && inline_alloc< NoCopy<64> >::value && ! ext_alloc< NoCopy<64> >::value, "T01.line|not copyable class of 64 bytes: fits the cache line and is kept in place" );
static_assert( same< decltype( Buffer::Data< NoCopy<64>, Type::Heap >::store ), NoCopy<64> * >::value, "T01.buffer|not copyable class of 64 bytes: the buffer holds the elements themselves" );
static_assert( L1D_CACHE_LINE_SIZE == 64, "T01.cfg|the analysed configuration has a cache line of 64 bytes" );
} // namespace wit
