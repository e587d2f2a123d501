T=[]  # (name,type,class)
for n,t in [("bool","bool"),("char","char"),("short","short"),("int","int"),("long","long"),("unsigned long long","unsigned long long"),("float","float"),("double","double"),("long double","long double"),("wchar_t","wchar_t"),("char16_t","char16_t"),("nullptr_t","std::nullptr_t"),("__int128","__int128")]:
    if t=="__int128": continue
    T.append((n,t,"num"))
for k in (1,2,8,63,64): T.append(("char[%d]"%k,"char[%d]"%k,"num"))
for k in (65,66,100,128,129,4096): T.append(("char[%d]"%k,"char[%d]"%k,"extmem"))
T+= [("long[8]","long[8]","num"),("long[9]","long[9]","extmem"),("int[4][4]","int[4][4]","num"),("int[4][5]","int[4][5]","extmem"),("Bytes<1>[64]","Bytes<1>[64]","num"),("Bytes<1>[65]","Bytes<1>[65]","extmem")]
for k in (1,2,3,8,16,32,33,48,62,63,64): T.append(("class of %d bytes"%k,"Bytes<%d>"%k,"cls"))
for k in (65,66,72,96,127,128,129,256,1024,65536): T.append(("class of %d bytes"%k,"Bytes<%d>"%k,"extcls"))
T+= [("trivial struct of 64 bytes","Triv<64>","cls"),("trivial struct of 65 bytes","Triv<65>","extcls"),
 ("class without default constructor, 64 bytes","NoDef<64>","cls"),("class without default constructor, 65 bytes","NoDef<65>","extcls"),
 ("polymorphic class of 64 bytes","Poly<56>","cls"),("polymorphic class of 72 bytes","Poly<64>","extcls"),
 ("aligned class of 64 bytes","Al","cls"),("over-aligned class of 128 bytes","Al2","extcls"),
 ("empty class","Empty","cls"),("std::string","std::string","cls"),("std::vector<int>","std::vector<int>","cls"),("final class of 64 bytes","Fin<64>","cls"),("final class of 65 bytes","Fin<65>","extcls"),
 ("not copyable class of 64 bytes","NoCopy<64>","cls")]
o=['/** generated by tools/gent01.py: every storage class decision, type by type **/','#include <cstdint>','#include <string>','#include <vector>','#include <cstddef>','#include <raft>','#include "raftinc/alloc_traits.tcc"','''namespace wit {
template < std::size_t N > struct Bytes { Bytes(); Bytes( const Bytes & ); ~Bytes(); char b[ N ]; };
template < std::size_t N > struct Triv { char b[ N ]; };
template < std::size_t N > struct NoDef { NoDef( int ); NoDef( const NoDef & ); ~NoDef(); char b[ N ]; };
template < std::size_t N > struct Poly { Poly(); virtual ~Poly(); char b[ N ]; };
template < std::size_t N > struct Fin final { Fin(); char b[ N ]; };
template < std::size_t N > struct NoCopy { NoCopy(); NoCopy( const NoCopy & ) = delete; char b[ N ]; };
struct alignas( 64 ) Al { int a; };
struct alignas( 128 ) Al2 { int a; };
struct Empty {};
template < class A, class B > struct same { static constexpr bool value = false; };
template < class A > struct same< A, A > { static constexpr bool value = true; };
''']
for n,t,c in T:
    v=dict(nn=c=="num",ic=c=="cls",ec=c=="extcls",em=c=="extmem")
    def a(rule,cond,txt): o.append('static_assert( %s, "T01.%s|%s" );'%(cond,rule,txt))
    def neg(b,x): return x if b else "! "+x
    a("unique"," && ".join([neg(v["nn"],"inline_nonclass_alloc< %s >::value"%t),neg(v["ic"],"inline_class_alloc< %s >::value"%t),neg(v["ec"],"ext_class_alloc< %s >::value"%t),neg(v["em"],"ext_mem_alloc< %s >::value"%t)]),"%s: exactly one class, %s"%(n,{"num":"in place, not a class","cls":"in place, class","extcls":"out of line, class","extmem":"out of line, array"}[c]))
    a("line",neg(c in("num","cls"),"fits_in_cache_line< %s >::value"%t)+" && "+neg(c in("num","cls"),"inline_alloc< %s >::value"%t)+" && "+neg(c not in("num","cls"),"ext_alloc< %s >::value"%t),"%s: %s"%(n,"fits the cache line and is kept in place" if c in("num","cls") else "exceeds the cache line and is kept out of line"))
    if "[" not in t and c!="nullptr" and t!="std::nullptr_t" and "without copy" not in n:
        if c in("num","cls"): a("buffer","same< decltype( Buffer::Data< %s, Type::Heap >::store ), %s * >::value"%(t,t),"%s: the buffer holds the elements themselves"%n)
        else: a("buffer","same< decltype( Buffer::Data< %s, Type::Heap >::store ), %s ** >::value"%(t,t),"%s: the buffer holds pointers to the elements"%n)
o.append('static_assert( L1D_CACHE_LINE_SIZE == 64, "T01.cfg|the analysed configuration has a cache line of 64 bytes" );')
o.append("} // namespace wit")
open("/verif/frontend/wit_t01.cpp","w").write("\n".join(o)+"\n")
