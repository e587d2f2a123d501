P=["PortNotFoundException","PortDoubleInitializeException","PortTypeMismatchException","AmbiguousPortAssignmentException","ClosedPortAccessException","NoMoreDataException","PortAlreadyExists","PortUnconnectedException"]
fam={**{p:"PortException" for p in P},"CloneNotImplementedException":"KernelException","InvalidTopologyOperationException":"MapException"}
F=["PortException","KernelException","MapException"]
o=['/** generated by tools/gene01.py: the exception hierarchy **/','#include <raft>','#include "raftinc/portexception.hpp"','#include "raftinc/mapexception.hpp"','#include "raftinc/kernelexception.hpp"','#include "raftinc/systemsignalhandler.hpp"','#include <type_traits>','namespace wit {','template < class D, class B > constexpr bool is = std::is_convertible< D *, B * >::value;']
def a(r,c,t): o.append('static_assert( %s, "E01.%s|%s" );'%(c,r,t))
for e,f in fam.items():
    a("kind","is< %s, %s > && is< %s, RaftException > && is< %s, std::exception >"%(e,f,e,e),"%s is a %s, a RaftException and a std::exception"%(e,f))
    a("only"," && ".join("! is< %s, %s >"%(e,x) for x in F if x!=f),"%s belongs to no other family"%e)
    a("only"," && ".join("! is< %s, %s >"%(e,x) for x in fam if x!=e),"%s is no other kind of error"%e)
    a("make","std::is_constructible< %s, std::string >::value && std::is_copy_constructible< %s >::value"%(e,e),"%s is made from a message and can be copied"%e)
for f in F:
    a("kind","is< %s, RaftException > && is< %s, std::exception >"%(f,f),"%s is a RaftException and a std::exception"%f)
    a("only"," && ".join("! is< %s, %s >"%(f,x) for x in F if x!=f),"%s is no other family"%f)
a("kind","is< RaftException, std::exception >","RaftException is a std::exception")
a("kind","is< NoSignalHandlerFoundException, std::exception > && "+" && ".join("! is< NoSignalHandlerFoundException, %s >"%x for x in F),"NoSignalHandlerFoundException is a std::exception and no port, kernel or map error")
a("poly","std::is_polymorphic< RaftException >::value","RaftException is polymorphic")
o.append("} // namespace wit")
open("/verif/frontend/wit_e01.cpp","w").write("\n".join(o)+"\n")
