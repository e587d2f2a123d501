/** generated by tools/gene01.py: the exception hierarchy **/
#include <raft>
#include "raftinc/portexception.hpp"
#include "raftinc/mapexception.hpp"
#include "raftinc/kernelexception.hpp"
#include "raftinc/systemsignalhandler.hpp"
#include <type_traits>
namespace wit {
template < class D, class B > constexpr bool is = std::is_convertible< D *, B * >::value;
static_assert( is< PortNotFoundException, PortException > && is< PortNotFoundException, RaftException > && is< PortNotFoundException, std::exception >, "E01.kind|PortNotFoundException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< PortNotFoundException, KernelException > && ! is< PortNotFoundException, MapException >, "E01.only|PortNotFoundException belongs to no other family" );
static_assert( ! is< PortNotFoundException, PortDoubleInitializeException > && ! is< PortNotFoundException, PortTypeMismatchException > && ! is< PortNotFoundException, AmbiguousPortAssignmentException > && ! is< PortNotFoundException, ClosedPortAccessException > && ! is< PortNotFoundException, NoMoreDataException > && ! is< PortNotFoundException, PortAlreadyExists > && ! is< PortNotFoundException, PortUnconnectedException > && ! is< PortNotFoundException, CloneNotImplementedException > && ! is< PortNotFoundException, InvalidTopologyOperationException >, "E01.only|PortNotFoundException is no other kind of error" );
static_assert( std::is_constructible< PortNotFoundException, std::string >::value && std::is_copy_constructible< PortNotFoundException >::value, "E01.make|PortNotFoundException is made from a message and can be copied" );
static_assert( is< PortDoubleInitializeException, PortException > && is< PortDoubleInitializeException, RaftException > && is< PortDoubleInitializeException, std::exception >, "E01.kind|PortDoubleInitializeException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< PortDoubleInitializeException, KernelException > && ! is< PortDoubleInitializeException, MapException >, "E01.only|PortDoubleInitializeException belongs to no other family" );
static_assert( ! is< PortDoubleInitializeException, PortNotFoundException > && ! is< PortDoubleInitializeException, PortTypeMismatchException > && ! is< PortDoubleInitializeException, AmbiguousPortAssignmentException > && ! is< PortDoubleInitializeException, ClosedPortAccessException > && ! is< PortDoubleInitializeException, NoMoreDataException > && ! is< PortDoubleInitializeException, PortAlreadyExists > && ! is< PortDoubleInitializeException, PortUnconnectedException > && ! is< PortDoubleInitializeException, CloneNotImplementedException > && ! is< PortDoubleInitializeException, InvalidTopologyOperationException >, "E01.only|PortDoubleInitializeException is no other kind of error" );
static_assert( std::is_constructible< PortDoubleInitializeException, std::string >::value && std::is_copy_constructible< PortDoubleInitializeException >::value, "E01.make|PortDoubleInitializeException is made from a message and can be copied" );
static_assert( is< PortTypeMismatchException, PortException > && is< PortTypeMismatchException, RaftException > && is< PortTypeMismatchException, std::exception >, "E01.kind|PortTypeMismatchException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< PortTypeMismatchException, KernelException > && ! is< PortTypeMismatchException, MapException >, "E01.only|PortTypeMismatchException belongs to no other family" );
static_assert( ! is< PortTypeMismatchException, PortNotFoundException > && ! is< PortTypeMismatchException, PortDoubleInitializeException > && ! is< PortTypeMismatchException, AmbiguousPortAssignmentException > && ! is< PortTypeMismatchException, ClosedPortAccessException > && ! is< PortTypeMismatchException, NoMoreDataException > && ! is< PortTypeMismatchException, PortAlreadyExists > && ! is< PortTypeMismatchException, PortUnconnectedException > && ! is< PortTypeMismatchException, CloneNotImplementedException > && ! is< PortTypeMismatchException, InvalidTopologyOperationException >, "E01.only|PortTypeMismatchException is no other kind of error" );
static_assert( std::is_constructible< PortTypeMismatchException, std::string >::value && std::is_copy_constructible< PortTypeMismatchException >::value, "E01.make|PortTypeMismatchException is made from a message and can be copied" );
static_assert( is< AmbiguousPortAssignmentException, PortException > && is< AmbiguousPortAssignmentException, RaftException > && is< AmbiguousPortAssignmentException, std::exception >, "E01.kind|AmbiguousPortAssignmentException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< AmbiguousPortAssignmentException, KernelException > && ! is< AmbiguousPortAssignmentException, MapException >, "E01.only|AmbiguousPortAssignmentException belongs to no other family" );
static_assert( ! is< AmbiguousPortAssignmentException, PortNotFoundException > && ! is< AmbiguousPortAssignmentException, PortDoubleInitializeException > && ! is< AmbiguousPortAssignmentException, PortTypeMismatchException > && ! is< AmbiguousPortAssignmentException, ClosedPortAccessException > && ! is< AmbiguousPortAssignmentException, NoMoreDataException > && ! is< AmbiguousPortAssignmentException, PortAlreadyExists > && ! is< AmbiguousPortAssignmentException, PortUnconnectedException > && ! is< AmbiguousPortAssignmentException, CloneNotImplementedException > && ! is< AmbiguousPortAssignmentException, InvalidTopologyOperationException >, "E01.only|AmbiguousPortAssignmentException is no other kind of error" );
static_assert( std::is_constructible< AmbiguousPortAssignmentException, std::string >::value && std::is_copy_constructible< AmbiguousPortAssignmentException >::value, "E01.make|AmbiguousPortAssignmentException is made from a message and can be copied" );
static_assert( is< ClosedPortAccessException, PortException > && is< ClosedPortAccessException, RaftException > && is< ClosedPortAccessException, std::exception >, "E01.kind|ClosedPortAccessException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< ClosedPortAccessException, KernelException > && ! is< ClosedPortAccessException, MapException >, "E01.only|ClosedPortAccessException belongs to no other family" );
static_assert( ! is< ClosedPortAccessException, PortNotFoundException > && ! is< ClosedPortAccessException, PortDoubleInitializeException > && ! is< ClosedPortAccessException, PortTypeMismatchException > && ! is< ClosedPortAccessException, AmbiguousPortAssignmentException > && ! is< ClosedPortAccessException, NoMoreDataException > && ! is< ClosedPortAccessException, PortAlreadyExists > && ! is< ClosedPortAccessException, PortUnconnectedException > && ! is< ClosedPortAccessException, CloneNotImplementedException > && ! is< ClosedPortAccessException, InvalidTopologyOperationException >, "E01.only|ClosedPortAccessException is no other kind of error" );
static_assert( std::is_constructible< ClosedPortAccessException, std::string >::value && std::is_copy_constructible< ClosedPortAccessException >::value, "E01.make|ClosedPortAccessException is made from a message and can be copied" );
static_assert( is< NoMoreDataException, PortException > && is< NoMoreDataException, RaftException > && is< NoMoreDataException, std::exception >, "E01.kind|NoMoreDataException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< NoMoreDataException, KernelException > && ! is< NoMoreDataException, MapException >, "E01.only|NoMoreDataException belongs to no other family" );
static_assert( ! is< NoMoreDataException, PortNotFoundException > && ! is< NoMoreDataException, PortDoubleInitializeException > && ! is< NoMoreDataException, PortTypeMismatchException > && ! is< NoMoreDataException, AmbiguousPortAssignmentException > && ! is< NoMoreDataException, ClosedPortAccessException > && ! is< NoMoreDataException, PortAlreadyExists > && ! is< NoMoreDataException, PortUnconnectedException > && ! is< NoMoreDataException, CloneNotImplementedException > && ! is< NoMoreDataException, InvalidTopologyOperationException >, "E01.only|NoMoreDataException is no other kind of error" );
static_assert( std::is_constructible< NoMoreDataException, std::string >::value && std::is_copy_constructible< NoMoreDataException >::value, "E01.make|NoMoreDataException is made from a message and can be copied" );
static_assert( is< PortAlreadyExists, PortException > && is< PortAlreadyExists, RaftException > && is< PortAlreadyExists, std::exception >, "E01.kind|PortAlreadyExists is a PortException, a RaftException and a std::exception" );
static_assert( ! is< PortAlreadyExists, KernelException > && ! is< PortAlreadyExists, MapException >, "E01.only|PortAlreadyExists belongs to no other family" );
static_assert( ! is< PortAlreadyExists, PortNotFoundException > && ! is< PortAlreadyExists, PortDoubleInitializeException > && ! is< PortAlreadyExists, PortTypeMismatchException > && ! is< PortAlreadyExists, AmbiguousPortAssignmentException > && ! is< PortAlreadyExists, ClosedPortAccessException > && ! is< PortAlreadyExists, NoMoreDataException > && ! is< PortAlreadyExists, PortUnconnectedException > && ! is< PortAlreadyExists, CloneNotImplementedException > && ! is< PortAlreadyExists, InvalidTopologyOperationException >, "E01.only|PortAlreadyExists is no other kind of error" );
static_assert( std::is_constructible< PortAlreadyExists, std::string >::value && std::is_copy_constructible< PortAlreadyExists >::value, "E01.make|PortAlreadyExists is made from a message and can be copied" );
static_assert( is< PortUnconnectedException, PortException > && is< PortUnconnectedException, RaftException > && is< PortUnconnectedException, std::exception >, "E01.kind|PortUnconnectedException is a PortException, a RaftException and a std::exception" );
static_assert( ! is< PortUnconnectedException, KernelException > && ! is< PortUnconnectedException, MapException >, "E01.only|PortUnconnectedException belongs to no other family" );
static_assert( ! is< PortUnconnectedException, PortNotFoundException > && ! is< PortUnconnectedException, PortDoubleInitializeException > && ! is< PortUnconnectedException, PortTypeMismatchException > && ! is< PortUnconnectedException, AmbiguousPortAssignmentException > && ! is< PortUnconnectedException, ClosedPortAccessException > && ! is< PortUnconnectedException, NoMoreDataException > && ! is< PortUnconnectedException, PortAlreadyExists > && ! is< PortUnconnectedException, CloneNotImplementedException > && ! is< PortUnconnectedException, InvalidTopologyOperationException >, "E01.only|PortUnconnectedException is no other kind of error" );
static_assert( std::is_constructible< PortUnconnectedException, std::string >::value && std::is_copy_constructible< PortUnconnectedException >::value, "E01.make|PortUnconnectedException is made from a message and can be copied" );
static_assert( is< CloneNotImplementedException, KernelException > && is< CloneNotImplementedException, RaftException > && is< CloneNotImplementedException, std::exception >, "E01.kind|CloneNotImplementedException is a KernelException, a RaftException and a std::exception" );
static_assert( ! is< CloneNotImplementedException, PortException > && ! is< CloneNotImplementedException, MapException >, "E01.only|CloneNotImplementedException belongs to no other family" );
static_assert( ! is< CloneNotImplementedException, PortNotFoundException > && ! is< CloneNotImplementedException, PortDoubleInitializeException > && ! is< CloneNotImplementedException, PortTypeMismatchException > && ! is< CloneNotImplementedException, AmbiguousPortAssignmentException > && ! is< CloneNotImplementedException, ClosedPortAccessException > && ! is< CloneNotImplementedException, NoMoreDataException > && ! is< CloneNotImplementedException, PortAlreadyExists > && ! is< CloneNotImplementedException, PortUnconnectedException > && ! is< CloneNotImplementedException, InvalidTopologyOperationException >, "E01.only|CloneNotImplementedException is no other kind of error" );
static_assert( std::is_constructible< CloneNotImplementedException, std::string >::value && std::is_copy_constructible< CloneNotImplementedException >::value, "E01.make|CloneNotImplementedException is made from a message and can be copied" );
static_assert( is< InvalidTopologyOperationException, MapException > && is< InvalidTopologyOperationException, RaftException > && is< InvalidTopologyOperationException, std::exception >, "E01.kind|InvalidTopologyOperationException is a MapException, a RaftException and a std::exception" );
static_assert( ! is< InvalidTopologyOperationException, PortException > && ! is< InvalidTopologyOperationException, KernelException >, "E01.only|InvalidTopologyOperationException belongs to no other family" );
static_assert( ! is< InvalidTopologyOperationException, PortNotFoundException > && ! is< InvalidTopologyOperationException, PortDoubleInitializeException > && ! is< InvalidTopologyOperationException, PortTypeMismatchException > && ! is< InvalidTopologyOperationException, AmbiguousPortAssignmentException > && ! is< InvalidTopologyOperationException, ClosedPortAccessException > && ! is< InvalidTopologyOperationException, NoMoreDataException > && ! is< InvalidTopologyOperationException, PortAlreadyExists > && ! is< InvalidTopologyOperationException, PortUnconnectedException > && ! is< InvalidTopologyOperationException, CloneNotImplementedException >, "E01.only|InvalidTopologyOperationException is no other kind of error" );
static_assert( std::is_constructible< InvalidTopologyOperationException, std::string >::value && std::is_copy_constructible< InvalidTopologyOperationException >::value, "E01.make|InvalidTopologyOperationException is made from a message and can be copied" );
static_assert( is< PortException, RaftException > && is< PortException, std::exception >, "E01.kind|PortException is a RaftException and a std::exception" );
static_assert( ! is< PortException, KernelException > && ! is< PortException, MapException >, "E01.only|PortException is no other family" );
static_assert( is< KernelException, RaftException > && is< KernelException, std::exception >, "E01.kind|KernelException is a RaftException and a std::exception" );
static_assert( ! is< KernelException, PortException > && ! is< KernelException, MapException >, "E01.only|KernelException is no other family" );
static_assert( is< MapException, RaftException > && is< MapException, std::exception >, "E01.kind|MapException is a RaftException and a std::exception" );
static_assert( ! is< MapException, PortException > && ! is< MapException, KernelException >, "E01.only|MapException is no other family" );
static_assert( is< RaftException, std::exception >, "E01.kind|RaftException is a std::exception" );
static_assert( is< NoSignalHandlerFoundException, std::exception > && ! is< NoSignalHandlerFoundException, PortException > && ! is< NoSignalHandlerFoundException, KernelException > && ! is< NoSignalHandlerFoundException, MapException >, "E01.kind|NoSignalHandlerFoundException is a std::exception and no port, kernel or map error" );
static_assert( std::is_polymorphic< RaftException >::value, "E01.poly|RaftException is polymorphic" );
} // namespace wit
