// Stand-in for the (absent) git submodule "demangle".
#ifndef STUB_DEMANGLE
#define STUB_DEMANGLE 1
#include <string>
namespace raft { std::string demangle(const char *name); }
#endif
