#include <cstdint>
#include <string>
#include <shm>
#include <affinity>
#include "demangle.hpp"
#include <cxxabi.h>
#include <cstdlib>
#include <map>
#include <mutex>
static std::map<std::string,void*> segs; static std::mutex m;
void *shm::init(const std::string &k,std::size_t n,bool,void*){ std::lock_guard<std::mutex> g(m); if(segs.count(k)) throw bad_shm_alloc("exists"); return segs[k]=calloc(1,n);} 
void *shm::open(const std::string &k){ std::lock_guard<std::mutex> g(m); if(!segs.count(k)) throw bad_shm_alloc("none"); return segs[k];}
bool shm::close(const std::string &k,void**p,std::size_t,bool,bool unlink){ std::lock_guard<std::mutex> g(m); *p=nullptr; if(unlink) segs.erase(k); return true;}
bool raft::affinity::set(std::size_t){return true;}
std::string raft::demangle(const char*n){int s; char*c=abi::__cxa_demangle(n,0,0,&s); std::string r=c?c:n; free(c); return r;}
