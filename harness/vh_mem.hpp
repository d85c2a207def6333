// Allocation tracking: interposes calloc/free of the process so that every
// buffer the library allocates has an identity, a size and a live flag.  Freed
// buffers are kept in quarantine (overwritten, never reused), so a dangling
// pointer is recognisable.
#ifndef VH_MEM_HPP
#define VH_MEM_HPP
#include "vh.hpp"
extern "C" { void *__libc_calloc(size_t,size_t); void __libc_free(void*); void *__libc_malloc(size_t); }
namespace vh { namespace mem {
struct Block { char*p; size_t sz; bool live; int id; };
static std::map<char*,Block> *blocks=0;   // keyed by start
static bool on=false; static int next_id=0; static int live_n=0;
static std::vector<std::string> *faults=0;
struct Ext { char*p; size_t sz; };
static std::vector<Ext> *exts=0;
static bool busy=false;
inline Block *find(const void*q){ char*p=(char*)q; if(!blocks||blocks->empty()) return 0; std::map<char*,Block>::iterator it=blocks->upper_bound(p); if(it==blocks->begin()) return 0; --it; Block&b=it->second; size_t sz=b.sz?b.sz:1; if(p>=b.p&&p<b.p+sz) return &b; return 0; }
inline void start(){ if(!blocks){ blocks=new std::map<char*,Block>(); faults=new std::vector<std::string>(); exts=new std::vector<Ext>(); } on=true; }
// forget everything that is dead (between histories)
inline void sweep(){ on=false; std::map<char*,Block>::iterator it=blocks->begin(); while(it!=blocks->end()){ __libc_free(it->first); it=blocks->erase(it);} live_n=0; faults->clear(); }
}}
extern "C" void *calloc(size_t n,size_t s){
  using namespace vh::mem;
  void *p=__libc_calloc(n*s?n:1,n*s?s:1);
  if(on&&!busy){ busy=true; Block b={(char*)p,n*s,true,next_id++}; (*blocks)[(char*)p]=b; if(n*s) live_n++; busy=false; }
  return p;
}
extern "C" void free(void*p){
  using namespace vh::mem;
  if(!p) return;
  if(on&&!busy){
    busy=true;
    for(size_t i=0;i<exts->size();i++) if((char*)p>=(*exts)[i].p&&(char*)p<(*exts)[i].p+(*exts)[i].sz){ faults->push_back("external_freed"); busy=false; return; }
    std::map<char*,Block>::iterator it=blocks->find((char*)p);
    if(it!=blocks->end()){
      if(!it->second.live) faults->push_back("double_free");
      else { it->second.live=false; if(it->second.sz){ live_n--; memset(p,0xDD,it->second.sz);} }
      busy=false; return;
    }
    if(find(p)){ faults->push_back("interior_free"); busy=false; return; }
    busy=false;
  }
  __libc_free(p);
}
#endif
