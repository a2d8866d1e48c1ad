// Stand-in for util/allocator.cpp: every block is a separate malloc block whose owner and size
// are checked when it comes back, so that AddressSanitizer sees every misuse.
#include <iostream>
#include <map>
#include <cstdlib>
#include "common.h"
#include "util/allocator.h"
typedef std::map<const void*, size_t> Blocks;
static std::map<const void*, Blocks>& owners() { static std::map<const void*, Blocks>* m=new std::map<const void*, Blocks>; return *m; }
namespace H {
size_t live_blocks(const void* a) { auto i=owners().find(a); return i==owners().end()?0:i->second.size(); }
size_t live_bytes(const void* a) { size_t r=0; auto i=owners().find(a); if (i!=owners().end()) for(auto& b: i->second) r+=b.second; return r; }
bool shadow() { return true; }
}
namespace GInv {
Allocator::Allocator(const Allocator&) {}
Allocator::~Allocator() {
  auto i=owners().find(this);
  if (i!=owners().end()) {
    if (!i->second.empty()) { std::ostringstream o; o << "allocator destroyed while " << i->second.size() << " block(s) are in use (leak)"; H::fail(o.str()); }
    owners().erase(i);
  }
}
void Allocator::swap(Allocator& a) {
  std::swap(mAlloc,a.mAlloc); std::swap(mSize,a.mSize); std::swap(owners()[this],owners()[&a]);
}
void* Allocator::allocate(size_t n) {
  if (n==0 || n>(size_t(1)<<34)) { std::ostringstream o; o << "allocation of " << n << " bytes"; H::fail(o.str()); }
  void* p=malloc(n); owners()[this][p]=n; size_t k=((n >> 4)+1) << 4; mSize+=k; mAlloc+=2*k; for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=0xA5; return p;
}
void Allocator::deallocate(const void* p, size_t n) {
  Blocks& b=owners()[this]; auto i=b.find(p);
  if (i==b.end()) H::fail("block given back that this allocator does not have in use (double free or wrong allocator)");
  if (i->second!=n) { std::ostringstream o; o << "block of " << i->second << " bytes given back as " << n << " bytes"; H::fail(o.str()); }
  b.erase(i); size_t k=((n >> 4)+1) << 4; mSize-=k; free((void*)p);
}
size_t Allocator::sCurrMemory = 0;
size_t Allocator::sMaxMemory = 0;
size_t Allocator::sLimitMemory = 0;
Timer  Allocator::sTimer;
}
