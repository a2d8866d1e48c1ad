// Concrete replay: exhaustive small cases and seeded random cases against the real code.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <csignal>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <random>
#include <iostream>
#include <unistd.h>
#include <time.h>
namespace H {
extern std::string g_case;
extern long g_cases;
extern std::set<uint64_t> g_seen;
extern std::vector<std::string> g_samples;
void fail(const std::string& what);            // does not return
extern double g_budget; extern double g_start; // seconds
double now();
inline bool time_left() { return now()-g_start < g_budget; }
inline void begin(const std::string& c) {
  g_case=c; ++g_cases; alarm(20);
  if (g_seen.size()<2000000) { uint64_t h=1469598103934665603ull; for(char x: c) { h^=(unsigned char)x; h*=1099511628211ull; } g_seen.insert(h); }
  if (g_samples.size()<3 && g_cases%37==1) g_samples.push_back(c);
}
#define CHECK(x, msg) do { if (!(x)) { std::ostringstream o_; o_ << msg; H::fail(o_.str()); } } while(0)
struct Rng { uint64_t s; explicit Rng(uint64_t x): s(x*2862933555777941757ull+3037000493ull) {}
  uint64_t next() { s^=s<<13; s^=s>>7; s^=s<<17; return s; }
  int operator()(int n) { return n<=0?0:int(next()%uint64_t(n)); }
  int range(int a,int b) { return a+(*this)(b-a+1); } };
extern uint64_t g_seed;
size_t live_blocks(const void* allocator);     // shadow allocator: blocks in use
size_t live_bytes(const void* allocator);
bool shadow();
typedef std::map<std::string, std::function<void()> > Tests;
Tests& tests();
struct Reg { Reg(const char* n, std::function<void()> f) { tests()[n]=f; } };
}
#define TEST(id) static void t_##id(); static H::Reg r_##id(#id, t_##id); static void t_##id()
