#include "common.h"
namespace H {
std::string g_case="(start)"; long g_cases=0; std::set<uint64_t> g_seen; std::vector<std::string> g_samples; double g_budget=20, g_start=0; uint64_t g_seed=1;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static bool g_done=false;
static void report(const char* what) {
  if (g_done) return; g_done=true;
  std::fflush(stderr);
  std::printf("CASE-FAIL: %s :: %s\n", g_case.c_str(), what); std::fflush(stdout);
}
void fail(const std::string& w) { report(w.c_str()); _exit(1); }
Tests& tests() { static Tests t; return t; }
static void on_sig(int s) {
  report(s==SIGALRM ? "does not terminate within 20 s" : s==SIGSEGV ? "crash (SIGSEGV)" : s==SIGFPE ? "crash (SIGFPE)" : "crash (signal)"); _exit(1);
}
}
extern "C" void __asan_on_error() { H::report("memory error (AddressSanitizer)"); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:handle_segv=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
int main(int argc,char** argv) {
  signal(SIGALRM,H::on_sig); signal(SIGSEGV,H::on_sig); signal(SIGABRT,H::on_sig); signal(SIGFPE,H::on_sig); signal(SIGBUS,H::on_sig); signal(SIGILL,H::on_sig);
  if (argc>2) H::g_budget=atof(argv[2]);
  if (argc>3) H::g_seed=strtoull(argv[3],0,10);
  H::g_start=H::now();
  auto i=H::tests().find(argc>1?argv[1]:"");
  if (i==H::tests().end()) { std::printf("NOTEST\n"); return 3; }
  i->second(); alarm(0);
  std::printf("OK cases=%ld distinct=%zu shadow=%d\n", H::g_cases, H::g_seen.size(), (int)H::shadow());
  for(auto& s: H::g_samples) std::printf("SAMPLE %s\n", s.c_str());
  return 0;
}
