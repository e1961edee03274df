// C09: programs run on chosen thread schedules under ThreadSanitizer; their results are compared across thread counts.
#include "ops.h"
#include "minigomp.h"
static Ctx* cur=nullptr; static volatile long races=0;
// called while ThreadSanitizer holds its own locks: nothing instrumented (no library call) may run here
extern "C" __attribute__((no_sanitize_thread)) void __tsan_on_report(void*){ races=races+1; }
__attribute__((no_sanitize_thread)) static long raceCount(){ return races; }
static void c09(Ctx& c){ long r0=raceCount(); gomp::g_seed=mix(c.idx*77+(uint64_t)atoll(getenv("VH_SCHED")?getenv("VH_SCHED"):"1")); ProgOpt po; po.big=true; std::cerr<<"CASE "<<c.idx<<std::endl; program(c,po);
  long nr=raceCount()-r0; c.check(nr==0,"race:"+c.desc.substr(0,c.desc.find(' ')),[&]{return S()<<nr<<" data race report(s)";}); }
static Reg r09("C09",c09);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); doneFn(); int rc=run_main(argc,argv); std::cerr<<"GOMP regions="<<gomp::regions<<" serialized="<<gomp::serialized<<" delayed="<<gomp::delayed<<" orders="<<gomp::orders.size()<<std::endl; _exit(rc); }
