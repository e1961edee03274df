// C10: programs with odd options, batch sizes and set sizes under AddressSanitizer and UndefinedBehaviorSanitizer; the same
// programs are run with different contents of fresh heap and stack memory, and their results are compared afterwards.
#include "ops.h"
static void dirtyStack(){ volatile double a[3000]; for(int i=0;i<3000;++i) a[i]=std::nan(""); }
static void c10(Ctx& c){ ProgOpt po; po.odd=true; dirtyStack(); program(c,po); }
static Reg r10("C10",c10);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
