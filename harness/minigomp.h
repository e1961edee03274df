// A replacement for the few libgomp entry points the library and Kokkos use, on plain pthreads, so that ThreadSanitizer
// sees the real happens-before relation (fork and join only), and so that the order in which the threads of a region
// run can be chosen: all at once, one of them late, random delays, or one after another in a random order.
#pragma once
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <map>
#include <string>
#include <algorithm>
namespace gomp {
enum { MAXT=64 };
static thread_local int t_num=0, t_n=1, t_level=0;
struct Worker { pthread_t th; pthread_mutex_t m; pthread_cond_t cv; long gen=0, done=0; void (*fn)(void*)=nullptr; void* data=nullptr; int id=0,n=1,level=1; };
static Worker* W[MAXT]; static int g_max=0; static bool g_busy=false;
static uint64_t g_seed=1; static long regions=0, serialized=0, delayed=0; static std::map<std::string,long> orders;
// the schedule of the current region; read by the workers without any synchronisation that the race detector knows of
static volatile int g_turn=-1; static volatile int g_order[MAXT]; static volatile int g_wait[MAXT];
static uint64_t rnd(){ g_seed+=0x9e3779b97f4a7c15ULL; uint64_t z=g_seed; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
#define NOTSAN __attribute__((no_sanitize("thread"),noinline))
NOTSAN static void waitTurn(int id){
  int us=g_wait[id]; if(us>0){ double e=now()+us*1e-6; while(now()<e) sched_yield(); }
  if(g_turn<0) return; double e=now()+0.2; for(int k=0;;++k){ asm volatile("":::"memory"); int t=g_turn; if(t<0||g_order[t]==id) return; if(k>50) sched_yield(); if((k&255)==255&&now()>e) return; } }
NOTSAN static void passTurn(int id){ int t=g_turn; if(t>=0&&g_order[t]==id){ asm volatile("":::"memory"); g_turn=t+1; } }
NOTSAN static void plan(int n){ ++regions; for(int i=0;i<n;++i) g_wait[i]=0; g_turn=-1; int mode=int(rnd()%8);
  if(mode<4){ int o[MAXT]; for(int i=0;i<n;++i) o[i]=i; for(int i=n;i>1;--i) std::swap(o[i-1],o[rnd()%i]); std::string s; for(int i=0;i<n;++i){ g_order[i]=o[i]; s+=char('0'+o[i]); } g_order[n]=-1; ++serialized; if(orders.size()<5000) ++orders[s]; g_turn=0; }
  else if(mode==4){ g_wait[rnd()%n]=int(rnd()%300); ++delayed; } else if(mode==5){ for(int i=0;i<n;++i) g_wait[i]=int(rnd()%100); ++delayed; } }
static void* loop(void* p){ Worker& w=*(Worker*)p; long seen=0; for(;;){
    pthread_mutex_lock(&w.m); while(w.gen==seen) pthread_cond_wait(&w.cv,&w.m); seen=w.gen; void (*fn)(void*)=w.fn; void* d=w.data; int n=w.n,l=w.level; pthread_mutex_unlock(&w.m);
    t_num=w.id; t_n=n; t_level=l; waitTurn(w.id); fn(d); passTurn(w.id); t_n=1; t_level=0;
    pthread_mutex_lock(&w.m); w.done=seen; pthread_cond_broadcast(&w.cv); pthread_mutex_unlock(&w.m); } return nullptr; }
static int maxThreads(){ if(!g_max){ const char* e=getenv("OMP_NUM_THREADS"); g_max= e&&atoi(e)>0? atoi(e) : 4; if(g_max>MAXT-1) g_max=MAXT-1; } return g_max; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*),void* data,unsigned nt,unsigned){ using namespace gomp;
  int n= nt? int(nt) : maxThreads(); if(n>MAXT-1) n=MAXT-1; if(t_level>0||g_busy) n=1;
  if(n==1){ int a=t_num,b=t_n; t_num=0; t_n=1; ++t_level; fn(data); --t_level; t_num=a; t_n=b; return; }
  g_busy=true; for(int i=1;i<n;++i) if(!W[i]){ Worker* w=new Worker; w->id=i; pthread_mutex_init(&w->m,nullptr); pthread_cond_init(&w->cv,nullptr); W[i]=w; pthread_create(&w->th,nullptr,loop,w); }
  plan(n);
  for(int i=1;i<n;++i){ Worker& w=*W[i]; pthread_mutex_lock(&w.m); w.fn=fn; w.data=data; w.n=n; w.level=t_level+1; ++w.gen; pthread_cond_broadcast(&w.cv); pthread_mutex_unlock(&w.m); }
  t_num=0; t_n=n; ++t_level; waitTurn(0); fn(data); passTurn(0); --t_level; t_n=1;
  for(int i=1;i<n;++i){ Worker& w=*W[i]; pthread_mutex_lock(&w.m); while(w.done!=w.gen) pthread_cond_wait(&w.cv,&w.m); pthread_mutex_unlock(&w.m); }
  g_busy=false; }
void __tsan_acquire(void*); void __tsan_release(void*);
static char vh_barrier_tag;
// a thread that waits for the others ends the one-after-another mode of its region
NOTSAN void vh_barrier_arrive(){ __tsan_release(&vh_barrier_tag); gomp::g_turn=-1; }
NOTSAN void vh_barrier_passed(){ __tsan_acquire(&vh_barrier_tag); }
int omp_get_level(void){ return gomp::t_level; }
int omp_get_max_threads(void){ return gomp::maxThreads(); }
int omp_get_num_threads(void){ return gomp::t_level>0? gomp::t_n : 1; }
int omp_get_thread_num(void){ return gomp::t_level>0? gomp::t_num : 0; }
int omp_in_parallel(void){ return gomp::t_level>0&&gomp::t_n>1; }
void omp_set_num_threads(int n){ if(n>0) gomp::g_max=n; }
int omp_get_num_procs(void){ return 8; }
static pthread_mutex_t gomp_crit=PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void){ pthread_mutex_lock(&gomp_crit); }
void GOMP_critical_end(void){ pthread_mutex_unlock(&gomp_crit); }
void GOMP_atomic_start(void){ pthread_mutex_lock(&gomp_crit); }
void GOMP_atomic_end(void){ pthread_mutex_unlock(&gomp_crit); }
}
