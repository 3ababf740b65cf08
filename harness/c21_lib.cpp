// The random-number code (instrumented) and the few things the explorer asks of it, from inside a team of threads.
#include <richdem/common/random.hpp>
#include <omp.h>
#include "c21_spec.hpp"
using namespace richdem;
static double draw(int k){ switch(k){ case 0: return uniform_rand_int(-3,1000); case 1: return uniform_rand_real(-1,2); case 2: return normal_rand(1,3); case 3: return (double)uniform_bits<uint32_t>(); case 4: return (double)uniform_bits<int64_t>(); case 5: return (double)rand_engine()(); } return 0; }
extern "C" void c21_seed(uint64_t s){ seed_rand(s); }
// thread t of a team draws / saves / restores while the others do nothing
extern "C" double c21_draw(int t,int k){ double r=0; 
#pragma omp parallel
  { if(omp_get_thread_num()==t) r=draw(k); }
  return r; }
extern "C" void c21_save(int t,std::string*o){
#pragma omp parallel
  { if(omp_get_thread_num()==t) *o=SaveRandomState(); } }
extern "C" void c21_restore(int t,const std::string*s){
#pragma omp parallel
  { if(omp_get_thread_num()==t) SetRandomState(*s); } }
// every thread of the team draws the same kinds of numbers at the same time
extern "C" void c21_all(const int*kinds,int n,double*out,int stride){
#pragma omp parallel
  { int t=omp_get_thread_num(); for(int i=0;i<n;i++) out[t*stride+i]=draw(kinds[i]); } }
extern "C" int c21_int(int a,int b){ return uniform_rand_int(a,b); }
extern "C" double c21_real(double a,double b){ return uniform_rand_real(a,b); }
extern "C" double c21_normal(double a,double b){ return normal_rand(a,b); }
