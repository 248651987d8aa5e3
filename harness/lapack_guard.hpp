// The linear algebra library is not instrumented: what it is allowed to touch is checked at every call
// (link-time wrapping), against AddressSanitizer's record of what belongs to the program.
#ifndef LAPACK_GUARD_HPP
#define LAPACK_GUARD_HPP
#include <sanitizer/asan_interface.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
namespace lg{
static long calls=0,arrays=0;static long largest=0;
//! an array handed to the library: aborts (like a sanitizer report) if a part of it is not the program's
static void region(const char*f,const char*what,const void*p,size_t n){++arrays;void*q=n?__asan_region_is_poisoned(const_cast<void*>(p),n):0;
  if(q){fprintf(stderr,"==1==ERROR: AddressSanitizer: heap-buffer-overflow of an array handed to the library\nlibrary call %s: argument %s needs %zu bytes at %p, byte %zd is not part of any array\n",f,what,n,p,(char*)q-(char*)p);fflush(stderr);abort();}}
static void need(bool ok,const char*f,const char*what,long v){if(!ok){fprintf(stderr,"==1==ERROR: AddressSanitizer: heap-buffer-overflow by an argument of the library\nlibrary call %s: %s = %ld\n",f,what,v);fflush(stderr);abort();}}
static void start(int n){++calls;if(n>largest)largest=n;}
}
extern "C"{
void __real_dgetrf_(int*,int*,double*,int*,int*,int*);void __real_zgetrf_(int*,int*,double*,int*,int*,int*);
void __real_dgetrs_(const char*,int*,int*,double*,int*,int*,double*,int*,int*);void __real_zgetrs_(const char*,int*,int*,double*,int*,int*,double*,int*,int*);
void __real_dgbtrf_(int*,int*,int*,int*,double*,int*,int*,int*);void __real_zgbtrf_(int*,int*,int*,int*,double*,int*,int*,int*);
void __real_dgbtrs_(const char*,int*,int*,int*,int*,double*,int*,int*,double*,int*,int*);void __real_zgbtrs_(const char*,int*,int*,int*,int*,double*,int*,int*,double*,int*,int*);
void __real_dgehrd_(int*,int*,int*,double*,int*,double*,double*,int*,int*);
#define LG_LU(F,S) void __wrap_##F(int*m,int*n,double*a,int*l,int*p,int*i){lg::start(*n);lg::need(*l>=*m,#F,"leading dimension",*l);lg::region(#F,"matrix",a,(size_t)S*8*((size_t)*l*(*n-1)+*m));lg::region(#F,"pivots",p,4*(size_t)std::min(*m,*n));lg::region(#F,"info",i,4);__real_##F(m,n,a,l,p,i);}
#define LG_LS(F,S) void __wrap_##F(const char*s,int*n,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){lg::start(*n);lg::need(*l>=*n,#F,"leading dimension",*l);lg::need(*lb>=*n,#F,"leading dimension of the right-hand side",*lb);lg::region(#F,"matrix",a,(size_t)S*8*((size_t)*l*(*n-1)+*n));lg::region(#F,"pivots",p,4*(size_t)*n);lg::region(#F,"right-hand side",b,(size_t)S*8*((size_t)*lb*(*k-1)+*n));__real_##F(s,n,k,a,l,p,b,lb,i);}
#define LG_BU(F,S) void __wrap_##F(int*m,int*n,int*kl,int*ku,double*a,int*l,int*p,int*i){lg::start(*n);lg::need(*l>=2**kl+*ku+1,#F,"leading dimension",*l);lg::region(#F,"matrix",a,(size_t)S*8*(size_t)*l**n);lg::region(#F,"pivots",p,4*(size_t)std::min(*m,*n));lg::region(#F,"info",i,4);__real_##F(m,n,kl,ku,a,l,p,i);}
#define LG_BS(F,S) void __wrap_##F(const char*s,int*n,int*kl,int*ku,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){lg::start(*n);lg::need(*l>=2**kl+*ku+1,#F,"leading dimension",*l);lg::need(*lb>=*n,#F,"leading dimension of the right-hand side",*lb);lg::region(#F,"matrix",a,(size_t)S*8*(size_t)*l**n);lg::region(#F,"pivots",p,4*(size_t)*n);lg::region(#F,"right-hand side",b,(size_t)S*8*((size_t)*lb*(*k-1)+*n));__real_##F(s,n,kl,ku,k,a,l,p,b,lb,i);}
LG_LU(dgetrf_,1) LG_LU(zgetrf_,2) LG_LS(dgetrs_,1) LG_LS(zgetrs_,2) LG_BU(dgbtrf_,1) LG_BU(zgbtrf_,2) LG_BS(dgbtrs_,1) LG_BS(zgbtrs_,2)
void __wrap_dgehrd_(int*n,int*lo,int*hi,double*a,int*l,double*t,double*w,int*lw,int*i){lg::start(*n);lg::need(*l>=*n,"dgehrd_","leading dimension",*l);
  if(*lw!=-1){lg::need(*lw>=*n,"dgehrd_","size of the work array",*lw);lg::region("dgehrd_","matrix",a,8*((size_t)*l*(*n-1)+*n));lg::region("dgehrd_","scalar factors",t,8*(size_t)(*n-1));}
  lg::region("dgehrd_","work array",w,8*(size_t)(*lw==-1?1:*lw));__real_dgehrd_(n,lo,hi,a,l,t,w,lw,i);}
}
#endif
