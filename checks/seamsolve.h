// The equation solver libraries behind a seam: a chosen call runs out of memory.
#ifndef VERIF_SEAMSOLVE_H
#define VERIF_SEAMSOLVE_H
#include "sim.h"
#include <dlfcn.h>
#include <slu_ddefs.h>
#include <umfpack.h>
using sim::cur;

//! The seam: the linear algebra libraries, which may run out of memory.
namespace seam {
static int slu = 0, umf = 0, lapack = 0; // countdown of calls until one fails; 0 is never
static int fired = 0;
static bool hit(int& c) { if (c > 0 && --c == 0) { ++fired; return true; } return false; }
static void reset() { slu = umf = lapack = 0; fired = 0; }
}

extern "C" {
void dgssvx(superlu_options_t* o, SuperMatrix* A, int* pc, int* pr, int* et, char* eq, double* R, double* C, SuperMatrix* L, SuperMatrix* U,
            void* work, int_t lwork, SuperMatrix* B, SuperMatrix* X, double* rpg, double* rc, double* ferr, double* berr, GlobalLU_t* G, mem_usage_t* mu, SuperLUStat_t* st, int_t* info)
{
  static auto real = (decltype(&dgssvx))dlsym(RTLD_NEXT,"dgssvx");
  if (o->Fact != FACTORED && seam::hit(seam::slu)) {
    // What the library does when it cannot allocate the factors: A is already scaled, L and U are not created
    SuperMatrix l = {}, u = {};
    real(o,A,pc,pr,et,eq,R,C,&l,&u,work,lwork,B,X,rpg,rc,ferr,berr,G,mu,st,info);
    if (l.Store) Destroy_SuperNode_Matrix(&l);
    if (u.Store) Destroy_CompCol_Matrix(&u);
    *info = A->ncol+1000;
    cur->fault("superlu-no-memory");
    return;
  }
  real(o,A,pc,pr,et,eq,R,C,L,U,work,lwork,B,X,rpg,rc,ferr,berr,G,mu,st,info);
}
void dgssv(superlu_options_t* o, SuperMatrix* A, int* pc, int* pr, SuperMatrix* L, SuperMatrix* U, SuperMatrix* B, SuperLUStat_t* st, int_t* info)
{
  static auto real = (decltype(&dgssv))dlsym(RTLD_NEXT,"dgssv");
  if (o->Fact != FACTORED && seam::hit(seam::slu)) {
    *info = A->ncol+1000;
    cur->fault("superlu-no-memory");
    return;
  }
  real(o,A,pc,pr,L,U,B,st,info);
}
int umfpack_di_symbolic(int nr, int nc, const int Ap[], const int Ai[], const double Ax[], void** S, const double Ctl[], double Info[])
{
  static auto real = (decltype(&umfpack_di_symbolic))dlsym(RTLD_NEXT,"umfpack_di_symbolic");
  if (seam::hit(seam::umf)) { *S = nullptr; if (Info) Info[UMFPACK_STATUS] = UMFPACK_ERROR_out_of_memory; cur->fault("umfpack-no-memory"); return UMFPACK_ERROR_out_of_memory; }
  return real(nr,nc,Ap,Ai,Ax,S,Ctl,Info);
}
int umfpack_di_numeric(const int Ap[], const int Ai[], const double Ax[], void* S, void** N, const double Ctl[], double Info[])
{
  static auto real = (decltype(&umfpack_di_numeric))dlsym(RTLD_NEXT,"umfpack_di_numeric");
  if (seam::hit(seam::umf)) { *N = nullptr; if (Info) { Info[UMFPACK_STATUS] = UMFPACK_ERROR_out_of_memory; Info[UMFPACK_RCOND] = 0.0; } cur->fault("umfpack-no-memory"); return UMFPACK_ERROR_out_of_memory; }
  return real(Ap,Ai,Ax,S,N,Ctl,Info);
}
int umfpack_di_solve(int sys, const int Ap[], const int Ai[], const double Ax[], double X[], const double B[], void* N, const double Ctl[], double Info[])
{
  static auto real = (decltype(&umfpack_di_solve))dlsym(RTLD_NEXT,"umfpack_di_solve");
  if (seam::hit(seam::umf)) { if (Info) Info[UMFPACK_STATUS] = UMFPACK_ERROR_out_of_memory; cur->fault("umfpack-no-memory"); return UMFPACK_ERROR_out_of_memory; }
  return real(sys,Ap,Ai,Ax,X,B,N,Ctl,Info);
}
void dgesv_(const int* n, const int* nrhs, double* A, const int* lda, int* ipiv, double* B, const int* ldb, int* info)
{
  static auto real = (void(*)(const int*,const int*,double*,const int*,int*,double*,const int*,int*))dlsym(RTLD_NEXT,"dgesv_");
  real(n,nrhs,A,lda,ipiv,B,ldb,info);
  if (seam::hit(seam::lapack)) { *info = *n; cur->fault("lapack-failure"); }
}
void dposv_(const char* ul, const int* n, const int* nrhs, double* A, const int* lda, double* B, const int* ldb, int* info, size_t)
{
  static auto real = (void(*)(const char*,const int*,const int*,double*,const int*,double*,const int*,int*,size_t))dlsym(RTLD_NEXT,"dposv_");
  real(ul,n,nrhs,A,lda,B,ldb,info,1);
  if (seam::hit(seam::lapack)) { *info = *n; cur->fault("lapack-failure"); }
}
}
#endif
