// Thin C interface over the system minisat library (incremental, assumptions).
#include <cstdint>
#include <cstddef>
#include "minisat/core/Solver.h"
using namespace Minisat;
struct S : public Solver { };
static inline Lit L(int x){ int v = (x<0?-x:x); return mkLit(v-1, x<0); }
static bool g_dummy;
static inline void ensure(S*s,int x){ int v=(x<0?-x:x); while(s->nVars()<v) s->newVar(l_Undef,false); }
extern "C" {
void* sx_new(){ S*s=new S(); return s; }
void sx_free(void*p){ delete (S*)p; }
// clauses: zero terminated clause stream of n ints
int sx_add(void*p,const int32_t*a,size_t n){ S*s=(S*)p; vec<Lit> c; bool ok=true;
  for(size_t i=0;i<n;i++){ if(a[i]==0){ ok = s->addClause(c) && ok; c.clear(); } else { ensure(s,a[i]); c.push(L(a[i])); } }
  return ok; }
// returns 1 sat, 0 unsat, 2 unknown (conflict budget; <0 = none)
int sx_solve(void*p,const int32_t*a,size_t n,int64_t confl){ S*s=(S*)p; vec<Lit> as;
  for(size_t i=0;i<n;i++){ ensure(s,a[i]); as.push(L(a[i])); }
  if(confl>=0) s->setConfBudget(confl); else s->budgetOff();
  lbool r=s->solveLimited(as);
  if(r==l_True) return 1; if(r==l_False) return 0; return 2; }
int sx_val(void*p,int v){ S*s=(S*)p; if(v>s->model.size()) return 0; lbool b=s->model[v-1]; return b==l_True?1:(b==l_False?-1:0); }
void sx_model(void*p,int8_t*out,int n){ S*s=(S*)p; for(int i=0;i<n;i++){ lbool b= i<s->model.size()? s->model[i]:l_Undef; out[i]= b==l_True?1:0; } }
int64_t sx_stat(void*p,int k){ S*s=(S*)p; switch(k){case 0:return s->conflicts;case 1:return s->propagations;case 2:return s->decisions;case 3:return s->nVars();case 4:return s->nClauses();} return 0; }
void sx_decide(void*p,const int32_t*a,size_t n,int flag){ S*s=(S*)p; for(size_t i=0;i<n;i++){ ensure(s,a[i]); s->setDecisionVar(a[i]-1,flag!=0); } }
void sx_setpol(void*p,int v,int b){ S*s=(S*)p; ensure(s,v); s->setPolarity(v-1,lbool(b!=0)); }
// level-0 implied value
int sx_fixed(void*p,int v){ S*s=(S*)p; if(v>s->nVars()) return 0; lbool b=s->value(v-1); return b==l_True?1:(b==l_False?-1:0); }
}
