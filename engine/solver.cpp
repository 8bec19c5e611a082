#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
SolverStats SS;
static Z3_context C=0; static Z3_solver Sv; static Z3_ast zv[MAXV]; static Z3_sort bv8;
static void init(){ if(C) return; Z3_config cf=Z3_mk_config(); C=Z3_mk_context(cf); Z3_del_config(cf); Sv=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,Sv); bv8=Z3_mk_bv_sort(C,8);
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),400000000); Z3_solver_set_params(C,Sv,p); }
static Z3_ast num(u128 v,int w){ if(w<=64) return Z3_mk_unsigned_int64(C,(u64)v,Z3_mk_bv_sort(C,w)); return Z3_mk_concat(C,Z3_mk_unsigned_int64(C,(u64)(v>>64),Z3_mk_bv_sort(C,w-64)),Z3_mk_unsigned_int64(C,(u64)v,Z3_mk_bv_sort(C,64))); }
static Z3_ast var(int v){ if(!zv[v]){ char b[16]; snprintf(b,16,"v%d",v); zv[v]=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bv8); Z3_inc_ref(C,zv[v]); } return zv[v]; }
// membership / table bits as reduced decision diagrams over the input bits
static Z3_ast bitOf(Z3_ast x,int i){ return Z3_mk_eq(C,Z3_mk_extract(C,i,i,x),num(1,1)); }
struct DKey { Z3_ast x; u64 w[4]; int n; bool operator==(const DKey&o)const{ return x==o.x&&n==o.n&&!memcmp(w,o.w,32);} };
struct DHash { size_t operator()(const DKey&k)const{ u64 h=(u64)k.x*0x9e3779b97f4a7c15ull+k.n; for(int i=0;i<4;i++){ h^=k.w[i]; h*=0xff51afd7ed558ccdull; h^=h>>29; } return h; } };
static std::unordered_map<DKey,Z3_ast,DHash> dmemo;
static Z3_ast bdd(Z3_ast x,const Dom&d,int n){ // truth table over the n low bits of x (2^n entries)
  int sz=1<<n; bool all=true,none=true; for(int i=0;i<sz;i++) if(d.has(i)) none=false; else all=false; if(none) return Z3_mk_false(C); if(all) return Z3_mk_true(C);
  DKey k; k.x=x; memcpy(k.w,d.w,32); k.n=n; auto it=dmemo.find(k); if(it!=dmemo.end()) return it->second;
  int h=sz/2; Dom lo=Dom::none(),hi=Dom::none(); for(int i=0;i<h;i++){ if(d.has(i)) lo.set(i); if(d.has(i+h)) hi.set(i); }
  Z3_ast r; if(lo==hi) r=bdd(x,lo,n-1); else { Z3_ast L=bdd(x,lo,n-1),H=bdd(x,hi,n-1),c=bitOf(x,n-1); bool Lf=lo.empty(),Hf=hi.empty(),La=lo.count()==h,Ha=hi.count()==h;
    if(Lf&&Ha) r=c; else if(La&&Hf) r=Z3_mk_not(C,c); else if(Lf){ Z3_ast q[2]={c,H}; r=Z3_mk_and(C,2,q);} else if(Hf){ Z3_ast q[2]={Z3_mk_not(C,c),L}; r=Z3_mk_and(C,2,q);} else if(Ha){ Z3_ast q[2]={c,L}; r=Z3_mk_or(C,2,q);} else if(La){ Z3_ast q[2]={Z3_mk_not(C,c),H}; r=Z3_mk_or(C,2,q);} else r=Z3_mk_ite(C,c,H,L); }
  Z3_inc_ref(C,r); dmemo[k]=r; return r; }
static Z3_ast setOf(Z3_ast x,const Dom&d,int iw){ return bdd(x,d,iw); }
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(C,b,num(1,1),num(0,1)); }
static Z3_ast tr(Expr*e); static Z3_ast trb(Expr*e);
static Z3_ast tabBits(Expr*e,Z3_ast x,int iw){ // concatenation of output bits; runs of copied input bits become extracts
  int w=e->w,N=1<<iw; std::vector<Z3_ast> parts; // most significant first
  auto copyOf=[&](int k)->int{ for(int j=0;j<iw;j++){ bool ok=true; for(int i=0;i<N&&ok;i++) ok=((e->at(i)>>k)&1)==(u64)((i>>j)&1); if(ok) return j; } return -1; };
  auto cst=[&](int k)->int{ int v=(e->at(0)>>k)&1; for(int i=1;i<N;i++) if((int)((e->at(i)>>k)&1)!=v) return -1; return v; };
  int k=w-1; while(k>=0){ int c=k<64?cst(k):0; if(c>=0){ int j=k; u64 v=0; int len=0; while(j>=0&&len<64){ int q=j<64?cst(j):0; if(q<0) break; v=(v<<1)|q; len++; j--; } parts.push_back(num(v,len)); k=j; continue; }
    int s=copyOf(k); if(s>=0){ int j=k,t=s; while(j-1>=0&&t-1>=0&&copyOf(j-1)==t-1){ j--; t--; } parts.push_back(Z3_mk_extract(C,s,t,x)); k=j-1; continue; }
    Dom d=Dom::none(); for(int i=0;i<N;i++) if((e->at(i)>>k)&1) d.set(i); parts.push_back(b2v(bdd(x,d,iw))); k--; }
  Z3_ast r=parts[0]; for(size_t i=1;i<parts.size();i++) r=Z3_mk_concat(C,r,parts[i]); return r; }
static std::unordered_map<Expr*,Z3_ast> bmemo;
static Z3_ast trb(Expr*e){ auto it=bmemo.find(e); if(it!=bmemo.end()) return it->second; Z3_ast r;
  switch(e->op){ case O_CONST: r=e->k?Z3_mk_true(C):Z3_mk_false(C); break;
   case O_LUT: r=setOf(var(e->var),e->tt,8); break;
   case O_AND: {Z3_ast a[2]={trb(e->a),trb(e->b)}; r=Z3_mk_and(C,2,a); break;} case O_OR: {Z3_ast a[2]={trb(e->a),trb(e->b)}; r=Z3_mk_or(C,2,a); break;}
   case O_XOR: r=e->b->op==O_CONST?Z3_mk_not(C,trb(e->a)):Z3_mk_xor(C,trb(e->a),trb(e->b)); break;
   case O_EQ: r=e->a->w==1?Z3_mk_iff(C,trb(e->a),trb(e->b)):Z3_mk_eq(C,tr(e->a),tr(e->b)); break;
   case O_ULT: r=Z3_mk_bvult(C,tr(e->a),tr(e->b)); break; case O_SLT: r=Z3_mk_bvslt(C,tr(e->a),tr(e->b)); break;
   case O_ITE: r=Z3_mk_ite(C,trb(e->a),trb(e->b),trb(e->c)); break;
   default: r=Z3_mk_eq(C,tr(e),num(1,1)); }
  Z3_inc_ref(C,r); bmemo[e]=r; return r; }
static Z3_ast tr(Expr*e){ if(e->z3) return (Z3_ast)e->z3; Z3_ast r;
  switch(e->op){ case O_CONST: r=num(e->k,e->w);break;
   case O_LUT: r=e->w==1?b2v(trb(e)):tabBits(e,var(e->var),8); break;
   case O_LUTX: { int iw=e->a->w; if(iw>8) abort(); r=tabBits(e,tr(e->a),iw); break; }
   case O_ADD:r=Z3_mk_bvadd(C,tr(e->a),tr(e->b));break;case O_SUB:r=Z3_mk_bvsub(C,tr(e->a),tr(e->b));break;case O_MUL:r=Z3_mk_bvmul(C,tr(e->a),tr(e->b));break;
   case O_UDIV:r=Z3_mk_bvudiv(C,tr(e->a),tr(e->b));break;case O_SDIV:r=Z3_mk_bvsdiv(C,tr(e->a),tr(e->b));break;case O_UREM:r=Z3_mk_bvurem(C,tr(e->a),tr(e->b));break;case O_SREM:r=Z3_mk_bvsrem(C,tr(e->a),tr(e->b));break;
   case O_AND:r=e->w==1?b2v(trb(e)):Z3_mk_bvand(C,tr(e->a),tr(e->b));break;case O_OR:r=e->w==1?b2v(trb(e)):Z3_mk_bvor(C,tr(e->a),tr(e->b));break;case O_XOR:r=e->w==1?b2v(trb(e)):Z3_mk_bvxor(C,tr(e->a),tr(e->b));break;
   case O_SHL:r=Z3_mk_bvshl(C,tr(e->a),tr(e->b));break;case O_LSHR:r=Z3_mk_bvlshr(C,tr(e->a),tr(e->b));break;case O_ASHR:r=Z3_mk_bvashr(C,tr(e->a),tr(e->b));break;
   case O_EQ:case O_ULT:case O_SLT:r=b2v(trb(e));break;
   case O_CONCAT:r=Z3_mk_concat(C,tr(e->a),tr(e->b));break;case O_EXTRACT:r=Z3_mk_extract(C,e->off+e->w-1,e->off,tr(e->a));break;case O_SEXT:r=Z3_mk_sign_ext(C,e->w-e->a->w,tr(e->a));break;
   case O_ITE:r=e->w==1?b2v(trb(e)):Z3_mk_ite(C,trb(e->a),tr(e->b),tr(e->c));break; default: abort(); }
  Z3_inc_ref(C,r); e->z3=r; return r; }
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct CacheEnt { int res; std::vector<std::pair<int,u8>> m; };
static std::unordered_map<std::string,CacheEnt> cache;
int solve(const std::vector<Expr*>&consIn,const std::vector<Dom>&dom,u8*model){
  init(); std::vector<Expr*> cons=consIn; std::sort(cons.begin(),cons.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cons.erase(std::unique(cons.begin(),cons.end()),cons.end());
  VarSet vs; for(Expr*e:cons) vs.merge(varsof(e)); std::string key; for(Expr*e:cons) key.append((char*)&e->id,4); vs.each([&](int v){ key.append((char*)&v,2); key.append((char*)dom[v].w,32); });
  auto it=cache.find(key); if(it!=cache.end()){ SS.cache_hits++; if(it->second.res==1) for(auto&p:it->second.m) model[p.first]=p.second; return it->second.res; }
  double t0=now(); Z3_solver_push(C,Sv); for(Expr*e:cons) Z3_solver_assert(C,Sv,trb(e)); vs.each([&](int v){ if(!(dom[v]==Dom::full())) Z3_solver_assert(C,Sv,setOf(var(v),dom[v],8)); });
  Z3_lbool r=Z3_solver_check(C,Sv); SS.z3_queries++; CacheEnt ce; ce.res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(r==Z3_L_TRUE){ SS.z3_sat++; Z3_model m=Z3_solver_get_model(C,Sv); Z3_model_inc_ref(C,m); vs.each([&](int v){ Z3_ast a; u64 x=0; if(Z3_model_eval(C,m,var(v),true,&a)) { uint64_t y; if(Z3_get_numeral_uint64(C,a,&y)) x=y; } model[v]=x; ce.m.push_back({v,(u8)x}); }); Z3_model_dec_ref(C,m);
    evalnew(); for(Expr*e:cons) if(!evalm(Val(e),model)){ fprintf(stderr,"ENGINE-ERROR z3 model does not satisfy the query (encoding bug): %s\n",estr(Val(e)).c_str()); exit(3);} vs.each([&](int v){ if(!dom[v].has(model[v])){ fprintf(stderr,"ENGINE-ERROR z3 model outside domain\n"); exit(3);} }); }
  else if(r==Z3_L_FALSE) SS.z3_unsat++; else SS.z3_unknown++;
  Z3_solver_pop(C,Sv,1); SS.z3_s+=now()-t0; if(cache.size()>400000) cache.clear(); cache[key]=ce; return ce.res; }
static std::unordered_set<std::string> cert;
bool certifyUnsat(Expr*lut,const Dom&d,bool side){ std::string key((char*)&lut,8); key.append((char*)d.w,32); key+=side?'1':'0'; if(!cert.insert(key).second) return true; init(); double t0=now();
  Z3_solver_push(C,Sv); Z3_ast a=trb(lut); Z3_solver_assert(C,Sv,side?a:Z3_mk_not(C,a)); Z3_solver_assert(C,Sv,setOf(var(lut->var),d,8)); Z3_lbool r=Z3_solver_check(C,Sv); Z3_solver_pop(C,Sv,1); SS.certified++; SS.z3_s+=now()-t0; return r==Z3_L_FALSE; }
