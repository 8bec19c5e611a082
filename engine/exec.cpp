// Path-wise symbolic execution of the decoded IR.
#include "ir.h"
#include "solver.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <chrono>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
typedef std::string S;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ------------------------------------------------------------------ options
struct Opt { S ir,harness,out,tmp; std::vector<u64> params; int jobs=8; u64 maxSteps=20000000; double timeLimit=600; u64 seed=1; int samples=100; bool trace=false; bool certify=true; int maxViol=20; bool unreachOk=false; std::vector<u64> forced; bool haveForced=false; } O;
// ------------------------------------------------------------------ memory
struct Obj { int rc=1; u32 size; bool ro=false; u32 nsym=0; u8* data; Expr** sym=nullptr; };
static Obj* newObj(u32 size){ Obj*o=new Obj; o->size=size; o->data=(u8*)calloc(1,size?size:1); return o; }
static Obj* cloneObj(Obj*o){ Obj*n=new Obj; n->size=o->size; n->ro=o->ro; n->nsym=o->nsym; n->data=(u8*)malloc(o->size?o->size:1); memcpy(n->data,o->data,o->size); if(o->sym&&o->nsym){ n->sym=(Expr**)malloc(sizeof(Expr*)*o->size); memcpy(n->sym,o->sym,sizeof(Expr*)*o->size);} else n->nsym=0; return n; }
static void unref(Obj*o){ if(o&&--o->rc==0){ free(o->data); free(o->sym); delete o; } }
struct Frame { Func*f; int pc; u32 rb; u32 sb; int dst; int normal; };
struct Obs { Val v; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; std::vector<Obj*> st,hp; std::vector<std::pair<u32,Obj*>> gw;
  std::vector<Dom> dom; std::vector<Expr*> multi; VarSet mv; u8 model[MAXV]; std::vector<u64> choices; std::vector<u64> trace; std::vector<Val> obs; std::vector<u32> covers; u64 steps=0; size_t forcedPos=0; bool panicOk=false;
  State(){ memset(model,0,sizeof model); }
  State(const State&o):fr(o.fr),regs(o.regs),st(o.st),hp(o.hp),gw(o.gw),dom(o.dom),multi(o.multi),mv(o.mv),choices(o.choices),trace(o.trace),obs(o.obs),covers(o.covers),steps(o.steps),forcedPos(o.forcedPos),panicOk(o.panicOk){ memcpy(model,o.model,sizeof model); for(auto*x:st) if(x) x->rc++; for(auto*x:hp) if(x) x->rc++; for(auto&x:gw) x.second->rc++; }
  ~State(){ for(auto*x:st) unref(x); for(auto*x:hp) unref(x); for(auto&x:gw) unref(x.second); }
};
static std::vector<Obj*> gobj;
struct PathEnd { S kind,msg; };           // thrown: path ends as violation / error
struct PathStop {};                       // the harness ended the path
struct PathDrop {};                       // infeasible or assumed away
struct Fatal { S msg; };                  // engine cannot decide
struct Stats { u64 paths=0,forks=0,insts=0,checks=0,checksSolver=0,dropped=0,maxDepth=0,truncated=0; } ST;
static std::map<u32,u64> coverCount,checkCount;
struct Viol { S kind,msg,stack; u32 id; std::vector<u64> choices; std::vector<u8> bytes; };
static std::vector<Viol> viols;
struct Sample { std::vector<u64> choices; std::vector<u8> bytes; std::vector<u64> obs; u64 steps; };
static std::vector<Sample> samples; static u64 sampleSeen=0; static u64 rng;
static u64 rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
static std::vector<State*> work;   // DFS stack
// ------------------------------------------------------------------ decisions
static Val simpState(State&s,Expr*e,bool known=true){
  return rebuild(e,[&](Expr*l)->Val{ const Dom&d=s.dom[l->var]; if(l->w==1){ if((d&l->tt).empty()) return Val((u64)0); if((d&~l->tt).empty()) return Val((u64)1); return Val(l); }
    int f=d.first(); if(f<0) return Val(l); u64 x=l->at(f); for(int i=0;i<4;i++){ u64 q=d.w[i]; while(q){ int b=i*64+__builtin_ctzll(q); if(l->at(b)!=x) return Val(l); q&=q-1; } } return Val(x); },known?&s.multi:nullptr); }
static void component(State&s,VarSet vs,std::vector<Expr*>&out){ std::vector<char> in(s.multi.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<s.multi.size();i++) if(!in[i]&&varsof(s.multi[i]).meets(vs)){ in[i]=1; vs.merge(varsof(s.multi[i])); out.push_back(s.multi[i]); ch=true; } } }
static bool touchOk(State&s,int v,const u8*m){ evalnew(); for(Expr*e:s.multi) if(varsof(e).has(v)&&!evalm(Val(e),m)) return false; return true; }
// is (cond==want) satisfiable with the path condition? alt receives a model
static int feasible(State&s,Val cond,u8*alt){
  if(isconst(cond)) { memcpy(alt,s.model,MAXV); return kof(cond)?1:0; }
  Expr*e=cond.e; evalnew(); if(evalm(cond,s.model)){ memcpy(alt,s.model,MAXV); return 1; }
  if(e->op==O_LUT){ int v=e->var; Dom d=s.dom[v]&e->tt; if(d.empty()){ SS.unary++; if(O.certify&&!certifyUnsat(e,s.dom[v],true)) throw Fatal{"z3 disagrees with domain table"}; return 0; } 
    memcpy(alt,s.model,MAXV); if(!s.mv.has(v)){ alt[v]=d.first(); SS.unary++; return 1; }
    int tries=0; int r=0; d.each([&](int x){ if(r||tries++>6) return; alt[v]=x; if(touchOk(s,v,alt)) r=1; }); if(r){ SS.model_hits++; return 1; } }
  else { // local repair
    memcpy(alt,s.model,MAXV); int r=0; int nv=0; varsof(e).each([&](int v){ if(r||nv++>8) return; u8 old=alt[v]; int tries=0; const Dom&d=s.dom[v]; int c=d.count(); int step=c>24?c/24:1; int i=0; d.each([&](int x){ if(r||tries>26) return; if((i++)%step) return; tries++; alt[v]=x; evalnew(); if(evalm(cond,alt)&&touchOk(s,v,alt)) r=1; }); if(!r) alt[v]=old; }); if(r){ SS.model_hits++; return 1; } }
  std::vector<Expr*> q; q.push_back(e); component(s,varsof(e),q); memcpy(alt,s.model,MAXV); int r=solve(q,s.dom,alt); if(r<0) throw Fatal{"solver returned unknown"}; return r; }
static void addCons(State&s,Val c);
static void recompute(State&s){ s.mv=VarSet(); for(Expr*e:s.multi) s.mv.merge(varsof(e)); }
static void propagate(State&s,int v){ if(!s.mv.has(v)) return; std::vector<Val> re; bool chg=false; for(size_t i=0;i<s.multi.size();){ Expr*e=s.multi[i]; if(varsof(e).has(v)){ Val n=simpState(s,e,false); if(n.e!=e){ s.multi.erase(s.multi.begin()+i); re.push_back(n); chg=true; continue; } } i++; } if(chg){ recompute(s); for(auto&x:re) addCons(s,x);} }
static void addCons(State&s,Val c){
  if(isconst(c)){ if(!kof(c)) throw PathDrop(); return; }
  Expr*e=c.e;
  if(e->op==O_LUT){ Dom d=s.dom[e->var]&e->tt; if(d.empty()) throw PathDrop(); if(d==s.dom[e->var]) return; s.dom[e->var]=d; propagate(s,e->var); return; }
  if(e->op==O_AND){ addCons(s,wrap(e->a)); Val n=simpState(s,e->b); addCons(s,n); return; }
  if(e->op==O_XOR&&e->b->op==O_CONST&&e->a->op==O_OR){ addCons(s,mknot1(wrap(e->a->a))); addCons(s,mknot1(simpState(s,e->a->b))); return; }
  for(Expr*x:s.multi) if(x==e) return; 
  s.multi.push_back(e); s.mv.merge(varsof(e)); }
static void assume(State&s,Val c,const u8*m){ memcpy(s.model,m,MAXV); addCons(s,c); }
// branch: returns chosen value for s; pushes the other side (with `other` applied) on the work list
static Val simpCond(State&s,Val c){ if(isconst(c)) return c; for(Expr*x:s.multi){ if(x==c.e) return Val((u64)1); } Val n=mknot1(c); if(n.e) for(Expr*x:s.multi) if(x==n.e) return Val((u64)0); if(c.e->op!=O_LUT) return simpState(s,c.e); return c; }
static bool forcedNext(State&s,u64&v){ if(s.forcedPos<O.forced.size()){ v=O.forced[s.forcedPos++]; return true;} return false; }
static State* forkOff(State&s){ ST.forks++; State*n=new State(s); return n; }
template<class F> static bool branch(State&s,Val cond,F other){ // other(State&) finishes the false side
  cond=simpCond(s,cond); if(isconst(cond)) return kof(cond);
  u8 mt[MAXV],mf[MAXV]; Val nc=mknot1(cond); int t=feasible(s,cond,mt); int f=feasible(s,nc,mf);
  if(!t&&!f) throw Fatal{"path condition unsatisfiable"};
  if(t&&f){ u64 fv; if(forcedNext(s,fv)){ s.trace.push_back(fv); if(fv){ assume(s,cond,mt); return true;} assume(s,nc,mf); return false; }
    State*n=forkOff(s); n->trace.push_back(0); bool okf=true; try { assume(*n,nc,mf); other(*n); } catch(PathDrop&){ okf=false; } if(okf) work.push_back(n); else delete n;
    s.trace.push_back(1); assume(s,cond,mt); return true; }
  return t; }
// make v concrete, forking over its feasible values; re-executes the instruction for the others
static u64 concretize(State&s,Val v,int w,int pcBack){
  if(!v.e) return v.c; if(v.e->op==O_CONST) return (u64)v.e->k; Val x=simpState(s,v.e); if(isconst(x)) return (u64)kof(x);
  // a decision is recorded only when two values are possible (not when they merely look possible), so that replay stays aligned
  evalnew(); u64 val=evalm(x,s.model); Val ne=mknot1(mkbin(O_EQ,w,x,Val(val))); u8 m[MAXV]; if(!feasible(s,ne,m)){ u8 mm[MAXV]; memcpy(mm,s.model,MAXV); assume(s,mknot1(ne),mm); return val; }
  u64 fv; if(forcedNext(s,fv)){ // forced: entry = 2 words (taken, value)
    val=0; forcedNext(s,val); s.trace.push_back(fv); s.trace.push_back(val); Val eq=mkbin(O_EQ,w,x,Val(val)); if(!fv) eq=mknot1(eq); if(!feasible(s,eq,m)) throw Fatal{"replay diverged"}; assume(s,eq,m); if(fv) return val; return concretize(s,v,w,pcBack); }
  State*n=forkOff(s); n->trace.push_back(0); n->trace.push_back(val); n->fr.back().pc=pcBack; bool ok=true; try{ assume(*n,ne,m);}catch(PathDrop&){ok=false;} if(ok) work.push_back(n); else delete n; s.trace.push_back(1); s.trace.push_back(val); u8 mm[MAXV]; memcpy(mm,s.model,MAXV); assume(s,mknot1(ne),mm);
  return val; }
// ------------------------------------------------------------------ address resolution
struct Ref { Obj**slot; u32 off; Obj*o; bool global; u32 gid; };
static S hexs(u64 v){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
static Obj* lookup(State&s,u64 a,u64&base,Obj***slot=nullptr,u32*gid=nullptr){
  if(a>=FBASE||a<GBASE) return nullptr; u64 idx;
  if(a<SBASE){ idx=(a-GBASE)/SLOT; base=GBASE+idx*SLOT; if(idx==0||idx>M.glist.size()) return nullptr; if(gid)*gid=idx; for(auto&g:s.gw) if(g.first==idx){ if(slot)*slot=&g.second; return g.second; } Obj*&o=gobj[idx]; if(!o){ Global*g=M.glist[idx-1]; materialize(g); if(g->external) return nullptr; o=newObj(g->data.size()); memcpy(o->data,g->data.data(),g->data.size()); o->ro=g->constant; } if(slot)*slot=nullptr; return o; }
  if(a<HBASE){ idx=(a-SBASE)/SLOT; base=SBASE+idx*SLOT; if(idx>=s.st.size()) return nullptr; if(slot)*slot=&s.st[idx]; return s.st[idx]; }
  idx=(a-HBASE)/SLOT; base=HBASE+idx*SLOT; if(idx>=s.hp.size()) return nullptr; if(slot)*slot=&s.hp[idx]; return s.hp[idx]; }
static Obj* rd(State&s,u64 a,u64 n,u32&off){ u64 base; Obj*o=lookup(s,a,base); if(!o) throw PathEnd{"memory","invalid read at "+hexs(a)}; u64 f=a-base; if(f+n>o->size) throw PathEnd{"memory","out-of-bounds read"}; off=f; return o; }
static Obj* wr(State&s,u64 a,u64 n,u32&off){ u64 base; Obj**slot=nullptr; u32 gid=0; Obj*o=lookup(s,a,base,&slot,&gid); if(!o) throw PathEnd{"memory","invalid write at "+hexs(a)}; u64 f=a-base; if(f+n>o->size) throw PathEnd{"memory","out-of-bounds write"}; off=f; if(o->ro) throw PathEnd{"memory","write to constant"};
  if(!slot){ Obj*n2=cloneObj(o); s.gw.push_back({gid,n2}); return n2; } if(o->rc>1){ Obj*n2=cloneObj(o); o->rc--; *slot=n2; return n2; } return o; }
static inline Val getByte(Obj*o,u32 i){ if(o->nsym&&o->sym[i]) return Val(o->sym[i]); return Val((u64)o->data[i]); }
static inline void setByte(Obj*o,u32 i,Val v){ if(v.e){ if(!o->sym){ o->sym=(Expr**)calloc(o->size,sizeof(Expr*)); } if(!o->sym[i]) o->nsym++; o->sym[i]=v.e; } else { if(o->sym&&o->sym[i]){ o->sym[i]=nullptr; o->nsym--; } o->data[i]=v.c; } }
static Val loadObj(Obj*o,u32 off,int w){ int n=(w+7)/8; if(!o->nsym){ if(n<=8){ u64 v=0; memcpy(&v,o->data+off,n); return Val(v&maskw(w)); } u128 v=0; memcpy(&v,o->data+off,n); return mkconst(w,v);} 
  bool any=false; for(int i=0;i<n;i++) if(o->sym[off+i]){any=true;break;} if(!any){ if(n<=8){ u64 v=0; memcpy(&v,o->data+off,n); return Val(v&maskw(w)); } u128 v=0; memcpy(&v,o->data+off,n); return mkconst(w,v);} 
  Val r=getByte(o,off); for(int i=1;i<n;i++) r=mkconcat(getByte(o,off+i),8,r,8*i); if(w<8*n) r=mkextract(w,r,8*n,0); return r; }
static void storeObj(Obj*o,u32 off,int w,Val v){ int n=(w+7)/8; if(!v.e){ if(!o->nsym){ memcpy(o->data+off,&v.c,n); return;} for(int i=0;i<n;i++) setByte(o,off+i,Val((v.c>>(8*i))&255)); return; }
  if(v.e->op==O_CONST){ for(int i=0;i<n;i++) setByte(o,off+i,Val((u64)(v.e->k>>(8*i))&255)); return; }
  if(w<8*n) v=mkzext(v,w,8*n); for(int i=0;i<n;i++) setByte(o,off+i,mkextract(8,v,8*n,8*i)); }
static Val load(State&s,u64 a,int w){ u32 off; Obj*o=rd(s,a,(w+7)/8,off); return loadObj(o,off,w); }
static void store(State&s,u64 a,int w,Val v){ u32 off; Obj*o=wr(s,a,(w+7)/8,off); storeObj(o,off,w,v); }
static u64 allocHeap(State&s,u64 n){ if(n>=SLOT-4096) throw PathEnd{"memory","allocation of "+std::to_string(n)+" bytes"}; while(!s.hp.empty()&&!s.hp.back()) s.hp.pop_back(); if(HBASE+(s.hp.size()+1)*SLOT>FBASE) throw Fatal{"too many allocations"}; s.hp.push_back(newObj(n)); return HBASE+(s.hp.size()-1)*SLOT; }
static u64 allocStack(State&s,u64 n){ if(n>=SLOT-4096) throw Fatal{"huge alloca"}; s.st.push_back(newObj(n)); return SBASE+(s.st.size()-1)*SLOT; }
static Expr* coreOf(Expr*e){ // single <=8-bit subterm that determines e
  while(true){ if(e->op==O_LUTX) { return coreOf(e->a); } if(e->w<=8&&e->op!=O_CONCAT&&e->op!=O_ADD&&e->op!=O_SUB&&e->op!=O_AND&&e->op!=O_XOR&&e->op!=O_OR) return e; if(e->w<=8) return e;
    switch(e->op){ case O_CONCAT: case O_ADD: case O_SUB: case O_AND: case O_OR: case O_XOR: case O_MUL: if(e->b->op==O_CONST) e=e->a; else if(e->a->op==O_CONST) e=e->b; else if(e->op==O_CONCAT||e->op==O_ADD){ Expr*x=coreOf(e->a),*y=coreOf(e->b); return x&&x==y?x:nullptr; } else return nullptr; break; default: return e->w<=8?e:nullptr; } } }
static u64 evalCore(Expr*e,Expr*core,u64 v){ if(e==core) return v; if(e->op==O_CONST) return (u64)e->k; switch(e->op){ case O_LUTX: return e->at(evalCore(e->a,core,v)); case O_CONCAT: return (evalCore(e->a,core,v)<<e->b->w)|evalCore(e->b,core,v); default: return concbin(e->op,e->w,evalCore(e->a,core,v),evalCore(e->b,core,v)); } }
// symbolic-address load: table when the address is a function of one byte and the cells are concrete
static bool symLoad(State&s,Expr*ae,int w,Val&out){ Val x=simpState(s,ae); if(isconst(x)){ out=load(s,(u64)kof(x),w); return true; } ae=x.e; if(w>64) return false; 
  Expr*core; Dom d; if(ae->op==O_LUT){ core=nullptr; d=s.dom[ae->var]; } else { core=coreOf(ae); if(!core||core->w>8||core->op==O_CONST) return false; d=Dom::none(); for(int i=0;i<(1<<core->w);i++) d.set(i);
     // prune infeasible core values cheaply: ask the solver only if some cell is out of bounds
  }
  u64 t[256]; memset(t,0,sizeof t); std::vector<std::pair<int,Val>> symc; bool bad=false; d.each([&](int i){ if(bad) return; u64 a=core?evalCore(ae,core,i):ae->at(i); u64 base; Obj*o=lookup(s,a,base); if(!o||a-base+(w+7)/8>o->size){ if(core){ u8 m[MAXV]; if(!feasible(s,mkbin(O_EQ,core->w,Val(core),Val((u64)i)),m)) return; } bad=true; return; } Val v=loadObj(o,a-base,w); if(v.e) symc.push_back({i,v}); else t[i]=v.c; });
  if(bad||symc.size()>64) return false; Val r=core?mklutx(core,w,t):mklut(ae->var,w,t);
  for(auto&p:symc){ Val c; if(core) c=mkbin(O_EQ,core->w,Val(core),Val((u64)p.first)); else { u64 q[256]; for(int i=0;i<256;i++)q[i]=i==p.first; c=mklut(ae->var,1,q);} r=mkite(w,c,p.second,r); }
  out=r; return true; }
// ------------------------------------------------------------------ builtins
enum { B_NONE,B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_MEMALIGN,B_MEMCPY,B_MEMSET,B_MEMCMP,B_BCMP,B_STRLEN,B_NOP,B_PANIC,B_ABORT,B_UADDO,B_USUBO,B_UMULO,B_SADDO,B_SSUBO,B_SMULO,B_UADDS,B_USUBS,B_SADDS,B_SSUBS,B_UMAX,B_UMIN,B_SMAX,B_SMIN,B_CTPOP,B_CTLZ,B_CTTZ,B_BSWAP,B_FSHL,B_FSHR,B_UCMP,B_SCMP,B_ASSUME,B_TLS,B_ISCONST,B_EXPECT,B_ABS,B_BITREV,B_OBJSIZE,B_RET0,
  B_SYM_BYTES,B_SYM_CHOICE,B_SYM_ASSUME,B_SYM_CHECK,B_SYM_COVER,B_SYM_OBSERVE,B_SYM_PARAM,B_SYM_CONC,B_SYM_DEBUG,B_SYM_UNREACH,B_SYM_STOP,B_SYM_PANICOK };
int builtinId(const S&n){
  static const std::map<S,int> ex={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_MEMALIGN},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"strlen",B_STRLEN},{"abort",B_ABORT},{"getenv",B_RET0},
   {"sym_bytes",B_SYM_BYTES},{"sym_choice",B_SYM_CHOICE},{"sym_assume",B_SYM_ASSUME},{"sym_check",B_SYM_CHECK},{"sym_cover",B_SYM_COVER},{"sym_observe",B_SYM_OBSERVE},{"sym_param",B_SYM_PARAM},{"sym_concretize",B_SYM_CONC},{"sym_debug",B_SYM_DEBUG},{"sym_stop",B_SYM_STOP},{"sym_panic_ok",B_SYM_PANICOK}};
  auto it=ex.find(n); if(it!=ex.end()) return it->second;
  auto has=[&](const char*x){return n.find(x)!=S::npos;}; auto st=[&](const char*x){return n.compare(0,strlen(x),x)==0;};
  if(has("4core9panicking9panic_fmt")||has("panicking18panic_nounwind_fmt")||has("rust_begin_unwind")||has("9panicking20rust_panic_with_hook")||has("alloc18handle_alloc_error")) return B_PANIC;
  if(!st("llvm.")) return 0;
  static const std::vector<std::pair<const char*,int>> pf={{"llvm.memcpy",B_MEMCPY},{"llvm.memmove",B_MEMCPY},{"llvm.memset",B_MEMSET},{"llvm.uadd.with",B_UADDO},{"llvm.usub.with",B_USUBO},{"llvm.umul.with",B_UMULO},{"llvm.sadd.with",B_SADDO},{"llvm.ssub.with",B_SSUBO},{"llvm.smul.with",B_SMULO},{"llvm.uadd.sat",B_UADDS},{"llvm.usub.sat",B_USUBS},{"llvm.sadd.sat",B_SADDS},{"llvm.ssub.sat",B_SSUBS},{"llvm.umax",B_UMAX},{"llvm.umin",B_UMIN},{"llvm.smax",B_SMAX},{"llvm.smin",B_SMIN},{"llvm.ctpop",B_CTPOP},{"llvm.ctlz",B_CTLZ},{"llvm.cttz",B_CTTZ},{"llvm.bswap",B_BSWAP},{"llvm.bitreverse",B_BITREV},{"llvm.fshl",B_FSHL},{"llvm.fshr",B_FSHR},{"llvm.ucmp",B_UCMP},{"llvm.scmp",B_SCMP},{"llvm.assume",B_NOP},{"llvm.lifetime",B_NOP},{"llvm.experimental.noalias",B_NOP},{"llvm.threadlocal",B_TLS},{"llvm.is.constant",B_ISCONST},{"llvm.expect",B_EXPECT},{"llvm.trap",B_ABORT},{"llvm.ubsantrap",B_ABORT},{"llvm.abs",B_ABS},{"llvm.x86.sse2.pause",B_NOP},{"llvm.dbg",B_NOP},{"llvm.invariant",B_NOP},{"llvm.prefetch",B_NOP},{"llvm.donothing",B_NOP}};
  for(auto&p:pf) if(st(p.first)) return p.second; return 0; }
static S stackOf(State&s){ S r; int n=0; for(int i=(int)s.fr.size()-1;i>=0&&n<14;i--,n++) r+=s.fr[i].f->name+"\n"; return r; }
static void record(State&s,const S&kind,const S&msg,u32 id,const u8*model){ int same=0; for(auto&v:viols) if(v.kind==kind&&v.id==id) same++; if(same>=4||(int)viols.size()>=O.maxViol) return; Viol v; v.kind=kind;v.msg=msg;v.id=id;v.stack=stackOf(s);v.choices=s.choices; for(size_t i=0;i<s.dom.size();i++) v.bytes.push_back(model[i]); viols.push_back(v); }
static void finish(State&s){ ST.paths++; for(u32 c:s.covers) coverCount[c]++; sampleSeen++; int cap=O.samples; bool take=(int)samples.size()<cap; size_t pos=samples.size(); if(!take&&cap>0){ u64 r=rnd()%sampleSeen; if(r<(u64)cap){ take=true; pos=r; } } if(take){ Sample x; x.choices=s.choices; for(size_t i=0;i<s.dom.size();i++) x.bytes.push_back(s.model[i]); evalnew(); for(auto&v:s.obs) x.obs.push_back(evalm(v,s.model)); x.steps=s.steps; if(pos==samples.size()) samples.push_back(x); else samples[pos]=x; } }
static Val bitcount(Val x,int w,int kind){ // table for single byte, otherwise ite chains
  if(!x.e){ u64 v=x.c; if(kind==0) return Val((u64)__builtin_popcountll(v)); if(kind==1){ int n=0; for(int i=w-1;i>=0&&!((v>>i)&1);i--) n++; return Val((u64)n);} int n=0; while(n<w&&!((v>>n)&1)) n++; return Val((u64)n); }
  Val r; if(kind==0){ r=mkconst(w,0); for(int i=0;i<w;i++) r=mkbin(O_ADD,w,r,mkzext(mkextract(1,x,w,i),1,w)); return r; }
  r=mkconst(w,w); if(kind==1){ for(int i=0;i<w;i++) r=mkite(w,mkextract(1,x,w,i),mkconst(w,w-1-i),r); } else { for(int i=w-1;i>=0;i--) r=mkite(w,mkextract(1,x,w,i),mkconst(w,i),r); } return r; }
// ------------------------------------------------------------------ interpreter
static inline Val G(State&s,const Frame&f,int o){ return o>=0?s.regs[f.rb+o]:f.f->consts[~o]; }
static void setEdge(State&s,Frame&f,int e){ Edge&ed=f.f->edges[e]; if(!ed.copies.empty()){ size_t n=ed.copies.size(); if(n==1){ s.regs[f.rb+ed.copies[0].first]=G(s,f,ed.copies[0].second); } else { Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=G(s,f,ed.copies[i].second); for(size_t i=0;i<n;i++) s.regs[f.rb+ed.copies[i].first]=t[i]; } } f.pc=ed.pc; }
static void popStack(State&s,u32 sb){ while(s.st.size()>sb){ unref(s.st.back()); s.st.pop_back(); } }
static void enter(State&s,Func*f,const std::vector<Val>&args,int dst,int normal){ decode(f); if(f->bad) throw Fatal{"cannot decode "+f->name+": "+f->why}; if(s.fr.size()>20000) throw PathEnd{"hang","call depth over 20000"}; f->execs++; Frame n; n.f=f;n.pc=0;n.rb=s.regs.size();n.sb=s.st.size();n.dst=dst;n.normal=normal; s.regs.resize(n.rb+f->nregs); if(args.size()<f->params.size()) throw Fatal{"arity "+f->name}; for(size_t i=0;i<f->params.size();i++) s.regs[n.rb+f->params[i]]=args[i]; s.fr.push_back(n); }
static Val cmpBytes(State&s,u64 a,u64 b,u64 n,bool bc){ u32 oa,ob; if(n==0) return Val((u64)0); Obj*x=rd(s,a,n,oa),*y=rd(s,b,n,ob);
  if(!x->nsym&&!y->nsym){ int r=memcmp(x->data+oa,y->data+ob,n); return Val((u64)(u32)(r<0?-1:r>0?1:0)); }
  if(bc){ Val eq=Val((u64)1); for(u64 i=0;i<n;i++){ Val e=mkbin(O_EQ,8,getByte(x,oa+i),getByte(y,ob+i)); if(isconst(e)&&!kof(e)) return Val((u64)1); eq=mkand1(eq,e);} return mkite(32,eq,Val((u64)0),Val((u64)1)); }
  Val r=Val((u64)0); for(u64 i=n;i-->0;){ Val p=getByte(x,oa+i),q=getByte(y,ob+i); r=mkite(32,mkbin(O_EQ,8,p,q),r,mkite(32,mkbin(O_ULT,8,p,q),Val((u64)0xffffffffu),Val((u64)1))); } return r; }
// bytes at a symbolic address (table of objects); false: not expressible, concretize instead
static bool bytesAt(State&s,Val a,u64 n,std::vector<Val>&out){ if(n>256) return false; out.clear(); for(u64 i=0;i<n;i++){ Val v; if(!a.e||a.e->op==O_CONST) v=load(s,(a.e?(u64)a.e->k:a.c)+i,8); else { Val ai=i?mkbin(O_ADD,64,a,Val(i)):a; if(!ai.e) v=load(s,ai.c,8); else if(!symLoad(s,ai.e,8,v)) return false; } out.push_back(v); } return true; }
static void copyMem(State&s,u64 d,u64 a,u64 n){ if(n==0||d==a) return; u32 oa,od; Obj*src=rd(s,a,n,oa); src->rc++; Obj*dst; try { dst=wr(s,d,n,od); } catch(...){ unref(src); throw; } 
  if(!src->nsym&&!dst->nsym) memmove(dst->data+od,src->data+oa,n); else { std::vector<Val> t(n); for(u64 i=0;i<n;i++) t[i]=getByte(src,oa+i); for(u64 i=0;i<n;i++) setByte(dst,od+i,t[i]); } unref(src); }
static Val cmpVals(const std::vector<Val>&x,const std::vector<Val>&y,bool bc){ size_t n=x.size(); if(bc){ Val eq=Val((u64)1); for(size_t i=0;i<n;i++){ Val e=mkbin(O_EQ,8,x[i],y[i]); if(isconst(e)&&!kof(e)) return Val((u64)1); eq=mkand1(eq,e);} return mkite(32,eq,Val((u64)0),Val((u64)1)); }
  Val r=Val((u64)0); for(size_t i=n;i-->0;){ r=mkite(32,mkbin(O_EQ,8,x[i],y[i]),r,mkite(32,mkbin(O_ULT,8,x[i],y[i]),Val((u64)0xffffffffu),Val((u64)1))); } return r; }
// an ordering of many symbolic bytes: run the byte loop model_memcmp, which forks at the first difference
static Func*memcmpModel=nullptr;
static bool longCompare(State&s,const std::vector<Val>&a){ if(a.size()<3||a[0].e||a[1].e||a[2].e||a[2].c<=8) return false; u64 n=a[2].c; u32 o; Obj*x=rd(s,a[0].c,n,o); if(x->nsym) return true; x=rd(s,a[1].c,n,o); return x->nsym!=0; }
static bool overflowBit(Op op,bool sg,int w,Val a,Val b,Val&res,Val&ov){ int W=op==O_MUL?2*w:w+1; if(W>128) throw Fatal{"wide overflow op"}; Val x=sg?mksext(a,w,W):mkzext(a,w,W),y=sg?mksext(b,w,W):mkzext(b,w,W); Val r=mkbin(op,W,x,y); res=mkextract(w,r,W,0); Val back=sg?mksext(res,w,W):mkzext(res,w,W); ov=mknot1(mkbin(O_EQ,W,back,r)); return true; }
// returns true when the call pushed a frame
static bool doBuiltin(State&s,Frame&f,const Inst&I,CallInfo&ci,int id,const std::vector<Val>&a,int pc0,std::vector<Val>&ret){
  auto cz=[&](int i){ return concretize(s,a[i],ci.argw[i],pc0); };
  switch(id){
  case B_NOP: return false; case B_RET0: ret={Val((u64)0)}; return false;
  case B_MALLOC: ret={Val(allocHeap(s,cz(0)))}; return false;
  case B_CALLOC: { u64 x=cz(0),y=cz(1); ret={Val(allocHeap(s,x*y))}; return false; }
  case B_MEMALIGN: { u64 p=cz(0); u64 n=cz(2); u64 q=allocHeap(s,n); store(s,p,64,Val(q)); ret={Val((u64)0)}; return false; }
  case B_FREE: { u64 p=cz(0); if(!p) return false; u64 base; Obj**sl=nullptr; Obj*o=lookup(s,p,base,&sl); if(!o||base!=p||p<HBASE) throw PathEnd{"memory","invalid free"}; unref(o); *sl=nullptr; return false; }
  case B_REALLOC: { u64 p=cz(0),n=cz(1); u64 base; Obj**sl=nullptr; if(!p){ ret={Val(allocHeap(s,n))}; return false; } Obj*o=lookup(s,p,base,&sl); if(!o||base!=p||p<HBASE) throw PathEnd{"memory","invalid realloc"}; u64 os=o->size; u64 q=allocHeap(s,n); copyMem(s,q,p,std::min(os,n)); lookup(s,p,base,&sl); unref(*sl); *sl=nullptr; ret={Val(q)}; return false; }
  case B_MEMCPY: { u64 n=cz(2); if(a[1].e&&a[1].e->op!=O_CONST){ std::vector<Val> t; u64 d=cz(0); if(bytesAt(s,a[1],n,t)){ if(n){ u32 od; Obj*dst=wr(s,d,n,od); for(u64 i=0;i<n;i++) setByte(dst,od+i,t[i]); } if(ci.nret) ret={Val(d)}; return false; } } u64 d=cz(0),x=cz(1); copyMem(s,d,x,n); if(ci.nret) ret={Val(d)}; return false; }
  case B_MEMSET: { u64 n=cz(2); u64 d=cz(0); Val v=a[1]; if(ci.argw[1]!=8) v=mkextract(8,v,ci.argw[1],0); if(n){ u32 off; Obj*o=wr(s,d,n,off); for(u64 i=0;i<n;i++) setByte(o,off+i,v);} if(ci.nret) ret={Val(d)}; return false; }
  case B_MEMCMP: case B_BCMP: { u64 n=cz(2); auto sy=[&](Val v){ return v.e&&v.e->op!=O_CONST; }; if(n&&(sy(a[0])||sy(a[1]))){ std::vector<Val> x,y; if(bytesAt(s,a[0],n,x)&&bytesAt(s,a[1],n,y)){ ret={cmpVals(x,y,id==B_BCMP)}; return false; } } u64 x=cz(0),y=cz(1); ret={cmpBytes(s,x,y,n,id==B_BCMP)}; return false; }
  case B_STRLEN: { u64 p=cz(0); u64 n=0; while(true){ Val b=load(s,p+n,8); if(b.e) throw Fatal{"strlen of symbolic"}; if(!b.c) break; n++; } ret={Val(n)}; return false; }
  case B_PANIC: throw PathEnd{"panic","panic"}; case B_ABORT: throw PathEnd{"panic","abort"};
  case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: { Op op=(id==B_UADDO||id==B_SADDO)?O_ADD:(id==B_USUBO||id==B_SSUBO)?O_SUB:O_MUL; bool sg=id>=B_SADDO; int w=ci.argw[0];
      if(!a[0].e&&!a[1].e&&w<=64){ u64 r=concbin(op,w,a[0].c,a[1].c); bool ov; if(!sg){ if(op==O_ADD) ov=r<a[0].c; else if(op==O_SUB) ov=a[0].c<a[1].c; else ov=((u128)a[0].c*a[1].c)>>w; if(op==O_ADD&&w<64) ov=(a[0].c+a[1].c)>>w; } else { __int128 x=sx(a[0].c,w),y=sx(a[1].c,w); __int128 z=op==O_ADD?x+y:op==O_SUB?x-y:x*y; ov=z!=(__int128)sx(r,w); } ret={Val(r),Val((u64)ov)}; return false; }
      Val r,o; overflowBit(op,sg,w,a[0],a[1],r,o); ret={r,o}; return false; }
  case B_UADDS: { int w=ci.argw[0]; Val r,o; overflowBit(O_ADD,false,w,a[0],a[1],r,o); ret={mkite(w,o,mkconst(w,~(u128)0),r)}; return false; }
  case B_USUBS: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_ULT,w,a[0],a[1]),mkconst(w,0),mkbin(O_SUB,w,a[0],a[1]))}; return false; }
  case B_UMAX: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_ULT,w,a[0],a[1]),a[1],a[0])}; return false; } case B_UMIN: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_ULT,w,a[0],a[1]),a[0],a[1])}; return false; }
  case B_SMAX: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_SLT,w,a[0],a[1]),a[1],a[0])}; return false; } case B_SMIN: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_SLT,w,a[0],a[1]),a[0],a[1])}; return false; }
  case B_CTPOP: ret={bitcount(a[0],ci.argw[0],0)}; return false; case B_CTLZ: ret={bitcount(a[0],ci.argw[0],1)}; return false; case B_CTTZ: ret={bitcount(a[0],ci.argw[0],2)}; return false;
  case B_BSWAP: { int w=ci.argw[0]; Val r=mkextract(8,a[0],w,0); for(int i=1;i<w/8;i++) r=mkconcat(r,8*i,mkextract(8,a[0],w,8*i),8); ret={r}; return false; }
  case B_BITREV: { int w=ci.argw[0]; Val r=mkextract(1,a[0],w,0); for(int i=1;i<w;i++) r=mkconcat(r,i,mkextract(1,a[0],w,i),1); ret={r}; return false; }
  case B_FSHL: case B_FSHR: { int w=ci.argw[0]; u64 k=cz(2)%w; if(id==B_FSHR){ if(k==0){ ret={a[1]}; return false;} k=w-k; } else if(k==0){ ret={a[0]}; return false; } ret={mkbin(O_OR,w,mkbin(O_SHL,w,a[0],mkconst(w,k)),mkbin(O_LSHR,w,a[1],mkconst(w,w-k)))}; return false; }
  case B_UCMP: case B_SCMP: { int w=ci.argw[0],rw=ci.retw[0]; Op lt=id==B_UCMP?O_ULT:O_SLT; ret={mkite(rw,mkbin(lt,w,a[0],a[1]),mkconst(rw,~(u128)0),mkite(rw,mkbin(O_EQ,w,a[0],a[1]),mkconst(rw,0),mkconst(rw,1)))}; return false; }
  case B_ABS: { int w=ci.argw[0]; ret={mkite(w,mkbin(O_SLT,w,a[0],mkconst(w,0)),mkbin(O_SUB,w,mkconst(w,0),a[0]),a[0])}; return false; }
  case B_TLS: case B_EXPECT: ret={a[0]}; return false; case B_ISCONST: ret={Val((u64)0)}; return false;
  // harness interface
  case B_SYM_BYTES: { u64 p=cz(0),n=cz(1); if(!n) return false; u32 off; Obj*o=wr(s,p,n,off); if(s.dom.size()+n>MAXV) throw Fatal{"too many symbolic bytes"}; for(u64 i=0;i<n;i++){ int v=s.dom.size(); s.dom.push_back(Dom::full()); s.model[v]=0; setByte(o,off+i,mkvar(v)); } return false; }
  case B_SYM_CHOICE: { u64 n=cz(0); if(n==0) throw PathDrop(); u64 fv; u64 pick=0; if(n>1){ if(forcedNext(s,fv)) pick=fv; else { for(u64 i=n;i-->1;){ State*x=forkOff(s); x->trace.push_back(i); x->choices.push_back(i); if(I.dst>=0) x->regs[f.rb+I.dst]=Val(i); if(ci.normal>=0) setEdge(*x,x->fr.back(),ci.normal); work.push_back(x); if(x->fr.back().pc==pc0) abort(); } pick=0; } s.trace.push_back(pick); } s.choices.push_back(pick); ret={Val(pick)}; return false; }
  case B_SYM_ASSUME: { Val c=a[0]; if(ci.argw[0]!=1) c=mkextract(1,c,ci.argw[0],0); c=simpCond(s,c); if(isconst(c)){ if(!kof(c)) throw PathDrop(); return false; } u8 m[MAXV]; if(!feasible(s,c,m)) throw PathDrop(); assume(s,c,m); return false; }
  case B_SYM_CHECK: { Val c=a[0]; if(ci.argw[0]!=1) c=mkextract(1,c,ci.argw[0],0); u32 idn=(u32)cz(1); ST.checks++; checkCount[idn]++; c=simpCond(s,c); if(isconst(c)){ if(!kof(c)){ record(s,"check","check failed",idn,s.model); throw PathDrop(); } return false; } ST.checksSolver++; u8 m[MAXV]; Val nc=mknot1(c); if(feasible(s,nc,m)){ record(s,"check","check failed",idn,m); } u8 m2[MAXV]; if(!feasible(s,c,m2)) throw PathDrop(); assume(s,c,m2); return false; }
  case B_SYM_COVER: s.covers.push_back((u32)cz(0)); return false;
  case B_SYM_OBSERVE: s.obs.push_back(a[0]); return false;
  case B_SYM_PARAM: { u64 i=cz(0); ret={Val(i<O.params.size()?O.params[i]:0)}; return false; }
  case B_SYM_CONC: ret={Val(cz(0))}; return false;
  case B_SYM_STOP: throw PathStop(); case B_SYM_PANICOK: s.panicOk=cz(0)!=0; return false;
  case B_SYM_DEBUG: fprintf(stderr,"debug %s\n",estr(simpCond(s,a[0])).c_str()); return false;
  }
  throw Fatal{"call to unmodelled function "+ci.name}; }
static void step(State&s);
static double sliceEnd;
// run until the path ends; forks go to `work`
static bool runState(State&s){ // returns false when the slice ended before the path did
  u64 n=0;
  while(!s.fr.empty()){ if((++n&1023)==0&&now()>sliceEnd+ (s.forcedPos<O.forced.size()?5:0)) { return false; } 
    step(s); }
  return true; }
static void step(State&s){
  Frame*f=&s.fr.back(); Func*F=f->f; 
  for(int guard=0;guard<256;guard++){
  int pc0=f->pc; const Inst&I=F->code[pc0]; f->pc++; s.steps++; ST.insts++;
  Val*R=&s.regs[f->rb];
  #define V(o) ((o)>=0?R[o]:F->consts[~(o)])
  switch(I.op){
  case I_BIN: { Val a=V(I.a),b=V(I.b); Val r; if(!a.e&&!b.e&&I.w<=64){ bool trap=false; r=Val(concbin((Op)I.bop,I.w,a.c,b.c,&trap)); if(trap) throw PathEnd{"panic","division by zero"}; } else { if(I.bop==O_UDIV||I.bop==O_UREM||I.bop==O_SDIV||I.bop==O_SREM){ if(!isconst(b)) b=Val(concretize(s,b,I.w,pc0)); if(kof(b)==0) throw PathEnd{"panic","division by zero"}; R=&s.regs[f->rb]; } r=mkbin((Op)I.bop,I.w,a,b);} if(I.c==1&&I.w2==1) r=r.e?mknot1(r):Val(r.c^1); R[I.dst]=r; break; }
  case I_TRUNC: { Val a=V(I.a); R[I.dst]=a.e?mkextract(I.w2,a,I.w,0):Val(a.c&maskw(I.w2)); break; }
  case I_ZEXT: { Val a=V(I.a); R[I.dst]=(a.e||I.w2>64)?mkzext(a,I.w,I.w2):a; break; }
  case I_SEXT: { Val a=V(I.a); R[I.dst]=(a.e||I.w2>64)?mksext(a,I.w,I.w2):Val((u64)sx(a.c,I.w)&maskw(I.w2)); break; }
  case I_COPY: R[I.dst]=V(I.a); break;
  case I_SELECT: { Val c=V(I.a); if(!c.e){ R[I.dst]=c.c?V(I.b):V(I.c); break; } Val x=V(I.b),y=V(I.c); if(x==y){ R[I.dst]=x; break; }
     if(I.w2){ int dst=I.dst; u32 rb=f->rb; bool t=branch(s,c,[&](State&n){ n.regs[rb+dst]=y; }); f=&s.fr.back(); R=&s.regs[f->rb]; R[dst]=t?x:y; break; }
     R[I.dst]=mkite(I.w,c,x,y); break; }
  case I_LOAD: { Val a=V(I.a); if(a.e){ if(I.imm) a=mkbin(O_ADD,64,a,Val(I.imm)); Val out; if(a.e&&symLoad(s,a.e,I.w,out)){ R[I.dst]=out; break; } u64 c=concretize(s,a,64,pc0); R=&s.regs[f->rb]; R[I.dst]=load(s,c,I.w); break; } R[I.dst]=load(s,a.c+I.imm,I.w); break; }
  case I_STORE: { Val a=V(I.a); u64 p=a.c; if(a.e) p=concretize(s,a,64,pc0); R=&s.regs[f->rb]; store(s,p+I.imm,I.w,V(I.b)); break; }
  case I_GEP: { Val b=V(I.a); if(I.imm) b=b.e?mkbin(O_ADD,64,b,Val(I.imm)):Val(b.c+I.imm); for(int i=0;i<I.w2;i++){ GepIdx&g=F->geps[I.x+i]; Val v=V(g.op); if(v.e){ v=mksext(v,g.w,64); v=mkbin(O_MUL,64,v,Val((u64)g.scale)); b=mkbin(O_ADD,64,b,v);} else { u64 k=(u64)(sx(v.c,g.w)*g.scale); b=b.e?mkbin(O_ADD,64,b,Val(k)):Val(b.c+k);} } R[I.dst]=b; break; }
  case I_ALLOCA: { u64 p=allocStack(s,I.imm); R[I.dst]=Val(p); break; }
  case I_BR: setEdge(s,*f,I.x); break;
  case I_CBR: { Val c=V(I.a); bool t; if(!c.e) t=c.c&1; else { int ef=I.c; t=branch(s,c,[&](State&n){ setEdge(n,n.fr.back(),ef); }); f=&s.fr.back(); } setEdge(s,*f,t?I.b:I.c); break; }
  case I_SWITCH: { Val v=V(I.a); SwitchInfo&sw=F->sws[I.x]; if(!v.e){ int e=sw.def; for(auto&k:sw.cases) if(k.first==v.c){ e=k.second; break; } setEdge(s,*f,e); break; }
     // symbolic: decide cases one after another; group cases by target edge block
     int e=-1; std::map<int,std::vector<size_t>> grp; std::vector<int> order; for(size_t i=0;i<sw.cases.size();i++){ Edge&ed=F->edges[sw.cases[i].second]; int key=ed.copies.empty()?ed.block:1000000+(int)i; auto&g=grp[key]; if(g.empty()) order.push_back(key); g.push_back(i); }
     int defKey=F->edges[sw.def].copies.empty()?F->edges[sw.def].block:-1; 
     for(int key:order){ if(key==defKey) continue; Val c=Val((u64)0); for(size_t i:grp[key]) c=mkor1(c,mkbin(O_EQ,I.w,v,Val(sw.cases[i].first))); c=simpCond(s,c); if(isconst(c)){ if(kof(c)){ e=sw.cases[grp[key][0]].second; break; } continue; } 
        // fork: the false side re-executes the switch
        bool t=branch(s,c,[&](State&n){ n.fr.back().pc=pc0; }); f=&s.fr.back(); if(t){ e=sw.cases[grp[key][0]].second; break; } }
     setEdge(s,*f,e>=0?e:sw.def); break; }
  case I_RET: { Val rv[16]; int n=I.w; if(n>16) throw Fatal{"wide return"}; for(int i=0;i<n;i++){ int o=I.a>=0?I.a+i:I.a-i; rv[i]=V(o);} int dst=f->dst,normal=f->normal; popStack(s,f->sb); s.regs.resize(f->rb); s.fr.pop_back(); if(s.fr.empty()) return; f=&s.fr.back(); F=f->f; if(dst>=0) for(int i=0;i<n;i++) s.regs[f->rb+dst+i]=rv[i]; if(normal>=0) setEdge(s,*f,normal); if(s.steps>O.maxSteps) throw PathEnd{"hang","step limit"}; break; }
  case I_UNREACH: throw PathEnd{"panic","unreachable executed"};
  case I_RESUME: throw Fatal{"resume"};
  case I_UNSUP: throw Fatal{"unsupported instruction in "+F->name+": "+F->texts[I.x]};
  case I_BITCAST: { auto x=F->bc[I.x],y=F->bc[I.x+1]; Val acc; int w=0; for(int i=0;i<x.first;i++){ int o=I.a>=0?I.a+i:I.a-i; Val e=V(o); if(i==0){acc=e;w=x.second;} else { acc=mkconcat(e,x.second,acc,w); w+=x.second; } } for(int i=0;i<y.first;i++) R[I.dst+i]=mkextract(y.second,acc,w,i*y.second); break; }
  case I_RMW: { u64 p=concretize(s,V(I.a),64,pc0); R=&s.regs[f->rb]; Val o=load(s,p,I.w),v=V(I.b),r; switch(I.c){case 0:r=v;break;case 1:r=mkbin(O_ADD,I.w,o,v);break;case 2:r=mkbin(O_SUB,I.w,o,v);break;case 3:r=mkbin(O_AND,I.w,o,v);break;case 4:r=mkbin(O_OR,I.w,o,v);break;case 5:r=mkbin(O_XOR,I.w,o,v);break;case 6:r=mkite(I.w,mkbin(O_ULT,I.w,o,v),v,o);break;default:r=mkite(I.w,mkbin(O_ULT,I.w,o,v),o,v);} store(s,p,I.w,r); R[I.dst]=o; break; }
  case I_CMPXCHG: { u64 p=concretize(s,V(I.a),64,pc0); R=&s.regs[f->rb]; Val o=load(s,p,I.w); Val eq=mkbin(O_EQ,I.w,o,V(I.b)); if(!isconst(eq)) throw Fatal{"symbolic cmpxchg"}; if(kof(eq)) store(s,p,I.w,V(I.c)); R[I.dst]=o; R[I.dst+1]=eq; break; }
  case I_CALL: { CallInfo&ci=F->calls[I.x]; Func*t=ci.fn; std::vector<Val> args; args.reserve(ci.args.size()); for(int o:ci.args) args.push_back(V(o));
      if(ci.indirect){ u64 a=concretize(s,V(ci.calleeOp),64,pc0); if(a<FBASE||(a-FBASE)/16>=M.flist.size()||(a&15)) throw PathEnd{"memory","call through invalid pointer"}; t=M.flist[(a-FBASE)/16]; }
      if(t->redirect) t=t->redirect; int id=t->builtin;
      if(id==B_MEMCMP&&memcmpModel&&longCompare(s,args)){ t=memcmpModel; id=0; }
      if(id){ std::vector<Val> ret; if(ci.indirect) ci.name=t->name; doBuiltin(s,*f,I,ci,id,args,pc0,ret); f=&s.fr.back(); R=&s.regs[f->rb]; if(I.dst>=0){ if((int)ret.size()<ci.nret) throw Fatal{"builtin result "+t->name}; for(int i=0;i<ci.nret;i++) R[I.dst+i]=ret[i]; } if(ci.normal>=0) setEdge(s,*f,ci.normal); break; }
      // a system function the harness models
      if(!t->defined){ auto it=M.funcs.find("model_"+t->name); if(it!=M.funcs.end()&&it->second->defined) t=t->redirect=it->second; else throw Fatal{"call to external "+t->name}; }
      enter(s,t,args,I.dst,ci.normal); f=&s.fr.back(); F=f->f; break; }
  default: throw Fatal{"bad op"};
  } }
  if(s.steps>O.maxSteps) throw PathEnd{"hang","step limit"};
}
// ------------------------------------------------------------------ driver
static State* initial(){ auto it=M.funcs.find(O.harness); if(it==M.funcs.end()||!it->second->defined){ fprintf(stderr,"ENGINE-ERROR no harness %s\n",O.harness.c_str()); exit(3);} State*s=new State; enter(*s,it->second,{},-1,-1); return s; }
static void putv(FILE*o,const std::vector<u64>&v){ for(u64 x:v) fprintf(o," %llx",(unsigned long long)x); }
static S hexb(const std::vector<u8>&v){ static const char*h="0123456789abcdef"; S r; for(u8 b:v){ r+=h[b>>4]; r+=h[b&15]; } return r.empty()?"-":r; }
static S esc(const S&s){ S r; for(char c:s){ if(c=='\n') r+="\\n"; else if(c=='\t') r+=' '; else if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else r+=c; } return r; }
static int child(const std::vector<u64>&prefix,double slice,const S&path,double deadline,u64 seed){
  O.forced=prefix; rng=seed*0x9e3779b97f4a7c15ull+12345; if(!rng) rng=1; FILE*o=fopen(path.c_str(),"w"); double t0=now(); sliceEnd=std::min(t0+slice,deadline); S fatal; 
  try { work.push_back(initial());
    while(!work.empty()){ if(now()>sliceEnd&&ST.paths+ST.dropped>0) break; if((int)viols.size()>=O.maxViol) break;
      State*s=work.back(); work.pop_back(); bool done=true;
      try { done=runState(*s); if(done) finish(*s); else { work.push_back(s); s=nullptr; if(s==nullptr){ // slice over mid-path: give it back unless it never forked and made no progress
              if(now()<deadline&&work.size()==1&&ST.paths+ST.dropped==0&&work[0]->trace.size()<=prefix.size()){ sliceEnd=now()+slice; continue; } break; } } }
      catch(PathStop&){ finish(*s); } catch(PathDrop&){ ST.dropped++; } catch(PathEnd&e){ if(e.kind=="panic"&&s->panicOk) finish(*s); else { record(*s,e.kind,e.msg,0,s->model); ST.paths++; } }
      delete s; } }
  catch(Fatal&f){ fatal=f.msg; }
  catch(std::bad_alloc&){ fatal="out of memory"; }
  fprintf(o,"S %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %f\n",(unsigned long long)ST.paths,(unsigned long long)ST.forks,(unsigned long long)ST.insts,(unsigned long long)ST.checks,(unsigned long long)ST.checksSolver,(unsigned long long)ST.dropped,(unsigned long long)SS.z3_queries,(unsigned long long)SS.z3_sat,(unsigned long long)SS.z3_unsat,(unsigned long long)SS.z3_unknown,(unsigned long long)SS.cache_hits,(unsigned long long)SS.model_hits,(unsigned long long)SS.unary,(unsigned long long)SS.certified,(unsigned long long)g_nexpr,SS.z3_s);
  for(auto&v:viols){ fprintf(o,"V %s %u %s |",v.kind.c_str(),v.id,hexb(v.bytes).c_str()); putv(o,v.choices); fprintf(o," |%s|%s\n",esc(v.msg).c_str(),esc(v.stack).c_str()); }
  for(auto&x:samples){ fprintf(o,"T %llu %s |",(unsigned long long)x.steps,hexb(x.bytes).c_str()); putv(o,x.choices); fprintf(o," |"); putv(o,x.obs); fprintf(o,"\n"); }
  for(auto&c:coverCount) fprintf(o,"C %u %llu\n",c.first,(unsigned long long)c.second); for(auto&c:checkCount) fprintf(o,"K %u %llu\n",c.first,(unsigned long long)c.second);
  for(Func*f:M.flist) if(f->execs) fprintf(o,"F %llu %s\n",(unsigned long long)f->execs,f->name.c_str());
  if(fatal.empty()&&(int)viols.size()<O.maxViol) for(State*s:work){ fprintf(o,"P"); putv(o,s->trace); fprintf(o,"\n"); }
  if(!fatal.empty()) fprintf(o,"X %s\n",esc(fatal).c_str());
  fprintf(o,"E\n"); fclose(o); return 0; }
struct Task { std::vector<u64> prefix; };
int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ S a=argv[i]; auto nx=[&]{ return S(argv[++i]); }; if(a=="--harness") O.harness=nx(); else if(a=="--out") O.out=nx(); else if(a=="--jobs") O.jobs=atoi(nx().c_str()); else if(a=="--max-steps") O.maxSteps=strtoull(nx().c_str(),0,10); else if(a=="--time") O.timeLimit=atof(nx().c_str()); else if(a=="--seed") O.seed=strtoull(nx().c_str(),0,10); else if(a=="--samples") O.samples=atoi(nx().c_str()); else if(a=="--tmp") O.tmp=nx(); else if(a=="--no-certify") O.certify=false; else if(a=="--params"){ S p=nx(); size_t k=0; while(k<p.size()){ size_t e=p.find(',',k); if(e==S::npos)e=p.size(); if(e>k) O.params.push_back(strtoull(p.substr(k,e-k).c_str(),0,10)); k=e+1; } } else O.ir=a; }
  double t0=now(); loadModule(O.ir.c_str()); gobj.assign(M.glist.size()+2,nullptr);
  { auto it=M.funcs.find("model_memcmp"); if(it!=M.funcs.end()&&it->second->defined) memcmpModel=it->second; }
  // a hash map is right whatever its hash function: every key in one bucket, if no hash is computed in another place (the constant is SipHash's)
  { auto it=M.funcs.find("model_hash_one"); if(it!=M.funcs.end()&&it->second->defined){ std::vector<Func*> one; bool other=false; for(Func*f:M.flist) if(f->defined){ if(f->name.find("RandomState")!=S::npos&&f->name.find("BuildHasher8hash_one")!=S::npos) one.push_back(f); else if(M.text.substr(f->off,f->len).find("8317987319222330741")!=S::npos) other=true; } if(!other) for(Func*f:one) f->redirect=it->second; } }
  { Func*mm=nullptr; auto it=M.funcs.find("model_memchr"); if(it!=M.funcs.end()&&it->second->defined) mm=it->second; if(mm) for(Func*f:M.flist) if(f->name.find("4core5slice6memchr14memchr_aligned")!=S::npos) f->redirect=mm; }
  if(O.tmp.empty()) O.tmp="/tmp"; char tmpl[4096]; snprintf(tmpl,4096,"%s/symexXXXXXX",O.tmp.c_str()); if(!mkdtemp(tmpl)){ perror("mkdtemp"); return 3;} S dir=tmpl;
  double deadline=t0+O.timeLimit; std::deque<Task> q; q.push_back(Task()); std::map<pid_t,std::pair<S,Task>> run; u64 tot[15]={0}; double z3s=0; u64 seq=0,tasks=0; std::map<u32,u64> cov,chk; std::map<S,u64> fn; std::vector<S> V,T; S fatal; bool incomplete=false; u64 tseen=0; rng=O.seed*77777777ull+99; int nviol=0;
  while(!q.empty()||!run.empty()){
    while(!q.empty()&&(int)run.size()<O.jobs&&fatal.empty()&&!incomplete&&nviol<O.maxViol){ Task t=q.front(); q.pop_front(); double slice=((int)(q.size()+run.size())<O.jobs*2)?0.15:((int)q.size()<O.jobs*6?0.8:4.0); S path=dir+"/"+std::to_string(seq++); fflush(stdout); fflush(stderr); pid_t p=fork(); if(p==0){ int r=child(t.prefix,slice,path,deadline,O.seed*1000003+seq); _exit(r);} tasks++; run[p]={path,t}; }
    if(run.empty()) break;
    int st; pid_t p=wait(&st); auto it=run.find(p); if(it==run.end()) continue; S path=it->second.first; Task tk=it->second.second; run.erase(it); FILE*f=fopen(path.c_str(),"r"); bool end=false; if(f){ char*line=nullptr; size_t cap=0; ssize_t n; while((n=getline(&line,&cap,f))>0){ if(line[n-1]=='\n') line[--n]=0; S l(line,n);
        switch(line[0]){ case 'S': { u64 x[15]; double z; sscanf(line+2,"%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lf",&x[0],&x[1],&x[2],&x[3],&x[4],&x[5],&x[6],&x[7],&x[8],&x[9],&x[10],&x[11],&x[12],&x[13],&x[14],&z); for(int i=0;i<15;i++) tot[i]+=x[i]; z3s+=z; break; }
          case 'V': V.push_back(l.substr(2)); nviol++; break; case 'T': tseen++; if((int)T.size()<O.samples) T.push_back(l.substr(2)); else { u64 r=rnd()%tseen; if(r<(u64)O.samples) T[r]=l.substr(2);} break;
          case 'C': { u32 a; unsigned long b; sscanf(line+2,"%u %lu",&a,&b); cov[a]+=b; break; } case 'K': { u32 a; unsigned long b; sscanf(line+2,"%u %lu",&a,&b); chk[a]+=b; break; }
          case 'F': { char*sp=strchr(line+2,' '); fn[sp+1]+=strtoull(line+2,0,10); break; }
          case 'P': { Task t; char*c=line+1; while(*c){ char*e; u64 v=strtoull(c,&e,16); if(e==c) break; t.prefix.push_back(v); c=e; } q.push_back(t); break; }
          case 'X': if(fatal.empty()) fatal=l.substr(2); break; case 'E': end=true; break; } } free(line); fclose(f); }
    unlink(path.c_str()); if(!end&&fatal.empty()) fatal="worker died (status "+std::to_string(st)+")";
    if(now()>deadline&&(!q.empty()||!run.empty())) incomplete=true; }
  rmdir(dir.c_str());
  FILE*o=O.out.empty()?stdout:fopen(O.out.c_str(),"w"); static const char*names[]={"paths","forks","instructions","checks","checks_by_solver","dropped","z3_queries","z3_sat","z3_unsat","z3_unknown","z3_cache_hits","model_hits","table_decisions","z3_certified_prunes","expr_nodes"};
  fprintf(o,"{\n"); for(int i=0;i<15;i++) fprintf(o," \"%s\": %llu,\n",names[i],(unsigned long long)tot[i]); fprintf(o," \"z3_seconds\": %.3f,\n \"wall_s\": %.3f,\n \"tasks\": %llu,\n \"incomplete\": %s,\n \"fatal\": \"%s\",\n",z3s,now()-t0,(unsigned long long)tasks,incomplete?"true":"false",fatal.c_str());
  fprintf(o," \"covers\": {"); bool first=true; for(auto&c:cov){ fprintf(o,"%s\"%u\": %llu",first?"":", ",c.first,(unsigned long long)c.second); first=false; } fprintf(o,"},\n \"check_ids\": {"); first=true; for(auto&c:chk){ fprintf(o,"%s\"%u\": %llu",first?"":", ",c.first,(unsigned long long)c.second); first=false; } fprintf(o,"},\n");
  auto split=[&](const S&l){ std::vector<S> r; size_t k=0; while(true){ size_t e=l.find('|',k); if(e==S::npos){ r.push_back(l.substr(k)); break;} r.push_back(l.substr(k,e-k)); k=e+1; } return r; };
  auto nums=[&](const S&x){ S r="["; bool fst=true; size_t k=0; while(k<x.size()){ while(k<x.size()&&x[k]==' ')k++; size_t e=x.find(' ',k); if(e==S::npos)e=x.size(); if(e>k){ if(!fst) r+=","; r+=std::to_string(strtoull(x.substr(k,e-k).c_str(),0,16)); fst=false; } k=e; } return r+"]"; };
  fprintf(o," \"violations\": ["); first=true; for(auto&v:V){ auto p=split(v); char kind[32],hex[4096]; unsigned id; sscanf(p[0].c_str(),"%31s %u %4095s",kind,&id,hex); fprintf(o,"%s\n  {\"kind\":\"%s\",\"id\":%u,\"bytes\":\"%s\",\"choices\":%s,\"msg\":\"%s\",\"stack\":\"%s\"}",first?"":",",kind,id,!strcmp(hex,"-")?"":hex,nums(p[1]).c_str(),p.size()>2?p[2].c_str():"",p.size()>3?p[3].c_str():""); first=false; }
  fprintf(o,"],\n \"samples\": ["); first=true; for(auto&v:T){ auto p=split(v); unsigned long steps; char hex[4096]; sscanf(p[0].c_str(),"%lu %4095s",&steps,hex); fprintf(o,"%s\n  {\"steps\":%lu,\"bytes\":\"%s\",\"choices\":%s,\"obs\":%s}",first?"":",",steps,!strcmp(hex,"-")?"":hex,nums(p[1]).c_str(),nums(p[2]).c_str()); first=false; }
  fprintf(o,"],\n \"functions\": {"); first=true; for(auto&x:fn){ fprintf(o,"%s\n  \"%s\": %llu",first?"":",",x.first.c_str(),(unsigned long long)x.second); first=false; } fprintf(o,"}\n}\n"); if(o!=stdout) fclose(o);
  return fatal.empty()?(incomplete?4:0):3; }
