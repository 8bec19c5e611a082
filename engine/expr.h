// Symbolic bit-vector expressions over 8-bit variables.
// Normal form: every expression of width <= 64 that depends on exactly one
// variable is a value table (LUT) over that variable, so equal functions of one
// byte are the same node and feasibility of such a condition is a set test on
// the byte's domain. Everything else is a hash-consed DAG decided by z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef unsigned __int128 u128;
enum Op : u8 { O_CONST, O_LUT /*of variable*/, O_LUTX /*of 8-bit expr*/, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV,
  O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_SLT, O_CONCAT, O_EXTRACT, O_SEXT, O_ITE };
static const int MAXV = 512;
struct VarSet { u64 w[MAXV/64];
  VarSet(){memset(w,0,sizeof w);} 
  bool has(int v) const {return w[v>>6]>>(v&63)&1;}
  void set(int v){w[v>>6]|=1ull<<(v&63);}
  void merge(const VarSet&o){for(int i=0;i<MAXV/64;i++)w[i]|=o.w[i];}
  bool meets(const VarSet&o)const{for(int i=0;i<MAXV/64;i++)if(w[i]&o.w[i])return true;return false;}
  template<class F> void each(F f)const{for(int i=0;i<MAXV/64;i++){u64 x=w[i];while(x){int b=__builtin_ctzll(x);f(i*64+b);x&=x-1;}}}
  int count()const{int n=0;for(int i=0;i<MAXV/64;i++)n+=__builtin_popcountll(w[i]);return n;}
};
struct Dom { u64 w[4];
  static Dom full(){Dom d;for(auto&x:d.w)x=~0ull;return d;}
  static Dom none(){Dom d;for(auto&x:d.w)x=0;return d;}
  bool empty()const{return !(w[0]|w[1]|w[2]|w[3]);}
  bool has(int v)const{return w[v>>6]>>(v&63)&1;}
  void set(int v){w[v>>6]|=1ull<<(v&63);}
  Dom operator&(const Dom&o)const{Dom r;for(int i=0;i<4;i++)r.w[i]=w[i]&o.w[i];return r;}
  Dom operator~()const{Dom r;for(int i=0;i<4;i++)r.w[i]=~w[i];return r;}
  bool operator==(const Dom&o)const{return !memcmp(w,o.w,32);}
  int count()const{int n=0;for(u64 x:w)n+=__builtin_popcountll(x);return n;}
  int first()const{for(int i=0;i<4;i++)if(w[i])return i*64+__builtin_ctzll(w[i]);return -1;}
  template<class F> void each(F f)const{for(int i=0;i<4;i++){u64 x=w[i];while(x){int b=__builtin_ctzll(x);f(i*64+b);x&=x-1;}}}
};
struct Expr {
  Op op; u8 w; u8 es; /*table element size*/ bool constleaf; int var; /*single support var or -1*/
  u32 id; u32 egen; u128 ev; u32 off; u32 hash;
  Expr *a,*b,*c; u128 k; void* tab; VarSet* vs; void* z3; Expr* hnext; Dom tt; /*w==1 LUT*/
  u64 at(int i)const{ switch(es){case 1:return ((u8*)tab)[i];case 2:return ((uint16_t*)tab)[i];case 4:return ((u32*)tab)[i];default:return ((u64*)tab)[i];} }
};
struct Val { Expr* e; u64 c; 
  Val():e(0),c(0){} Val(u64 x):e(0),c(x){} Val(Expr*x):e(x),c(0){} 
  bool operator==(const Val&o)const{return e==o.e&&c==o.c;} };
static inline u64 maskw(int w){return w>=64?~0ull:((1ull<<w)-1);}
static inline int64_t sx(u64 v,int w){ if(w>=64) return (int64_t)v; return (int64_t)(v<<(64-w))>>(64-w);} 
extern u64 g_nexpr;
Val mkvar(int v);
Val mkconst(int w,u128 k);           // inline for w<=64
Val mkbin(Op op,int w,Val a,Val b);  // w = operand width (result 1 for EQ/ULT/SLT)
Val mkite(int w,Val c,Val a,Val b);
Val mkextract(int w,Val x,int xw,int off);
Val mkconcat(Val hi,int hw,Val lo,int lw);
Val mkzext(Val x,int xw,int w);
Val mksext(Val x,int xw,int w);
Val mklutx(Expr*idx8,int w,const u64*tab);
Val mklut(int var,int w,const u64*tab);
static inline Val mknot1(Val a){ return mkbin(O_XOR,1,a,Val((u64)1)); }
static inline Val mkand1(Val a,Val b){ return mkbin(O_AND,1,a,b);} 
static inline Val mkor1(Val a,Val b){ return mkbin(O_OR,1,a,b);} 
u64 concbin(Op op,int w,u64 a,u64 b,bool*trap=nullptr);
u64 evalm(Val v,const u8*model);     // value under a model (w<=64)
void evalnew();                       // invalidate eval memo
u128 kof(Val v);
bool isconst(Val v);
Val wrap(Expr*e);                     // const nodes of w<=64 become inline
int wof(Val v,int w);
const VarSet& varsof(Expr*e);
std::string estr(Val v,int depth=6);
// rebuild e with leaves mapped; leaf(e) is called on LUT-of-variable nodes
Val rebuild(Expr*e,const std::function<Val(Expr*)>&leaf,const std::vector<Expr*>*known=nullptr);
