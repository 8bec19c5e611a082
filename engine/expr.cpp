#include "expr.h"
#include <unordered_map>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
u64 g_nexpr=0;
static char* arena=0; static size_t arenaLeft=0;
static void* aalloc(size_t n){ n=(n+15)&~15ull; if(n>arenaLeft){ size_t s=n>(1u<<20)?n:(1u<<20); arena=(char*)malloc(s); arenaLeft=s;} void*p=arena; arena+=n; arenaLeft-=n; return p; }
static std::vector<Expr*> buckets(1<<16,nullptr); static size_t ncount=0;
static VarSet g_empty;
const VarSet& varsof(Expr*e){ return e->vs?*e->vs:g_empty; }
static VarSet* singles[MAXV];
static VarSet* single(int v){ if(!singles[v]){ singles[v]=new(aalloc(sizeof(VarSet)))VarSet(); singles[v]->set(v);} return singles[v]; }
static inline u32 mix(u32 h,u64 x){ h^=(u32)x*0x9e3779b1u; h=(h<<13|h>>19)*5+0xe6546b64u; h^=(u32)(x>>32)*0x85ebca6bu; h=(h<<11|h>>21)*0xc2b2ae35u; return h; }
static Val canon(Expr*e); static u128 mask128(int w); static Val conc128(Op op,int w,u128 a,u128 b);
static void grow(){ std::vector<Expr*> nb(buckets.size()*4,nullptr); for(Expr*e:buckets) while(e){ Expr*n=e->hnext; size_t i=e->hash&(nb.size()-1); e->hnext=nb[i]; nb[i]=e; e=n;} buckets.swap(nb); }
static Expr* intern(Op op,int w,Expr*a,Expr*b,Expr*c,u128 k,u32 off,int var,const void*tab,int es){
  u32 h=mix(op*131+w,(u64)k); h=mix(h,(u64)(k>>64)); h=mix(h,(u64)a>>4); h=mix(h,(u64)b>>4); h=mix(h,(u64)c>>4); h=mix(h,((u64)off<<32)|(u32)var);
  if(tab){ const u64*t=(const u64*)tab; u64 x=0; for(int i=0;i<32*es;i++){ x=(x^t[i])*0x9e3779b97f4a7c15ull; x^=x>>29; } h=mix(h,x); }
  h^=h>>16;
  for(Expr*e=buckets[h&(buckets.size()-1)];e;e=e->hnext)
    if(e->hash==h&&e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->k==k&&e->off==off&&(op!=O_LUT||e->var==var)&&(!tab||(e->es==es&&!memcmp(e->tab,tab,256*es)))) return e;
  if(ncount>buckets.size()*2) grow();
  Expr*e=(Expr*)aalloc(sizeof(Expr)); memset(e,0,sizeof*e); e->op=op;e->w=w;e->a=a;e->b=b;e->c=c;e->k=k;e->off=off;e->hash=h;e->id=ncount++;e->var=-1;
  g_nexpr++;
  if(tab){ e->es=es; e->tab=aalloc(256*es); memcpy(e->tab,tab,256*es);} 
  if(op==O_LUT){ e->var=var; e->vs=single(var); if(w==1){ e->tt=Dom::none(); for(int i=0;i<256;i++) if(e->at(i)) e->tt.set(i);} }
  else if(op!=O_CONST){
    Expr*ch[3]={a,b,c}; VarSet*v=nullptr; bool own=false; int same=-2;
    for(Expr*x:ch) if(x&&x->vs){ if(!v){v=x->vs; same=x->var;} else if(x->vs!=v&&memcmp(x->vs,v,sizeof*v)){ if(!own){ VarSet*n=(VarSet*)aalloc(sizeof(VarSet)); *n=*v; v=n; own=true;} v->merge(*x->vs); same=-1; } }
    e->vs=v; e->var=same==-2?-1:same; if(own){ e->var=-1; int n=v->count(); if(n==1) v->each([&](int q){e->var=q;}); }
  }
  if(op==O_ITE) e->constleaf=(b->op==O_CONST||(b->op==O_ITE&&b->constleaf))&&(c->op==O_CONST||(c->op==O_ITE&&c->constleaf));
  size_t i=h&(buckets.size()-1); e->hnext=buckets[i]; buckets[i]=e; return e;
}
static Val fin(Expr*e){ if(e->var>=0&&e->w<=64&&e->op!=O_LUT) return canon(e); return Val(e); }
static Expr* nconst(int w,u128 k){ return intern(O_CONST,w,0,0,0,k,0,-1,0,0); }
Val wrap(Expr*e){ if(e->op==O_CONST&&e->w<=64) return Val((u64)e->k); return Val(e); }
Val mkconst(int w,u128 k){ if(w<=64) return Val((u64)k&maskw(w)); if(w<128) k&=(((u128)1)<<w)-1; return Val(nconst(w,k)); }
static Expr* ex(Val v,int w){ return v.e?v.e:nconst(w,v.c); }
bool isconst(Val v){ return !v.e||v.e->op==O_CONST; }
u128 kof(Val v){ return v.e?v.e->k:(u128)v.c; }
Val mklut(int var,int w,const u64*t){
  u64 x0=t[0]; bool all=true; for(int i=1;i<256;i++) if(t[i]!=x0){all=false;break;} if(all) return Val(x0);
  int es=w<=8?1:w<=16?2:w<=32?4:8; static u64 buf[256];
  switch(es){case 1:for(int i=0;i<256;i++)((u8*)buf)[i]=t[i];break;case 2:for(int i=0;i<256;i++)((uint16_t*)buf)[i]=t[i];break;case 4:for(int i=0;i<256;i++)((u32*)buf)[i]=t[i];break;default:memcpy(buf,t,2048);} 
  return Val(intern(O_LUT,w,0,0,0,0,0,var,buf,es)); }
Val mklutx(Expr*idx,int w,const u64*t){
  u64 x0=t[0]; int lim=idx->w>=8?256:1<<idx->w; bool all=true; for(int i=1;i<lim;i++) if(t[i]!=x0){all=false;break;} if(all) return Val(x0);
  if(idx->op==O_LUT){ u64 r[256]; for(int i=0;i<256;i++) r[i]=t[idx->at(i)]; return mklut(idx->var,w,r);} 
  if(idx->op==O_LUTX){ u64 r[256]; for(int i=0;i<256;i++) r[i]=t[idx->at(i)]; return mklutx(idx->a,w,r);} 
  u64 tt[256]; memcpy(tt,t,sizeof tt); for(int i=lim;i<256;i++) tt[i]=0;
  int es=w<=8?1:w<=16?2:w<=32?4:8; static u64 buf[256];
  switch(es){case 1:for(int i=0;i<256;i++)((u8*)buf)[i]=tt[i];break;case 2:for(int i=0;i<256;i++)((uint16_t*)buf)[i]=tt[i];break;case 4:for(int i=0;i<256;i++)((u32*)buf)[i]=tt[i];break;default:memcpy(buf,tt,2048);} 
  return fin(intern(O_LUTX,w,idx,0,0,0,0,-1,buf,es)); }
Val mkvar(int v){ u64 t[256]; for(int i=0;i<256;i++)t[i]=i; return mklut(v,8,t); }
u64 concbin(Op op,int w,u64 a,u64 b,bool*trap){
  u64 m=maskw(w);
  switch(op){
    case O_ADD:return (a+b)&m;case O_SUB:return (a-b)&m;case O_MUL:return (a*b)&m;
    case O_UDIV: if(!b){if(trap)*trap=true;return m;} return a/b;
    case O_UREM: if(!b){if(trap)*trap=true;return a;} return a%b;
    case O_SDIV: if(!b){if(trap)*trap=true;return m;} if(sx(b,w)==-1) return (0-a)&m; return (u64)(sx(a,w)/sx(b,w))&m;
    case O_SREM: if(!b){if(trap)*trap=true;return a;} if(sx(b,w)==-1) return 0; return (u64)(sx(a,w)%sx(b,w))&m;
    case O_AND:return a&b;case O_OR:return a|b;case O_XOR:return a^b;
    case O_SHL:return b>=(u64)w?0:(a<<b)&m; case O_LSHR:return b>=(u64)w?0:a>>b;
    case O_ASHR:return (u64)(sx(a,w)>>(b>=(u64)w?(w-1):b))&m;
    case O_EQ:return a==b;case O_ULT:return a<b;case O_SLT:return sx(a,w)<sx(b,w);
    default: abort(); }
}
static bool unaryPair(Val a,Val b,int&v){ // both tables/consts of the same variable
  v=-1; if(a.e){ if(a.e->op!=O_LUT) return false; v=a.e->var;} if(b.e){ if(b.e->op!=O_LUT) return false; if(v>=0&&b.e->var!=v) return false; v=b.e->var;} return v>=0; }
// concat view: split x (width w) at bit position p into hi,lo
static bool isConcat(Val v){ return v.e&&v.e->op==O_CONCAT; }
static Val catHi(Expr*e){return wrap(e->a);} static Val catLo(Expr*e){return wrap(e->b);} 
static bool isOp(Val v,Op o){ return v.e&&v.e->op==o; }
Val mkextract(int w,Val x,int xw,int off){
  if(w==xw) return x;
  if(isconst(x)) return mkconst(w,kof(x)>>off);
  Expr*e=x.e;
  if(e->op==O_LUT){ u64 t[256],m=maskw(w); for(int i=0;i<256;i++) t[i]=(e->at(i)>>off)&m; return mklut(e->var,w,t);} 
  if(e->op==O_LUTX){ u64 t[256],m=maskw(w); for(int i=0;i<256;i++) t[i]=(e->at(i)>>off)&m; return mklutx(e->a,w,t);} 
  if(e->op==O_EXTRACT) return mkextract(w,wrap(e->a),e->a->w,off+e->off);
  if(e->op==O_CONCAT){ int lw=e->b->w; if(off>=lw) return mkextract(w,wrap(e->a),e->a->w,off-lw); if(off+w<=lw) return mkextract(w,wrap(e->b),lw,off);
    int l=lw-off; Val lo=mkextract(l,wrap(e->b),lw,off); Val hi=mkextract(w-l,wrap(e->a),e->a->w,0); return mkconcat(hi,w-l,lo,l);} 
  if(e->op==O_AND||e->op==O_OR||e->op==O_XOR) return mkbin(e->op,w,mkextract(w,wrap(e->a),xw,off),mkextract(w,wrap(e->b),xw,off));
  if(off==0&&(e->op==O_ADD||e->op==O_SUB||e->op==O_MUL)) return mkbin(e->op,w,mkextract(w,wrap(e->a),xw,0),mkextract(w,wrap(e->b),xw,0));
  if(e->op==O_ITE) return mkite(w,wrap(e->a),mkextract(w,wrap(e->b),xw,off),mkextract(w,wrap(e->c),xw,off));
  if(e->op==O_SEXT&&off+w<=e->a->w) return mkextract(w,wrap(e->a),e->a->w,off);
  return fin(intern(O_EXTRACT,w,e,0,0,0,off,-1,0,0)); }
Val mkconcat(Val hi,int hw,Val lo,int lw){
  int w=hw+lw; if(hw==0) return lo; if(lw==0) return hi;
  if(isconst(hi)&&isconst(lo)) return mkconst(w,(kof(hi)<<lw)|kof(lo));
  int v; if(w<=64&&unaryPair(hi,lo,v)){ u64 t[256]; for(int i=0;i<256;i++) t[i]=((hi.e?hi.e->at(i):hi.c)<<lw)|(lo.e?lo.e->at(i):lo.c); return mklut(v,w,t);} 
  if(isOp(hi,O_EXTRACT)&&isOp(lo,O_EXTRACT)&&hi.e->a==lo.e->a&&hi.e->off==lo.e->off+lw) return mkextract(w,wrap(hi.e->a),hi.e->a->w,lo.e->off);
  // hi-extract adjoining a full low part handled by: extract(x,off..) ++ extract(x,0..off)
  // right-associate so that equal splits normalise: (a++b)++c -> a++(b++c)
  if(isConcat(hi)) return mkconcat(catHi(hi.e),hi.e->a->w,mkconcat(catLo(hi.e),hi.e->b->w,lo,lw),hi.e->b->w+lw);
  if(isConcat(lo)){ // merge neighbours
    Expr*l=lo.e; Val lh=catHi(l); int lhw=l->a->w; int vv;
    bool m=(isconst(hi)&&isconst(lh))||(hw+lhw<=64&&unaryPair(hi,lh,vv)&&hi.e&&lh.e)||(isOp(hi,O_EXTRACT)&&isOp(lh,O_EXTRACT)&&hi.e->a==lh.e->a&&hi.e->off==lh.e->off+lhw);
    if(m){ Val h2=mkconcat(hi,hw,lh,lhw); return mkconcat(h2,hw+lhw,catLo(l),l->b->w);} }
  return fin(intern(O_CONCAT,w,ex(hi,hw),ex(lo,lw),0,0,0,-1,0,0)); }
Val mkzext(Val x,int xw,int w){ if(xw==w) return x; return mkconcat(mkconst(w-xw,0),w-xw,x,xw); }
Val mksext(Val x,int xw,int w){
  if(xw==w) return x; if(isconst(x)){ if(xw<=64&&w<=64) return Val((u64)sx(kof(x),xw)&maskw(w)); u128 k=kof(x); if(k>>(xw-1)&1) k|=(~(u128)0)<<xw; return mkconst(w,k);} 
  Expr*e=x.e; if(e->op==O_LUT&&w<=64){ u64 t[256],m=maskw(w); for(int i=0;i<256;i++) t[i]=(u64)sx(e->at(i),xw)&m; return mklut(e->var,w,t);} 
  if(e->op==O_LUTX&&w<=64){ u64 t[256],m=maskw(w); for(int i=0;i<256;i++) t[i]=(u64)sx(e->at(i),xw)&m; return mklutx(e->a,w,t);} 
  if(e->op==O_CONCAT&&e->a->op==O_CONST&&!((e->a->k>>(e->a->w-1))&1)) return mkzext(x,xw,w);
  if(e->op==O_ITE) return mkite(w,wrap(e->a),mksext(wrap(e->b),xw,w),mksext(wrap(e->c),xw,w));
  return fin(intern(O_SEXT,w,e,0,0,0,0,-1,0,0)); }
static bool isNot(Expr*e){ return e->op==O_XOR&&e->w==1&&e->b->op==O_CONST; }
Val mkite(int w,Val c,Val a,Val b){
  if(isconst(c)) return kof(c)?a:b; if(a==b) return a;
  if(isNot(c.e)) return mkite(w,wrap(c.e->a),b,a);
  if(c.e->op==O_LUT&&w<=64){ int v=c.e->var; bool ok=(!a.e||(a.e->op==O_LUT&&a.e->var==v))&&(!b.e||(b.e->op==O_LUT&&b.e->var==v));
    if(ok){ u64 t[256]; for(int i=0;i<256;i++) t[i]=c.e->at(i)?(a.e?a.e->at(i):a.c):(b.e?b.e->at(i):b.c); return mklut(v,w,t);} }
  if(w==1){ if(isconst(a)) return kof(a)?mkor1(c,b):mkand1(mknot1(c),b); if(isconst(b)) return kof(b)?mkor1(mknot1(c),a):mkand1(c,a); }
  if(isOp(b,O_ITE)&&b.e->a==c.e) return mkite(w,c,a,wrap(b.e->c));
  if(isOp(a,O_ITE)&&a.e->a==c.e) return mkite(w,c,wrap(a.e->b),b);
  if(isOp(b,O_ITE)&&wrap(b.e->b)==a) return mkite(w,mkor1(c,wrap(b.e->a)),a,wrap(b.e->c));
  if(w>1&&isOp(a,O_LUTX)&&isOp(c,O_LUTX)&&a.e->a==c.e->a&&!b.e){ u64 t[256]; for(int i=0;i<256;i++) t[i]=c.e->at(i)?a.e->at(i):b.c; return mklutx(c.e->a,w,t);} 
  return fin(intern(O_ITE,w,c.e,ex(a,w),ex(b,w),0,0,-1,0,0)); }
static Val mkbin2(Op op,int w,Val a,Val b);
Val mkbin(Op op,int w,Val a,Val b){
  if(!a.e&&!b.e&&w<=64) return Val(concbin(op,w,a.c,b.c));
  int rw=(op==O_EQ||op==O_ULT||op==O_SLT)?1:w; int v;
  if(w<=64&&unaryPair(a,b,v)){ u64 x[256],y[256],t[256];
    for(int i=0;i<256;i++) x[i]=a.e?a.e->at(i):a.c; for(int i=0;i<256;i++) y[i]=b.e?b.e->at(i):b.c;
    u64 m=maskw(w);
    switch(op){case O_ADD:for(int i=0;i<256;i++)t[i]=(x[i]+y[i])&m;break;case O_SUB:for(int i=0;i<256;i++)t[i]=(x[i]-y[i])&m;break;
      case O_AND:for(int i=0;i<256;i++)t[i]=x[i]&y[i];break;case O_OR:for(int i=0;i<256;i++)t[i]=x[i]|y[i];break;case O_XOR:for(int i=0;i<256;i++)t[i]=x[i]^y[i];break;
      case O_EQ:for(int i=0;i<256;i++)t[i]=x[i]==y[i];break;case O_ULT:for(int i=0;i<256;i++)t[i]=x[i]<y[i];break;
      default:for(int i=0;i<256;i++) t[i]=concbin(op,w,x[i],y[i]);} 
    return mklut(v,rw,t);} 
  // LUTX with a constant, or two LUTX of the same index
  if(w<=64&&((isOp(a,O_LUTX)&&!b.e)||(isOp(b,O_LUTX)&&!a.e)||(isOp(a,O_LUTX)&&isOp(b,O_LUTX)&&a.e->a==b.e->a))){
    u64 t[256]; for(int i=0;i<256;i++) t[i]=concbin(op,w,a.e?a.e->at(i):a.c,b.e?b.e->at(i):b.c); return mklutx(a.e?a.e->a:b.e->a,rw,t);} 
  return mkbin2(op,w,a,b); }
static Val mkc(int w,u128 k){return mkconst(w,k);} 
static u128 mask128(int w){ return w>=128?~(u128)0:(((u128)1)<<w)-1; }
static Val conc128(Op op,int w,u128 a,u128 b){ u128 m=mask128(w); auto s=[&](u128 x){return (__int128)(x<<(128-w))>>(128-w);};
  switch(op){case O_ADD:return mkc(w,(a+b)&m);case O_SUB:return mkc(w,(a-b)&m);case O_MUL:return mkc(w,(a*b)&m);case O_UDIV:return mkc(w,b?a/b:m);case O_UREM:return mkc(w,b?a%b:a);
   case O_AND:return mkc(w,a&b);case O_OR:return mkc(w,a|b);case O_XOR:return mkc(w,a^b);case O_SHL:return mkc(w,b>=(u128)w?0:(a<<(int)b)&m);case O_LSHR:return mkc(w,b>=(u128)w?0:a>>(int)b);
   case O_ASHR:return mkc(w,(u128)(s(a)>>(int)(b>=(u128)w?w-1:b))&m);case O_EQ:return Val((u64)(a==b));case O_ULT:return Val((u64)(a<b));case O_SLT:return Val((u64)(s(a)<s(b)));
   case O_SDIV:return mkc(w,b?(u128)(s(a)/s(b))&m:m);case O_SREM:return mkc(w,b?(u128)(s(a)%s(b))&m:a);default:abort();} }
static Val mkbin2(Op op,int w,Val a,Val b){
  if(isconst(a)&&isconst(b)) return conc128(op,w,kof(a),kof(b));
  bool comm=op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR||op==O_EQ;
  if(comm&&isconst(a)) std::swap(a,b);
  if(comm&&!isconst(b)&&a.e->id>b.e->id) std::swap(a,b);
  bool bk=isconst(b); u128 k=bk?kof(b):0; u128 m=mask128(w);
  int rw=(op==O_EQ||op==O_ULT||op==O_SLT)?1:w;
  // push constants into ITE trees with constant leaves
  if(bk&&isOp(a,O_ITE)&&a.e->constleaf) return mkite(rw,wrap(a.e->a),mkbin(op,w,wrap(a.e->b),b),mkbin(op,w,wrap(a.e->c),b));
  if(isconst(a)&&isOp(b,O_ITE)&&b.e->constleaf) return mkite(rw,wrap(b.e->a),mkbin(op,w,a,wrap(b.e->b)),mkbin(op,w,a,wrap(b.e->c)));
  switch(op){
  case O_ADD: if(bk&&k==0) return a; if(bk&&isOp(a,O_ADD)&&isconst(wrap(a.e->b))) return mkbin(O_ADD,w,wrap(a.e->a),mkc(w,(a.e->b->k+k)&m)); break;
  case O_SUB: if(bk) return mkbin(O_ADD,w,a,mkc(w,(0-k)&m)); if(a==b) return mkc(w,0); break;
  case O_MUL: if(bk&&k==0) return mkc(w,0); if(bk&&k==1) return a; if(bk&&!(k&(k-1))){ int s=0; while((k>>s)!=1) s++; return mkbin(O_SHL,w,a,mkc(w,s)); } break;
  case O_UDIV: if(bk&&k==1) return a; if(bk&&k&&!(k&(k-1))){ int s=0; while((k>>s)!=1) s++; return mkbin(O_LSHR,w,a,mkc(w,s)); } break;
  case O_UREM: if(bk&&k&&!(k&(k-1))) return mkbin(O_AND,w,a,mkc(w,k-1)); break;
  case O_AND: if(bk&&k==0) return mkc(w,0); if(bk&&k==m) return a; if(a==b) return a; goto bitwise;
  case O_OR: if(bk&&k==0) return a; if(bk&&k==m) return b; if(a==b) return a; goto bitwise;
  case O_XOR: if(bk&&k==0) return a; if(a==b) return mkc(w,0); if(bk&&isOp(a,O_XOR)&&isconst(wrap(a.e->b))) return mkbin(O_XOR,w,wrap(a.e->a),mkc(w,a.e->b->k^k)); goto bitwise;
  bitwise:
    if(isConcat(a)||isConcat(b)){ Expr*p=isConcat(a)?a.e:b.e; int lw=p->b->w,hw=p->a->w; 
      Val ah=mkextract(hw,a,w,lw),al=mkextract(lw,a,w,0),bh=mkextract(hw,b,w,lw),bl=mkextract(lw,b,w,0);
      return mkconcat(mkbin(op,hw,ah,bh),hw,mkbin(op,lw,al,bl),lw); }
    if(op==O_AND&&bk){ // contiguous mask -> concat of extract
      int lo=0; while(lo<w&&!((k>>lo)&1)) lo++; int hi=lo; while(hi<w&&((k>>hi)&1)) hi++; if(!(k>>hi)||hi==w){ 
        if(lo>0||hi<w){ Val x=mkextract(hi-lo,a,w,lo); x=mkconcat(x,hi-lo,mkc(lo,0),lo); return mkzext(x,hi,w);} } }
    if(w==1&&!bk){ // absorption: x & (x|y), x & (x & y), complements
      Expr*x=a.e,*y=b.e; if(isNot(x)&&x->a==y) return Val((u64)(op==O_AND?0:1)); if(isNot(y)&&y->a==x) return Val((u64)(op==O_AND?0:1));
      if(op!=O_XOR){ auto in=[&](Expr*p,Expr*q){return (p->op==O_AND||p->op==O_OR)&&(p->a==q||p->b==q);};
        if(in(y,x)) return y->op==op?b:a; if(in(x,y)) return x->op==op?a:b; } }
    break;
  case O_SHL: if(bk){ if(k==0) return a; if(k>=(u128)w) return mkc(w,0); int s=(int)k; return mkconcat(mkextract(w-s,a,w,0),w-s,mkc(s,0),s);} break;
  case O_LSHR: if(bk){ if(k==0) return a; if(k>=(u128)w) return mkc(w,0); int s=(int)k; return mkzext(mkextract(w-s,a,w,s),w-s,w);} break;
  case O_ASHR: if(bk){ if(k==0) return a; int s=k>=(u128)w?w-1:(int)k; return mksext(mkextract(w-s,a,w,s),w-s,w);} break;
  case O_EQ:
    if(a==b) return Val((u64)1);
    if(w==1){ if(bk) return k?a:mknot1(a); return mknot1(mkbin(O_XOR,1,a,b)); }
    if(isConcat(a)||isConcat(b)){ Expr*p=isConcat(a)?a.e:b.e; int lw=p->b->w,hw=p->a->w;
      if(bk||(isConcat(a)&&isConcat(b))||true){ Val h=mkbin(O_EQ,hw,mkextract(hw,a,w,lw),mkextract(hw,b,w,lw)); if(isconst(h)&&!kof(h)) return h; Val l=mkbin(O_EQ,lw,mkextract(lw,a,w,0),mkextract(lw,b,w,0)); return mkand1(h,l);} }
    if(bk&&isOp(a,O_ADD)&&isconst(wrap(a.e->b))) return mkbin(O_EQ,w,wrap(a.e->a),mkc(w,(k-a.e->b->k)&m));
    if(bk&&isOp(a,O_XOR)&&isconst(wrap(a.e->b))) return mkbin(O_EQ,w,wrap(a.e->a),mkc(w,k^a.e->b->k));
    if(bk&&k==0&&isOp(a,O_XOR)) return mkbin(O_EQ,w,wrap(a.e->a),wrap(a.e->b));
    if(bk&&k==0&&isOp(a,O_SUB)) return mkbin(O_EQ,w,wrap(a.e->a),wrap(a.e->b));
    if(bk&&k==0&&isOp(a,O_OR)) return mkand1(mkbin(O_EQ,w,wrap(a.e->a),mkc(w,0)),mkbin(O_EQ,w,wrap(a.e->b),mkc(w,0)));
    if(bk&&isOp(a,O_SEXT)){ int xw=a.e->a->w; Val t=mksext(mkc(xw,k&mask128(xw)),xw,w); if(kof(t)!=k) return Val((u64)0); return mkbin(O_EQ,xw,wrap(a.e->a),mkc(xw,k&mask128(xw))); }
    if(bk&&isOp(a,O_ITE)){ Val x=mkbin(O_EQ,w,wrap(a.e->b),b),y=mkbin(O_EQ,w,wrap(a.e->c),b); if(isconst(x)||isconst(y)) return mkite(1,wrap(a.e->a),x,y); }
    break;
  case O_ULT:
    if(a==b) return Val((u64)0); if(bk&&k==0) return Val((u64)0); if(isconst(a)&&kof(a)==m) return Val((u64)0);
    if(w==1) return mkand1(mknot1(a),b);
    if(bk&&k==1) return mkbin(O_EQ,w,a,mkc(w,0)); if(isconst(a)&&kof(a)==0) return mknot1(mkbin(O_EQ,w,b,mkc(w,0)));
    if((isConcat(a)&&(bk||isConcat(b)))||(isConcat(b)&&isconst(a))){ Expr*p=isConcat(a)?a.e:b.e; int lw=p->b->w,hw=p->a->w;
      Val ah=mkextract(hw,a,w,lw),bh=mkextract(hw,b,w,lw); Val hl=mkbin(O_ULT,hw,ah,bh); if(isconst(hl)&&kof(hl)) return hl; Val he=mkbin(O_EQ,hw,ah,bh); if(isconst(he)&&!kof(he)) return hl;
      Val ll=mkbin(O_ULT,lw,mkextract(lw,a,w,0),mkextract(lw,b,w,0)); return mkor1(hl,mkand1(he,ll)); }
    if(isOp(a,O_ITE)&&(isconst(wrap(a.e->b))||isconst(wrap(a.e->c)))&&bk) return mkite(1,wrap(a.e->a),mkbin(op,w,wrap(a.e->b),b),mkbin(op,w,wrap(a.e->c),b));
    if(isOp(b,O_ITE)&&(isconst(wrap(b.e->b))||isconst(wrap(b.e->c)))&&isconst(a)) return mkite(1,wrap(b.e->a),mkbin(op,w,a,wrap(b.e->b)),mkbin(op,w,a,wrap(b.e->c)));
    break;
  case O_SLT: {
    if(a==b) return Val((u64)0); if(w==1) return mkand1(a,mknot1(b));
    Val sa=mkextract(1,a,w,w-1),sb=mkextract(1,b,w,w-1);
    if(isconst(sa)&&isconst(sb)){ if(kof(sa)!=kof(sb)) return Val((u64)kof(sa)); return mkbin(O_ULT,w,a,b);} 
    if(bk&&k==0) return sa;
    break; }
  default: break; }
  return fin(intern(op,rw,ex(a,w),ex(b,w),0,0,0,-1,0,0)); }
static u32 g_gen=1; void evalnew(){ g_gen++; }
static u128 ev(Expr*e,const u8*m){
  if(e->op==O_LUT) return e->at(m[e->var]); if(e->op==O_CONST) return e->k; if(e->egen==g_gen) return e->ev; u128 r;
  switch(e->op){
   case O_LUTX: r=e->at((u64)ev(e->a,m)&255);break; case O_ITE: r=ev(e->a,m)?ev(e->b,m):ev(e->c,m);break;
   case O_CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m);break;
   case O_EXTRACT: r=(ev(e->a,m)>>e->off)&mask128(e->w);break;
   case O_SEXT: { r=ev(e->a,m); if(r>>(e->a->w-1)&1) r|=(~(u128)0)<<e->a->w; r&=mask128(e->w); break; }
   default: if(e->a->w>64) r=kof(conc128(e->op,e->a->w,ev(e->a,m),ev(e->b,m))); else r=concbin(e->op,e->a->w,(u64)ev(e->a,m),(u64)ev(e->b,m)); }
  e->egen=g_gen; e->ev=r; return r; }
static Val canon(Expr*e){ u64 t[256]; u8 m[MAXV]; memset(m,0,sizeof m); u32 save=g_gen; static u32 top=0x40000000; for(int i=0;i<256;i++){ g_gen=++top; m[e->var]=i; t[i]=(u64)ev(e,m);} g_gen=save; return mklut(e->var,e->w,t); }
u64 evalm(Val v,const u8*m){ if(!v.e) return v.c; return ev(v.e,m); }
static const std::vector<Expr*>*facts; // booleans known to be true
static Val reb(Expr*e,const std::function<Val(Expr*)>&leaf,std::unordered_map<Expr*,Val>&memo){
  if(e->op==O_CONST) return wrap(e); if(e->op==O_LUT) return leaf(e);
  if(facts&&e->w==1) for(Expr*x:*facts){ if(x==e) return Val((u64)1); if(x->op==O_XOR&&x->a==e&&x->b->op==O_CONST) return Val((u64)0); }
  auto it=memo.find(e); if(it!=memo.end()) return it->second; Val r;
  switch(e->op){
   case O_LUTX:{ Val x=reb(e->a,leaf,memo); if(isconst(x)) r=Val(e->at((u64)kof(x))); else { u64 t[256]; for(int i=0;i<256;i++)t[i]=e->at(i); r=mklutx(x.e,e->w,t);} break; }
   case O_ITE:{ Val c=reb(e->a,leaf,memo); if(isconst(c)) r=reb(kof(c)?e->b:e->c,leaf,memo); else r=mkite(e->w,c,reb(e->b,leaf,memo),reb(e->c,leaf,memo)); break; }
   case O_CONCAT: r=mkconcat(reb(e->a,leaf,memo),e->a->w,reb(e->b,leaf,memo),e->b->w);break;
   case O_EXTRACT: r=mkextract(e->w,reb(e->a,leaf,memo),e->a->w,e->off);break;
   case O_SEXT: r=mksext(reb(e->a,leaf,memo),e->a->w,e->w);break;
   case O_AND: case O_OR: if(e->w==1){ Val x=reb(e->a,leaf,memo); if(isconst(x)&&(kof(x)!=0)==(e->op==O_OR)){ r=x; break;} r=mkbin(e->op,1,x,reb(e->b,leaf,memo)); break; } // fallthrough
   default: r=mkbin(e->op,e->a->w,reb(e->a,leaf,memo),reb(e->b,leaf,memo)); }
  if(facts&&e->w==1&&r.e&&r.e!=e) for(Expr*x:*facts){ if(x==r.e){ r=Val((u64)1); break; } if(x->op==O_XOR&&x->a==r.e&&x->b->op==O_CONST){ r=Val((u64)0); break; } }
  memo[e]=r; return r; }
Val rebuild(Expr*e,const std::function<Val(Expr*)>&leaf,const std::vector<Expr*>*known){ std::unordered_map<Expr*,Val> memo; facts=known&&known->size()?known:nullptr; return reb(e,leaf,memo); }
std::string estr(Val v,int d){ char b[64]; if(isconst(v)){ snprintf(b,64,"%llu",(unsigned long long)kof(v)); return b;} Expr*e=v.e; if(d==0) return "..";
  static const char*n[]={"c","lut","lutx","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","concat","extract","sext","ite"};
  if(e->op==O_LUT){ snprintf(b,64,"T%d(v%d)#%u",e->w,e->var,e->id); return b; }
  std::string s=std::string("(")+n[e->op]; snprintf(b,64,"%d",e->w); s+=b; for(Expr*x:{e->a,e->b,e->c}) if(x) s+=" "+estr(wrap(x),d-1); return s+")"; }
