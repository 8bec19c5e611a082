#include "ir.h"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <map>
Module M;
typedef std::string S; typedef std::string_view SV;
struct Unsup { S why; };
static Type *tVoid,*tPtr,*tOther; static std::map<int,Type*> tInts; 
static Type* tInt(int w){ Type*&t=tInts[w]; if(!t){t=new Type;t->k=Type::Int;t->w=w; u64 b=(w+7)/8; u64 s=1; while(s<b)s*=2; t->size=s; t->align=s>16?16:s;} return t; }
static std::map<S,Type*> tcache;
struct Cur { const char*p,*e; 
  void ws(){ while(p<e&&(*p==' '||*p=='\t'||*p=='\n'||*p=='\r')) p++; if(p<e&&*p==';'){ while(p<e&&*p!='\n')p++; ws(); } }
  bool peek(char c){ ws(); return p<e&&*p==c; }
  bool eat(char c){ ws(); if(p<e&&*p==c){p++;return true;} return false; }
  void need(char c){ if(!eat(c)) throw Unsup{S("expected ")+c+" at "+S(p,std::min<size_t>(40,e-p))}; }
  static bool wc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; }
  SV word(){ ws(); const char*s=p; while(p<e&&wc(*p))p++; return SV(s,p-s); }
  SV peekw(){ const char*s=p; SV w=word(); p=s; return w; }
  bool eatw(SV w){ ws(); const char*s=p; if(word()==w) return true; p=s; return false; }
  S name(){ // after sigil
    if(p<e&&*p=='"'){ p++; S r; while(p<e&&*p!='"'){ if(*p=='\\'&&p+2<e&&isxdigit((unsigned char)p[1])){ r+=(char)strtol(S(p+1,2).c_str(),0,16); p+=3;} else if(*p=='\\'&&p+1<e&&p[1]=='\\'){ r+='\\'; p+=2; } else r+=*p++; } p++; return r; }
    const char*s=p; while(p<e&&wc(*p))p++; return S(s,p-s); }
  void skipParens(){ // at '('
    int d=0; while(p<e){ if(*p=='"'){ p++; while(p<e&&*p!='"')p++; } if(*p=='('||*p=='['||*p=='{')d++; if(*p==')'||*p==']'||*p=='}'){ d--; if(!d){p++;return;} } p++; } }
};
static void layout(Type*t){ u64 o=0; u32 al=1; t->offs.clear(); for(Type*x:t->el){ u32 a=t->packed?1:x->align; o=(o+a-1)/a*a; t->offs.push_back(o); o+=x->size; if(a>al)al=a; } t->align=t->packed?1:al; t->size=(o+t->align-1)/t->align*t->align; }
static Type* parseType(Cur&c);
static Type* parseType0(Cur&c){
  c.ws(); if(c.p>=c.e) throw Unsup{"type eof"}; char ch=*c.p;
  if(ch=='['||ch=='<'){ c.p++; bool vec=ch=='<'; if(vec&&c.peek('{')){ c.p++; Type*t=new Type;t->k=Type::Struct;t->packed=true; if(!c.peek('}')) do t->el.push_back(parseType(c)); while(c.eat(',')); c.need('}'); c.need('>'); layout(t); return t; }
    u64 n=strtoull(S(c.word()).c_str(),0,10); if(!c.eatw("x")) throw Unsup{"array type"}; Type*el=parseType(c); c.need(vec?'>':']'); Type*t=new Type; t->k=vec?Type::Vec:Type::Array; t->n=n; t->el={el};
    if(vec){ u64 bits=el->k==Type::Int?el->w*n:el->size*8*n; t->size=(bits+7)/8; u64 s=1; while(s<t->size)s*=2; t->align=s; } else { t->size=el->size*n; t->align=el->align; } return t; }
  if(ch=='{'){ c.p++; Type*t=new Type;t->k=Type::Struct; if(!c.peek('}')) do t->el.push_back(parseType(c)); while(c.eat(',')); c.need('}'); layout(t); return t; }
  if(ch=='%'){ c.p++; S n=c.name(); auto it=M.named.find(n); if(it!=M.named.end()) return it->second; auto o=M.namedOff.find(n); if(o==M.namedOff.end()) throw Unsup{"named type "+n}; Cur d{M.text.data()+o->second,M.text.data()+M.text.size()}; Type*t=d.eatw("opaque")?tOther:parseType(d); M.named[n]=t; return t; }
  SV w=c.word();
  if(w=="ptr"){ if(c.eatw("addrspace")) { c.ws(); c.skipParens(); } return tPtr; }
  if(w=="void") return tVoid;
  if(w.size()>1&&w[0]=='i'&&isdigit((unsigned char)w[1])) return tInt(atoi(S(w.substr(1)).c_str()));
  if(w=="double"||w=="float"||w=="half"||w=="x86_fp80"||w=="fp128"){ Type*t=new Type; t->k=Type::Float; t->w=w=="double"?64:w=="float"?32:w=="half"?16:128; t->size=t->w/8; t->align=t->size; return t; }
  if(w=="metadata"||w=="label"||w=="token") return tOther;
  throw Unsup{"type "+S(w)}; }
static Type* parseType(Cur&c){ c.ws(); const char*s=c.p; Type*t=parseType0(c); if(t->k==Type::Array||t->k==Type::Struct||t->k==Type::Vec){ S key(s,c.p-s); auto&x=tcache[key]; if(!x) x=t; t=x; } return t; }
static const std::vector<std::pair<u64,int>>& leaves(Type*t){ if(t->leavesDone) return t->leaves; t->leavesDone=true;
  switch(t->k){ case Type::Int: t->leaves={{0,t->w}};break; case Type::Ptr:t->leaves={{0,64}};break; case Type::Float:t->leaves={{0,t->w}};break;
   case Type::Array: { if(t->n>4096) throw Unsup{"huge aggregate value"}; auto l=leaves(t->el[0]); for(u64 i=0;i<t->n;i++) for(auto&x:l) t->leaves.push_back({i*t->el[0]->size+x.first,x.second}); break; }
   case Type::Vec: { int ew=t->el[0]->k==Type::Ptr?64:t->el[0]->w; for(u64 i=0;i<t->n;i++) t->leaves.push_back({i*ew/8,ew}); break; }
   case Type::Struct: for(size_t i=0;i<t->el.size();i++) for(auto&x:leaves(t->el[i])) t->leaves.push_back({t->offs[i]+x.first,x.second}); break;
   default: break; } return t->leaves; }
static Func* getFunc(const S&n){ auto it=M.funcs.find(n); if(it!=M.funcs.end()) return it->second; Func*f=new Func; f->name=n; f->idx=M.flist.size(); f->addr=FBASE+16*f->idx; M.funcs[n]=f; M.flist.push_back(f); f->builtin=builtinId(n); return f; }
static u64 symAddr(const S&n){ auto it=M.globals.find(n); if(it!=M.globals.end()) return it->second->addr; return getFunc(n)->addr; }
static u128 parseIntLit(SV w){ if(w=="true") return 1; if(w=="false") return 0; bool neg=false; size_t i=0; if(w[0]=='-'){neg=true;i=1;} u128 v=0; if(i>=w.size()||!isdigit((unsigned char)w[i])) throw Unsup{"int literal "+S(w)}; for(;i<w.size();i++){ if(!isdigit((unsigned char)w[i])) throw Unsup{"int literal "+S(w)}; v=v*10+(w[i]-'0'); } return neg?(u128)0-v:v; }
static u128 m128(int w){ return w>=128?~(u128)0:((((u128)1)<<w)-1); }
struct ConstOut { virtual void put(u64 off,int w,u128 v)=0; };
static u128 constScalar(Cur&c,Type*t);
static u64 gepConst(Cur&c){ // after 'getelementptr' keyword: flags ( type, ptr X, idx...)
  while(!c.peek('(')) { c.word(); if(c.p<c.e&&*c.p!='('&&*c.p!=' '){ if(*c.p=='(') break; } if(c.peek('(')){ // could be inrange(...)
      break; } }
  c.need('('); Type*t=parseType(c); c.need(','); Type*pt=parseType(c); (void)pt; u64 base=constScalar(c,tPtr); bool first=true; Type*cur=t; u64 off=0;
  while(c.eat(',')){ c.eatw("inrange"); Type*it=parseType(c); int64_t i=sx((u64)constScalar(c,it),it->w); if(first){ off+=i*(int64_t)t->size; first=false; } else if(cur->k==Type::Struct){ off+=cur->offs[i]; cur=cur->el[i]; } else { cur=cur->el[0]; off+=i*(int64_t)cur->size; } }
  c.need(')'); return base+off; }
static u128 constScalar(Cur&c,Type*t){
  c.ws(); if(*c.p=='@'){ c.p++; return symAddr(c.name()); }
  const char*s=c.p; SV w=c.word(); if(w=="null"||w=="zeroinitializer"||w=="undef"||w=="poison"||w=="none") return 0;
  if(w=="getelementptr") return gepConst(c);
  if(w=="inttoptr"||w=="ptrtoint"||w=="bitcast"||w=="trunc"||w=="zext"||w=="addrspacecast"){ c.need('('); Type*a=parseType(c); u128 v=constScalar(c,a); if(!c.eatw("to")) throw Unsup{"constexpr"}; Type*b=parseType(c); c.need(')'); int bw=b->k==Type::Ptr?64:b->w; return v&m128(bw); }
  if(w=="add"||w=="sub"||w=="xor"){ while(!c.peek('(')) c.word(); c.need('('); Type*a=parseType(c); u128 x=constScalar(c,a); c.need(','); Type*b=parseType(c); u128 y=constScalar(c,b); c.need(')'); int bw=a->k==Type::Ptr?64:a->w; return (w=="add"?x+y:w=="sub"?x-y:x^y)&m128(bw); }
  if(t->k==Type::Float){ if(w.size()>2&&w[0]=='0'&&w[1]=='x') return strtoull(S(w).c_str(),0,16); c.p=s; char*en; double d=strtod(s,&en); c.p=en; u64 r; if(t->w==32){ float f=d; u32 q; memcpy(&q,&f,4); return q;} memcpy(&r,&d,8); return r; }
  if(w.empty()) throw Unsup{"const "+S(c.p,std::min<size_t>(30,c.e-c.p))};
  return parseIntLit(w)&m128(t->k==Type::Ptr?64:t->w); }
static void constAgg(Cur&c,Type*t,u64 off,const std::function<void(u64,int,u128)>&put,const std::function<void(u64,SV)>&bytes){
  c.ws();
  if(t->k==Type::Array||t->k==Type::Struct||t->k==Type::Vec){
    SV pw=c.peekw(); if(pw=="zeroinitializer"||pw=="undef"||pw=="poison"){ c.word(); return; }
    if(*c.p=='c'&&c.p[1]=='"'){ c.p++; S s=c.name(); bytes(off,s); return; }
    if(pw=="splat"){ c.word(); c.need('('); Type*et=parseType(c); u128 v=constScalar(c,et); c.need(')'); for(auto&l:leaves(t)) put(off+l.first,l.second,v); return; }
    bool ang=c.eat('<'); char open=t->k==Type::Struct?'{':'['; char close=t->k==Type::Struct?'}':']'; if(t->k==Type::Vec){ if(!ang) throw Unsup{"vec const"}; }
    else { c.need(open);} 
    size_t i=0; char cl=t->k==Type::Vec?'>':close;
    if(!c.peek(cl)) do { Type*et=parseType(c); u64 o=t->k==Type::Struct?t->offs[i]:t->k==Type::Vec?i*(u64)(leaves(t)[0].second)/8:i*t->el[0]->size; constAgg(c,et,off+o,put,bytes); i++; } while(c.eat(','));
    c.need(cl); if(t->k==Type::Struct&&ang) c.need('>'); return; }
  int w=t->k==Type::Ptr?64:t->w; u128 v=constScalar(c,t); put(off,w,v); }
void materialize(Global*g){ if(g->mat) return; g->mat=true; g->data.assign(g->ty->size,0); if(g->external) return; Cur c{M.text.data()+g->initOff,M.text.data()+g->lineEnd};
  try { constAgg(c,g->ty,0,[&](u64 o,int w,u128 v){ int n=(w+7)/8; for(int i=0;i<n;i++) g->data.at(o+i)=(u8)(v>>(8*i)); },[&](u64 o,SV s){ for(size_t i=0;i<s.size();i++) g->data.at(o+i)=s[i]; }); }
  catch(Unsup&u){ fprintf(stderr,"ENGINE-ERROR global %s: %s\n",g->name.c_str(),u.why.c_str()); exit(3);} }
void loadModule(const char*path){
  tVoid=new Type; tPtr=new Type; tPtr->k=Type::Ptr;tPtr->w=64;tPtr->size=8;tPtr->align=8; tOther=new Type; tOther->k=Type::Other;
  FILE*f=fopen(path,"rb"); if(!f){ fprintf(stderr,"ENGINE-ERROR cannot open %s\n",path); exit(3);} fseek(f,0,SEEK_END); size_t n=ftell(f); rewind(f); M.text.resize(n); if(fread(&M.text[0],1,n,f)!=n) exit(3); fclose(f);
  const char*b=M.text.data(),*e=b+n,*p=b; std::vector<std::pair<size_t,size_t>> gl;
  while(p<e){ const char*nl=(const char*)memchr(p,'\n',e-p); if(!nl) nl=e;
    if(*p=='@') gl.push_back({p-b,nl-b});
    else if(*p=='%'){ Cur c{p+1,nl}; S nm=c.name(); c.ws(); if(c.eat('=')&&c.eatw("type")){ c.ws(); M.namedOff[nm]=c.p-b; } }
    else if(!strncmp(p,"define ",7)){ const char*at=p; while(at<nl&&*at!='@') at++; Cur c{at+1,nl}; S nm=c.name(); Func*fn=getFunc(nm); fn->defined=true; fn->off=p-b; const char*q=nl; while(q<e&&!(q[0]=='\n'&&q[1]=='}')) q=(const char*)memchr(q+1,'\n',e-q-1); fn->len=(q-b)-fn->off; nl=q+2; while(nl<e&&*nl!='\n')nl++; }
    p=nl+1; }
  u32 id=1; for(auto&r:gl){ Cur c{b+r.first+1,b+r.second}; S nm=c.name(); c.need('='); Global*g=new Global; g->name=nm; g->lineEnd=r.second; bool ok=false,alias=false; 
    while(true){ c.ws(); const char*s=c.p; SV w=c.word(); if(w=="constant"){g->constant=true;ok=true;break;} if(w=="global"){ok=true;break;} if(w=="alias"||w=="ifunc"){alias=true;break;} if(w=="external"||w=="extern_weak"){g->external=true; continue;} if(w.empty()){ if(c.peek('(')) {c.skipParens(); continue;} break;} if(c.p<c.e&&*c.p=='(') c.skipParens(); (void)s; }
    if(alias||!ok){ continue; }
    try { g->ty=parseType(c); } catch(Unsup&u){ fprintf(stderr,"ENGINE-ERROR global %s: %s\n",nm.c_str(),u.why.c_str()); exit(3);} c.ws(); g->initOff=c.p-b; g->id=id; g->addr=GBASE+id*SLOT; id++; if(g->ty->size>=SLOT){ fprintf(stderr,"ENGINE-ERROR huge global\n"); exit(3);} M.globals[nm]=g; M.glist.push_back(g); }
}
// ---------------------------------------------------------------- functions
struct Dec { Func*f; Cur c; std::unordered_map<S,std::pair<int,Type*>> regs; std::unordered_map<S,int> labels; std::vector<int> blockPc; 
  struct Phi{ int block; int dst; Type*t; std::vector<std::pair<int /*operand base*/,S>> in; }; std::vector<Phi> phis; std::vector<std::pair<int,S>> edgeFix; std::vector<int> edgeFrom; int curBlock=0; std::vector<S> blockName;
  int newReg(int n){ int r=f->nregs; f->nregs+=n; return r; }
  int cst(Val v){ for(size_t i=0;i<f->consts.size();i++) if(f->consts[i]==v) return ~(int)i; f->consts.push_back(v); return ~(int)(f->consts.size()-1); }
  int cstAgg(const std::vector<Val>&v){ if(v.size()==1) return cst(v[0]); int r=f->consts.size(); for(auto&x:v) f->consts.push_back(x); return ~r; } // slot i is operand r-i (complement)
  static int slot(int op,int i){ return op>=0?op+i:op-i; }
  // a register may be used before its definition is decoded (phi); reserve on demand
  int regFor(const S&n,Type*t){ auto it=regs.find(n); if(it!=regs.end()) return it->second.first; int r=newReg(std::max<size_t>(1,leaves(t).size())); regs[n]={r,t}; return r; }
  int value(Type*t){ c.ws(); if(*c.p=='%'){ c.p++; return regFor(c.name(),t); }
    if(c.peekw()=="asm") throw Unsup{"asm"};
    auto&l=leaves(t); std::vector<Val> v(l.size()); size_t k; Cur save=c; (void)save;
    if(t->k==Type::Int||t->k==Type::Ptr||t->k==Type::Float){ u128 x=constScalar(c,t); return cst(mkconst(t->k==Type::Ptr?64:t->w,x)); }
    for(k=0;k<l.size();k++) v[k]=mkconst(l[k].second,0);
    constAgg(c,t,0,[&](u64 o,int w,u128 x){ for(size_t i=0;i<l.size();i++) if(l[i].first==o&&l[i].second==w){ // vectors of i1 share offsets: fill first unset
          v[i]=mkconst(w,x); return; } },[&](u64 o,SV s){ for(size_t j=0;j<s.size();j++) for(size_t i=0;i<l.size();i++) if(l[i].first==o+j) v[i]=Val((u64)(u8)s[j]); });
    return cstAgg(v); }
  int typed(Type**tt=nullptr){ Type*t=parseType(c); skipAttrs(); if(tt)*tt=t; return value(t); }
  void skipAttrs(){ while(true){ c.ws(); const char*s=c.p; if(c.p>=c.e) return; char ch=*c.p; if(ch=='%'||ch=='@'||ch=='"'||ch=='['||ch=='{'||ch=='<'||ch=='!'||ch==')'||ch==','||ch=='#') { if(ch=='#'){ c.p++; c.word(); continue;} if(ch=='"'){ c.name(); if(c.eat('=')) {c.ws(); c.name();} continue;} return; }
      SV w=c.word(); if(w.empty()) return;
      if(w=="true"||w=="false"||w=="null"||w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none"||w=="getelementptr"||w=="inttoptr"||w=="ptrtoint"||w=="bitcast"||w=="trunc"||w=="zext"||w=="add"||w=="sub"||w=="xor"||w=="splat"||w=="asm"||w=="c"||isdigit((unsigned char)w[0])||w[0]=='-'){ c.p=s; return; }
      if(w=="align"){ if(!c.peek('(')) { c.word(); continue; } }
      if(c.p<c.e&&*c.p=='(') c.skipParens(); } }
  Inst& emit(IOp op){ f->code.push_back(Inst()); f->code.back().op=op; return f->code.back(); }
  int edge(const S&lab){ f->edges.push_back(Edge()); edgeFix.push_back({(int)f->edges.size()-1,lab}); edgeFrom.push_back(curBlock); return f->edges.size()-1; }
  S label(){ c.ws(); if(!c.eatw("label")) throw Unsup{"label"}; c.ws(); c.need('%'); return c.name(); }
  void unsup(const S&w){ Inst&i=emit(I_UNSUP); i.x=f->texts.size(); f->texts.push_back(w); }
  void bin(int dst,Op op,int w,int a,int b,u8 flags=0){ Inst&i=emit(I_BIN); i.bop=op;i.w=w;i.dst=dst;i.a=a;i.b=b;i.c=flags; }
  void instr(SV line);
  void decodeAll();
};
static int tw(Type*t){ if(t->k==Type::Ptr) return 64; return t->w; }
static Type* vecel(Type*t){ return t->k==Type::Vec?t->el[0]:t; }
void Dec::instr(SV full){
  S dname; bool has=false; const char*begin=c.p; c.ws();
  if(*c.p=='%'){ const char*s=c.p; c.p++; dname=c.name(); c.ws(); if(*c.p!='=') { c.p=s; throw Unsup{"?"}; } c.p++; has=true; }
  SV op=c.word(); bool tail=false; while(op=="tail"||op=="musttail"||op=="notail"){ op=c.word(); tail=true; } (void)tail;
  auto def=[&](Type*t){ return has?regFor(dname,t):-1; };
  static const std::map<SV,Op> bins={{"add",O_ADD},{"sub",O_SUB},{"mul",O_MUL},{"udiv",O_UDIV},{"sdiv",O_SDIV},{"urem",O_UREM},{"srem",O_SREM},{"and",O_AND},{"or",O_OR},{"xor",O_XOR},{"shl",O_SHL},{"lshr",O_LSHR},{"ashr",O_ASHR}};
  auto bi=bins.find(op);
  if(bi!=bins.end()){ while(true){ SV w=c.peekw(); if(w=="nuw"||w=="nsw"||w=="exact"||w=="disjoint") c.word(); else break; } Type*t=parseType(c); int a=value(t); c.need(','); int b=value(t); int d=def(t); int n=leaves(t).size(); for(int i=0;i<n;i++) bin(d+i,bi->second,leaves(t)[i].second,slot(a,i),slot(b,i)); return; }
  if(op=="icmp"){ if(c.eatw("samesign")){} SV p=c.word(); Type*t=parseType(c); int a=value(t); c.need(','); int b=value(t); Type*rt=tInt(1); int n=leaves(t).size(); int d; if(t->k==Type::Vec){ Type*v=new Type;v->k=Type::Vec;v->n=n;v->el={tInt(1)}; d=def(v);} else d=def(rt); int w=leaves(t)[0].second;
    for(int i=0;i<n;i++){ int x=slot(a,i),y=slot(b,i); Op o; bool sw=false,neg=false; if(p=="eq")o=O_EQ; else if(p=="ne"){o=O_EQ;neg=true;} else if(p=="ult")o=O_ULT; else if(p=="ugt"){o=O_ULT;sw=true;} else if(p=="uge"){o=O_ULT;neg=true;} else if(p=="ule"){o=O_ULT;sw=neg=true;} else if(p=="slt")o=O_SLT; else if(p=="sgt"){o=O_SLT;sw=true;} else if(p=="sge"){o=O_SLT;neg=true;} else if(p=="sle"){o=O_SLT;sw=neg=true;} else throw Unsup{"icmp"}; if(sw) std::swap(x,y); bin(d+i,o,w,x,y,neg?1:0); f->code.back().w2=1; } return; }
  if(op=="trunc"||op=="zext"||op=="sext"||op=="ptrtoint"||op=="inttoptr"||op=="addrspacecast"||op=="ptrtoaddr"){ while(true){ SV w=c.peekw(); if(w=="nuw"||w=="nsw"||w=="nneg") c.word(); else break; } Type*t=parseType(c); int a=value(t); if(!c.eatw("to")) throw Unsup{"cast"}; Type*u=parseType(c); int d=def(u); int n=leaves(t).size(); for(int i=0;i<n;i++){ int w1=leaves(t)[i].second,w2=leaves(u)[i].second; Inst&I=emit(op=="sext"?I_SEXT:w2<w1?I_TRUNC:w2>w1?I_ZEXT:I_COPY); I.w=w1;I.w2=w2;I.dst=d+i;I.a=slot(a,i);} return; }
  if(op=="bitcast"||op=="freeze"){ Type*t=parseType(c); int a=value(t); Type*u=t; if(op=="bitcast"){ if(!c.eatw("to")) throw Unsup{"cast"}; u=parseType(c);} int d=def(u); auto&l=leaves(t);auto&r=leaves(u); if(l.size()==r.size()){ for(size_t i=0;i<l.size();i++){ Inst&I=emit(I_COPY); I.dst=d+i;I.a=slot(a,i);I.w=l[i].second;} } else { Inst&I=emit(I_BITCAST); I.a=a;I.dst=d;I.x=f->bc.size(); f->bc.push_back({(int)l.size(),l[0].second}); f->bc.push_back({(int)r.size(),r[0].second}); } return; }
  if(op=="select"){ Type*ct; int cnd=typed(&ct); c.need(','); Type*t; int a=typed(&t); c.need(','); int b=typed(); int d=def(t); int n=leaves(t).size(); for(int i=0;i<n;i++){ Inst&I=emit(I_SELECT); I.dst=d+i;I.a=ct->k==Type::Vec?slot(cnd,i):cnd;I.b=slot(a,i);I.c=slot(b,i);I.w=leaves(t)[i].second; I.w2=vecel(t)->k==Type::Ptr||t->k==Type::Struct||memmem(c.p,c.e-c.p,"!unpredictable",14); } 
    if(n>1&&cnd==d) throw Unsup{"select alias"}; return; }
  if(op=="load"){ c.eatw("atomic"); c.eatw("volatile"); Type*t=parseType(c); c.need(','); int p=typed(); int d=def(t); auto&l=leaves(t); if(t->k==Type::Vec&&l[0].second%8){ throw Unsup{"bitvec load"}; } int tmp=p; if(l.size()>1&&p>=0){ tmp=newReg(1); Inst&I=emit(I_COPY); I.dst=tmp;I.a=p;I.w=64; } for(size_t i=0;i<l.size();i++){ Inst&I=emit(I_LOAD); I.dst=d+i;I.a=tmp;I.imm=l[i].first;I.w=l[i].second;} return; }
  if(op=="store"){ c.eatw("atomic"); c.eatw("volatile"); Type*t; int v=typed(&t); c.need(','); int p=typed(); auto&l=leaves(t); if(t->k==Type::Vec&&l[0].second%8) throw Unsup{"bitvec store"}; for(size_t i=0;i<l.size();i++){ Inst&I=emit(I_STORE); I.b=slot(v,i);I.a=p;I.imm=l[i].first;I.w=l[i].second;} return; }
  if(op=="alloca"){ c.eatw("inalloca"); Type*t=parseType(c); u64 n=1; if(c.eat(',')){ SV w=c.peekw(); if(w!="align"){ Type*nt=parseType(c); n=(u64)constScalar(c,nt);} } Inst&I=emit(I_ALLOCA); I.dst=def(tPtr); f->code.back().imm=t->size*n; return; }
  if(op=="getelementptr"){ while(true){ SV w=c.peekw(); if(w=="inbounds"||w=="nuw"||w=="nusw") c.word(); else if(w=="inrange"){ c.word(); c.ws(); c.skipParens(); } else break; } Type*t=parseType(c); c.need(','); Type*bt; int base=typed(&bt); if(bt->k==Type::Vec) throw Unsup{"vector gep"}; u64 off=0; u32 g0=f->geps.size(); int cnt=0; bool first=true; Type*cur=t;
    while(true){ c.ws(); if(!c.peek(',')) break; const char*s=c.p; c.p++; c.ws(); if(*c.p=='!'){ c.p=s; break;} Type*it=parseType(c); c.ws(); if(it->k!=Type::Int) throw Unsup{"gep idx"}; int64_t scale; Type*nx=cur; if(first){ scale=t->size; first=false;} else if(cur->k==Type::Struct){ u64 i=(u64)constScalar(c,it); off+=cur->offs[i]; cur=cur->el[i]; continue; } else { nx=cur->el[0]; scale=nx->size; } 
      if(*c.p!='%'){ int64_t i=sx((u64)constScalar(c,it),it->w); off+=i*scale; } else { int v=value(it); f->geps.push_back({v,it->w,scale}); cnt++; } cur=nx; }
    Inst&I=emit(I_GEP); I.dst=def(tPtr); f->code.back().a=base; f->code.back().imm=off; f->code.back().x=g0; f->code.back().w2=cnt; return; }
  if(op=="br"){ if(c.peekw()=="label"){ S l=label(); Inst&I=emit(I_BR); (void)I; int e=edge(l); f->code.back().x=e; return; } Type*t=parseType(c); int v=value(t); c.need(','); S l1=label(); c.need(','); S l2=label(); emit(I_CBR); int e1=edge(l1),e2=edge(l2); f->code.back().a=v; f->code.back().b=e1; f->code.back().c=e2; return; }
  if(op=="switch"){ Type*t=parseType(c); int v=value(t); c.need(','); S d=label(); c.need('['); emit(I_SWITCH); size_t ii=f->code.size()-1; SwitchInfo s; s.def=edge(d); while(!c.eat(']')){ Type*ct=parseType(c); u64 k=(u64)constScalar(c,ct); c.need(','); S l=label(); s.cases.push_back({k,edge(l)}); } f->code[ii].a=v; f->code[ii].w=t->w; f->code[ii].x=f->sws.size(); f->sws.push_back(s); return; }
  if(op=="ret"){ Type*t=parseType(c); Inst&I=emit(I_RET); I.w=0; if(t->k!=Type::Void){ int v=value(t); f->code.back().a=v; f->code.back().w=leaves(t).size(); } return; }
  if(op=="unreachable"){ emit(I_UNREACH); return; }
  if(op=="resume"){ emit(I_RESUME); return; }
  if(op=="landingpad"||op=="cleanuppad"){ Type*t=parseType(c); def(t); unsup("landingpad"); return; }
  if(op=="extractvalue"){ Type*t=parseType(c); int a=value(t); int base=0; while(c.peek(',')){ const char*s=c.p; c.eat(','); c.ws(); if(*c.p=='!'){c.p=s;break;} int i=atoi(S(c.word()).c_str()); int k=0; if(t->k==Type::Struct){ for(int j=0;j<i;j++) k+=leaves(t->el[j]).size(); t=t->el[i]; } else { k=i*leaves(t->el[0]).size(); t=t->el[0]; } base+=k; } int d=def(t); int n=leaves(t).size(); for(int i=0;i<n;i++){ Inst&I=emit(I_COPY); I.dst=d+i;I.a=slot(a,base+i);I.w=leaves(t)[i].second;} return; }
  if(op=="insertvalue"){ Type*t=parseType(c); int a=value(t); c.need(','); Type*vt; int v=typed(&vt); Type*q=t; int base=0; while(c.peek(',')){ const char*s=c.p; c.eat(','); c.ws(); if(*c.p=='!'){c.p=s;break;} int i=atoi(S(c.word()).c_str()); int k=0; if(q->k==Type::Struct){ for(int j=0;j<i;j++) k+=leaves(q->el[j]).size(); q=q->el[i]; } else { k=i*leaves(q->el[0]).size(); q=q->el[0]; } base+=k; } int d=def(t); int n=leaves(t).size(),vn=leaves(vt).size(); for(int i=0;i<n;i++){ Inst&I=emit(I_COPY); I.dst=d+i; I.a=(i>=base&&i<base+vn)?slot(v,i-base):slot(a,i); I.w=leaves(t)[i].second; } return; }
  if(op=="extractelement"){ Type*t; int a=typed(&t); c.need(','); Type*it=parseType(c); c.ws(); if(*c.p=='%') throw Unsup{"extractelement var"}; u64 i=(u64)constScalar(c,it); int d=def(t->el[0]); Inst&I=emit(I_COPY); I.dst=d;I.a=slot(a,i);I.w=tw(t->el[0]); return; }
  if(op=="insertelement"){ Type*t; int a=typed(&t); c.need(','); int v=typed(); c.need(','); Type*it=parseType(c); c.ws(); if(*c.p=='%') throw Unsup{"insertelement var"}; u64 i=(u64)constScalar(c,it); int d=def(t); for(u64 j=0;j<t->n;j++){ Inst&I=emit(I_COPY); I.dst=d+j; I.a=j==i?v:slot(a,j); I.w=tw(t->el[0]); } return; }
  if(op=="shufflevector"){ Type*t; int a=typed(&t); c.need(','); int b=typed(); c.need(','); Type*mt=parseType(c); auto&ml=leaves(mt); int mv=value(mt); Type*rt=new Type; rt->k=Type::Vec; rt->n=ml.size(); rt->el={t->el[0]}; int d=def(rt); for(size_t j=0;j<ml.size();j++){ int sl=slot(mv,j); if(sl>=0) throw Unsup{"shuffle"}; u64 i=(u64)kof(f->consts[~sl]); Inst&I=emit(I_COPY); I.dst=d+j; I.a=i<t->n?slot(a,i):slot(b,i-t->n); I.w=tw(t->el[0]); } return; }
  if(op=="phi"){ while(true){ SV w=c.peekw(); if(w=="nnan"||w=="ninf"||w=="nsz"||w=="fast") c.word(); else break; } Type*t=parseType(c); int d=def(t); Phi p; p.block=curBlock;p.dst=d;p.t=t; do { c.ws(); if(*c.p!='[') break; c.need('['); int v=value(t); c.need(','); c.ws(); c.need('%'); S l=c.name(); c.need(']'); p.in.push_back({v,l}); } while(c.eat(',')); phis.push_back(p); return; }
  if(op=="fence") return;
  if(op=="atomicrmw"){ c.eatw("volatile"); SV o=c.word(); int p=typed(); c.need(','); Type*t; int v=typed(&t); Inst&I=emit(I_RMW); (void)I; int d=def(t); Inst&J=f->code.back(); J.dst=d;J.a=p;J.b=v;J.w=tw(t); static const std::map<SV,int> ops={{"xchg",0},{"add",1},{"sub",2},{"and",3},{"or",4},{"xor",5},{"umax",6},{"umin",7}}; auto it=ops.find(o); if(it==ops.end()) throw Unsup{"rmw"}; J.c=it->second; return; }
  if(op=="cmpxchg"){ c.eatw("weak"); c.eatw("volatile"); int p=typed(); c.need(','); Type*t; int x=typed(&t); c.need(','); int y=typed(); Type*rt=new Type; rt->k=Type::Struct; rt->el={t,tInt(1)}; layout(rt); emit(I_CMPXCHG); int d=def(rt); Inst&J=f->code.back(); J.dst=d;J.a=p;J.b=x;J.c=y;J.w=tw(t); return; }
  if(op=="call"||op=="invoke"){ bool inv=op=="invoke"; CallInfo ci;
    // flags, cc, ret attrs
    while(true){ c.ws(); const char*s=c.p; if(*c.p=='{'||*c.p=='<'||*c.p=='['||*c.p=='%') break; SV w=c.word(); if(w=="void"||w=="ptr"||w=="double"||w=="float"||w=="metadata"||(w.size()>1&&w[0]=='i'&&isdigit((unsigned char)w[1]))){ c.p=s; break; } if(w.empty()) throw Unsup{"call"}; if(w=="align"){ c.word(); continue;} if(w=="cc"){ c.word(); continue; } if(c.p<c.e&&*c.p=='(') c.skipParens(); }
    Type*rt=parseType(c); c.ws(); if(*c.p=='('){ c.skipParens(); c.ws(); }
    if(c.peekw()=="asm"){ // inline asm: empty barrier asm is a no-op, others unsupported
      throw Unsup{"asm"}; }
    if(*c.p=='@'){ c.p++; ci.name=c.name(); ci.fn=getFunc(ci.name); } else if(*c.p=='%'){ ci.indirect=true; ci.calleeOp=value(tPtr); } else { ci.indirect=true; ci.calleeOp=value(tPtr); }
    c.need('('); if(!c.peek(')')) do { Type*at=parseType(c); if(at->k==Type::Other){ // metadata operand
          int d=0; while(c.p<c.e){ if(*c.p=='('||*c.p=='{')d++; if(*c.p==')'||*c.p=='}'){ if(d==0)break; d--; } if(*c.p==','&&d==0)break; c.p++; } continue; }
        skipAttrs(); int v=value(at); auto&l=leaves(at); for(size_t i=0;i<l.size();i++){ ci.args.push_back(slot(v,i)); ci.argw.push_back(l[i].second);} } while(c.eat(',')); c.need(')');
    if(rt->k!=Type::Void){ for(auto&x:leaves(rt)) ci.retw.push_back(x.second); ci.nret=ci.retw.size(); }
    // attribute groups, operand bundles
    if(inv){ while(c.p<c.e){ c.ws(); if(*c.p=='['){ c.skipParens(); continue; } if(*c.p=='#'){ c.p++; c.word(); continue;} if(c.eatw("to")) break; c.word(); if(c.p<c.e&&*c.p=='(') c.skipParens(); } }
    emit(I_CALL); size_t ii=f->code.size()-1; f->code[ii].dst=rt->k==Type::Void?-1:def(rt); if(inv){ S l=label(); ci.normal=edge(l); }
    f->code[ii].x=f->calls.size(); f->calls.push_back(ci); return; }
  (void)begin; throw Unsup{"instruction "+S(op)}; }
void Dec::decodeAll(){
  const char*p=M.text.data()+f->off,*e=p+f->len; 
  c={p,e}; // header: define ... @name(params) ... {
  while(*c.p!='@') c.p++; c.p++; c.name(); c.need('('); int auton=0;
  if(!c.peek(')')) do { if(c.peek('.')){ c.p+=3; break; } Type*t=parseType(c); skipAttrs(); c.ws(); S n; if(*c.p=='%'){ c.p++; n=c.name(); } else n=std::to_string(auton); auton++; int r=regFor(n,t); auto&l=leaves(t); for(size_t i=0;i<l.size();i++){ f->params.push_back(r+i); f->paramw.push_back(l[i].second);} } while(c.eat(',')); c.need(')');
  const char*b=(const char*)memchr(c.p,'\n',e-c.p); if(!b) return; p=b+1; bool firstBlock=true;
  while(p<e){ const char*nl=(const char*)memchr(p,'\n',e-p); if(!nl) nl=e;
    if(nl==p||*p==';'){ p=nl+1; continue; }
    if(*p!=' '&&*p!='\t'){ // label
      Cur q{p,nl}; S n=q.name(); curBlock=blockPc.size(); blockPc.push_back(f->code.size()); labels[n]=curBlock; blockName.push_back(n); firstBlock=false; p=nl+1; continue; }
    if(firstBlock){ curBlock=0; blockPc.push_back(0); S n=std::to_string(auton); labels[n]=0; blockName.push_back(n); firstBlock=false; }
    // gather continuation lines for switch / landingpad / invoke
    const char*s=p; while(s<nl&&*s==' ')s++; SV line(s,nl-s); const char*end=nl;
    if(line.find("switch ")==0){ while(!memchr(p,']',end-p)||(end>p&&end[-1]=='[')){ const char*n2=(const char*)memchr(end+1,'\n',e-end-1); end=n2?n2:e; const char*q=end; while(q>p&&q[-1]!='\n')q--; while(*q==' ')q++; if(*q==']') break; if(end==e)break; } }
    else { while(end<e){ const char*q=end+1; if(q<e&&!strncmp(q,"          ",10)) { const char*n2=(const char*)memchr(q,'\n',e-q); end=n2?n2:e; } else break; } }
    c={s,end}; size_t mark=f->code.size(); size_t em=f->edges.size();
    try { instr(line); } catch(Unsup&u){ f->code.resize(mark); while(f->edges.size()>em){ f->edges.pop_back(); edgeFix.pop_back(); edgeFrom.pop_back(); } unsup(u.why+": "+S(line.substr(0,120))); }
    p=end+1; }
  for(size_t i=0;i<edgeFix.size();i++){ Edge&ed=f->edges[edgeFix[i].first]; auto it=labels.find(edgeFix[i].second); if(it==labels.end()){ f->bad=true; f->why="label "+edgeFix[i].second; return;} ed.block=it->second; ed.pc=blockPc[it->second]; }
  for(auto&ph:phis) for(size_t i=0;i<edgeFix.size();i++){ Edge&ed=f->edges[edgeFix[i].first]; if(ed.block!=ph.block) continue; for(auto&in:ph.in) if(in.second==blockName[edgeFrom[i]]){ int n=leaves(ph.t).size(); for(int k=0;k<n;k++) ed.copies.push_back({ph.dst+k,slot(in.first,k)}); break; } }
  f->hit.assign(f->code.size(),0);
}
void decode(Func*f){ if(f->decoded) return; f->decoded=true; Dec d; d.f=f; try { d.decodeAll(); } catch(Unsup&u){ f->bad=true; f->why=u.why; } }
