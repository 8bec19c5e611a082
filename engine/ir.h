#include <functional>
// Textual LLVM IR -> flat register code. Functions are decoded on first call.
#pragma once
#include "expr.h"
#include <string_view>
#include <unordered_map>
#include <memory>
struct Type { enum K{Void,Int,Ptr,Array,Struct,Vec,Float,Other} k=Void; int w=0; u64 n=0; std::vector<Type*> el; bool packed=false; u64 size=0; u32 align=1;
  std::vector<std::pair<u64,int>> leaves; bool leavesDone=false; std::vector<u64> offs; };
enum IOp : u16 { I_BIN, I_NOTEQ /*icmp ne*/, I_CMPSWAP /*ule etc via not(ult(b,a))*/, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_BITCAST, I_RMW, I_CMPXCHG, I_RESUME, I_UNSUP };
struct Edge { int block=-1; int pc=-1; std::vector<std::pair<int,int>> copies; };
struct Func;
struct CallInfo { Func* fn=nullptr; int builtin=0; std::string name; int calleeOp=0; bool indirect=false; std::vector<int> args; std::vector<int> argw; int nret=0; std::vector<int> retw; int normal=-1; };
struct SwitchInfo { std::vector<std::pair<u64,int>> cases; int def; };
struct GepIdx { int op; int w; int64_t scale; };
struct Inst { IOp op; u8 bop=0; u16 w=0,w2=0; int dst=-1,a=0,b=0,c=0; u32 x=0; u64 imm=0; };
struct Func { std::string name; size_t off=0,len=0; bool defined=false,decoded=false,bad=false; std::string why; u64 addr=0; int builtin=0;
  std::vector<int> params; std::vector<int> paramw; int nregs=0; std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> sws; std::vector<GepIdx> geps; std::vector<std::string> texts; std::vector<std::pair<int,int>> bc; std::vector<u32> allocSizes; std::vector<int> retw; u64 execs=0; Func* redirect=nullptr; u32 idx=0; std::vector<u8> hit; };
struct Global { std::string name; Type*ty=nullptr; bool constant=false,external=false; size_t initOff=0; size_t lineEnd=0; u64 addr=0; bool mat=false; std::vector<u8> data; u32 id=0; };
struct Module { std::string text; std::unordered_map<std::string,Func*> funcs; std::vector<Func*> flist; std::unordered_map<std::string,Global*> globals; std::vector<Global*> glist; std::unordered_map<std::string,Type*> named;
  std::unordered_map<std::string,size_t> namedOff; };
extern Module M;
void loadModule(const char*path);
void decode(Func*f);
void materialize(Global*g);
int builtinId(const std::string&name);
static const u64 SLOT=1ull<<25, GBASE=1ull<<40, SBASE=1ull<<45, HBASE=1ull<<46, FBASE=0x7e0000000000ull;
