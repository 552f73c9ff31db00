#pragma once
#include "expr.hpp"
#include <atomic>
#include <deque>
#include <set>
#include <unordered_set>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

struct Val { u64 v; Expr *e; };
struct Obj { u8 *data; Expr **sym; u32 size; u8 st; u8 kind; u16 pad; };
enum { K_GLOBAL = 1, K_CONST, K_HEAP, K_STACK, K_FUNC };
static const u32 BASE = 0x1000;

enum Op : u8 { O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_SLT, O_SLE, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP,
  O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_FPEXT, O_FPTRUNC, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP,
  O_LOAD, O_STORE, O_GEPC, O_GEPI, O_SELECT, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_LPAD, O_RESUME, O_UNREACH,
  O_RMW, O_CMPXCHG, O_BAD, O_INTRIN };

struct Mv { i32 d, s; };
struct Edge { i32 target; u32 bb; std::vector<Mv> mv; };
struct CFunc;
struct CInst { Op op; u8 w, w2, fl; i32 dst, a, b, c; i64 imm; void *ext; u32 line; };
struct CallInfo { CFunc *fn = nullptr; i32 callee = 0; std::vector<i32> args; std::vector<u8> argw; std::vector<u64> byval; u8 nret = 0; bool isInvoke = false; Edge normal, unwind; u32 intrin = 0; u32 nfixed = 0; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; std::vector<Edge> edges; }; // edges[0] = default
struct LPad { bool cleanup; struct Cl { bool filter; std::vector<u64> tis; }; std::vector<Cl> cl; };
struct BadInfo { std::string what; };
struct Engine;
typedef void (*Builtin)(Engine &, CallInfo &, Val *);
struct CFunc { llvm::Function *F = nullptr; std::string name; std::vector<CInst> code; std::vector<Val> consts; u32 nslots = 0; std::vector<u32> argSlots; bool compiled = false, vararg = false; Builtin bi = nullptr; u32 idx = 0; u32 firstBB = 0; u64 addr = 0; };
struct Frame { CFunc *f; u32 base; CInst *ip; i32 retDst; CallInfo *ci; std::vector<u32> allocas; u64 va; CInst *callInst; };

struct ExcInfo { u64 ti, dtor; int handlers = 0; bool rethrown = false; };

static const int MAXIDS = 4096;
struct IdStat { char id[96]; std::atomic<u64> evaluated, concrete, proved, violated, reached; };
struct Shared {
  std::atomic<int> tokens; std::atomic<int> stop; std::atomic<int> lock;
  std::atomic<u64> paths, pathsDone, pathsAssumed, pathsStopped, pathsViol, forks, queries, qsat, qunsat, qunknown, qcache, tiny, qns, insts, concretized, crashes, unsupported, incomplete, instlimit, symvars, maxpc, procs, choices, liveproc;
  std::atomic<u64> assertQ;
  double deadline; std::atomic<u64> nviol;
  std::atomic<int> nids; IdStat ids[MAXIDS];
  char unsup[64][160]; std::atomic<int> nunsup;
  std::atomic<u64> nsamples;
  std::atomic<u32> cover[1]; // functions then blocks
};
