// jsa: finite-domain disjunctive abstract interpreter over LLVM IR.
//
// Abstract values are finite sets of integers (optionally expressed as a function of one finite-domain
// variable, so that branch conditions refine the variable), sets of (object, offset) pointers, aggregates, or Top.
// Abstract memory maps (object, offset) cells to values.  States are kept disjoint per program point up to a cap and
// are joined beyond it.  Everything is computed to a fixpoint; nothing is executed.
#pragma once
#include "cow.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/IntrinsicsAArch64.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace jsa
{
using namespace llvm;
typedef uint64_t u64;
static const int64_t UNKOFF = INT64_MIN;

struct Val
{
  enum K : uint8_t
  {
    Top,
    Ints,
    Ptr,
    Agg,
    Bytes, // an integer made of separately known bytes (little endian), in e
    Bits   // an integer made of separately known bits (least significant first, the rest is 0), in e
  };
  K k = Top;
  int dep = -1;                           // Ints: variable the value depends on (or -1)
  CowVec<u64> s;                          // Ints, dep<0: possible values, sorted
  CowVec<std::pair<u64, u64>> t;          // Ints, dep>=0: variable value -> value, sorted by variable value
  std::vector<std::pair<int, int64_t>> p; // Ptr: (object, offset) targets, sorted
  CowVec<Val> e;                          // Agg
  bool operator==(const Val &o) const
  {
    return k == o.k && dep == o.dep && s == o.s && t == o.t && p == o.p && e == o.e;
  }
  bool isTop() const
  {
    return k == Top;
  }
  static Val top()
  {
    return Val();
  }
  static Val cst(u64 v)
  {
    Val r;
    r.k = Ints;
    r.s.push_back(v);
    return r;
  }
  static Val set(std::vector<u64> v);
  static Val ptr(int obj, int64_t off)
  {
    Val r;
    r.k = Ptr;
    r.p.push_back({obj, off});
    return r;
  }
};

struct Cell
{
  unsigned size;
  Val v;
  bool operator==(const Cell &o) const
  {
    return size == o.size && v == o.v;
  }
};

struct Trace
{
  std::shared_ptr<Trace> prev;
  std::string what;
};

struct State
{
  CowMap<int, CowVec<u64>> vars;
  CowMap<std::pair<int, int64_t>, Cell> mem;
  std::vector<int> ts; // typestate owned by the policy
  std::shared_ptr<Trace> tr;
  const Instruction *loc = nullptr; // last point of interest, for reports only
  int64_t locOff = -1;
  bool eq(const State &o) const
  {
    return ts == o.ts && vars == o.vars && mem == o.mem;
  }
  void note(const std::string &w)
  {
    auto n = std::make_shared<Trace>();
    n->prev = tr;
    n->what = w;
    tr = n;
  }
};

typedef std::map<const Value *, Val> Env;
struct Exit
{
  Val ret;
  State st;
};

struct ObjInfo
{
  enum K
  {
    Arg,
    Alloca,
    Global,
    Deref,
    Named
  } kind;
  std::string name;
  const Value *v = nullptr; // alloca / global
  int ctx = 0;
  int parent = -1;
  int64_t off = 0;
};

class Interp;
// A policy customises the interpretation: it may take over calls, observe returns, and supply region contents.
struct Policy
{
  virtual ~Policy()
  {
  }
  // return true when handled; push every possible outcome
  virtual bool onCall(Interp &, const CallBase &, const Function *, const std::vector<Val> &, State &, int /*ctx*/,
                      std::vector<Exit> &)
  {
    return false;
  }
  virtual bool shouldInline(Interp &, const Function &)
  {
    return false;
  }
  virtual void onReturn(Interp &, const Function &, const Instruction &, const Val &, State &, int /*depth*/)
  {
  }
  virtual bool onLoad(Interp &, const LoadInst &, const Val &, State &, int, Val &)
  {
    return false;
  }
  virtual void onStore(Interp &, const StoreInst &, const Val &, const Val &, State &)
  {
  }
  // initial content of a memory cell that was never written
  virtual bool onInit(Interp &, int /*obj*/, int64_t /*off*/, Type *, State &, Val &)
  {
    return false;
  }
  // states whose key differs are never joined
  virtual std::string partitionKey(Interp &, const State &)
  {
    return std::string();
  }
};

class Program;

class Interp
{
public:
  Program &P;
  Policy &pol;
  const DataLayout &DL;
  unsigned cap = 48;        // states per block before joining
  unsigned intCap = 8;      // explicit values of a non-dependent set wider than 8 bits
  u64 steps = 0, maxSteps = 4000000;
  std::function<void()> tick; // called now and then
  bool exhausted = false;
  unsigned maxDepth = 40;
  std::map<const Function *, std::map<const BasicBlock *, int>> rpoOf;
  bool precise = false; // decide comparisons and differences of pointers into one object, compose wide loads from bytes
  bool splitVars = false; // arithmetic on two unknown bytes: one case per value of the second
  bool strict = false;  // everything is known except some bytes: unknown addresses and callees end the analysis
  std::set<const Function *> analysed;
  std::set<std::string> havocked;
  const Instruction *cur = nullptr;
  std::vector<const CallBase *> callStack;

  Interp(Program &P, Policy &pol);

  int obj(ObjInfo::K k, const std::string &name, const Value *v = nullptr, int ctx = 0, int parent = -1,
          int64_t off = 0);
  const ObjInfo &info(int o) const
  {
    return objs[o];
  }
  int argObj(unsigned i);
  int varId(const void *key, int ctx, u64 extra);
  int subCtx(int ctx, const void *call);

  // variables
  Val mkVar(State &st, Env *env, int id, std::vector<u64> dom);
  std::vector<u64> values(const State &st, const Val &v, bool &ok) const; // all possible ints
  bool isConst(const State &st, const Val &v, u64 &c) const;
  bool mayBe(const State &st, const Val &v, u64 c) const;
  bool mustBe(const State &st, const Val &v, u64 c) const;

  // memory
  Val load(State &st, Env *env, const Val &ptr, Type *ty, int ctx, const void *site);
  Val loadCell(State &st, Env *env, int obj, int64_t off, Type *ty, int ctx, const void *site);
  void store(State &st, const Val &ptr, const Val &v, unsigned size);
  void havocRange(State &st, int obj, int64_t off, int64_t size);
  void copyMem(State &st, const Val &dst, const Val &src, int64_t size);
  std::string valStr(const State &st, const Val &v) const;

  std::vector<Exit> run(const Function &F, std::vector<Val> args, State st, int ctx, int depth);

  Val eval(const Value *v, Env &env, State &st);
  Val binop(State &st, const Val &a, const Val &b, std::function<bool(u64, u64, u64 &)> f);
  Val unop(State &st, const Val &a, std::function<bool(u64, u64 &)> f);
  bool feasible(const State &st) const;
  bool refine(State &st, const Val &c, bool want);
  void plain(const State &st, Val &v) const;

private:
  struct BS
  {
    Env env;
    State st;
  };
  std::vector<ObjInfo> objs;
  std::map<std::tuple<int, std::string, const Value *, int, int, int64_t>, int> objIds;
  std::map<std::tuple<const void *, int, u64>, int> varIds;
  std::vector<int> varCtx;
  std::map<std::pair<int, const void *>, int> ctxIds;
  int nextCtx = 1;
  std::map<const Function *, std::map<const BasicBlock *, std::set<const Value *>>> liveIn;
  std::set<std::pair<const Function *, int>> active;

  const std::map<const BasicBlock *, std::set<const Value *>> &live(const Function &F);
  void gc(BS &b);
  bool subsumes(const BS &a, const BS &b) const; // a covers b
  BS join(const BS &a, const BS &b, const BasicBlock *bb, int ctx);
  Val joinVal(const State &sa, const Val &a, const State &sb, const Val &b, bool wide);
  void execCall(const CallBase &CB, Env &env, State &st, int ctx, int depth, std::vector<Exit> &out);
  Val evalInst(const Instruction &I, Env &env, State &st, int ctx);
  Val gep(const GEPOperator &G, Env &env, State &st);
  Val castOp(unsigned op, const Val &a, Type *from, Type *to, State &st);
  Val icmp(CmpInst::Predicate pr, const Val &a, const Val &b, unsigned bits, State &st);
  Val arith(unsigned op, const Val &a, const Val &b, unsigned bits, State &st);
  Val constVal(const Constant *C, Type *ty);
  bool constBytes(const GlobalVariable *G, int64_t off, Type *ty, Val &out);
  void renameCalleeVars(State &st, Val &ret, Env &env, const CallBase &CB, int ctx, int cctx);
  void norm(Val &v, unsigned bits) const;
  bool flatten(State &st, const Val &v, Type *ty, std::vector<Val> &bytes) const; // integers and vectors of integers
  Val compose(State &st, const std::vector<Val> &bytes, size_t from, Type *ty) const;
  bool toBits(State &st, const Val &v, unsigned bits, std::vector<Val> &out);
  bool splitOn(unsigned op, CmpInst::Predicate pr, const Val &a, const Val &b, unsigned bits, State &st, Val &bit, Val &result);
  void forkBits(const State &st, const std::vector<Val> &bits, std::vector<State> &out); // one case per length of the first run
};

// ---- program level facts taken from the module and its debug info
class Program
{
public:
  Module &M;
  std::map<const Function *, std::string> dem; // demangled name
  std::map<std::string, DICompositeType *> types;
  std::vector<GlobalVariable *> neverWritten; // not const in the source, but only ever read
  std::map<std::string, std::map<std::string, int64_t>> enums;
  explicit Program(Module &M);
  std::string name(const Function *F) const
  {
    auto it = dem.find(F);
    return it == dem.end() ? F->getName().str() : it->second;
  }
  // name without parameter list / return type
  static std::string stripParams(const std::string &d);
  int64_t field(const std::string &type, const std::string &path, int64_t *size = nullptr) const; // throws
  DIType *strip(DIType *T) const;
  std::string retType(const Function *F) const;
  std::string paramType(const Function *F, unsigned i) const; // pointee / value type name, qualified
  std::string typeName(DIType *T) const;
  bool inJS(const Function *F) const;  // defined in namespace JS (including instantiations)
  std::string where(const Instruction &I) const;
  std::string whereFn(const Function &F) const;
  std::vector<std::string> enumNames(const std::string &e) const;
};

struct BrokenAnalysis : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
} // namespace jsa
