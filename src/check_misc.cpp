// Whole-program rules.
//  globals  : no mutable state with static or thread storage duration is written outside its own initialisation, and no
//             C-library routine with hidden process-wide state is called
//  errnames : every error code is described by its own name
#include "common.h"
#include <llvm/IR/Dominators.h>
namespace jsa
{
namespace
{
bool externalReadOnly(Program &P, const Function *F, const CallBase &CB, unsigned arg)
{
  if (F->isIntrinsic())
  {
    switch (F->getIntrinsicID())
    {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline:
      return arg != 0;
    case Intrinsic::memset:
      return false;
    default:
      return true;
    }
  }
  if (CB.paramHasAttr(arg, Attribute::ReadOnly) || CB.paramHasAttr(arg, Attribute::ReadNone) ||
      F->hasParamAttribute(arg, Attribute::ReadOnly) || F->hasParamAttribute(arg, Attribute::ReadNone) ||
      F->onlyReadsMemory())
    return true;
  std::string d = P.name(F);
  if (endsWith(d, " const") && arg == 0)
    return true;
  // a const reference / pointer to const parameter of a resolved C++ function
  static const std::set<std::string> ro = {"memcmp", "strlen", "strcmp", "strncmp", "memchr", "strchr", "fprintf",
                                            "printf", "fputs", "fwrite", "__cxa_atexit", "__cxa_guard_acquire",
                                            "__cxa_guard_release", "__cxa_guard_abort"};
  if (ro.count(F->getName().str()))
    return true;
  size_t lp = d.find('(');
  if (lp != std::string::npos)
  {
    std::string ps = d.substr(lp);
    // every pointer/reference parameter is to const and the pointer is not the object itself
    bool method = F->getName().starts_with("_ZN") && F->getSubprogram() == nullptr;
    if (!(method && arg == 0))
    {
      bool all = true;
      for (size_t i = 0; i < ps.size(); i++)
        if (ps[i] == '&' || ps[i] == '*')
        {
          if (i < 6 || ps.substr(i - 6, 6) != " const")
            all = ps[i] == '&' && i + 1 < ps.size() && ps[i + 1] == '&' ? all : false;
        }
      if (all)
        return true;
    }
  }
  return false;
}
} // namespace

int checkGlobals(Program &P, Report &R, const std::vector<std::string> &)
{
  // 1. writes
  std::vector<GlobalVariable *> gs;
  for (auto &G : P.M.globals())
  {
    if (G.isDeclaration() || G.isConstant() || G.getName().starts_with("llvm."))
      continue;
    std::string d = demangle(G.getName().str());
    if (startsWith(d, "guard variable"))
      continue;
    if (d.find("JS::") == std::string::npos && d.find("drv::") == std::string::npos)
      continue;
    gs.push_back(&G);
  }
  for (auto *G : P.neverWritten)
  {
    R.ok();
    R.add("never_written_variables");
  }
  u64 sites = 0;
  std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
  std::function<void(GlobalVariable *)> scan = [&](GlobalVariable *G) {
    std::string gname = demangle(G->getName().str());
    // deep flow-insensitive derivation of addresses reachable from G
    std::set<const Value *> seen;
    std::vector<const Value *> wl{G};
    auto push = [&](const Value *v) {
      if (seen.insert(v).second)
        wl.push_back(v);
    };
    seen.insert(G);
    auto initOnly = [&](const Instruction &I) {
      const Function *F = I.getFunction();
      if (F->getName().starts_with("__cxx_global_var_init") || F->getName().starts_with("_GLOBAL__sub_I"))
        return true;
      std::string gv = "_ZGV" + G->getName().substr(2).str();
      for (auto &J : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&J))
          if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "__cxa_guard_acquire")
            if (auto *gg = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts()))
              if (gg->getName() == gv)
              {
                auto &DT = dts[F];
                if (!DT)
                  DT = std::make_unique<DominatorTree>(*const_cast<Function *>(F));
                // the block entered when the guard was acquired
                auto *br = dyn_cast<BranchInst>(CB->getParent()->getTerminator());
                if (br && br->isConditional())
                  for (unsigned k = 0; k < 2; k++)
                  {
                    auto *s = br->getSuccessor(k);
                    bool isInit = s->getSinglePredecessor() == CB->getParent();
                    if (isInit && DT->dominates(s, I.getParent()))
                      return true;
                  }
              }
      return false;
    };
    while (!wl.empty())
    {
      const Value *v = wl.back();
      wl.pop_back();
      for (auto *U : v->users())
      {
        if (isa<ConstantExpr>(U))
        {
          push(U);
          continue;
        }
        if (isa<Constant>(U))
          continue;
        auto *I = dyn_cast<Instruction>(U);
        if (!I)
          continue;
        sites++;
        if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) ||
            isa<ExtractValueInst>(I) || isa<FreezeInst>(I))
          push(I);
        else if (auto *L = dyn_cast<LoadInst>(I))
        {
          if (L->getType()->isPointerTy())
            push(L);
        }
        else if (auto *S = dyn_cast<StoreInst>(I))
        {
          if (S->getPointerOperand() == v && !initOnly(*S))
            R.violation("global-written", gname + " in " + Program::stripParams(P.name(S->getFunction())), P.where(*S),
                        "shared variable " + gname + " is written outside its initialisation by " +
                          P.name(S->getFunction()));
        }
        else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I))
        {
          if (!initOnly(*I))
            R.violation("global-written", gname + " in " + Program::stripParams(P.name(I->getFunction())), P.where(*I),
                        "shared variable " + gname + " is updated by " + P.name(I->getFunction()));
        }
        else if (auto *CB = dyn_cast<CallBase>(I))
        {
          auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          if (initOnly(*I))
          {
            if (F && F->getReturnType()->isPointerTy() && !F->isDeclaration())
              ;
            continue;
          }
          for (unsigned a = 0; a < CB->arg_size(); a++)
            if (CB->getArgOperand(a) == v)
            {
              if (F && F->isIntrinsic() && (F->getName().starts_with("llvm.threadlocal") ||
                                             F->getName().starts_with("llvm.launder") ||
                                             F->getName().starts_with("llvm.strip")))
                push(I);
              else if (F && !F->isDeclaration() && a < F->arg_size())
                push(F->getArg(a));
              else if (F && externalReadOnly(P, F, *CB, a))
              {
                if (I->getType()->isPointerTy() && endsWith(P.name(F), " const"))
                  push(I);
              }
              else if (F && F->getName() == "_ZdlPvm")
                ;
              else
                R.violation("global-written",
                            gname + " in " + Program::stripParams(P.name(I->getFunction())) + " via " +
                              (F ? Program::stripParams(P.name(F)) : std::string("an indirect call")),
                            P.where(*I),
                            "shared variable " + gname + " is passed for modification to " +
                              (F ? P.name(F) : std::string("an indirect call")) + " by " + P.name(I->getFunction()));
            }
        }
        else if (auto *RI = dyn_cast<ReturnInst>(I))
        {
          // the caller receives the address
          const Function *F = RI->getFunction();
          for (auto *U2 : F->users())
            if (auto *CB2 = dyn_cast<CallBase>(U2))
              if (CB2->getCalledOperand()->stripPointerCasts() == F)
                push(CB2);
        }
      }
    }
  };
  for (auto *G : gs)
  {
    scan(G);
    R.ok();
    R.sample("variable " + demangle(G->getName().str()));
    R.add("shared_variables");
  }
  u64 consts = 0;
  for (auto &G : P.M.globals())
    if (!G.isDeclaration() && G.isConstant())
    {
      std::string d = demangle(G.getName().str());
      if (d.find("JS::") != std::string::npos)
        consts++;
    }
  R.stat("constant_tables", consts);
  R.stat("use_sites", sites);
  if (gs.empty() && consts < 3)
    throw BrokenAnalysis("no variables with static storage found in the library");
  // 2. hidden process state
  static const std::set<std::string> hidden = {
    "strtok", "rand", "srand", "random", "srandom", "setlocale", "localeconv", "strerror", "getenv", "setenv", "putenv",
    "localtime", "gmtime", "ctime", "asctime", "strtod", "strtof", "strtold", "atof", "sscanf", "vsscanf", "isalpha",
    "isdigit", "isspace", "isalnum", "isprint", "ispunct", "isxdigit", "iscntrl", "toupper", "tolower", "mblen",
    "mbtowc", "wctomb", "signal", "__isoc99_sscanf", "__isoc23_strtod", "drand48", "lrand48", "tmpnam"};
  u64 calls = 0;
  for (auto &F : P.M)
  {
    if (F.isDeclaration() || !P.inJS(&F))
      continue;
    R.add("library_functions");
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
          if (C->isDeclaration() && !C->isIntrinsic())
          {
            calls++;
            if (hidden.count(C->getName().str()))
              R.violation("hidden-state", C->getName().str() + " in " + Program::stripParams(P.name(&F)), P.where(I),
                          "calls " + C->getName().str() + ", which reads or changes process-wide state");
            else
              R.ok();
          }
  }
  R.stat("external_calls", calls);
  if (R.stats["library_functions"] < 300)
    throw BrokenAnalysis("too few library functions found");
  return 0;
}

namespace
{
struct ErrPolicy : Policy
{
  Program &P;
  std::set<std::string> names; // enumerators
  std::set<std::string> seen;
  bool bad = false;
  SmallCache small;
  ErrPolicy(Program &P) : P(P)
  {
  }
  int self = -1;
  int64_t lists[2] = {-1, -1}; // offsets of the member lists
  bool listRead[2] = {false, false};
  bool onLoad(Interp &, const LoadInst &, const Val &p, State &, int, Val &) override
  {
    if (p.k == Val::Ptr)
      for (auto &q : p.p)
        for (int k = 0; k < 2; k++)
          if (q.first == self && lists[k] >= 0 && q.second >= lists[k] && q.second < lists[k] + 24)
            listRead[k] = true;
    return false;
  }
  bool shouldInline(Interp &, const Function &F) override
  {
    if (P.inJS(&F))
      return true;
    return small(F, 60);
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &args, State &st, int,
              std::vector<Exit> &) override
  {
    for (auto &a : args)
      if (a.k == Val::Ptr)
        for (auto &p : a.p)
        {
          auto &o = I.info(p.first);
          if (o.kind != ObjInfo::Global)
            continue;
          auto *G = dyn_cast_or_null<GlobalVariable>(o.v);
          if (!G || !G->hasInitializer())
            continue;
          auto *D = dyn_cast<ConstantDataArray>(G->getInitializer());
          if (D && D->isCString())
          {
            std::string s = D->getAsCString().str();
            if (names.count(s) && p.second == 0)
              seen.insert(s);
          }
        }
    return false;
  }
};
} // namespace

int checkErrNames(Program &P, Report &R, const std::vector<std::string> &)
{
  auto E = P.enums["JS::Error"];
  if (E.size() < 5)
    throw BrokenAnalysis("error enumeration not found");
  struct Root
  {
    const char *fn;
    const char *type;
    const char *field;
  };
  Root roots[] = {{"JS::Tokenizer::makeErrorString", "JS::Tokenizer", "error_context.error"},
                  {"JS::ParseContext::makeErrorString", "JS::ParseContext", "error"}};
  for (auto &rt : roots)
  {
    const Function *F = nullptr;
    for (auto &f : P.M)
      if (!f.isDeclaration() && Program::stripParams(P.name(&f)) == rt.fn)
        F = &f;
    if (!F)
      throw BrokenAnalysis(std::string(rt.fn) + " not found");
    int self = -1;
    for (unsigned i = 0; i < F->arg_size(); i++)
      if (!F->hasParamAttribute(i, Attribute::StructRet))
      {
        self = int(i);
        break;
      }
    for (auto &e : E)
    {
      if (e.first == "UserDefinedErrors" || e.first == "NoError")
        continue;
      for (int viaTok = 0; viaTok < 2; viaTok++)
      {
        // the parse context either asks the tokenizer (same error recorded there) or describes the error itself
        if (viaTok && std::string(rt.type) != "JS::ParseContext")
          continue;
        ErrPolicy pol(P);
        for (auto &x : E)
          pol.names.insert(x.first);
        Interp I(P, pol);
        State st;
        std::vector<Val> args;
        for (unsigned i = 0; i < F->arg_size(); i++)
          args.push_back(F->getArg(i)->getType()->isPointerTy() ? Val::ptr(I.argObj(i), 0) : Val::top());
        int o = I.argObj(unsigned(self));
        st.mem[{o, P.field(rt.type, rt.field)}] = Cell{1, Val::cst((u64)e.second)};
        if (std::string(rt.type) == "JS::ParseContext")
          st.mem[{o, P.field(rt.type, "tokenizer.error_context.error")}] =
            Cell{1, Val::cst(viaTok ? (u64)e.second : 0)};
        bool pc = std::string(rt.type) == "JS::ParseContext";
        int list = -1;
        if (pc)
        {
          pol.self = o;
          pol.lists[0] = P.field(rt.type, "missing_members");
          pol.lists[1] = P.field(rt.type, "unassigned_required_members");
          list = e.first == "MissingPropertyMember" ? 0 : e.first == "UnassignedRequiredMember" ? 1 : -1;
        }
        I.run(*F, args, st, 0, 0);
        if (I.exhausted)
          throw BrokenAnalysis("state budget exhausted in makeErrorString");
        R.add("codes");
        std::string got;
        for (auto &s : pol.seen)
          if (s != "NoError")
            got += s + " ";
        for (int k = 0; k < 2; k++)
          if (pc && pol.listRead[k] != (k == list) && (pol.listRead[k] || !pol.seen.count(e.first)))
            R.violation("error-members", std::string(rt.fn) + " " + e.first, P.whereFn(*F),
                        "the report for error " + e.first + (pol.listRead[k] ? " lists" : " does not list") +
                          (k ? " the required members without a value" : " the unknown members of the input"));
        if (!pol.seen.count(e.first) && list >= 0 && pol.listRead[list] && got.empty())
          R.ok();
        else if (!pol.seen.count(e.first))
          R.violation("error-name", std::string(rt.fn) + " " + e.first, P.whereFn(*F),
                      "the report for error " + e.first + " does not name it" +
                        (got.empty() ? std::string() : " (it names " + got + ")"));
        else if (got != e.first + " ")
          R.violation("error-name", std::string(rt.fn) + " " + e.first, P.whereFn(*F),
                      "the report for error " + e.first + " names " + got);
        else
          R.ok();
        if (R.samples.size() < 6)
          R.sample(std::string(rt.fn) + " " + e.first + " -> " + got);
      }
    }
  }
  return 0;
}
} // namespace jsa
