// Reader discipline.  Roots: every TypeHandler<T>::to, every parseTo<T>, and the token-map casts.
//  rule dropped-error    : after a nested read or a token fetch failed, the root never reports success
//  rule consume-after-error : after a failure no further token is fetched and no further nested read starts
//  rule stale-error      : a successful read leaves the context's error state clean
//  rule wrong-kind       : a container reader never succeeds on a token of another kind
//  rule not-exact        : a successful read has consumed exactly its own value
#include "common.h"
namespace jsa
{
namespace
{
struct Ctx
{
  int64_t tokOff, errOff, vtOff, tokrOff;
  std::map<std::string, int64_t> T, E;
  std::vector<u64> types, errs;
};
struct Roots
{
  std::vector<const Function *> to, parse, other;
};
bool isHandlerTo(Program &P, const Function *F)
{
  if (!F || P.retType(F) != "JS::Error")
    return false;
  std::string q = Program::stripParams(P.name(F));
  if (bare(lastComponent(q)) != "to")
    return false;
  return startsWith(q, "JS::TypeHandler") && P.paramType(F, 1) == "JS::ParseContext";
}
bool isNextToken(Program &P, const Function *F)
{
  return F && Program::stripParams(P.name(F)) == "JS::Tokenizer::nextToken";
}
const int K = 3;
struct ReaderPolicy : Policy
{
  Program &P;
  Report &R;
  Ctx &C;
  const std::set<const Function *> &reach;
  SmallCache small;
  const Function *root = nullptr;
  std::string rootName, entry;
  std::vector<const CallBase *> sites;
  std::vector<std::string> siteName;
  bool contract = false;
  bool errProp = true;
  std::set<std::string> rules;
  int ctxObj = -1; // object holding the ParseContext
  std::function<const std::set<u64> &(const Function *)> acceptedBy; // kinds a nested reader may succeed on
  // results
  bool sawOk = false;
  std::set<const CallBase *> callsSeen;
  u64 okReturns = 0;
  ReaderPolicy(Program &P, Report &R, Ctx &C, const std::set<const Function *> &reach) : P(P), R(R), C(C), reach(reach)
  {
  }
  int site(const CallBase &CB, const std::string &n)
  {
    for (size_t i = 0; i < sites.size(); i++)
      if (sites[i] == &CB)
        return int(i + 1);
    sites.push_back(&CB);
    siteName.push_back(n);
    return int(sites.size());
  }
  void viol(const std::string &rule, const std::string &key, const Instruction &at, const std::string &msg)
  {
    if (!rules.count(rule))
      return;
    R.violation(rule, rootName + key, P.where(at), msg + " [reader " + rootName + ", first token " + entry + "]");
  }
  bool shouldInline(Interp &I, const Function &F) override
  {
    if (reach.count(&F))
      return true;
    return small(F, 60);
  }
  std::string partitionKey(Interp &I, const State &st) override
  {
    std::string k;
    for (int64_t off : {C.vtOff, C.errOff})
    {
      auto it = st.mem.find({ctxObj, off});
      k += it == st.mem.end() ? "-" : I.valStr(st, it->second.v);
      k += "/";
    }
    return k;
  }
  std::vector<u64> types(Interp &I, State &st, int obj, int64_t off)
  {
    auto it = st.mem.find({obj, off});
    if (it == st.mem.end())
      return C.types;
    bool ok;
    auto v = I.values(st, it->second.v, ok);
    return ok ? v : C.types;
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &args, State &st, int ctx,
              std::vector<Exit> &out) override
  {
    if (isNextToken(P, F))
    {
      callsSeen.insert(&CB);
      if (st.ts[0] && errProp)
      {
        viol("consume-after-error", " after " + siteName[st.ts[0] - 1], CB,
             "a token is fetched although the earlier " + siteName[st.ts[0] - 1] + " at " +
               P.where(*sites[st.ts[0] - 1]) + " failed");
        return true; // path ends
      }
      if (contract && st.ts[1] == 0)
      {
        viol("not-exact", " nextToken past end", CB, "a token is fetched after the value being read has already ended");
        return true;
      }
      int tobj = -1;
      int64_t toff = 0;
      if (args[1].k == Val::Ptr && args[1].p.size() == 1 && args[1].p[0].second != UNKOFF)
      {
        tobj = args[1].p[0].first;
        toff = args[1].p[0].second;
      }
      // success
      int depth = contract ? st.ts[1] : 0;
      int top = contract ? st.ts[1 + depth] : 0;
      for (u64 t : C.types)
      {
        bool isS = t == (u64)C.T["ArrayStart"] || t == (u64)C.T["ObjectStart"];
        bool isE = t == (u64)C.T["ArrayEnd"] || t == (u64)C.T["ObjectEnd"];
        if (!contract && (isS || isE))
        {
        }
        State s2 = st;
        if (contract)
        {
          if (isS)
          {
            if (depth >= K)
              continue;
            s2.ts[1] = depth + 1;
            s2.ts[2 + depth] = t == (u64)C.T["ArrayStart"] ? 1 : 2;
          }
          else if (isE)
          {
            int kind = t == (u64)C.T["ArrayEnd"] ? 1 : 2;
            if (top != kind)
              continue;
            s2.ts[1 + depth] = 0;
            s2.ts[1] = depth - 1;
          }
        }
        if (tobj >= 0)
        {
          I.havocRange(s2, tobj, toff, 64);
          s2.mem[{tobj, toff + C.tokrOff}] = Cell{1, Val::cst(t)};
        }
        out.push_back({Val::cst(0), s2});
      }
      State s3 = st;
      s3.ts[0] = site(CB, "token fetch");
      if (tobj >= 0)
        I.havocRange(s3, tobj, toff, 64);
      Val ev = I.mkVar(s3, nullptr, I.varId(&CB, ctx, 200), C.errs);
      out.push_back({ev, s3});
      return true;
    }
    if (isHandlerTo(P, F) && F != root)
    {
      callsSeen.insert(&CB);
      std::string nm = "read of " + Program::stripParams(P.name(F));
      if (st.ts[0] && errProp)
      {
        viol("consume-after-error", " after " + siteName[st.ts[0] - 1], CB,
             "a nested read starts although the earlier " + siteName[st.ts[0] - 1] + " at " +
               P.where(*sites[st.ts[0] - 1]) + " failed");
        return true;
      }
      int o = -1;
      int64_t off = 0;
      if (args[1].k == Val::Ptr && args[1].p.size() == 1 && args[1].p[0].second != UNKOFF)
      {
        o = args[1].p[0].first;
        off = args[1].p[0].second;
      }
      if (o < 0)
        throw BrokenAnalysis("context argument of " + P.name(F) + " not resolved at " + P.where(CB));
      auto key = std::make_pair(o, off + C.vtOff);
      auto tv0 = types(I, st, o, off + C.vtOff);
      auto &acc = acceptedBy(F);
      std::vector<u64> tv;
      for (u64 t : tv0)
        if (acc.count(t))
          tv.push_back(t);
      bool scalarDone = false;
      for (u64 t : tv)
      {
        bool isS = t == (u64)C.T["ArrayStart"] || t == (u64)C.T["ObjectStart"];
        bool isE = t == (u64)C.T["ArrayEnd"] || t == (u64)C.T["ObjectEnd"];
        if (isE)
          continue; // element readers fail on a closing bracket: error outcome below
        State s2 = st;
        if (isS)
        {
          u64 e = t == (u64)C.T["ArrayStart"] ? (u64)C.T["ArrayEnd"] : (u64)C.T["ObjectEnd"];
          if (contract)
          {
            int depth = s2.ts[1];
            int kind = t == (u64)C.T["ArrayStart"] ? 1 : 2;
            if (depth == 0 || s2.ts[1 + depth] != kind)
            {
              viol("not-exact", " nested read misplaced", CB, "a nested read is started on a token that is not open");
              continue;
            }
            s2.ts[1 + depth] = 0;
            s2.ts[1] = depth - 1;
          }
          I.havocRange(s2, o, off + C.tokOff, 64);
          s2.mem[key] = Cell{1, Val::cst(e)};
          out.push_back({Val::cst(0), s2});
        }
        else
        {
          if (scalarDone)
            continue;
          scalarDone = true;
          std::vector<u64> sc;
          for (u64 q : tv)
            if (q != (u64)C.T["ArrayStart"] && q != (u64)C.T["ObjectStart"] && q != (u64)C.T["ArrayEnd"] &&
                q != (u64)C.T["ObjectEnd"])
              sc.push_back(q);
          s2.mem[key] = Cell{1, Val::set(sc)};
          out.push_back({Val::cst(0), s2});
        }
      }
      State s3 = st;
      s3.ts[0] = site(CB, nm);
      I.havocRange(s3, o, off + C.tokOff, 64);
      // the nested reader may or may not have recorded the error in the context
      Val ev = I.mkVar(s3, nullptr, I.varId(&CB, ctx, 200), C.errs);
      std::vector<u64> any = C.errs;
      any.push_back(0);
      s3.mem[{o, off + C.errOff}] = Cell{1, Val::set(any)};
      out.push_back({ev, s3});
      return true;
    }
    if (F && (endsWith(Program::stripParams(P.name(F)), "::goToEndOfScope")))
      return false;
    return false;
  }
  void onReturn(Interp &I, const Function &F, const Instruction &at, const Val &v, State &st, int depth) override
  {
    if (depth != 0)
      return;
    bool isErr = P.retType(&F) == "JS::Error";
    bool mayOk;
    if (isErr)
      mayOk = I.mayBe(st, v, 0);
    else
    {
      auto it = st.mem.find({ctxObj, C.errOff});
      mayOk = it == st.mem.end() || I.mayBe(st, it->second.v, 0);
    }
    if (!mayOk)
    {
      R.add("error_exits");
      return;
    }
    if (st.ts[0])
    {
      if (errProp)
        viol("dropped-error", " drops " + siteName[st.ts[0] - 1], at,
             "success can be reported although the " + siteName[st.ts[0] - 1] + " at " + P.where(*sites[st.ts[0] - 1]) +
               " failed");
      return;
    }
    sawOk = true;
    okReturns++;
    if (contract && st.ts[1] != 0)
      viol("not-exact", " stops early", at, "success is reported before the closing bracket of the value was consumed");
    if (contract)
    {
      auto it = st.mem.find({ctxObj, C.errOff});
      if (it != st.mem.end() && !I.mustBe(st, it->second.v, 0))
        viol("stale-error", " leaves error set", at, "success is reported while the context still carries an error");
    }
  }
};
// T of the handler a reader belongs to
std::string targetType(Program &P, const Function *F)
{
  std::string q = Program::stripParams(P.name(F));
  std::string cls = scopeOf(q);
  std::string T;
  if (startsWith(cls, "JS::TypeHandler<"))
  {
    T = cls.substr(16, cls.size() - 17);
    if (endsWith(T, ", void"))
      T = T.substr(0, T.size() - 6);
    return T;
  }
  // a shared base of several handlers: take the first parameter of to()
  std::string full = P.name(F);
  size_t a = full.rfind("::to(");
  T = full.substr(a + 5);
  size_t amp = T.find("&, JS::ParseContext");
  if (amp != std::string::npos)
    T = T.substr(0, amp);
  return T;
}
std::string family(const std::string &t)
{
  auto pre = [&](const char *p) { return startsWith(t, p); };
  if (pre("std::vector<JS::Token") || t == "JS::JsonTokens" || t == "JS::Map")
    return "any";
  if (pre("std::vector<") || pre("std::set<") || pre("std::unordered_set<") || pre("std::array<") || pre("JS::Tuple<") ||
      pre("std::tuple<") || pre("JS::ArrayVariableContent<") || t == "JS::JsonArray" || t == "JS::JsonArrayRef" ||
      pre("JS::SilentVector<"))
    return "array";
  if (t.find('[') != std::string::npos && t.back() == ']')
    return "array";
  if (pre("std::map<") || pre("std::unordered_map<") || t == "JS::JsonObject" || t == "JS::JsonObjectRef")
    return "object";
  if (t == "JS::JsonObjectOrArray" || t == "JS::JsonObjectOrArrayRef")
    return "either";
  if (t == "drv::Colour")
    return "enum";
  if (t.find("drv::Leaf") != std::string::npos)
  {
    if (pre("std::unique_ptr<") || pre("std::shared_ptr<") || pre("JS::Nullable<") || pre("JS::NullableChecked<") ||
        pre("JS::SilentUniquePtr<"))
      return "object-or-null";
    if (pre("JS::OneOrMany<"))
      return "either";
    return "object"; // the type itself and the optional wrappers
  }
  if (pre("drv::"))
    return "object";
  if (t.find("drv::") == std::string::npos)
    return "text";
  return "other";
}
std::string allowedKinds(const std::string &f)
{
  if (f == "array")
    return "ArrayStart";
  if (f == "object")
    return "ObjectStart";
  if (f == "either")
    return "ArrayStart ObjectStart";
  if (f == "enum")
    return "String Number";
  if (f == "object-or-null")
    return "ObjectStart Null";
  return "*";
}
} // namespace

int checkReader(Program &P, Report &R, const std::vector<std::string> &rulesIn)
{
  Ctx C;
  C.tokOff = P.field("JS::ParseContext", "token");
  C.errOff = P.field("JS::ParseContext", "error");
  C.vtOff = P.field("JS::ParseContext", "token.value_type");
  C.tokrOff = P.field("JS::Token", "value_type");
  C.T = P.enums["JS::Type"];
  C.E = P.enums["JS::Error"];
  if (C.T.empty() || C.E.empty() || C.E["NoError"] != 0)
    throw BrokenAnalysis("token or error enumeration not found");
  for (auto &x : C.T)
    if (x.first != "Error" && x.first != "Verbatim")
      C.types.push_back((u64)x.second);
  for (auto &x : C.E)
    if (x.second != 0)
      C.errs.push_back((u64)x.second);
  std::sort(C.types.begin(), C.types.end());
  std::sort(C.errs.begin(), C.errs.end());
  std::set<const Function *> leaf;
  std::vector<const Function *> tos, parses, casts;
  for (auto &F : P.M)
  {
    if (F.isDeclaration())
      continue;
    std::string q = Program::stripParams(P.name(&F));
    if (isNextToken(P, &F))
      leaf.insert(&F);
    if (isHandlerTo(P, &F))
    {
      leaf.insert(&F);
      tos.push_back(&F);
    }
    std::string l = bare(lastComponent(q));
    if (startsWith(q, "JS::ParseContext::parseTo"))
      parses.push_back(&F);
    if (startsWith(q, "JS::Map::castTo") || startsWith(q, "JS::Map::setValue"))
      casts.push_back(&F);
  }
  auto reach = reaching(P.M, leaf);
  for (auto *f : leaf)
    reach.erase(f);
  R.stat("readers", tos.size());
  R.stat("parse_entry_points", parses.size());
  R.stat("map_entry_points", casts.size());
  if (tos.size() < 50 || parses.size() < 40)
    throw BrokenAnalysis("too few readers instantiated");
  std::set<std::string> rules;
  unsigned shard = 0, shards = 1;
  for (auto &r : rulesIn)
    if (startsWith(r, "shard="))
      sscanf(r.c_str(), "shard=%u/%u", &shard, &shards);
    else
      rules.insert(r);
  std::map<const Function *, std::set<u64>> accepted;
  std::function<const std::set<u64> &(const Function *)> acceptedBy;
  std::set<const CallBase *> allCalls;
  u64 steps = 0;
  auto explore = [&](const Function *F, int ctxArg, int entryType, bool contract, bool &ok) {
    ReaderPolicy pol(P, R, C, reach);
    pol.rules = rules;
    pol.root = F;
    pol.rootName = Program::stripParams(P.name(F));
    pol.contract = contract;
    pol.acceptedBy = acceptedBy;
    Interp I(P, pol);
    State st;
    st.ts = {0, 0};
    for (int i = 0; i <= K; i++)
      st.ts.push_back(0);
    std::vector<Val> args;
    for (unsigned i = 0; i < F->arg_size(); i++)
      args.push_back(F->getArg(i)->getType()->isPointerTy() ? Val::ptr(I.argObj(i), 0) : Val::top());
    pol.ctxObj = I.argObj(unsigned(ctxArg));
    st.mem[{pol.ctxObj, C.errOff}] = Cell{1, Val::cst(0)};
    pol.entry = "any";
    if (entryType >= 0)
    {
      st.mem[{pol.ctxObj, C.vtOff}] = Cell{1, Val::cst((u64)entryType)};
      for (auto &x : C.T)
        if (x.second == entryType)
          pol.entry = x.first;
      if (entryType == C.T["ArrayStart"] || entryType == C.T["ObjectStart"])
      {
        st.ts[1] = 1;
        st.ts[2] = entryType == C.T["ArrayStart"] ? 1 : 2;
      }
    }
    auto ex = I.run(*F, args, st, 0, 0);
    steps += I.steps;
    if (I.exhausted)
      throw BrokenAnalysis("state budget exhausted in " + pol.rootName);
    for (auto *c : pol.callsSeen)
      allCalls.insert(c);
    ok = pol.sawOk;
    return ex.size();
  };
  auto typeName = [&](u64 t) {
    for (auto &x : C.T)
      if ((u64)x.second == t)
        return x.first;
    return std::string("?");
  };
  std::set<const Function *> reported;
  acceptedBy = [&](const Function *F) -> const std::set<u64> & {
    auto it = accepted.find(F);
    if (it != accepted.end())
      return it->second;
    // while in progress (a recursive type) assume anything is accepted
    accepted[F] = std::set<u64>(C.types.begin(), C.types.end());
    std::string fmly = family(targetType(P, F));
    std::set<u64> acc;
    for (u64 t : C.types)
    {
      std::string tn = typeName(t);
      if (tn == "ArrayEnd" || tn == "ObjectEnd")
        continue; // element readers are never handed a closing bracket; treated as failing
      if (fmly == "text" && (tn == "ArrayStart" || tn == "ObjectStart"))
        continue; // text targets are specified on scalar tokens only
      bool ok = false;
      explore(F, 1, int(t), true, ok);
      if (ok)
        acc.insert(t);
    }
    accepted[F] = acc;
    return accepted[F];
  };
  unsigned ri = 0;
  auto mine = [&]() { return ri++ % shards == shard; };
  for (auto *F : tos)
  {
    if (!mine())
      continue;
    std::string q = Program::stripParams(P.name(F));
    std::string T = targetType(P, F);
    std::string f = family(T);
    auto &acc = acceptedBy(F);
    std::string as;
    for (u64 t : C.types)
    {
      std::string tn = typeName(t);
      if (tn == "ArrayEnd" || tn == "ObjectEnd")
        continue;
      bool ok = acc.count(t);
      std::string may = allowedKinds(f);
      bool in = (" " + may + " ").find(" " + tn + " ") != std::string::npos || may == "*";
      if (ok && !in && rules.count("wrong-kind"))
        R.violation("wrong-kind", q + " accepts " + tn, P.whereFn(*F),
                    "reader of " + T + " can succeed on a " + tn + " token");
      else
        R.ok();
      if (in && may != "*" && !ok && rules.count("wrong-kind"))
        R.violation("wrong-kind", q + " rejects " + tn, P.whereFn(*F),
                    "reader of " + T + " can never succeed on a " + tn + " token");
      if (ok)
        as += tn + " ";
    }
    R.sample(q + " (" + f + ") accepts: " + as);
    if (allowedKinds(f) != "*")
      R.add("kind_checked_readers");
  }
  for (auto *F : parses)
  {
    if (!mine())
      continue;
    bool ok;
    explore(F, 0, -1, false, ok);
    R.ok();
    R.sample("entry " + Program::stripParams(P.name(F)));
  }
  for (auto *F : casts)
  {
    if (!mine())
      continue;
    int ca = -1;
    for (unsigned i = 0; i < F->arg_size(); i++)
    {
      // find the ParseContext parameter (sret and this shift the debug info positions)
      auto *SP = F->getSubprogram();
      (void)SP;
    }
    // parameter order in IR: [sret] this ... ; locate by dereferenceable size of ParseContext
    u64 sz = P.types.count("JS::ParseContext") ? P.types["JS::ParseContext"]->getSizeInBits() / 8 : 0;
    for (unsigned i = 0; i < F->arg_size(); i++)
      if (F->getParamDereferenceableBytes(i) == sz)
        ca = int(i);
    if (ca < 0)
      throw BrokenAnalysis("no context parameter in " + P.name(F));
    bool ok;
    explore(F, ca, -1, false, ok);
    R.ok();
    R.sample("entry " + Program::stripParams(P.name(F)));
  }
  R.stat("call_sites", allCalls.size());
  R.stat("abstract_steps", steps);
  R.stat("leaf_functions", leaf.size());
  R.stat("inlined_helpers", reach.size());
  R.obligations += allCalls.size();
  R.discharged += allCalls.size();
  if (shards == 1 && allCalls.size() < 80)
    throw BrokenAnalysis("too few token fetches / nested reads found");
  return 0;
}
} // namespace jsa
