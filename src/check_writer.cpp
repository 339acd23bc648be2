// Writer discipline.
//  from   : every TypeHandler<T>::from writes exactly one balanced value; members carry names inside objects only
//  emit   : Serializer::write(token) emits separator, layout, name, colon and value in the only order JSON allows
#include "common.h"
namespace jsa
{
namespace
{
bool isHandlerFrom(Program &P, const Function *F)
{
  if (!F || F->arg_size() != 3)
    return false;
  std::string q = Program::stripParams(P.name(F));
  if (bare(lastComponent(q)) != "from")
    return false;
  return startsWith(q, "JS::TypeHandler") && P.paramType(F, 1) == "JS::Token";
}
bool isWriteToken(Program &P, const Function *F)
{
  return F && Program::stripParams(P.name(F)) == "JS::Serializer::write" && P.paramType(F, 1) == "JS::Token";
}
struct WCtx
{
  int64_t nd, ns, vd, vs, vt, tsize;
  std::map<std::string, int64_t> T;
};
const u64 NAMED = 77777;
const int K = 3;
std::string fromType(Program &P, const Function *F)
{
  std::string q = Program::stripParams(P.name(F));
  std::string cls = scopeOf(q);
  if (startsWith(cls, "JS::TypeHandler<"))
  {
    std::string T = cls.substr(16, cls.size() - 17);
    if (endsWith(T, ", void"))
      T = T.substr(0, T.size() - 6);
    return T;
  }
  std::string full = P.name(F);
  size_t a = full.rfind("::from(");
  std::string T = full.substr(a + 7);
  size_t amp = T.find(" const&, JS::Token");
  if (amp != std::string::npos)
    T = T.substr(0, amp);
  return T;
}
bool mayOmit(const std::string &t)
{
  for (const char *p : {"JS::OptionalChecked<", "std::optional<", "JS::Silent", "JS::OneOrMany<"})
    if (startsWith(t, p))
      return true;
  return false;
}
bool rawTokens(const std::string &t)
{
  return startsWith(t, "std::vector<JS::Token") || t == "JS::JsonTokens" || t == "JS::Map";
}
struct WriterPolicy : Policy
{
  Program &P;
  Report &R;
  WCtx &C;
  const std::set<const Function *> &reach;
  SmallCache small;
  const Function *root = nullptr;
  std::string rootName, T;
  int tokObj = -1;
  bool wrote = false, omitted = false;
  std::set<const CallBase *> calls;
  // member trace for structs: (name, offset in object, handler)
  std::vector<std::tuple<std::string, int64_t, std::string>> members;
  WriterPolicy(Program &P, Report &R, WCtx &C, const std::set<const Function *> &reach) : P(P), R(R), C(C), reach(reach)
  {
  }
  bool shouldInline(Interp &, const Function &F) override
  {
    if (reach.count(&F))
      return true;
    return small(F, 60);
  }
  std::string partitionKey(Interp &I, const State &st) override
  {
    std::string k;
    for (int64_t off : {C.vt, C.ns})
    {
      auto it = st.mem.find({tokObj, off});
      k += it == st.mem.end() ? "-" : I.valStr(st, it->second.v);
      k += "/";
    }
    return k;
  }
  void viol(const std::string &rule, const std::string &key, const Instruction &at, const std::string &msg)
  {
    R.violation(rule, rootName + " " + key, P.where(at), msg + " [writer of " + T + "]");
  }
  std::string text(Interp &I, State &st, int obj, int64_t off, u64 n)
  {
    // constant text a (data,size) pair refers to
    auto d = st.mem.find({obj, off});
    if (d == st.mem.end() || d->second.v.k != Val::Ptr || d->second.v.p.size() != 1)
      return "\x01";
    auto &o = I.info(d->second.v.p[0].first);
    std::string s;
    if (o.kind == ObjInfo::Global)
    {
      auto *G = dyn_cast_or_null<GlobalVariable>(o.v);
      auto *D = G && G->hasInitializer() ? dyn_cast<ConstantDataArray>(G->getInitializer()) : nullptr;
      if (D && D->isString())
      {
        s = D->getAsString().str();
        int64_t b = d->second.v.p[0].second;
        if (b < 0 || (u64)b + n > s.size())
          return "\x01";
        return s.substr((size_t)b, n);
      }
    }
    return "\x01";
  }
  // the value about to be written: check its place; returns false when the path ends here
  bool place(Interp &I, const CallBase &CB, State &st, int obj, int64_t off, const std::string &what)
  {
    int depth = st.ts[0];
    auto ns = st.mem.find({obj, off + C.ns});
    Val nv = ns == st.mem.end() ? Val::top() : ns->second.v;
    if (depth == 0)
    {
      if (st.ts[1])
      {
        viol("two-values", "writes a second value", CB, "a second value (" + what + ") is written after the value was complete");
        return false;
      }
      return true;
    }
    if (st.ts[1 + depth] == 1)
    {
      if (!I.mustBe(st, nv, 0))
      {
        viol("name-in-array", "named array element", CB, "an array element (" + what + ") is written although a member name may still be set");
        return false;
      }
    }
    else if (I.mustBe(st, nv, 0))
    {
      viol("unnamed-member", "unnamed member", CB, "a member of an object (" + what + ") is written without a name");
      return false;
    }
    else if (I.mayBe(st, nv, NAMED) && ns != st.mem.end() && ns->second.v.k == Val::Ints)
    {
      viol("stale-name", "stale member name", CB, "a member of an object (" + what + ") is written under the name of the object itself");
      return false;
    }
    return true;
  }
  // conversion of a number into a caller supplied buffer: succeeds when the buffer can hold the longest text
  bool number(Interp &I, const CallBase &CB, const Function &F, const std::vector<Val> &args, State &st, int ctx,
              std::vector<Exit> &out)
  {
    std::string q = Program::stripParams(P.name(&F));
    if (!startsWith(q, "JS::Internal::ft::") || bare(lastComponent(q)) != "to_buffer" || args.size() < 3)
      return false;
    Type *t = F.getArg(0)->getType();
    u64 need = t->isDoubleTy() ? 25 : t->isFloatTy() ? 16 : 0, have = 0;
    unsigned first = 0;
    if (t->isIntegerTy())
    {
      unsigned b = t->getIntegerBitWidth();
      bool wide = F.arg_size() == 5; // a 128 bit integer may be passed as two words
      if (wide)
      {
        b = 128;
        first = 1;
      }
      need = b <= 8 ? 4 : b <= 16 ? 6 : b <= 32 ? 11 : b <= 64 ? 20 : 40;
    }
    bool fits = need && I.isConst(st, args[2 + first], have) && have >= need;
    std::string key = rootName + " number text";
    if (!need)
      throw BrokenAnalysis("number conversion of unknown type at " + P.where(CB));
    bool room = args[1 + first].k == Val::Ptr;
    if (room)
      for (auto &p : args[1 + first].p)
      {
        auto *A = dyn_cast_or_null<AllocaInst>(I.info(p.first).v);
        auto sz = A ? A->getAllocationSize(I.DL) : std::nullopt;
        if (sz && p.second != UNKOFF && (p.second < 0 || u64(p.second) + have > sz->getFixedValue()))
          room = false;
        I.havocRange(st, p.first, p.second, (int64_t)have);
      }
    if (fits && room)
      R.ok();
    else
      R.violation("number-cut", key, P.where(CB),
                  "a number that can need " + std::to_string(need) + " characters is converted into a buffer " +
                    (fits ? "smaller than the size passed" : "of " + std::to_string(have)) + " [writer of " + rootName + "]");
    State s2 = st;
    if (args.size() > 3 + first)
      I.store(s2, args[3 + first], Val::cst(0), 4);
    std::vector<u64> d;
    for (u64 i = 1; i <= need; i++)
      d.push_back(i);
    Val v = I.mkVar(s2, nullptr, I.varId(&CB, ctx, 210), d);
    out.push_back({v, s2});
    if (!fits)
    {
      if (args.size() > 3 + first)
        I.store(st, args[3 + first], Val::top(), 4);
      out.push_back({Val::top(), st});
    }
    return true;
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &args, State &st, int ctx,
              std::vector<Exit> &out) override
  {
    bool w = isWriteToken(P, F), n = isHandlerFrom(P, F) && F != root;
    if (!w && !n)
      return F && number(I, CB, *F, args, st, ctx, out);
    calls.insert(&CB);
    if (args[1].k != Val::Ptr || args[1].p.size() != 1 || args[1].p[0].second == UNKOFF)
    {
      if (w)
      {
        // a token object the analysis cannot name: contents unknown
        throw BrokenAnalysis("token written by " + rootName + " not resolved at " + P.where(CB));
      }
      throw BrokenAnalysis("token argument not resolved at " + P.where(CB));
    }
    int o = args[1].p[0].first;
    int64_t off = args[1].p[0].second;
    if (n)
    {
      std::string nt = fromType(P, F);
      // member trace
      auto nd = st.mem.find({o, off + C.ns});
      u64 len = 0;
      if (nd != st.mem.end() && I.isConst(st, nd->second.v, len) && len != NAMED && args[0].k == Val::Ptr &&
          args[0].p.size() == 1)
        members.push_back({text(I, st, o, off + C.nd, len), args[0].p[0].second, Program::stripParams(P.name(F))});
      if (!place(I, CB, st, o, off, "a nested " + nt))
        return true;
      std::vector<bool> cnts = {true};
      if (mayOmit(nt))
        cnts.push_back(false);
      bool raw = rawTokens(nt);
      for (bool c : cnts)
      {
        State s2 = st;
        Cell nsz = s2.mem.count({o, off + C.ns}) ? s2.mem[{o, off + C.ns}] : Cell{8, Val::top()};
        Cell ndt = s2.mem.count({o, off + C.nd}) ? s2.mem[{o, off + C.nd}] : Cell{8, Val::top()};
        I.havocRange(s2, o, off, C.tsize);
        if (c && s2.ts[0] == 0)
          s2.ts[1] = 1;
        s2.mem[{o, off + C.ns}] = nsz;
        s2.mem[{o, off + C.nd}] = ndt;
        State s3 = s2;
        out.push_back({Val::top(), s2});
        if (!I.mustBe(s3, nsz.v, 0) && c && !raw)
        {
          s3.mem[{o, off + C.ns}] = Cell{8, Val::cst(0)};
          out.push_back({Val::top(), s3});
        }
      }
      return true;
    }
    auto vt = st.mem.find({o, off + C.vt});
    bool ok = false;
    std::vector<u64> tv;
    if (vt != st.mem.end())
      tv = I.values(st, vt->second.v, ok);
    if (!ok)
    {
      viol("unknown-kind", "token kind not set", CB, "a token is written whose kind was not set");
      return true;
    }
    for (u64 t : tv)
    {
      State s2 = st;
      bool isS = t == (u64)C.T["ArrayStart"] || t == (u64)C.T["ObjectStart"];
      bool isE = t == (u64)C.T["ArrayEnd"] || t == (u64)C.T["ObjectEnd"];
      bool arr = t == (u64)C.T["ArrayStart"] || t == (u64)C.T["ArrayEnd"];
      if (isS || isE)
      {
        u64 len = 0;
        auto vs = s2.mem.find({o, off + C.vs});
        std::string want = isS ? (arr ? "[" : "{") : (arr ? "]" : "}");
        bool good = vs != s2.mem.end() && I.isConst(s2, vs->second.v, len) && len == 1 &&
                    text(I, s2, o, off + C.vd, 1) == want;
        if (!good)
        {
          viol("bracket-text", "text of " + want, CB, "the text of an opening or closing token is not " + want);
          continue;
        }
      }
      if (isE)
      {
        int depth = s2.ts[0];
        if (depth == 0 || s2.ts[1 + depth] != (arr ? 1 : 2))
        {
          viol("unbalanced", "closes what is not open", CB, "a closing bracket is written that does not match an open one");
          continue;
        }
        auto ns = s2.mem.find({o, off + C.ns});
        if (ns == s2.mem.end() || !I.mustBe(s2, ns->second.v, 0))
        {
          viol("name-on-end", "named closing bracket", CB, "a closing bracket is written although a member name may still be set");
          continue;
        }
        s2.ts[1 + depth] = 0;
        s2.ts[0] = depth - 1;
        if (depth == 1)
          s2.ts[1 + K + 1] = 1;
      }
      else
      {
        if (!place(I, CB, s2, o, off, isS ? "an opening bracket" : "a scalar"))
          continue;
        if (isS)
        {
          int depth = s2.ts[0];
          if (depth >= K)
            continue;
          if (depth == 0)
            s2.ts[1 + K + 1] = 0;
          s2.ts[0] = depth + 1;
          s2.ts[2 + depth] = arr ? 1 : 2;
        }
        else if (s2.ts[0] == 0)
          s2.ts[1] = 1;
      }
      if (s2.ts[0] == 0 && isE)
        s2.ts[1] = 1;
      out.push_back({Val::top(), s2});
    }
    return true;
  }
  void onReturn(Interp &I, const Function &F, const Instruction &at, const Val &, State &st, int depth) override
  {
    if (depth != 0)
      return;
    if (st.ts[0] != 0)
    {
      viol("unbalanced", "leaves a bracket open", at, "the writer returns with an opening bracket not closed");
      return;
    }
    if (st.ts[1])
      wrote = true;
    else
    {
      omitted = true;
      if (!mayOmit(T))
      {
        viol("no-value", "writes nothing", at, "the writer can return without having written a value");
        return;
      }
    }
    auto ns = st.mem.find({tokObj, C.ns});
    bool ok = false;
    std::vector<u64> v;
    if (ns != st.mem.end())
      v = I.values(st, ns->second.v, ok);
    for (u64 x : v)
      if (x != 0 && x != NAMED)
        ok = false;
    if (!ok)
      viol("leaks-name", "leaks a member name", at, "the writer returns with the name of one of its own members still set");
  }
};

// ---------------------------------------------------------------- Serializer::write(token)
enum
{
  EV_NAME = 1000,
  EV_VALUE = 1001,
  EV_WS = 1002,
  EV_BAD = 1003
};
const u64 NSIZE = 4242, VSIZE = 5151;
struct EmitPolicy : Policy
{
  Program &P;
  WCtx &C;
  SmallCache small;
  int ser = -1, tok = -1;
  int64_t oPre, oTok, oVal, oPost;
  bool delimEmpty = false;
  std::string bad;
  struct Out
  {
    std::vector<int> ev;
    bool failed;
    Val ret;
    State st;
    const Instruction *at;
  };
  std::vector<Out> outs;
  std::set<const CallBase *> sites;
  EmitPolicy(Program &P, WCtx &C) : P(P), C(C)
  {
    oPre = P.field("JS::Serializer", "m_option.m_prefix");
    oTok = P.field("JS::Serializer", "m_option.m_token_delimiter");
    oVal = P.field("JS::Serializer", "m_option.m_value_delimiter");
    oPost = P.field("JS::Serializer", "m_option.m_postfix");
  }
  bool shouldInline(Interp &, const Function &F) override
  {
    std::string q = Program::stripParams(P.name(&F));
    if (startsWith(q, "JS::Serializer::"))
      return true;
    return small(F, 120);
  }
  std::string partitionKey(Interp &, const State &) override
  {
    return "";
  }
  void text(Interp &I, State &st, const Val &ptr, const Val &size)
  {
    u64 n = 0;
    bool kn = I.isConst(st, size, n);
    if (ptr.k == Val::Ptr && ptr.p.size() == 1 && ptr.dep < 0)
    {
      auto &o = I.info(ptr.p[0].first);
      if (o.kind == ObjInfo::Named && startsWith(o.name, "opt:"))
      {
        int64_t f = std::stoll(o.name.substr(4));
        if (f == oPre || f == oPost)
          return st.ts.push_back(EV_WS);
        if (f == oTok)
        {
          if (!delimEmpty)
            st.ts.push_back(',');
          return;
        }
        if (f == oVal)
          return st.ts.push_back(':');
      }
      if (o.kind == ObjInfo::Deref && o.parent == tok && ptr.p[0].second == 0 && kn)
      {
        if (o.off == C.nd && n == NSIZE)
          return st.ts.push_back(EV_NAME);
        if (o.off == C.vd && n == VSIZE)
          return st.ts.push_back(EV_VALUE);
      }
      auto *G = o.kind == ObjInfo::Global ? dyn_cast_or_null<GlobalVariable>(o.v) : nullptr;
      auto *D = G && G->isConstant() && G->hasInitializer() ? dyn_cast<ConstantDataArray>(G->getInitializer()) : nullptr;
      if (D && D->isString() && kn && ptr.p[0].second >= 0 && (u64)ptr.p[0].second + n <= D->getNumElements())
      {
        std::string t = D->getAsString().str().substr((size_t)ptr.p[0].second, n);
        for (char c : t)
          st.ts.push_back(c == ' ' || c == '\n' || c == '\t' || c == '\r' ? (int)EV_WS : (int)(unsigned char)c);
        return;
      }
    }
    st.ts.push_back(EV_BAD);
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &args, State &st, int ctx,
              std::vector<Exit> &out) override
  {
    if (!F)
      return false;
    std::string q = Program::stripParams(P.name(F));
    auto opt = [&]() -> int64_t {
      if (args.empty() || args[0].k != Val::Ptr || args[0].p.size() != 1 || args[0].p[0].first != ser)
        return -1;
      int64_t o = args[0].p[0].second;
      return o == oPre || o == oTok || o == oVal || o == oPost ? o : -1;
    };
    if (startsWith(q, "std::__cxx11::basic_string<"))
    {
      std::string m = lastComponent(q);
      int64_t o = opt();
      if (o < 0)
        return false;
      if (m == "c_str" || m == "data")
      {
        out.push_back({Val::ptr(I.obj(ObjInfo::Named, "opt:" + std::to_string(o)), 0), st});
        return true;
      }
      if (m == "empty" || m == "size" || m == "length")
      {
        if (o == oTok)
          out.push_back({Val::cst((m == "empty") == delimEmpty ? 1 : 0), st});
        else
          for (u64 x : {0, 1})
            out.push_back({Val::cst(x), st});
        return true;
      }
      return false;
    }
    bool raw = q == "JS::Serializer::write" && F->arg_size() == 3 && F->getArg(2)->getType()->isIntegerTy(64);
    bool str = q == "JS::Serializer::write" && F->arg_size() == 2 && startsWith(P.paramType(F, 1), "std::__cxx11::basic_string");
    bool app = startsWith(q, "JS::SerializerBuffer::append");
    if (!raw && !str && !app)
      return false;
    sites.insert(&CB);
    if (!app)
    {
      State s2 = st;
      s2.ts[0] = 1;
      out.push_back({Val::cst(0), s2});
    }
    if (st.ts[0] && !app)
      return true; // once the output cannot grow it never can again
    if (st.ts.size() > 40)
    {
      st.ts.push_back(EV_BAD);
      return true;
    }
    if (raw || (app && args.size() == 3))
      text(I, st, args[1], args[2]);
    else if (app)
      text(I, st, args[1], Val::cst(std::strtoull(q.c_str() + q.find('<') + 1, nullptr, 10)));
    else if (args[1].k == Val::Ptr && args[1].p.size() == 1 && args[1].p[0].first == ser)
      text(I, st, Val::ptr(I.obj(ObjInfo::Named, "opt:" + std::to_string(args[1].p[0].second)), 0), Val::top());
    else
      st.ts.push_back(EV_BAD);
    out.push_back({Val::cst(1), st});
    return true;
  }
  void onReturn(Interp &, const Function &, const Instruction &at, const Val &v, State &st, int depth) override
  {
    if (depth == 0)
      outs.push_back({std::vector<int>(st.ts.begin() + 1, st.ts.end()), st.ts[0] != 0, v, st, &at});
  }
};
std::string show(const std::vector<int> &e)
{
  std::string s;
  for (int x : e)
    s += x == EV_NAME ? "<name>" : x == EV_VALUE ? "<value>" : x == EV_WS ? "_" : x == EV_BAD ? "<unknown text>" : std::string(1, char(x));
  return s;
}
void checkEmit(Program &P, Report &R, WCtx &C)
{
  const Function *W = nullptr;
  for (auto &F : P.M)
    if (!F.isDeclaration() && isWriteToken(P, &F))
      W = &F;
  if (!W)
    throw BrokenAnalysis("Serializer::write(token) not found");
  int64_t oFirst = P.field("JS::Serializer", "m_first"), oStart = P.field("JS::Serializer", "m_token_start"),
          oDepth = P.field("JS::Serializer", "m_option.m_depth"), oShift = P.field("JS::Serializer", "m_option.m_shift_size"),
          oStyle = P.field("JS::Serializer", "m_option.m_style"),
          oConv = P.field("JS::Serializer", "m_option.m_convert_ascii_to_string"), oNt = P.field("JS::Token", "name_type");
  std::vector<u64> depths;
  for (u64 i = 0; i < 10; i++)
    depths.push_back(i);
  for (u64 i : {126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536})
    depths.push_back(i);
  u64 cases = 0;
  std::set<const CallBase *> sites;
  for (auto &k : C.T)
  {
    if (k.first == "Error")
      continue;
    bool isS = k.first == "ArrayStart" || k.first == "ObjectStart", isE = k.first == "ArrayEnd" || k.first == "ObjectEnd";
    for (unsigned m = 0; m < 512; m++)
    {
      bool start = m & 1, first = m & 2, dEmpty = m & 4, named = m & 8, asciiName = m & 16, compact = m & 32, conv = m & 64;
      unsigned shift = (m & 128) ? 2 : ((m & 256) ? 3 : 0);
      if ((m & 256) && (m & 128))
        continue;
      if (asciiName && !named)
        continue;
      if (k.first == "Ascii" || asciiName)
      {
      }
      else if (!conv)
        continue;
      cases++;
      EmitPolicy pol(P, C);
      Interp I(P, pol);
      I.cap = 4000;
      pol.ser = I.argObj(0);
      pol.tok = I.argObj(1);
      pol.delimEmpty = dEmpty;
      State st;
      st.ts = {0};
      auto put = [&](int o, int64_t off, unsigned sz, u64 v) { st.mem[{o, off}] = Cell{sz, Val::cst(v)}; };
      put(pol.ser, oFirst, 1, first);
      put(pol.ser, oStart, 1, start);
      put(pol.ser, oShift, 1, shift);
      put(pol.ser, oStyle, 1, compact);
      put(pol.ser, oConv, 1, conv);
      put(pol.tok, C.ns, 8, named ? NSIZE : 0);
      put(pol.tok, C.vs, 8, VSIZE);
      put(pol.tok, C.vt, 1, (u64)k.second);
      put(pol.tok, oNt, 1, (u64)(asciiName ? C.T["Ascii"] : C.T["String"]));
      Val dv = I.mkVar(st, nullptr, I.varId(&pol, 0, 1), depths);
      st.mem[{pol.ser, oDepth}] = Cell{4, dv};
      I.run(*W, {Val::ptr(pol.ser, 0), Val::ptr(pol.tok, 0)}, st, 0, 0);
      if (I.exhausted)
        throw BrokenAnalysis("state budget exhausted in Serializer::write");
      for (auto *s : pol.sites)
        sites.insert(s);
      std::string ctxt = " [token " + k.first + (named ? " with name" : " without name") + ", " +
                         (start ? "first in its container" : "after another value") + (dEmpty ? ", delimiter off" : "") +
                         (compact ? ", compact" : ", pretty") + ", shift " + std::to_string(shift) + "]";
      std::vector<int> want;
      auto quoted = [&](int e, bool q) {
        if (q)
          want.push_back('"');
        want.push_back(e);
        if (q)
          want.push_back('"');
      };
      if (!start && !isE && !dEmpty)
        want.push_back(',');
      if (named)
      {
        quoted(EV_NAME, !asciiName || conv);
        want.push_back(':');
      }
      std::vector<int> want2 = want;
      if (k.first == "Null")
      {
        for (char c : std::string("null"))
          want.push_back(c);
        want2.push_back(EV_VALUE);
      }
      else
      {
        quoted(EV_VALUE, k.first == "String" || (k.first == "Ascii" && conv));
        want2 = want;
      }
      u64 succ = 0;
      for (auto &o : pol.outs)
      {
        bool mayTrue = I.mayBe(o.st, o.ret, 1), mayFalse = I.mayBe(o.st, o.ret, 0);
        bool dok;
        auto dom = I.values(o.st, dv, dok);
        if (mayFalse && !o.failed && !(isE && dom.size() == 1 && dom[0] == 0))
          R.violation("false-failure", "Serializer::write " + k.first, P.where(*o.at), "write reports failure although nothing failed" + ctxt);
        if (!mayTrue)
          continue;
        if (o.failed)
        {
          R.violation("lost-failure", "Serializer::write " + k.first, P.where(*o.at), "write reports success although text could not be written" + ctxt);
          continue;
        }
        succ++;
        std::vector<int> got;
        bool quote = false, wsin = false;
        for (int e : o.ev)
        {
          if (e == '"')
            quote = !quote;
          if (e == EV_WS)
          {
            if (quote)
              wsin = true;
            continue;
          }
          got.push_back(e);
        }
        if (wsin || (got != want && got != want2))
        {
          R.violation("emit-order", "Serializer::write " + k.first + (named ? " named" : "") + (start ? " first" : " later") + (dEmpty ? " nodelim" : ""),
                      P.where(*o.at), "emits " + show(o.ev) + " where JSON needs " + show(want) + ctxt);
          continue;
        }
        auto cell = [&](int64_t off) {
          auto it = o.st.mem.find({pol.ser, off});
          return it == o.st.mem.end() ? Val::top() : it->second.v;
        };
        if (!I.mustBe(o.st, cell(oStart), isS))
          R.violation("emit-state", "Serializer::write token_start " + k.first, P.where(*o.at), "the separator state after the token is wrong" + ctxt);
        if (!I.mustBe(o.st, cell(oFirst), 0))
          R.violation("emit-state", "Serializer::write first " + k.first, P.where(*o.at), "the first-token state is not cleared" + ctxt);
        // depth must have moved by one
        Val want = I.unop(o.st, dv, [&](u64 x, u64 &y) {
          y = (x + (isS ? 1 : 0) - (isE ? 1 : 0)) & 0xffffffffull;
          return true;
        });
        Val gotD = cell(oDepth);
        bool same = true;
        for (u64 d : dom)
        {
          State s3 = o.st;
          u64 a = 0, b = 1;
          if (dv.dep >= 0)
            s3.vars[dv.dep] = {d};
          if (!I.isConst(s3, want, a) || !I.isConst(s3, gotD, b) || a != b)
            same = false;
        }
        if (!same)
          R.violation("emit-state", "Serializer::write depth " + k.first, P.where(*o.at), "the nesting depth after the token is wrong" + ctxt);
      }
      if (!succ)
        R.violation("emit-order", "Serializer::write never succeeds " + k.first, P.whereFn(*W), "no successful path" + ctxt);
      else
        R.ok(succ);
    }
  }
  R.stat("emit_cases", cases);
  R.stat("emit_sites", sites.size());
  if (sites.size() < 6)
    throw BrokenAnalysis("too few output sites in Serializer::write");
}
} // namespace

int checkWriter(Program &P, Report &R, const std::vector<std::string> &)
{
  WCtx C;
  C.nd = P.field("JS::Token", "name.data");
  C.ns = P.field("JS::Token", "name.size");
  C.vd = P.field("JS::Token", "value.data");
  C.vs = P.field("JS::Token", "value.size");
  C.vt = P.field("JS::Token", "value_type");
  C.tsize = (int64_t)P.types["JS::Token"]->getSizeInBits() / 8;
  C.T = P.enums["JS::Type"];
  if (C.T.size() < 9)
    throw BrokenAnalysis("token kinds not found");
  std::set<const Function *> leaf;
  std::vector<const Function *> froms;
  for (auto &F : P.M)
  {
    if (F.isDeclaration())
      continue;
    if (isHandlerFrom(P, &F))
    {
      leaf.insert(&F);
      froms.push_back(&F);
    }
    if (isWriteToken(P, &F))
      leaf.insert(&F);
  }
  auto reach = reaching(P.M, leaf);
  for (auto *f : leaf)
    reach.erase(f);
  R.stat("writers", froms.size());
  if (froms.size() < 50)
    throw BrokenAnalysis("too few writers instantiated");
  u64 calls = 0;
  for (auto *F : froms)
  {
    std::string T = fromType(P, F);
    if (rawTokens(T))
    {
      R.add("token_replay_writers_not_judged");
      continue;
    }
    for (int named = 0; named < 2; named++)
    {
      WriterPolicy pol(P, R, C, reach);
      pol.root = F;
      pol.T = T;
      pol.rootName = Program::stripParams(P.name(F));
      Interp I(P, pol);
      State st;
      st.ts.assign(3 + K + 1, 0);
      std::vector<Val> args;
      for (unsigned i = 0; i < F->arg_size(); i++)
        args.push_back(F->getArg(i)->getType()->isPointerTy() ? Val::ptr(I.argObj(i), 0) : Val::top());
      pol.tokObj = I.argObj(1);
      st.mem[{pol.tokObj, C.ns}] = Cell{8, Val::cst(named ? NAMED : 0)};
      I.run(*F, args, st, 0, 0);
      if (I.exhausted)
        throw BrokenAnalysis("state budget exhausted in " + pol.rootName);
      if (!pol.wrote)
        R.violation("no-value", pol.rootName + " never writes", P.whereFn(*F), "the writer of " + T + " never writes a value");
      else
        R.ok();
      calls += pol.calls.size();
      R.ok(pol.calls.size());
      if (named)
        R.sample(pol.rootName + (pol.omitted ? " writes one value or none" : " writes exactly one value"));
    }
  }
  R.stat("write_sites", calls);
  checkEmit(P, R, C);
  return 0;
}
} // namespace jsa
