// Analyses of code that works on short texts: lengths and addresses are known, some bytes of the text are not.
// Heap memory is modelled object by object, the standard library's containers are followed like any other code.
#pragma once
#include "common.h"
#include <chrono>
namespace jsa
{
// Limits the time of an analysis; once something was found, little more is spent.
struct Budget
{
  Report &R;
  double all = 800, found = 60;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  Budget(Report &R, const std::vector<std::string> &args) : R(R)
  {
    for (auto &a : args)
      if (startsWith(a, "budget="))
        all = atof(a.c_str() + 7);
  }
  void check() const
  {
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (s > all || (s > found && !R.keys.empty()))
      throw BrokenAnalysis("not finished within " + std::to_string(int(s)) + " s");
  }
};
struct TextPolicy : Policy
{
  Program &P;
  Report &R;
  int input = -1;
  int64_t inputSize = 0;
  std::vector<std::vector<u64>> shape; // possible values of every byte of the input
  std::map<int, int64_t> sizeOf;       // heap objects
  u64 nAcc = 0, nAlloc = 0;
  std::string entry;
  int64_t drData, drSize, tName, tValue, tNameType, tValueType;
  std::map<const Function *, std::pair<std::string, std::string>> names;

  TextPolicy(Program &P, Report &R) : P(P), R(R)
  {
    drData = P.field("JS::DataRef", "data");
    drSize = P.field("JS::DataRef", "size");
    tName = P.field("JS::Token", "name");
    tValue = P.field("JS::Token", "value");
    tNameType = P.field("JS::Token", "name_type");
    tValueType = P.field("JS::Token", "value_type");
  }
  const std::pair<std::string, std::string> &nameOf(const Function *F)
  {
    auto it = names.find(F);
    if (it != names.end())
      return it->second;
    std::string q = Program::stripParams(P.name(F));
    return names[F] = {scopeOf(q), bare(lastComponent(q))};
  }
  Type *i8() const
  {
    return IntegerType::get(P.M.getContext(), 8);
  }
  Type *i64() const
  {
    return IntegerType::get(P.M.getContext(), 64);
  }
  Type *ptrTy() const
  {
    return PointerType::get(P.M.getContext(), 0);
  }
  static bool oneTarget(const Val &v)
  {
    return v.k == Val::Ptr && v.dep < 0 && v.p.size() == 1 && v.p[0].second != UNKOFF;
  }
  Val fieldOf(Interp &I, State &s, const Val &p, int64_t off, Type *ty)
  {
    if (!oneTarget(p))
      throw BrokenAnalysis("unknown object handed over in " + entry);
    return I.load(s, nullptr, Val::ptr(p.p[0].first, p.p[0].second + off), ty, -1, this);
  }
  void setField(Interp &I, State &s, const Val &p, int64_t off, const Val &v, unsigned size)
  {
    I.store(s, Val::ptr(p.p[0].first, p.p[0].second + off), v, size);
  }

  // ---- the input text
  void setInput(Interp &I, State &s, const std::vector<std::vector<u64>> &sh)
  {
    shape = sh;
    input = I.obj(ObjInfo::Named, "input");
    inputSize = (int64_t)sh.size();
    s.mem.drop_if([&](const auto &x) { return x.first.first == input; });
    for (size_t i = 0; i < sh.size(); i++)
      s.mem[{input, (int64_t)i}] = Cell{1, sh[i].size() == 1 ? Val::cst(sh[i][0]) : I.mkVar(s, nullptr, inputVar(I, i), sh[i])};
  }
  int inputVar(Interp &I, size_t i)
  {
    return I.varId(this, -1, 1000 + i);
  }
  static std::vector<u64> any()
  {
    std::vector<u64> d;
    for (u64 i = 0; i < 256; i++)
      d.push_back(i);
    return d;
  }
  static std::string show(const std::vector<int> &b)
  {
    std::string r = "\"";
    char t[8];
    for (int c : b)
      if (c >= 32 && c < 127)
        r += char(c);
      else
      {
        snprintf(t, sizeof t, "<%02x>", c & 0xff);
        r += t;
      }
    return r + "\"";
  }
  std::string whereOf(const State &s) const
  {
    return s.loc ? P.where(*s.loc) + " (" + Program::stripParams(P.name(s.loc->getFunction())) + ")" : entry;
  }

  // ---- memory
  bool inBounds(Interp &I, State &s, int o, int64_t off, int64_t len, const char *what)
  {
    int64_t size = -1;
    if (o == input)
      size = inputSize;
    else
    {
      auto it = sizeOf.find(o);
      if (it != sizeOf.end())
        size = it->second;
    }
    if (size < 0)
      return true;
    nAcc++;
    if (off == UNKOFF)
      throw BrokenAnalysis("an access at a position the analysis cannot determine, in " + entry);
    if (off < 0 || off + len > size)
    {
      std::string fn = I.cur ? Program::stripParams(P.name(I.cur->getFunction())) : entry;
      R.violation("outside", entry + " " + (o == input ? "input" : "memory"), I.cur ? P.where(*I.cur) + " (" + fn + ")" : fn,
                  std::string(what) + " position " + std::to_string(off) + " of " + (o == input ? "a text" : "memory") + " of " +
                    std::to_string(size) + " bytes");
      return false;
    }
    return true;
  }
  bool onLoad(Interp &I, const LoadInst &L, const Val &p, State &s, int, Val &out) override
  {
    if (!oneTarget(p))
      return false;
    if (!inBounds(I, s, p.p[0].first, p.p[0].second, (int64_t)I.DL.getTypeStoreSize(L.getType()), "reads"))
    {
      out = Val::cst(0);
      return true;
    }
    return false;
  }
  void onStore(Interp &I, const StoreInst &S, const Val &p, const Val &, State &s) override
  {
    if (oneTarget(p))
      inBounds(I, s, p.p[0].first, p.p[0].second, (int64_t)I.DL.getTypeStoreSize(S.getValueOperand()->getType()), "writes");
  }
  bool onInit(Interp &, int o, int64_t, Type *ty, State &, Val &out) override
  {
    // library constants built at start-up are not needed; fresh memory holds nothing known
    (void)o;
    (void)ty;
    (void)out;
    return false;
  }
  bool shouldInline(Interp &, const Function &) override
  {
    return true;
  }
  Val byteAt(Interp &I, State &s, const Val &p, u64 i)
  {
    return I.load(s, nullptr, Val::ptr(p.p[0].first, p.p[0].second + (int64_t)i), i8(), -1, this);
  }
  virtual bool event(Interp &, const CallBase &, const std::string & /*scope*/, const std::string & /*name*/, const std::vector<Val> &,
                     State &, std::vector<Exit> &)
  {
    return false;
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &a, State &s, int ctx,
              std::vector<Exit> &out) override
  {
    (void)ctx;
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (auto *II = dyn_cast<IntrinsicInst>(&CB))
    {
      auto id = II->getIntrinsicID();
      if (id == Intrinsic::memcpy || id == Intrinsic::memmove)
      {
        u64 n;
        if (!I.isConst(s, a[2], n))
          throw BrokenAnalysis("copies a piece of unknown length at " + P.where(CB));
        if (n == 0)
          return done(Val::top());
        for (int q = 0; q < 2; q++)
        {
          u64 null;
          if (a[q].k == Val::Ints && I.isConst(s, a[q], null) && null < 4096)
          {
            R.violation("outside", entry + " null", whereOf(s), std::string(q ? "reads" : "writes") + " through a null pointer");
            return true;
          }
        }
        if (oneTarget(a[1]) && !inBounds(I, s, a[1].p[0].first, a[1].p[0].second, (int64_t)n, "reads"))
          return true;
        if (oneTarget(a[0]) && !inBounds(I, s, a[0].p[0].first, a[0].p[0].second, (int64_t)n, "writes"))
          return true;
      }
      return false;
    }
    if (!F)
      throw BrokenAnalysis("indirect call at " + P.where(CB));
    auto &nm = nameOf(F);
    const std::string &sc = nm.first, &fn = nm.second;
    if (P.inJS(CB.getFunction()))
      s.loc = &CB;
    if (event(I, CB, sc, fn, a, s, out))
      return true;
    std::string ln = F->getName().str();
    if (startsWith(ln, "_Znwm") || startsWith(ln, "_Znam"))
    {
      u64 n;
      if (!I.isConst(s, a[0], n))
        throw BrokenAnalysis("allocates memory of unknown size at " + P.where(CB));
      int o = I.obj(ObjInfo::Named, "heap" + std::to_string(s.ts[0]) + "/" + std::to_string(n));
      sizeOf[o] = (int64_t)n;
      s.mem.drop_if([&](const auto &x) { return x.first.first == o; });
      s.ts[0]++;
      nAlloc++;
      return done(Val::ptr(o, 0));
    }
    if (startsWith(ln, "_ZdlPv") || startsWith(ln, "_ZdaPv"))
    {
      if (oneTarget(a[0]))
      {
        int o = a[0].p[0].first;
        s.mem.drop_if([&](const auto &x) { return x.first.first == o; });
      }
      return done(Val::top());
    }
    if (startsWith(fn, "__throw_"))
    {
      R.violation("throws", entry, whereOf(s), "can end in " + fn);
      return true;
    }
    if (ln == "memcmp" || ln == "bcmp" || ln == "strncmp")
    {
      bool same = true; // only asked whether they are the same
      for (auto *u : CB.users())
      {
        auto *C = dyn_cast<ICmpInst>(u);
        same &= C && C->isEquality() && isa<ConstantInt>(C->getOperand(1)) && cast<ConstantInt>(C->getOperand(1))->isZero();
      }
      return compare(I, a, s, out, ln == "strncmp", same);
    }
    if (ln == "__cxa_guard_acquire")
      return done(Val::cst(1));
    if (ln == "__cxa_guard_release")
    {
      I.store(s, a[0], Val::cst(1), 1);
      return done(Val::top());
    }
    if (ln == "__cxa_atexit")
      return done(Val::cst(0));
    if (ln == "memchr")
    {
      u64 n;
      if (!I.isConst(s, a[2], n) || (n && !oneTarget(a[0])))
        return false;
      State cur = s;
      for (u64 i = 0; i < n; i++)
      {
        if (!inBounds(I, cur, a[0].p[0].first, a[0].p[0].second + (int64_t)i, 1, "reads"))
          return true;
        Val b = byteAt(I, cur, a[0], i);
        Val e = I.binop(cur, b, a[1], [](u64 l, u64 r, u64 &o) {
          o = (l & 0xff) == (r & 0xff);
          return true;
        });
        if (e.k != Val::Ints || (e.dep < 0 && e.s.size() > 1))
          return pairwise(I, a, cur, i, n, out);
        State t = cur;
        if (I.refine(t, e, true))
          out.push_back({Val::ptr(a[0].p[0].first, a[0].p[0].second + (int64_t)i), t});
        if (!I.refine(cur, e, false))
          return true;
      }
      out.push_back({Val::cst(0), cur});
      return true;
    }
    if (ln == "strlen")
    {
      if (!oneTarget(a[0]) || I.info(a[0].p[0].first).kind == ObjInfo::Global)
        return false;
      State cur = s;
      for (u64 i = 0; i < 4096; i++)
      {
        if (!inBounds(I, cur, a[0].p[0].first, a[0].p[0].second + (int64_t)i, 1, "reads"))
          return true;
        Val b = byteAt(I, cur, a[0], i);
        Val e = I.unop(cur, b, [](u64 l, u64 &o) {
          o = (l & 0xff) == 0;
          return true;
        });
        State t = cur;
        if (I.refine(t, e, true))
          out.push_back({Val::cst(i), t});
        if (!I.refine(cur, e, false))
          return true;
      }
      throw BrokenAnalysis("text without an end");
    }
    return false;
  }
  // the character looked for is unknown too: separate its values
  bool pairwise(Interp &I, const std::vector<Val> &a, State &s, u64 from, u64 n, std::vector<Exit> &out)
  {
    bool k;
    for (u64 c : I.values(s, a[1], k))
    {
      State cur = s;
      Val is = I.unop(cur, a[1], [&](u64 x, u64 &o) {
        o = x == c;
        return true;
      });
      if (!I.refine(cur, is, true))
        continue;
      bool open = true;
      for (u64 i = from; i < n && open; i++)
      {
        Val b = byteAt(I, cur, a[0], i);
        Val e = I.unop(cur, b, [&](u64 l, u64 &o) {
          o = (l & 0xff) == (c & 0xff);
          return true;
        });
        if (e.k != Val::Ints)
          throw BrokenAnalysis("searches unknown text in " + entry);
        State t = cur;
        if (I.refine(t, e, true))
          out.push_back({Val::ptr(a[0].p[0].first, a[0].p[0].second + (int64_t)i), t});
        open = I.refine(cur, e, false);
      }
      if (open)
        out.push_back({Val::cst(0), cur});
    }
    return true;
  }
  bool compare(Interp &I, const std::vector<Val> &a, State &s, std::vector<Exit> &out, bool stopAtZero, bool same = false)
  {
    u64 n;
    if (!I.isConst(s, a[2], n))
      return false;
    State cur = s;
    for (u64 i = 0; i < n; i++)
    {
      if (!oneTarget(a[0]) || !oneTarget(a[1]))
        return false;
      for (int q = 0; q < 2; q++)
        if (!inBounds(I, cur, a[q].p[0].first, a[q].p[0].second + (int64_t)i, 1, "reads"))
          return true;
      Val p = byteAt(I, cur, a[0], i), q = byteAt(I, cur, a[1], i);
      for (int w = same ? 1 : 0; w < 2; w++)
      {
        Val d = I.binop(cur, p, q, [&](u64 l, u64 r, u64 &o) {
          o = same ? (l & 0xff) != (r & 0xff) : w ? (l & 0xff) > (r & 0xff) : (l & 0xff) < (r & 0xff);
          return true;
        });
        if (d.k != Val::Ints || (d.dep < 0 && d.s.size() > 1))
          throw BrokenAnalysis("compares two unknown texts in " + entry);
        State t = cur;
        if (I.refine(t, d, true))
          out.push_back({Val::cst(w ? 1 : 0xffffffffu), t});
        if (!I.refine(cur, d, false))
          return true;
      }
      if (stopAtZero)
      {
        Val d = I.unop(cur, p, [&](u64 l, u64 &o) {
          o = (l & 0xff) == 0;
          return true;
        });
        State t = cur;
        if (I.refine(t, d, true))
          out.push_back({Val::cst(0), t});
        if (!I.refine(cur, d, false))
          return true;
      }
    }
    out.push_back({Val::cst(0), cur});
    return true;
  }

  // ---- results: all combinations of values the unknown bytes can still have
  struct Term
  {
    int var = -1; // index of the variable, -1: constant
    u64 c = 0;
    std::vector<u64> t; // by value of the variable
    unsigned shift = 0;
  };
  // values that the reference treats differently from plain text
  virtual bool special(u64) const
  {
    return true;
  }
  // calls f(input bytes, output bytes) for every combination.  A byte that the output contains as it is, or not at all, is
  // represented by one of its plain values: every other plain value gives the same answer.
  void forAll(Interp &I, State &s, const std::vector<Val> &bytes,
              const std::function<bool(const std::vector<int> &, const std::vector<int> &)> &f)
  {
    std::map<int, int> index;
    std::vector<std::vector<u64>> doms;
    std::vector<int> pos;
    std::vector<int> in(shape.size());
    for (size_t i = 0; i < shape.size(); i++)
    {
      in[i] = (int)shape[i][0];
      if (shape[i].size() == 1)
        continue;
      int id = inputVar(I, i);
      auto it = s.vars.find(id);
      index[id] = (int)doms.size();
      doms.push_back(it == s.vars.end() ? shape[i] : std::vector<u64>(it->second.begin(), it->second.end()));
      pos.push_back((int)i);
    }
    std::vector<bool> copied(doms.size(), true);
    std::vector<std::vector<Term>> prog(bytes.size());
    auto fail = [&](size_t i) {
      throw BrokenAnalysis("the result in " + entry + " is not a function of the input: " + I.valStr(s, bytes[i]) + " for byte " +
                           std::to_string(i) + " of " + std::to_string(bytes.size()) + " of " + show(in));
    };
    auto term = [&](const Val &v, unsigned shift, bool whole, size_t i) {
      Term t;
      t.shift = shift;
      if (v.k != Val::Ints)
        fail(i);
      if (v.dep < 0)
      {
        if (v.s.size() != 1)
          fail(i);
        t.c = v.s[0];
      }
      else
      {
        auto it = index.find(v.dep);
        if (it == index.end())
          fail(i);
        t.var = it->second;
        t.t.assign(256, ~0ull);
        for (auto &x : v.t)
          if (x.first < 256)
          {
            t.t[x.first] = x.second;
            if (!whole || (x.first & 0xff) != (x.second & 0xff))
              copied[(size_t)t.var] = false;
          }
        for (u64 x : doms[(size_t)t.var])
          if (x > 255 || t.t[x] == ~0ull)
            fail(i);
      }
      prog[i].push_back(t);
    };
    for (size_t i = 0; i < bytes.size(); i++)
      if (bytes[i].k == Val::Bits)
        for (size_t b = 0; b < bytes[i].e.size() && b < 8; b++)
          term(bytes[i].e[b], unsigned(b), false, i);
      else
        term(bytes[i], 0, true, i);
    u64 n = 1;
    std::set<u64> used;
    for (size_t v = 0; v < doms.size(); v++)
    {
      if (copied[v])
      {
        std::vector<u64> d;
        u64 plain = ~0ull;
        for (u64 x : doms[v])
          if (special(x))
            d.push_back(x);
          else if (plain == ~0ull || used.count(plain))
            plain = x;
        if (plain != ~0ull)
        {
          d.push_back(plain);
          used.insert(plain);
        }
        doms[v] = d;
      }
      n *= doms[v].size();
      if (n > 40000000)
        throw BrokenAnalysis("too many combinations in " + entry + " for " + show(in));
    }
    std::vector<size_t> ix(doms.size(), 0);
    std::vector<u64> as(doms.size());
    std::vector<int> o(bytes.size());
    while (true)
    {
      for (size_t i = 0; i < doms.size(); i++)
        in[pos[i]] = (int)(as[i] = doms[i][ix[i]]);
      for (size_t i = 0; i < bytes.size(); i++)
      {
        u64 x = 0;
        for (auto &t : prog[i])
          x |= (t.var < 0 ? t.c : t.t[as[(size_t)t.var]]) << t.shift;
        o[i] = int(prog[i].size() == 1 && prog[i][0].var < 0 ? x : x & 0xff);
      }
      if (!f(in, o))
        return;
      size_t k = 0;
      while (k < ix.size() && ++ix[k] == doms[k].size())
        ix[k++] = 0;
      if (k == ix.size())
        return;
    }
  }
  std::vector<Val> textOf(Interp &I, State &s, const Val &p, const Val &n, bool &ok)
  {
    std::vector<Val> r;
    u64 c;
    ok = false;
    if (!I.isConst(s, n, c))
      throw BrokenAnalysis("text of unknown length in " + entry);
    if (c && !oneTarget(p))
      throw BrokenAnalysis("unknown text in " + entry);
    for (u64 i = 0; i < c; i++)
    {
      if (!inBounds(I, s, p.p[0].first, p.p[0].second + (int64_t)i, 1, "hands over"))
        return r;
      r.push_back(byteAt(I, s, p, i));
    }
    ok = true;
    return r;
  }
};
} // namespace jsa
