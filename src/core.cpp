#include <deque>
#include "core.h"
#include <algorithm>

namespace jsa
{
static u64 mask(unsigned bits)
{
  return bits >= 64 ? ~0ull : ((1ull << bits) - 1);
}
static int64_t sx(u64 v, unsigned bits)
{
  if (bits >= 64)
    return (int64_t)v;
  u64 m = 1ull << (bits - 1);
  return (int64_t)((v ^ m) - m);
}
Val Val::set(std::vector<u64> v)
{
  Val r;
  r.k = Ints;
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  r.s = std::move(v);
  return r;
}

// ------------------------------------------------------------------ Program
Program::Program(Module &M_) : M(M_)
{
  // variables that are never written keep their initial value: treat them as constants
  for (auto &G : M.globals())
    if (!G.isConstant() && G.hasInitializer() && !G.getName().starts_with("llvm.") && !G.isThreadLocal())
    {
      bool ro = true;
      std::vector<const Value *> wl{&G};
      while (!wl.empty() && ro)
      {
        auto *v = wl.back();
        wl.pop_back();
        for (auto *U : v->users())
          if (isa<GetElementPtrInst>(U) || isa<BitCastInst>(U) || isa<ConstantExpr>(U))
            wl.push_back(U);
          else if (!isa<LoadInst>(U))
            ro = false;
      }
      if (ro && !G.use_empty())
      {
        neverWritten.push_back(&G);
        G.setConstant(true);
      }
    }

  for (auto &F : M)
    dem[&F] = demangle(F.getName().str());
  DebugInfoFinder fi;
  fi.processModule(M);
  for (auto *T : fi.types())
  {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl())
      continue;
    std::string n = typeName(C);
    if (!n.empty() && !types.count(n))
      types[n] = C;
    if (C->getTag() == dwarf::DW_TAG_enumeration_type)
      for (auto *E : C->getElements())
        if (auto *En = dyn_cast<DIEnumerator>(E))
          enums[n][En->getName().str()] = En->getValue().getSExtValue();
  }
}
std::string Program::typeName(DIType *T) const
{
  if (!T)
    return "void";
  std::string n = T->getName().str();
  DIScope *S = T->getScope();
  while (S)
  {
    if (auto *N = dyn_cast<DINamespace>(S))
    {
      if (!N->getExportSymbols())
        n = N->getName().str() + "::" + n;
      S = N->getScope();
    }
    else if (auto *C = dyn_cast<DICompositeType>(S))
    {
      n = C->getName().str() + "::" + n;
      S = C->getScope();
    }
    else
      break;
  }
  return n;
}
DIType *Program::strip(DIType *T) const
{
  while (T)
  {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D)
      break;
    switch (D->getTag())
    {
    case dwarf::DW_TAG_pointer_type:
    case dwarf::DW_TAG_reference_type:
    case dwarf::DW_TAG_rvalue_reference_type:
    case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
    case dwarf::DW_TAG_typedef:
      T = D->getBaseType();
      continue;
    default:
      return T;
    }
  }
  return T;
}
std::string Program::retType(const Function *F) const
{
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType())
    return "";
  auto A = SP->getType()->getTypeArray();
  if (A.size() == 0)
    return "void";
  DIType *T = A[0];
  if (T && (T->getTag() == dwarf::DW_TAG_pointer_type || T->getTag() == dwarf::DW_TAG_reference_type))
    return typeName(strip(T)) + "*";
  return typeName(strip(T));
}
std::string Program::paramType(const Function *F, unsigned i) const
{
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType())
    return "";
  auto A = SP->getType()->getTypeArray();
  if (A.size() <= i + 1)
    return "";
  return typeName(strip(A[i + 1]));
}
std::string Program::stripParams(const std::string &d)
{
  // drop a trailing parameter list (balanced), and a leading return type
  std::string s = d;
  for (size_t a; (a = s.find("[abi:")) != std::string::npos;)
    s.erase(a, s.find(']', a) - a + 1);
  size_t end = s.rfind(')');
  if (end != std::string::npos)
  {
    int depth = 0;
    for (size_t i = end + 1; i-- > 0;)
    {
      if (s[i] == ')')
        depth++;
      else if (s[i] == '(')
      {
        if (--depth == 0)
        {
          s = s.substr(0, i);
          break;
        }
      }
    }
  }
  int ang = 0, par = 0;
  size_t cut = 0;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (s[i] == '<')
      ang++;
    else if (s[i] == '>')
      ang--;
    else if (s[i] == '(')
      par++;
    else if (s[i] == ')')
      par--;
    else if (s[i] == ' ' && ang == 0 && par == 0 && s.compare(i + 1, 8, "operator") != 0)
      cut = i + 1;
  }
  size_t op = s.find("operator");
  if (op == std::string::npos)
    s = s.substr(cut);
  return s;
}
int64_t Program::field(const std::string &type, const std::string &path, int64_t *size) const
{
  auto it = types.find(type);
  if (it == types.end())
    throw BrokenAnalysis("type " + type + " not found in debug info");
  DICompositeType *C = it->second;
  int64_t off = 0;
  std::string rest = path;
  while (true)
  {
    size_t dot = rest.find('.');
    std::string f = rest.substr(0, dot);
    DIDerivedType *found = nullptr;
    std::function<bool(DICompositeType *, int64_t)> look = [&](DICompositeType *CT, int64_t base) -> bool {
      for (auto *E : CT->getElements())
      {
        auto *D = dyn_cast<DIDerivedType>(E);
        if (!D)
          continue;
        if (D->getTag() == dwarf::DW_TAG_member && D->getName() == f)
        {
          found = D;
          off += base + int64_t(D->getOffsetInBits() / 8);
          return true;
        }
        if (D->getTag() == dwarf::DW_TAG_inheritance)
          if (auto *B = dyn_cast_or_null<DICompositeType>(strip(D->getBaseType())))
            if (look(B, base + int64_t(D->getOffsetInBits() / 8)))
              return true;
      }
      return false;
    };
    if (!look(C, 0))
      throw BrokenAnalysis("field " + f + " of " + typeName(C) + " not found");
    if (dot == std::string::npos)
    {
      if (size)
        *size = int64_t(found->getSizeInBits() / 8);
      return off;
    }
    auto *N = dyn_cast_or_null<DICompositeType>(strip(found->getBaseType()));
    if (N && N->isForwardDecl())
    {
      auto j = types.find(typeName(N));
      N = j == types.end() ? nullptr : j->second;
    }
    if (!N)
      throw BrokenAnalysis("field " + f + " of " + typeName(C) + " is not a structure");
    C = N;
    rest = rest.substr(dot + 1);
  }
}
bool Program::inJS(const Function *F) const
{
  if (auto *SP = F->getSubprogram())
  {
    DIScope *S = SP->getScope();
    std::string outer;
    while (S)
    {
      if (auto *N = dyn_cast<DINamespace>(S))
        outer = N->getName().str();
      S = S->getScope();
    }
    if (outer == "JS")
      return true;
    if (auto *fl = SP->getFile())
      if (fl->getFilename().contains("json_struct"))
        return true;
    return false;
  }
  return false;
}
std::string Program::where(const Instruction &I) const
{
  auto *L = I.getDebugLoc().get();
  std::string s;
  int n = 0;
  while (L)
  {
    std::string f = L->getFilename().str();
    size_t sl = f.rfind('/');
    if (sl != std::string::npos)
      f = f.substr(sl + 1);
    if (n)
      s += " <- ";
    s += f + ":" + std::to_string(L->getLine());
    L = L->getInlinedAt();
    if (++n > 3)
      break;
  }
  if (s.empty())
    s = whereFn(*I.getFunction());
  return s;
}
std::string Program::whereFn(const Function &F) const
{
  if (auto *SP = F.getSubprogram())
  {
    std::string f = SP->getFilename().str();
    size_t sl = f.rfind('/');
    if (sl != std::string::npos)
      f = f.substr(sl + 1);
    return f + ":" + std::to_string(SP->getLine());
  }
  return F.getName().str();
}
std::vector<std::string> Program::enumNames(const std::string &e) const
{
  std::vector<std::string> r;
  auto it = enums.find(e);
  if (it != enums.end())
    for (auto &x : it->second)
      r.push_back(x.first);
  return r;
}

// ------------------------------------------------------------------ Interp
Interp::Interp(Program &P_, Policy &pol_) : P(P_), pol(pol_), DL(P_.M.getDataLayout())
{
}
int Interp::obj(ObjInfo::K k, const std::string &name, const Value *v, int ctx, int parent, int64_t off)
{
  auto key = std::make_tuple((int)k, name, v, ctx, parent, off);
  auto it = objIds.find(key);
  if (it != objIds.end())
    return it->second;
  ObjInfo o;
  o.kind = k;
  o.name = name;
  o.v = v;
  o.ctx = ctx;
  o.parent = parent;
  o.off = off;
  objs.push_back(o);
  return objIds[key] = int(objs.size() - 1);
}
int Interp::argObj(unsigned i)
{
  return obj(ObjInfo::Arg, "arg" + std::to_string(i));
}
int Interp::varId(const void *key, int ctx, u64 extra)
{
  auto k = std::make_tuple(key, ctx, extra);
  auto it = varIds.find(k);
  if (it != varIds.end())
    return it->second;
  int id = int(varCtx.size());
  varCtx.push_back(ctx);
  return varIds[k] = id;
}
int Interp::subCtx(int ctx, const void *call)
{
  auto k = std::make_pair(ctx, call);
  auto it = ctxIds.find(k);
  if (it != ctxIds.end())
    return it->second;
  return ctxIds[k] = nextCtx++;
}
std::vector<u64> Interp::values(const State &st, const Val &v, bool &ok) const
{
  ok = v.k == Val::Ints;
  std::vector<u64> r;
  if (!ok)
    return r;
  if (v.dep < 0)
    return v.s;
  auto it = st.vars.find(v.dep);
  if (it == st.vars.end())
  {
    for (auto &x : v.t)
      r.push_back(x.second);
  }
  else
  {
    size_t j = 0;
    for (auto &x : v.t)
    {
      while (j < it->second.size() && it->second[j] < x.first)
        j++;
      if (j < it->second.size() && it->second[j] == x.first)
        r.push_back(x.second);
    }
  }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
bool Interp::isConst(const State &st, const Val &v, u64 &c) const
{
  bool ok;
  auto r = values(st, v, ok);
  if (!ok || r.size() != 1)
    return false;
  c = r[0];
  return true;
}
bool Interp::mayBe(const State &st, const Val &v, u64 c) const
{
  bool ok;
  auto r = values(st, v, ok);
  return !ok || std::binary_search(r.begin(), r.end(), c);
}
bool Interp::mustBe(const State &st, const Val &v, u64 c) const
{
  u64 x;
  return isConst(st, v, x) && x == c;
}
void Interp::plain(const State &st, Val &v) const
{
  if (v.k == Val::Ints && v.dep >= 0)
  {
    bool ok;
    auto r = values(st, v, ok);
    v = Val::set(r);
  }
  else if (v.k == Val::Ptr && v.dep >= 0)
  {
    int o = v.p[0].first;
    v = Val::ptr(o, UNKOFF);
  }
  else if (v.k == Val::Agg || v.k == Val::Bytes || v.k == Val::Bits)
    if (!v.e.empty())
      for (auto &e : v.e.w())
        plain(st, e);
}
static bool mentions(const Val &v, int id)
{
  if (v.dep == id)
    return true;
  for (auto &e : v.e)
    if (mentions(e, id))
      return true;
  return false;
}
Val Interp::mkVar(State &st, Env *env, int id, std::vector<u64> dom)
{
  if (st.vars.count(id))
  {
    std::function<void(Val &)> fix = [&](Val &v) {
      if (v.dep == id)
        plain(st, v);
      if (!v.e.empty())
        for (auto &e : v.e.w())
        fix(e);
    };
    if (env)
      for (auto &x : *env)
        fix(x.second);
    for (auto &x : st.mem.w())
      fix(x.second.v);
    st.vars.erase(id);
  }
  std::sort(dom.begin(), dom.end());
  dom.erase(std::unique(dom.begin(), dom.end()), dom.end());
  if (dom.size() == 1)
    return Val::cst(dom[0]);
  Val v;
  v.k = Val::Ints;
  v.dep = id;
  for (u64 x : dom)
    v.t.push_back({x, x});
  st.vars[id] = std::move(dom);
  return v;
}
void Interp::norm(Val &v, unsigned bits) const
{
  if (v.k != Val::Ints)
    return;
  u64 m = mask(bits);
  if (v.dep >= 0)
  {
    for (auto &x : v.t.w())
      x.second &= m;
    // collapse constants
    bool same = true;
    for (auto &x : v.t)
      if (x.second != v.t[0].second)
      {
        same = false;
        break;
      }
    if (same && !v.t.empty())
      v = Val::cst(v.t[0].second);
    return;
  }
  auto &vs = v.s.w();
  for (auto &x : vs)
    x &= m;
  std::sort(vs.begin(), vs.end());
  vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  unsigned lim = bits <= 8 ? 256 : intCap;
  if (v.s.size() > lim)
    v = Val::top();
}
Val Interp::unop(State &st, const Val &a, std::function<bool(u64, u64 &)> f)
{
  if (a.k == Val::Agg)
  {
    Val r;
    r.k = Val::Agg;
    for (auto &e : a.e)
      r.e.push_back(unop(st, e, f));
    return r;
  }
  if (a.k != Val::Ints)
    return Val::top();
  Val r;
  r.k = Val::Ints;
  if (a.dep >= 0)
  {
    r.dep = a.dep;
    for (auto &x : a.t)
    {
      u64 o;
      if (!f(x.second, o))
        return Val::top();
      r.t.push_back({x.first, o});
    }
    return r;
  }
  for (u64 x : a.s)
  {
    u64 o;
    if (!f(x, o))
      return Val::top();
    r.s.push_back(o);
  }
  auto &rs = r.s.w();
  std::sort(rs.begin(), rs.end());
  rs.erase(std::unique(rs.begin(), rs.end()), rs.end());
  return r;
}
Val Interp::binop(State &st, const Val &a, const Val &b, std::function<bool(u64, u64, u64 &)> f)
{
  if (a.k == Val::Agg && b.k == Val::Agg && a.e.size() == b.e.size())
  {
    Val r;
    r.k = Val::Agg;
    for (size_t i = 0; i < a.e.size(); i++)
      r.e.push_back(binop(st, a.e[i], b.e[i], f));
    return r;
  }
  if (a.k != Val::Ints || b.k != Val::Ints)
    return Val::top();
  u64 c;
  if (isConst(st, b, c))
    return unop(st, a, [&](u64 x, u64 &o) { return f(x, c, o); });
  if (isConst(st, a, c))
    return unop(st, b, [&](u64 x, u64 &o) { return f(c, x, o); });
  if (a.dep >= 0 && a.dep == b.dep)
  {
    Val r;
    r.k = Val::Ints;
    r.dep = a.dep;
    size_t j = 0;
    for (auto &x : a.t)
    {
      while (j < b.t.size() && b.t[j].first < x.first)
        j++;
      if (j < b.t.size() && b.t[j].first == x.first)
      {
        u64 o;
        if (!f(x.second, b.t[j].second, o))
          return Val::top();
        r.t.push_back({x.first, o});
      }
    }
    return r;
  }
  bool k1, k2;
  auto va = values(st, a, k1), vb = values(st, b, k2);
  if (va.size() * vb.size() > 70000)
    return Val::top();
  std::set<u64> out;
  for (u64 x : va)
    for (u64 y : vb)
    {
      u64 o;
      if (!f(x, y, o))
        return Val::top();
      out.insert(o);
      if (out.size() > 256)
        return Val::top();
    }
  return Val::set(std::vector<u64>(out.begin(), out.end()));
}
bool Interp::feasible(const State &st) const
{
  for (auto &x : st.vars)
    if (x.second.empty())
      return false;
  return true;
}
bool Interp::refine(State &st, const Val &c, bool want)
{
  if (c.k != Val::Ints)
    return true;
  u64 w = want ? 1 : 0;
  if (c.dep < 0)
    return std::binary_search(c.s.begin(), c.s.end(), w);
  auto &dom = st.vars[c.dep];
  std::vector<u64> nd;
  size_t j = 0;
  for (auto &x : c.t)
  {
    while (j < dom.size() && dom[j] < x.first)
      j++;
    if (j < dom.size() && dom[j] == x.first && (x.second & 1) == w)
      nd.push_back(x.first);
  }
  dom = nd;
  return !nd.empty();
}

// ---- memory
void Interp::havocRange(State &st, int o, int64_t off, int64_t size)
{
  std::vector<std::pair<int, int64_t>> dead;
  for (auto &x : st.mem)
    if (x.first.first == o &&
        (off == UNKOFF || (x.first.second < off + size && off < x.first.second + (int64_t)x.second.size)))
      dead.push_back(x.first);
  for (auto &d : dead)
    st.mem.erase(d);
  // objects reached through pointers stored in the range
  for (size_t i = 0; i < objs.size(); i++)
    if (objs[i].kind == ObjInfo::Deref && objs[i].parent == o &&
        (off == UNKOFF || (objs[i].off >= off && objs[i].off < off + size)))
      havocRange(st, int(i), UNKOFF, 0);
}
static unsigned storeSize(const DataLayout &DL, Type *T)
{
  return unsigned(DL.getTypeStoreSize(T));
}
Val Interp::loadCell(State &st, Env *env, int o, int64_t off, Type *ty, int ctx, const void *site)
{
  unsigned sz = storeSize(DL, ty);
  if (objs[o].kind == ObjInfo::Global && off != UNKOFF)
  {
    auto *G = dyn_cast<GlobalVariable>(objs[o].v);
    Val r;
    if (G && G->isConstant() && G->hasInitializer() && constBytes(G, off, ty, r))
      return r;
  }
  if (off == UNKOFF)
  {
    if (ty->isIntegerTy(8))
    {
      std::vector<u64> d;
      for (u64 i = 0; i < 256; i++)
        d.push_back(i);
      return mkVar(st, env, varId(site, ctx, 7), d);
    }
    return Val::top();
  }
  auto it = st.mem.find({o, off});
  if (it != st.mem.end() && it->second.size == sz)
  {
    const Val &v = it->second.v;
    if (v.k == Val::Ints && v.dep < 0 && v.s.size() > 1)
    {
      Val nv = mkVar(st, env, varId(site, ctx, 1), v.s);
      st.mem[{o, off}] = Cell{sz, nv};
      return nv;
    }
    return v;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(ty); VT && precise && VT->getElementType()->isIntegerTy())
  {
    std::vector<Val> by;
    Type *i8 = IntegerType::get(P.M.getContext(), 8);
    for (unsigned i = 0; i < sz; i++)
    {
      auto b = st.mem.find({o, off + i});
      Val x;
      if (b != st.mem.end() && b->second.size == 1)
        by.push_back(b->second.v);
      else if (b == st.mem.end() && pol.onInit(*this, o, off + i, i8, st, x))
      {
        st.mem[{o, off + i}] = Cell{1, x};
        by.push_back(x);
      }
      else
        return Val::top();
    }
    return compose(st, by, 0, ty);
  }
  // overlapping cells?
  bool overlap = false;
  for (auto j = st.mem.lower_bound({o, off - 64}); j != st.mem.end() && j->first.first == o && j->first.second < off + (int64_t)sz;
       ++j)
    if (j->first.second + (int64_t)j->second.size > off)
      overlap = true;
  if (overlap)
  {
    // little endian assembly from constant bytes
    if (ty->isIntegerTy() && sz <= 8)
    {
      u64 acc = 0;
      bool ok = true;
      for (unsigned i = 0; i < sz && ok; i++)
      {
        auto b = st.mem.find({o, off + i});
        u64 c;
        if (b == st.mem.end() || b->second.size != 1 || !isConst(st, b->second.v, c))
          ok = false;
        else
          acc |= (c & 0xff) << (8 * i);
      }
      if (ok)
        return Val::cst(acc);
      if (precise)
      {
        Val r;
        r.k = Val::Bytes;
        for (unsigned i = 0; i < sz; i++)
        {
          auto b = st.mem.find({o, off + i});
          if (b == st.mem.end() || b->second.size != 1 || b->second.v.k != Val::Ints)
            return Val::top();
          r.e.push_back(b->second.v);
        }
        return r;
      }
    }
    return Val::top();
  }
  Val init;
  if (pol.onInit(*this, o, off, ty, st, init))
  {
    st.mem[{o, off}] = Cell{sz, init};
    return init;
  }
  if (strict)
  {
    // variables of the program before anything was stored to them
    auto *G = objs[o].kind == ObjInfo::Global ? dyn_cast<GlobalVariable>(objs[o].v) : nullptr;
    Val r;
    if (G && G->hasInitializer() && constBytes(G, off, ty, r))
      return r;
    return Val::top();
  }
  if (ty->isIntegerTy(8))
  {
    std::vector<u64> d;
    for (u64 i = 0; i < 256; i++)
      d.push_back(i);
    Val v = mkVar(st, env, varId(site, ctx, 2), d);
    st.mem[{o, off}] = Cell{1, v};
    return v;
  }
  if (ty->isPointerTy())
  {
    int depth = 0, q = o;
    while (objs[q].kind == ObjInfo::Deref)
    {
      depth++;
      q = objs[q].parent;
    }
    if (depth < 3)
    {
      Val v = Val::ptr(obj(ObjInfo::Deref, "", nullptr, 0, o, off), 0);
      st.mem[{o, off}] = Cell{sz, v};
      return v;
    }
  }
  return Val::top();
}
Val Interp::load(State &st, Env *env, const Val &ptr, Type *ty, int ctx, const void *site)
{
  if (strict && (ptr.k != Val::Ptr || ptr.p.size() != 1 || ptr.p[0].second == UNKOFF))
    throw BrokenAnalysis("reads from an address the analysis does not know" + (cur ? " at " + P.where(*cur) : std::string()));
  if (ptr.k != Val::Ptr || ptr.p.empty())
  {
    if (ty->isIntegerTy(8))
    {
      std::vector<u64> d;
      for (u64 i = 0; i < 256; i++)
        d.push_back(i);
      return mkVar(st, env, varId(site, ctx, 3), d);
    }
    return Val::top();
  }
  if (ptr.dep >= 0)
  {
    // pointer whose offset is a function of one variable
    int o = ptr.p[0].first;
    auto *G = objs[o].kind == ObjInfo::Global ? dyn_cast<GlobalVariable>(objs[o].v) : nullptr;
    if (G && G->isConstant() && G->hasInitializer())
    {
      Val r;
      r.k = Val::Ints;
      r.dep = ptr.dep;
      for (auto &x : ptr.t)
      {
        Val c;
        u64 cv;
        if (!constBytes(G, (int64_t)x.second, ty, c) || !isConst(st, c, cv))
        {
          // out of the table for this value: keep the others only when the value is not possible
          auto it = st.vars.find(ptr.dep);
          if (it != st.vars.end() && !std::binary_search(it->second.begin(), it->second.end(), x.first))
            continue;
          return Val::top();
        }
        r.t.push_back({x.first, cv});
      }
      return r;
    }
    return loadCell(st, env, o, UNKOFF, ty, ctx, site);
  }
  if (ptr.p.size() == 1)
    return loadCell(st, env, ptr.p[0].first, ptr.p[0].second, ty, ctx, site);
  // several targets: join
  Val acc;
  bool first = true;
  for (auto &t : ptr.p)
  {
    Val v = loadCell(st, env, t.first, t.second, ty, ctx, (const char *)site + 0);
    plain(st, v);
    if (first)
      acc = v;
    else
      acc = joinVal(st, acc, st, v, true);
    first = false;
  }
  if (acc.k == Val::Ints && acc.s.size() > 1)
    acc = mkVar(st, env, varId(site, ctx, 4), acc.s);
  return acc;
}
void Interp::store(State &st, const Val &ptr, const Val &v, unsigned size)
{
  if (strict && (ptr.k != Val::Ptr || ptr.dep >= 0 || ptr.p.size() != 1 || ptr.p[0].second == UNKOFF))
    throw BrokenAnalysis("stores to an address the analysis does not know" + (cur ? " at " + P.where(*cur) : std::string()));
  if (ptr.k != Val::Ptr)
    return; // unknown target: assumed not to alias tracked reader/writer state (see DESIGN.md)
  if (ptr.p.size() == 1 && ptr.dep < 0 && ptr.p[0].second != UNKOFF)
  {
    int o = ptr.p[0].first;
    int64_t off = ptr.p[0].second;
    std::vector<std::pair<int, int64_t>> dead;
    for (auto j = st.mem.lower_bound({o, off - 64});
         j != st.mem.end() && j->first.first == o && j->first.second < off + (int64_t)size; ++j)
      if (j->first.second + (int64_t)j->second.size > off)
        dead.push_back(j->first);
    for (auto &d : dead)
      st.mem.erase(d);
    st.mem[{o, off}] = Cell{size, v};
    return;
  }
  for (auto &t : ptr.p)
  {
    if (t.second == UNKOFF || ptr.dep >= 0)
    {
      havocRange(st, t.first, UNKOFF, 0);
      continue;
    }
    auto it = st.mem.find({t.first, t.second});
    if (it != st.mem.end() && it->second.size == size)
    {
      Val a = it->second.v, b = v;
      plain(st, a);
      plain(st, b);
      Val j = joinVal(st, a, st, b, true);
      st.mem[{t.first, t.second}].v = std::move(j);
    }
    else
      havocRange(st, t.first, t.second, size);
  }
}
void Interp::copyMem(State &st, const Val &dst, const Val &src, int64_t size)
{
  if (strict && (dst.k != Val::Ptr || dst.dep >= 0 || dst.p.size() != 1 || dst.p[0].second == UNKOFF || size < 0))
    throw BrokenAnalysis("copies to an address the analysis does not know" + (cur ? " at " + P.where(*cur) : std::string()));
  if (dst.k != Val::Ptr)
    return;
  if (dst.p.size() != 1 || dst.p[0].second == UNKOFF || dst.dep >= 0)
  {
    for (auto &t : dst.p)
      havocRange(st, t.first, t.second, size < 0 ? (1 << 30) : size);
    return;
  }
  int o = dst.p[0].first;
  int64_t off = dst.p[0].second;
  std::vector<std::pair<int64_t, Cell>> cells;
  if (src.k == Val::Ptr && src.p.size() == 1 && src.p[0].second != UNKOFF && src.dep < 0 && size >= 0)
  {
    int so = src.p[0].first;
    int64_t soff = src.p[0].second;
    if (precise && size <= 64)
      for (int64_t i = 0; i < size; i++)
      {
        auto it = st.mem.upper_bound({so, soff + i});
        if (it != st.mem.begin())
        {
          --it;
          if (it->first.first == so && it->first.second + (int64_t)it->second.size > soff + i)
            continue;
        }
        Val init;
        if (pol.onInit(*this, so, soff + i, IntegerType::get(P.M.getContext(), 8), st, init))
          st.mem[{so, soff + i}] = Cell{1, init};
      }
    for (auto j = st.mem.lower_bound({so, soff}); j != st.mem.end() && j->first.first == so && j->first.second < soff + size;
         ++j)
      if (j->first.second + (int64_t)j->second.size <= soff + size)
        cells.push_back({j->first.second - soff, j->second});
    if (objs[so].kind == ObjInfo::Global && (size <= 64 || (strict && size <= 4096)))
    {
      auto *G = dyn_cast<GlobalVariable>(objs[so].v);
      if (G && G->isConstant() && G->hasInitializer())
        for (int64_t i = 0; i < size; i++)
        {
          Val b;
          if (constBytes(G, soff + i, IntegerType::get(P.M.getContext(), 8), b))
            cells.push_back({i, Cell{1, b}});
        }
    }
  }
  havocRange(st, o, off, size < 0 ? (1 << 30) : size);
  for (auto &c : cells)
    st.mem[{o, off + c.first}] = c.second;
}

// ---- constants
bool Interp::constBytes(const GlobalVariable *G, int64_t off, Type *ty, Val &out)
{
  Constant *C = const_cast<Constant *>(G->getInitializer());
  unsigned sz = storeSize(DL, ty);
  while (true)
  {
    Type *T = C->getType();
    int64_t tsz = (int64_t)DL.getTypeAllocSize(T);
    if (off < 0 || off + (int64_t)sz > tsz)
      return false;
    if (off == 0 && T == ty)
    {
      out = constVal(C, ty);
      return !out.isTop();
    }
    if (C->isNullValue())
    {
      if (ty->isPointerTy())
      {
        out = Val::cst(0);
        return true;
      }
      if (ty->isIntegerTy() && sz <= 8)
      {
        out = Val::cst(0);
        return true;
      }
      return false;
    }
    if (auto *AT = dyn_cast<ArrayType>(T))
    {
      int64_t es = (int64_t)DL.getTypeAllocSize(AT->getElementType());
      int64_t i = off / es;
      Constant *E = C->getAggregateElement(unsigned(i));
      if (!E)
        return false;
      // loads that span several elements (byte arrays)
      if (off % es + (int64_t)sz > es)
      {
        if (!AT->getElementType()->isIntegerTy(8) || !ty->isIntegerTy() || sz > 8)
          return false;
        u64 acc = 0;
        for (unsigned b = 0; b < sz; b++)
        {
          auto *CI = dyn_cast_or_null<ConstantInt>(C->getAggregateElement(unsigned(i + b)));
          if (!CI)
            return false;
          acc |= (CI->getZExtValue() & 0xff) << (8 * b);
        }
        out = Val::cst(acc);
        return true;
      }
      C = E;
      off %= es;
      continue;
    }
    if (auto *S = dyn_cast<StructType>(T))
    {
      auto *SL = DL.getStructLayout(S);
      unsigned i = SL->getElementContainingOffset(u64(off));
      C = C->getAggregateElement(i);
      if (!C)
        return false;
      off -= (int64_t)SL->getElementOffset(i).getFixedValue();
      continue;
    }
    if (isa<ConstantInt>(C) && ty->isIntegerTy() && sz <= 8 && C->getType()->getIntegerBitWidth() <= 64)
    {
      u64 v = cast<ConstantInt>(C)->getZExtValue();
      out = Val::cst((v >> (8 * off)) & mask(8 * sz));
      return true;
    }
    return false;
  }
}
Val Interp::constVal(const Constant *C, Type *ty)
{
  if (auto *CI = dyn_cast<ConstantInt>(C))
  {
    if (CI->getBitWidth() <= 64)
      return Val::cst(CI->getZExtValue());
    return Val::top();
  }
  if (isa<ConstantPointerNull>(C))
    return Val::cst(0);
  if (auto *G = dyn_cast<GlobalVariable>(C))
    return Val::ptr(obj(ObjInfo::Global, G->getName().str(), G), 0);
  if (auto *F = dyn_cast<Function>(C))
    return Val::ptr(obj(ObjInfo::Global, F->getName().str(), F), 0);
  if (auto *GO = dyn_cast<GEPOperator>(C))
  {
    Env e;
    State s;
    return gep(*GO, e, s);
  }
  if (isa<UndefValue>(C) || isa<PoisonValue>(C))
    return Val::top();
  if (C->getType()->isVectorTy() || C->getType()->isStructTy() || C->getType()->isArrayTy())
  {
    Val r;
    r.k = Val::Agg;
    unsigned n = 0;
    if (auto *VT = dyn_cast<FixedVectorType>(C->getType()))
      n = VT->getNumElements();
    else if (auto *ST = dyn_cast<StructType>(C->getType()))
      n = ST->getNumElements();
    else
      n = unsigned(cast<ArrayType>(C->getType())->getNumElements());
    if (n > 64)
      return Val::top();
    for (unsigned i = 0; i < n; i++)
    {
      auto *E = C->getAggregateElement(i);
      r.e.push_back(E ? constVal(E, E->getType()) : Val::top());
    }
    return r;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C))
  {
    if (CE->getOpcode() == Instruction::BitCast || CE->getOpcode() == Instruction::AddrSpaceCast ||
        (strict && CE->getOpcode() == Instruction::PtrToInt))
      return constVal(CE->getOperand(0), ty);
  }
  return Val::top();
}
Val Interp::eval(const Value *v, Env &env, State &st)
{
  if (auto *C = dyn_cast<Constant>(v))
    return constVal(C, C->getType());
  auto it = env.find(v);
  if (it == env.end())
    return Val::top();
  return it->second;
}
Val Interp::gep(const GEPOperator &G, Env &env, State &st)
{
  Val b = eval(G.getPointerOperand(), env, st);
  u64 nul;
  bool isNull = strict && b.k == Val::Ints && isConst(st, b, nul);
  if (b.k != Val::Ptr && !isNull)
    return Val::top();
  int64_t off = 0;
  bool known = true;
  Val dyn; // one variable part
  bool haveDyn = false;
  for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi)
  {
    const Value *idx = gi.getOperand();
    if (StructType *S = gi.getStructTypeOrNull())
    {
      off += (int64_t)DL.getStructLayout(S)->getElementOffset(unsigned(cast<ConstantInt>(idx)->getZExtValue()));
      continue;
    }
    int64_t es = (int64_t)DL.getTypeAllocSize(gi.getIndexedType());
    Val iv = eval(idx, env, st);
    u64 c;
    if (iv.k == Val::Ints && isConst(st, iv, c))
    {
      off += es * sx(c, idx->getType()->getIntegerBitWidth());
      continue;
    }
    if (iv.k == Val::Ints && iv.dep >= 0 && !haveDyn)
    {
      unsigned bits = idx->getType()->getIntegerBitWidth();
      dyn = unop(st, iv, [&](u64 x, u64 &o) {
        o = u64(es * sx(x, bits));
        return true;
      });
      haveDyn = true;
      continue;
    }
    known = false;
  }
  if (isNull)
    return known && !haveDyn ? Val::cst(nul + u64(off)) : Val::top();
  if (!known)
  {
    Val r = b;
    r.dep = -1;
    r.t.clear();
    for (auto &t : r.p)
      t.second = UNKOFF;
    std::sort(r.p.begin(), r.p.end());
    r.p.erase(std::unique(r.p.begin(), r.p.end()), r.p.end());
    return r;
  }
  if (haveDyn && dyn.k == Val::Ints && dyn.dep >= 0 && b.p.size() == 1 && b.dep < 0 && b.p[0].second != UNKOFF)
  {
    Val r;
    r.k = Val::Ptr;
    r.p = {{b.p[0].first, 0}};
    r.dep = dyn.dep;
    for (auto &x : dyn.t)
      r.t.push_back({x.first, u64((int64_t)x.second + off + b.p[0].second)});
    return r;
  }
  Val r = b;
  if (haveDyn)
  {
    r.dep = -1;
    r.t.clear();
    for (auto &t : r.p)
      t.second = UNKOFF;
    return r;
  }
  if (r.dep >= 0)
  {
    for (auto &x : r.t.w())
      x.second = u64((int64_t)x.second + off);
    return r;
  }
  for (auto &t : r.p)
    if (t.second != UNKOFF)
      t.second += off;
  return r;
}
static Val packBits(std::vector<Val> e, const std::function<bool(const Val &, u64 &)> &isC)
{
  u64 acc = 0, c;
  bool all = e.size() <= 64;
  for (size_t i = 0; i < e.size() && all; i++)
    if (isC(e[i], c))
      acc |= (c & 1) << i;
    else
      all = false;
  if (all)
    return Val::cst(acc);
  Val r;
  r.k = Val::Bits;
  r.e = std::move(e);
  return r;
}
// bits that all depend on one variable are a function of it
static Val oneVar(const Val &v)
{
  if (v.k != Val::Bits)
    return v;
  int dep = -1;
  for (auto &e : v.e)
  {
    if (e.k != Val::Ints || (e.dep < 0 && e.s.size() != 1))
      return v;
    if (e.dep >= 0)
    {
      if (dep >= 0 && dep != e.dep)
        return v;
      dep = e.dep;
    }
  }
  if (dep < 0)
    return v;
  std::map<u64, std::pair<u64, unsigned>> t;
  unsigned n = 0;
  u64 base = 0;
  for (size_t i = 0; i < v.e.size() && i < 64; i++)
    if (v.e[i].dep < 0)
      base |= (v.e[i].s[0] & 1) << i;
    else
    {
      n++;
      for (auto &x : v.e[i].t)
      {
        auto &q = t[x.first];
        q.first |= (x.second & 1) << i;
        q.second++;
      }
    }
  Val r;
  r.k = Val::Ints;
  r.dep = dep;
  for (auto &x : t)
    if (x.second.second == n)
      r.t.push_back({x.first, x.second.first | base});
  return r;
}
bool Interp::toBits(State &st, const Val &v, unsigned bits, std::vector<Val> &r)
{
  r.clear();
  if (v.k == Val::Bits)
  {
    r = v.e;
    r.resize(bits, Val::cst(0));
    return true;
  }
  if (v.k == Val::Bytes)
  {
    for (auto &e : v.e)
    {
      std::vector<Val> q;
      if (!toBits(st, e, 8, q))
        return false;
      r.insert(r.end(), q.begin(), q.end());
    }
    r.resize(bits, Val::cst(0));
    return true;
  }
  u64 c;
  if (v.k != Val::Ints || (v.dep < 0 && !isConst(st, v, c)))
    return false;
  for (unsigned i = 0; i < bits; i++)
  {
    Val b = unop(st, v, [&](u64 x, u64 &o) {
      o = (x >> i) & 1;
      return true;
    });
    if (isConst(st, b, c))
      b = Val::cst(c);
    r.push_back(b);
  }
  return true;
}
// Addition, subtraction and comparison of values whose bits depend on different variables: either the result, or the bit
// on which the cases have to be separated first.
bool Interp::splitOn(unsigned op, CmpInst::Predicate pr, const Val &a, const Val &b, unsigned bits, State &st, Val &bit, Val &res)
{
  std::vector<Val> x, y;
  if (bits > 64 || !toBits(st, a, bits, x) || !toBits(st, b, bits, y))
    return false;
  bit = Val::top();
  auto one = [&](const Val &v, u64 &c) { return isConst(st, v, c); };
  u64 p, q;
  if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)
  {
    for (unsigned i = 0; i < bits; i++)
      if (!one(x[i], p) && !one(y[i], q) && x[i].k == Val::Ints && y[i].k == Val::Ints && x[i].dep != y[i].dep)
        bit = x[i];
    return true;
  }
  if (op == Instruction::Add || op == Instruction::Sub)
  {
    u64 carry = op == Instruction::Sub ? 1 : 0;
    std::vector<Val> r;
    for (unsigned i = 0; i < bits; i++)
    {
      Val yi = y[i];
      if (op == Instruction::Sub)
        yi = unop(st, yi, [](u64 v, u64 &o) {
          o = !v;
          return true;
        });
      bool kx = one(x[i], p), ky = one(yi, q);
      if (kx && ky)
      {
        r.push_back(Val::cst((p ^ q ^ carry) & 1));
        carry = (p + q + carry) >> 1;
        continue;
      }
      if (!kx && !ky)
      {
        bit = x[i].k == Val::Ints ? x[i] : yi;
        return bit.k == Val::Ints;
      }
      u64 k = kx ? p : q;
      const Val &u = kx ? yi : x[i];
      if (k != carry)
      {
        // the carry out depends on the unknown bit
        bool later = false;
        for (unsigned j = i + 1; j < bits; j++)
          later = true;
        if (later)
        {
          bit = u;
          return bit.k == Val::Ints;
        }
      }
      u64 flip = k ^ carry;
      r.push_back(unop(st, u, [&](u64 v, u64 &o) {
        o = (v ^ flip) & 1;
        return true;
      }));
      carry = k & carry;
    }
    res = packBits(r, [&](const Val &v, u64 &c) { return isConst(st, v, c); });
    return true;
  }
  // comparison, most significant bit first
  bool sgn = pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_SGE || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE;
  bool eq = pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE;
  int diff = 0; // sign of a - b
  if (eq)
    for (unsigned i = 0; i < bits && !diff; i++)
      if (one(x[i], p) && one(y[i], q) && p != q)
        diff = 1;
  for (unsigned i = bits; i-- > 0 && !diff;)
  {
    bool kx = one(x[i], p), ky = one(y[i], q);
    if (kx && ky)
    {
      if (p != q)
        diff = (p > q) != (sgn && i + 1 == bits) ? 1 : -1;
      continue;
    }
    if (!kx && !ky && x[i] == y[i])
      continue;
    if (!eq)
    {
      // what the smallest and the largest possible values decide needs no separation
      u64 lx = 0, hx = 0, ly = 0, hy = 0;
      for (unsigned j = 0; j <= i; j++)
      {
        bool u = one(x[j], p), w = one(y[j], q);
        lx |= (u ? p & 1 : 0) << j;
        hx |= (u ? p & 1 : 1) << j;
        ly |= (w ? q & 1 : 0) << j;
        hy |= (w ? q & 1 : 1) << j;
      }
      bool top = sgn && i + 1 == bits;
      bool strictly = pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT;
      bool greater = pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGE;
      if (!top)
      {
        if (greater)
        {
          if (strictly ? lx > hy : lx >= hy)
            return res = Val::cst(1), true;
          if (strictly ? hx <= ly : hx < ly)
            return res = Val::cst(0), true;
        }
        else
        {
          if (strictly ? hx < ly : hx <= ly)
            return res = Val::cst(1), true;
          if (strictly ? lx >= hy : lx > hy)
            return res = Val::cst(0), true;
        }
      }
    }
    bit = kx ? y[i] : x[i];
    return bit.k == Val::Ints;
  }
  bool v = false;
  switch (pr)
  {
  case CmpInst::ICMP_EQ:
    v = diff == 0;
    break;
  case CmpInst::ICMP_NE:
    v = diff != 0;
    break;
  case CmpInst::ICMP_UGT:
  case CmpInst::ICMP_SGT:
    v = diff > 0;
    break;
  case CmpInst::ICMP_UGE:
  case CmpInst::ICMP_SGE:
    v = diff >= 0;
    break;
  case CmpInst::ICMP_ULT:
  case CmpInst::ICMP_SLT:
    v = diff < 0;
    break;
  default:
    v = diff <= 0;
  }
  res = Val::cst(v);
  return true;
}
Val Interp::icmp(CmpInst::Predicate pr, const Val &a, const Val &b, unsigned bits, State &st)
{
  if (strict && a.k == Val::Ptr && b.k == Val::Ptr && a.dep < 0 && b.dep < 0 && a.p.size() == 1 && b.p.size() == 1 &&
      a.p[0].first != b.p[0].first && a.p[0].second != UNKOFF && b.p[0].second != UNKOFF)
  {
    // different objects: unequal, in an arbitrary but fixed order
    bool less = a.p[0].first < b.p[0].first;
    switch (pr)
    {
    case CmpInst::ICMP_EQ:
      return Val::cst(0);
    case CmpInst::ICMP_NE:
      return Val::cst(1);
    case CmpInst::ICMP_UGT:
    case CmpInst::ICMP_SGT:
    case CmpInst::ICMP_UGE:
    case CmpInst::ICMP_SGE:
      return Val::cst(!less);
    default:
      return Val::cst(less);
    }
  }
  if (a.k == Val::Bits || b.k == Val::Bits)
  {
    if (pr != CmpInst::ICMP_EQ && pr != CmpInst::ICMP_NE)
      return Val::set({0, 1});
    u64 c;
    const Val &x = a.k == Val::Bits ? a : b, &y = a.k == Val::Bits ? b : a;
    if (y.k != Val::Ints || !isConst(st, y, c))
      return Val::set({0, 1});
    bool all = true;
    for (unsigned i = 0; i < bits; i++)
    {
      u64 k, w = (c >> i) & 1;
      if (i >= x.e.size() ? w != 0 : (isConst(st, x.e[i], k) && (k & 1) != w))
        return Val::cst(pr == CmpInst::ICMP_NE);
      if (i < x.e.size() && !isConst(st, x.e[i], k))
        all = false;
    }
    return all ? Val::cst(pr == CmpInst::ICMP_EQ) : Val::set({0, 1});
  }
  if (precise && (a.k == Val::Bytes || b.k == Val::Bytes) && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE))
  {
    unsigned n = bits / 8;
    auto byteOf = [&](const Val &v, unsigned i) -> Val {
      u64 c;
      if (v.k == Val::Bytes && i < v.e.size())
        return v.e[i];
      if (v.k == Val::Ints && isConst(st, v, c))
        return Val::cst((c >> (8 * i)) & 0xff);
      return Val::top();
    };
    bool all = true;
    int open = -1, nopen = 0;
    Val last;
    for (unsigned i = 0; i < n; i++)
    {
      Val x = byteOf(a, i), y = byteOf(b, i);
      Val r = binop(st, x, y, [&](u64 p, u64 q, u64 &o) {
        o = (p & 0xff) == (q & 0xff);
        return true;
      });
      if (r.k != Val::Ints)
        return Val::set({0, 1});
      if (!mayBe(st, r, 1))
        return Val::cst(pr == CmpInst::ICMP_NE);
      if (mayBe(st, r, 0))
      {
        all = false;
        open = (int)i;
        nopen++;
        last = r;
      }
    }
    if (all)
      return Val::cst(pr == CmpInst::ICMP_EQ);
    if (nopen == 1)
      return pr == CmpInst::ICMP_EQ ? last : unop(st, last, [](u64 x, u64 &o) {
        o = !x;
        return true;
      });
    return Val::set({0, 1});
  }
  if (precise && a.k == Val::Ptr && b.k == Val::Ptr && a.dep < 0 && b.dep < 0 && a.p.size() == 1 && b.p.size() == 1 &&
      a.p[0].first == b.p[0].first && a.p[0].second != UNKOFF && b.p[0].second != UNKOFF)
  {
    int64_t x = a.p[0].second, y = b.p[0].second;
    bool r = false;
    switch (pr)
    {
    case CmpInst::ICMP_EQ:
      r = x == y;
      break;
    case CmpInst::ICMP_NE:
      r = x != y;
      break;
    case CmpInst::ICMP_UGT:
    case CmpInst::ICMP_SGT:
      r = x > y;
      break;
    case CmpInst::ICMP_UGE:
    case CmpInst::ICMP_SGE:
      r = x >= y;
      break;
    case CmpInst::ICMP_ULT:
    case CmpInst::ICMP_SLT:
      r = x < y;
      break;
    default:
      r = x <= y;
    }
    return Val::cst(r);
  }
  if (a.k == Val::Ptr || b.k == Val::Ptr)
  {
    // pointers: decide only trivially different/equal cases
    if (pr != CmpInst::ICMP_EQ && pr != CmpInst::ICMP_NE)
      return Val::set({0, 1});
    if (a.k == Val::Ptr && b.k == Val::Ptr && a.dep < 0 && b.dep < 0 && a.p.size() == 1 && b.p.size() == 1)
    {
      if (a.p[0] == b.p[0] && a.p[0].second != UNKOFF)
        return Val::cst(pr == CmpInst::ICMP_EQ);
      auto ka = objs[a.p[0].first].kind, kb = objs[b.p[0].first].kind;
      bool distinct = a.p[0].first != b.p[0].first && (ka == ObjInfo::Alloca || kb == ObjInfo::Alloca);
      if (distinct || (a.p[0].first == b.p[0].first && a.p[0].second != UNKOFF && b.p[0].second != UNKOFF))
        return Val::cst(pr == CmpInst::ICMP_NE);
      return Val::set({0, 1});
    }
    u64 c;
    const Val &pp = a.k == Val::Ptr ? a : b, &oo = a.k == Val::Ptr ? b : a;
    if (oo.k == Val::Ints && isConst(st, oo, c) && c == 0 && pp.dep < 0)
    {
      bool nonnull = true;
      for (auto &t : pp.p)
      {
        auto k = objs[t.first].kind;
        if (k == ObjInfo::Deref)
          nonnull = false;
      }
      if (nonnull)
        return Val::cst(pr == CmpInst::ICMP_NE);
    }
    return Val::set({0, 1});
  }
  Val r = binop(st, a, b, [&](u64 x, u64 y, u64 &o) {
    u64 m = mask(bits);
    x &= m;
    y &= m;
    int64_t sxx = sx(x, bits), sy = sx(y, bits);
    switch (pr)
    {
    case CmpInst::ICMP_EQ:
      o = x == y;
      break;
    case CmpInst::ICMP_NE:
      o = x != y;
      break;
    case CmpInst::ICMP_UGT:
      o = x > y;
      break;
    case CmpInst::ICMP_UGE:
      o = x >= y;
      break;
    case CmpInst::ICMP_ULT:
      o = x < y;
      break;
    case CmpInst::ICMP_ULE:
      o = x <= y;
      break;
    case CmpInst::ICMP_SGT:
      o = sxx > sy;
      break;
    case CmpInst::ICMP_SGE:
      o = sxx >= sy;
      break;
    case CmpInst::ICMP_SLT:
      o = sxx < sy;
      break;
    case CmpInst::ICMP_SLE:
      o = sxx <= sy;
      break;
    default:
      return false;
    }
    return true;
  });
  if (r.k == Val::Top)
    return Val::set({0, 1});
  return r;
}
Val Interp::arith(unsigned op, const Val &a, const Val &b, unsigned bits, State &st)
{
  if (a.k == Val::Agg && b.k == Val::Agg && a.e.size() == b.e.size() && precise)
  {
    Val r;
    r.k = Val::Agg;
    for (size_t i = 0; i < a.e.size(); i++)
      r.e.push_back(arith(op, a.e[i], b.e[i], bits, st));
    return r;
  }
  // pointers to member functions: the address of a function is even
  if (strict && op == Instruction::And && a.k == Val::Ptr && a.dep < 0 && a.p.size() == 1 && a.p[0].second == 0 &&
      dyn_cast_or_null<Function>(objs[(size_t)a.p[0].first].v) && b.k == Val::Ints && b.dep < 0 && b.s.size() == 1 && b.s[0] == 1)
    return Val::cst(0);
  if (precise && (a.k == Val::Bytes || b.k == Val::Bytes) && bits % 8 == 0)
  {
    Type *ty = IntegerType::get(P.M.getContext(), bits);
    std::vector<Val> x, y;
    u64 c;
    if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && flatten(st, a, ty, x) &&
        flatten(st, b, ty, y))
    {
      for (size_t i = 0; i < x.size(); i++)
        x[i] = arith(op, x[i], y[i], 8, st);
      return compose(st, x, 0, ty);
    }
    if ((op == Instruction::LShr || op == Instruction::Shl) && flatten(st, a, ty, x) && isConst(st, b, c) && c % 8 == 0 && c < bits)
    {
      if (op == Instruction::LShr)
      {
        x.erase(x.begin(), x.begin() + c / 8);
        x.resize(bits / 8, Val::cst(0));
      }
      else
      {
        x.insert(x.begin(), c / 8, Val::cst(0));
        x.resize(bits / 8, Val::cst(0));
      }
      return compose(st, x, 0, ty);
    }
    return Val::top();
  }
  if (strict && bits <= 64 && op != Instruction::Shl && op != Instruction::LShr && op != Instruction::AShr)
  {
    u64 c;
    bool two = a.k == Val::Ints && b.k == Val::Ints && a.dep != b.dep && !isConst(st, a, c) && !isConst(st, b, c);
    bool wide = a.k == Val::Bits || b.k == Val::Bits;
    std::vector<Val> x, y;
    if ((two || wide) && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && toBits(st, a, bits, x) &&
        toBits(st, b, bits, y))
    {
      Val r;
      r.k = Val::Bits;
      for (unsigned i = 0; i < bits; i++)
      {
        u64 p, q;
        bool kx = isConst(st, x[i], p), ky = isConst(st, y[i], q);
        // a known operand decides alone, or passes the other one on
        if (op == Instruction::And && ((kx && !p) || (ky && !q)))
          r.e.push_back(Val::cst(0));
        else if (op == Instruction::Or && ((kx && p) || (ky && q)))
          r.e.push_back(Val::cst(1));
        else if (!kx && !ky && (x[i].k != Val::Ints || y[i].k != Val::Ints || x[i].dep != y[i].dep))
          r.e.push_back(Val::top());
        else
        {
          Val z = arith(op, x[i], y[i], 1, st);
          if (isConst(st, z, p))
            z = Val::cst(p);
          r.e.push_back(z);
        }
      }
      return oneVar(packBits(r.e, [&](const Val &v, u64 &c) { return isConst(st, v, c); }));
    }
    Val bit, res;
    if ((two || wide) && (op == Instruction::Add || op == Instruction::Sub) &&
        splitOn(op, CmpInst::ICMP_EQ, a, b, bits, st, bit, res) && bit.isTop())
      return oneVar(res);
  }
  if (a.k == Val::Bits || b.k == Val::Bits)
  {
    auto bitsOf = [&](const Val &v, std::vector<Val> &r) {
      u64 c;
      if (v.k == Val::Bits)
        r = v.e;
      else if (v.k == Val::Ints && isConst(st, v, c))
        for (unsigned i = 0; i < bits; i++)
          r.push_back(Val::cst((c >> i) & 1));
      else
        return false;
      r.resize(bits, Val::cst(0));
      return true;
    };
    std::vector<Val> x, y;
    auto isC = [&](const Val &v, u64 &c) { return isConst(st, v, c); };
    u64 c;
    if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && bitsOf(a, x) && bitsOf(b, y))
    {
      for (unsigned i = 0; i < bits; i++)
        x[i] = arith(op, x[i], y[i], 1, st);
      return packBits(x, isC);
    }
    if ((op == Instruction::LShr || op == Instruction::Shl) && bitsOf(a, x) && isConst(st, b, c) && c < bits)
    {
      if (op == Instruction::LShr)
        x.erase(x.begin(), x.begin() + c);
      else
        x.insert(x.begin(), c, Val::cst(0));
      x.resize(bits, Val::cst(0));
      return packBits(x, isC);
    }
    return Val::top();
  }
  u64 m = mask(bits), c;
  if (precise && bits == 64 && (op == Instruction::Sub || op == Instruction::Add) && (a.k == Val::Ptr || b.k == Val::Ptr))
  {
    auto known = [](const Val &v) { return v.k == Val::Ptr && v.dep < 0 && v.p.size() == 1 && v.p[0].second != UNKOFF; };
    if (op == Instruction::Sub && known(a) && known(b) && a.p[0].first == b.p[0].first)
      return Val::cst(u64(a.p[0].second - b.p[0].second));
    if (known(a) && b.k == Val::Ints && isConst(st, b, c))
      return Val::ptr(a.p[0].first, a.p[0].second + (op == Instruction::Add ? (int64_t)c : -(int64_t)c));
    if (op == Instruction::Add && known(b) && a.k == Val::Ints && isConst(st, a, c))
      return Val::ptr(b.p[0].first, b.p[0].second + (int64_t)c);
    return Val::top();
  }
  // absorbing constants keep precision with unknown operands
  if (op == Instruction::And && ((b.k == Val::Ints && isConst(st, b, c) && (c & m) == 0) ||
                                 (a.k == Val::Ints && isConst(st, a, c) && (c & m) == 0)))
    return Val::cst(0);
  if (bits == 1 && op == Instruction::Or && ((b.k == Val::Ints && isConst(st, b, c) && (c & 1)) ||
                                             (a.k == Val::Ints && isConst(st, a, c) && (c & 1))))
    return Val::cst(1);
  if (bits == 1 && (a.k == Val::Top || b.k == Val::Top) && (op == Instruction::And || op == Instruction::Or))
    return Val::set({0, 1});
  if (op == Instruction::And && (a.k == Val::Top || b.k == Val::Top))
  {
    const Val &cv = a.k == Val::Top ? b : a;
    if (cv.k == Val::Ints && isConst(st, cv, c) && (c & m) <= 15)
    {
      std::vector<u64> d;
      for (u64 i = 0; i <= (c & m); i++)
        if ((i & ~c) == 0)
          d.push_back(i);
      return Val::set(d);
    }
  }
  Val r = binop(st, a, b, [&](u64 x, u64 y, u64 &o) {
    x &= m;
    y &= m;
    int64_t xs = sx(x, bits), ys = sx(y, bits);
    switch (op)
    {
    case Instruction::Add:
      o = x + y;
      break;
    case Instruction::Sub:
      o = x - y;
      break;
    case Instruction::Mul:
      o = x * y;
      break;
    case Instruction::And:
      o = x & y;
      break;
    case Instruction::Or:
      o = x | y;
      break;
    case Instruction::Xor:
      o = x ^ y;
      break;
    case Instruction::Shl:
      if (y >= bits)
        return false;
      o = x << y;
      break;
    case Instruction::LShr:
      if (y >= bits)
        return false;
      o = x >> y;
      break;
    case Instruction::AShr:
      if (y >= bits)
        return false;
      o = u64(xs >> y);
      break;
    case Instruction::UDiv:
      if (!y)
        return false;
      o = x / y;
      break;
    case Instruction::URem:
      if (!y)
        return false;
      o = x % y;
      break;
    case Instruction::SDiv:
      if (!ys || (ys == -1))
        return false;
      o = u64(xs / ys);
      break;
    case Instruction::SRem:
      if (!ys || (ys == -1))
        return false;
      o = u64(xs % ys);
      break;
    default:
      return false;
    }
    o &= m;
    return true;
  });
  if (r.k == Val::Agg)
    for (auto &e : r.e.w())
      norm(e, bits);
  else
    norm(r, bits);
  return r;
}
// ---- vectors and integers as sequences of bytes
bool Interp::flatten(State &st, const Val &v, Type *ty, std::vector<Val> &bytes) const
{
  if (auto *VT = dyn_cast<FixedVectorType>(ty))
  {
    if (v.k != Val::Agg || v.e.size() != VT->getNumElements())
      return false;
    for (auto &e : v.e)
      if (!flatten(st, e, VT->getElementType(), bytes))
        return false;
    return true;
  }
  if (!ty->isIntegerTy() || ty->getIntegerBitWidth() % 8 || ty->getIntegerBitWidth() > 64)
    return false;
  unsigned n = ty->getIntegerBitWidth() / 8;
  u64 c;
  if (n == 1)
    bytes.push_back(v);
  else if (v.k == Val::Bytes && v.e.size() <= n)
    for (unsigned i = 0; i < n; i++)
      bytes.push_back(i < v.e.size() ? v.e[i] : Val::cst(0));
  else if (v.k == Val::Ints && isConst(st, v, c))
    for (unsigned i = 0; i < n; i++)
      bytes.push_back(Val::cst((c >> (8 * i)) & 0xff));
  else
    return false;
  return true;
}
Val Interp::compose(State &st, const std::vector<Val> &bytes, size_t from, Type *ty) const
{
  if (auto *VT = dyn_cast<FixedVectorType>(ty))
  {
    Val r;
    r.k = Val::Agg;
    size_t n = storeSize(DL, VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++)
      r.e.push_back(compose(st, bytes, from + i * n, VT->getElementType()));
    return r;
  }
  if (!ty->isIntegerTy() || ty->getIntegerBitWidth() % 8 || ty->getIntegerBitWidth() > 64)
    return Val::top();
  size_t n = ty->getIntegerBitWidth() / 8;
  if (from + n > bytes.size())
    return Val::top();
  if (n == 1)
    return bytes[from];
  u64 acc = 0;
  bool all = true;
  for (size_t i = 0; i < n; i++)
  {
    u64 c;
    if (isConst(st, bytes[from + i], c))
      acc |= (c & 0xff) << (8 * i);
    else
      all = false;
  }
  if (all)
    return Val::cst(acc);
  Val r;
  r.k = Val::Bytes;
  r.e.w().assign(bytes.begin() + from, bytes.begin() + from + n);
  return r;
}
void Interp::forkBits(const State &st, const std::vector<Val> &bits, std::vector<State> &out)
{
  for (int b = 0; b < 2; b++)
  {
    State s = st;
    bool open = true;
    for (size_t i = 0; i < bits.size() && open; i++)
    {
      if (i)
      {
        State d = s;
        if (refine(d, bits[i], !b))
          out.push_back(d);
      }
      open = refine(s, bits[i], b);
    }
    if (open)
      out.push_back(s);
  }
}
Val Interp::castOp(unsigned op, const Val &a, Type *from, Type *to, State &st)
{
  if (op == Instruction::BitCast)
  {
    if (from == to || (from->isPointerTy() && to->isPointerTy()))
      return a;
    // the bits of a floating point number
    if (strict && ((from->isIntegerTy() && to->isFloatingPointTy()) || (from->isFloatingPointTy() && to->isIntegerTy())))
      return a;
    // vector <-> vector / integer reinterpretation on constant lanes
    auto lanes = [&](Type *T, unsigned &n, unsigned &b) {
      if (auto *V = dyn_cast<FixedVectorType>(T))
      {
        if (!V->getElementType()->isIntegerTy())
          return false;
        n = V->getNumElements();
        b = V->getElementType()->getIntegerBitWidth();
        return true;
      }
      if (T->isIntegerTy())
      {
        n = 1;
        b = T->getIntegerBitWidth();
        return true;
      }
      return false;
    };
    unsigned n1, b1, n2, b2;
    if (!lanes(from, n1, b1) || !lanes(to, n2, b2) || b2 > 64 || b1 > 64)
      return Val::top();
    if (precise)
    {
      std::vector<Val> by;
      if (flatten(st, a, from, by))
        return compose(st, by, 0, to);
      auto *FV = dyn_cast<FixedVectorType>(from);
      if (FV && FV->getElementType()->isIntegerTy(1) && to->isIntegerTy() && a.k == Val::Agg)
        return packBits(a.e, [&](const Val &v, u64 &c) { return isConst(st, v, c); });
    }
    // same single-dependence lanes: build per-bit strings for constants only
    std::vector<bool> bitsv;
    std::vector<Val> src;
    if (a.k == Val::Agg)
      src = a.e;
    else
      src = {a};
    if (src.size() != n1)
      return Val::top();
    for (auto &e : src)
    {
      u64 c;
      if (!isConst(st, e, c))
        return Val::top();
      for (unsigned i = 0; i < b1; i++)
        bitsv.push_back((c >> i) & 1);
    }
    Val r;
    r.k = Val::Agg;
    for (unsigned i = 0; i < n2; i++)
    {
      u64 c = 0;
      for (unsigned j = 0; j < b2; j++)
        if (bitsv[i * b2 + j])
          c |= 1ull << j;
      r.e.push_back(Val::cst(c));
    }
    if (to->isIntegerTy())
      return r.e[0];
    return r;
  }
  Type *fs = from->getScalarType(), *ts = to->getScalarType();
  if (op == Instruction::PtrToInt || op == Instruction::IntToPtr)
  {
    u64 c;
    if (a.k == Val::Ints && isConst(st, a, c))
      return a;
    if (a.k == Val::Ptr)
      return a;
    return Val::top();
  }
  if (!fs->isIntegerTy() || !ts->isIntegerTy())
    return Val::top();
  unsigned fb = fs->getIntegerBitWidth(), tb = ts->getIntegerBitWidth();
  if (fb > 64 || tb > 64)
    return Val::top();
  if (a.k == Val::Ptr)
    return Val::top();
  if (a.k == Val::Bits)
  {
    if (tb >= a.e.size() && (op != Instruction::SExt || a.e.size() < fb))
      return a;
    if (op == Instruction::Trunc)
      return packBits(std::vector<Val>(a.e.begin(), a.e.begin() + tb), [&](const Val &v, u64 &c) { return isConst(st, v, c); });
    return Val::top();
  }
  if (a.k == Val::Bytes && tb % 8 == 0 && op != Instruction::SExt)
  {
    std::vector<Val> by = a.e;
    by.resize(tb / 8, Val::cst(0));
    return compose(st, by, 0, to);
  }
  Val r = unop(st, a, [&](u64 x, u64 &o) {
    if (op == Instruction::SExt)
      o = u64(sx(x & mask(fb), fb)) & mask(tb);
    else
      o = x & mask(fb) & mask(tb);
    return true;
  });
  if (r.k == Val::Agg)
    for (auto &e : r.e.w())
      norm(e, tb);
  else
    norm(r, tb);
  return r;
}
Val Interp::evalInst(const Instruction &I, Env &env, State &st, int ctx)
{
  if (auto *B = dyn_cast<BinaryOperator>(&I))
  {
    Type *T = B->getType()->getScalarType();
    if (!T->isIntegerTy() || T->getIntegerBitWidth() > 64)
      return Val::top();
    Val a = eval(B->getOperand(0), env, st), b = eval(B->getOperand(1), env, st);
    return arith(B->getOpcode(), a, b, T->getIntegerBitWidth(), st);
  }
  if (auto *C = dyn_cast<ICmpInst>(&I))
  {
    Type *T = C->getOperand(0)->getType()->getScalarType();
    unsigned bits = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
    if (bits > 64)
      return Val::set({0, 1});
    Val a = eval(C->getOperand(0), env, st), b = eval(C->getOperand(1), env, st);
    return icmp(C->getPredicate(), a, b, bits, st);
  }
  if (auto *C = dyn_cast<CastInst>(&I))
    return castOp(C->getOpcode(), eval(C->getOperand(0), env, st), C->getSrcTy(), C->getDestTy(), st);
  if (auto *G = dyn_cast<GetElementPtrInst>(&I))
    return gep(*cast<GEPOperator>(G), env, st);
  if (auto *L = dyn_cast<LoadInst>(&I))
  {
    Val p = eval(L->getPointerOperand(), env, st), out;
    if (pol.onLoad(*this, *L, p, st, ctx, out))
      return out;
    return load(st, &env, p, L->getType(), ctx, L);
  }
  if (auto *S = dyn_cast<SelectInst>(&I))
  {
    Val c = eval(S->getCondition(), env, st);
    Val a = eval(S->getTrueValue(), env, st), b = eval(S->getFalseValue(), env, st);
    u64 k;
    if (c.k == Val::Ints && isConst(st, c, k))
      return (k & 1) ? a : b;
    if (c.k == Val::Agg && a.k == Val::Agg && b.k == Val::Agg && c.e.size() == a.e.size() && c.e.size() == b.e.size())
    {
      Val r;
      r.k = Val::Agg;
      for (size_t i = 0; i < c.e.size(); i++)
      {
        u64 q;
        if (isConst(st, c.e[i], q))
          r.e.push_back((q & 1) ? a.e[i] : b.e[i]);
        else
          r.e.push_back(Val::top());
      }
      return r;
    }
    if (c.k == Val::Ints && c.dep >= 0 && a.k == Val::Ints && b.k == Val::Ints)
    {
      // table of the condition variable when both arms are constants or depend on the same variable
      auto at = [&](const Val &v, u64 x, u64 &o) {
        if (v.dep < 0)
        {
          if (v.s.size() != 1)
            return false;
          o = v.s[0];
          return true;
        }
        if (v.dep != c.dep)
          return false;
        for (auto &y : v.t)
          if (y.first == x)
          {
            o = y.second;
            return true;
          }
        return false;
      };
      Val r;
      r.k = Val::Ints;
      r.dep = c.dep;
      bool ok = true;
      for (auto &x : c.t)
      {
        u64 o;
        if (!at((x.second & 1) ? a : b, x.first, o))
        {
          ok = false;
          break;
        }
        r.t.push_back({x.first, o});
      }
      if (ok)
        return r;
    }
    return joinVal(st, a, st, b, true);
  }
  if (auto *E = dyn_cast<ExtractValueInst>(&I))
  {
    Val a = eval(E->getAggregateOperand(), env, st);
    for (unsigned i : E->indices())
    {
      if (a.k != Val::Agg || i >= a.e.size())
        return Val::top();
      Val t = a.e[i];
      a = t;
    }
    return a;
  }
  if (auto *E = dyn_cast<InsertValueInst>(&I))
  {
    Val a = eval(E->getAggregateOperand(), env, st);
    if (E->getNumIndices() != 1)
      return Val::top();
    unsigned n = isa<StructType>(E->getType()) ? cast<StructType>(E->getType())->getNumElements()
                                               : unsigned(cast<ArrayType>(E->getType())->getNumElements());
    if (a.k != Val::Agg)
    {
      a = Val();
      a.k = Val::Agg;
      a.e.w().resize(n);
    }
    a.e.w()[E->getIndices()[0]] = eval(E->getInsertedValueOperand(), env, st);
    return a;
  }
  if (auto *E = dyn_cast<ExtractElementInst>(&I))
  {
    Val a = eval(E->getVectorOperand(), env, st), i = eval(E->getIndexOperand(), env, st);
    u64 c;
    if (a.k == Val::Agg && isConst(st, i, c) && c < a.e.size())
      return a.e[c];
    return Val::top();
  }
  if (auto *E = dyn_cast<InsertElementInst>(&I))
  {
    Val a = eval(E->getOperand(0), env, st), v = eval(E->getOperand(1), env, st), i = eval(E->getOperand(2), env, st);
    u64 c;
    unsigned n = cast<FixedVectorType>(E->getType())->getNumElements();
    if (a.k != Val::Agg)
    {
      a = Val();
      a.k = Val::Agg;
      a.e.w().resize(n);
    }
    if (isConst(st, i, c) && c < a.e.size())
    {
      a.e.w()[c] = v;
      return a;
    }
    return Val::top();
  }
  if (auto *S = dyn_cast<ShuffleVectorInst>(&I))
  {
    Val a = eval(S->getOperand(0), env, st), b = eval(S->getOperand(1), env, st);
    auto *VT = dyn_cast<FixedVectorType>(S->getOperand(0)->getType());
    if (!VT)
      return Val::top();
    unsigned n = VT->getNumElements();
    Val r;
    r.k = Val::Agg;
    for (int m : S->getShuffleMask())
    {
      if (m < 0)
        r.e.push_back(Val::top());
      else if (unsigned(m) < n)
        r.e.push_back(a.k == Val::Agg ? a.e[m] : Val::top());
      else
        r.e.push_back(b.k == Val::Agg ? b.e[m - n] : Val::top());
    }
    return r;
  }
  if (isa<FreezeInst>(&I))
    return eval(I.getOperand(0), env, st);
  return Val::top();
}

// ---- liveness
const std::map<const BasicBlock *, std::set<const Value *>> &Interp::live(const Function &F)
{
  auto it = liveIn.find(&F);
  if (it != liveIn.end())
    return it->second;
  auto &L = liveIn[&F];
  bool ch = true;
  auto isVar = [](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
  for (auto &B : F)
    L[&B];
  while (ch)
  {
    ch = false;
    for (auto bi = F.end(); bi != F.begin();)
    {
      --bi;
      const BasicBlock &B = *bi;
      std::set<const Value *> s;
      for (auto *S : successors(&B))
      {
        for (auto *v : L[S])
          s.insert(v);
        for (auto &ph : S->phis())
        {
          s.erase(&ph);
        }
        for (auto &ph : S->phis())
        {
          const Value *in = ph.getIncomingValueForBlock(&B);
          if (isVar(in))
            s.insert(in);
        }
      }
      for (auto ii = B.rbegin(); ii != B.rend(); ++ii)
      {
        s.erase(&*ii);
        if (isa<PHINode>(&*ii) || isa<DbgInfoIntrinsic>(&*ii))
          continue;
        for (auto &op : ii->operands())
          if (isVar(op.get()))
            s.insert(op.get());
      }
      if (s != L[&B])
      {
        L[&B] = s;
        ch = true;
      }
    }
  }
  return L;
}
static void depsOf(const Val &v, std::set<int> &d)
{
  if (v.dep >= 0)
    d.insert(v.dep);
  for (auto &e : v.e)
    depsOf(e, d);
}
void Interp::gc(BS &)
{
}
Val Interp::joinVal(const State &sa, const Val &a, const State &sb, const Val &b, bool wide)
{
  if (a.k == Val::Top || b.k == Val::Top)
    return Val::top();
  if (a.k != b.k)
  {
    return Val::top();
  }
  if (a.k == Val::Ptr)
  {
    if (a == b)
      return a;
    Val x = a, y = b;
    plain(sa, x);
    plain(sb, y);
    for (auto &t : y.p)
      x.p.push_back(t);
    std::sort(x.p.begin(), x.p.end());
    x.p.erase(std::unique(x.p.begin(), x.p.end()), x.p.end());
    if (x.p.size() > 6)
      return Val::top();
    return x;
  }
  if (a.k == Val::Agg || a.k == Val::Bytes)
  {
    if (a.e.size() != b.e.size())
      return Val::top();
    Val r;
    r.k = a.k;
    for (size_t i = 0; i < a.e.size(); i++)
      r.e.push_back(joinVal(sa, a.e[i], sb, b.e[i], wide));
    return r;
  }
  if (a.dep >= 0 && a.dep == b.dep)
  {
    // consistent tables?
    auto ia = sa.vars.find(a.dep), ib = sb.vars.find(b.dep);
    if (ia != sa.vars.end() && ib != sb.vars.end())
    {
      std::map<u64, u64> m;
      bool ok = true;
      for (auto &x : a.t)
        if (std::binary_search(ia->second.begin(), ia->second.end(), x.first))
          m[x.first] = x.second;
      for (auto &x : b.t)
        if (std::binary_search(ib->second.begin(), ib->second.end(), x.first))
        {
          auto j = m.find(x.first);
          if (j != m.end() && j->second != x.second)
          {
            ok = false;
            break;
          }
          m[x.first] = x.second;
        }
      if (ok)
      {
        Val r;
        r.k = Val::Ints;
        r.dep = a.dep;
        r.t.w().assign(m.begin(), m.end());
        return r;
      }
    }
  }
  bool o1, o2;
  auto x = values(sa, a, o1), y = values(sb, b, o2);
  x.insert(x.end(), y.begin(), y.end());
  Val r = Val::set(x);
  bool small = r.s.empty() || r.s.back() <= 255;
  if (r.s.size() > (small ? 256u : intCap))
    return Val::top();
  if (wide && !small && r.s.size() > 4)
    return Val::top();
  return r;
}
Interp::BS Interp::join(const BS &a, const BS &b, const BasicBlock *, int)
{
  BS r;
  r.st.ts = a.st.ts;
  r.st.tr = a.st.tr;
  for (auto &x : a.st.vars)
    r.st.vars[x.first] = x.second;
  for (auto &x : b.st.vars)
  {
    auto &d = r.st.vars[x.first];
    std::vector<u64> m;
    std::set_union(d.begin(), d.end(), x.second.begin(), x.second.end(), std::back_inserter(m));
    d = m;
  }
  for (auto &x : a.env)
  {
    auto it = b.env.find(x.first);
    if (it == b.env.end())
      continue;
    Val v = joinVal(a.st, x.second, b.st, it->second, true);
    if (v.k != Val::Top)
      r.env[x.first] = v;
  }
  for (auto &x : a.st.mem)
  {
    auto it = b.st.mem.find(x.first);
    if (it == b.st.mem.end() || it->second.size != x.second.size)
    {
      r.st.mem[x.first] = Cell{x.second.size, Val::top()};
      continue;
    }
    r.st.mem[x.first] = Cell{x.second.size, joinVal(a.st, x.second.v, b.st, it->second.v, true)};
  }
  for (auto &x : b.st.mem)
    if (!r.st.mem.count(x.first))
      r.st.mem[x.first] = Cell{x.second.size, Val::top()};
  return r;
}
bool Interp::subsumes(const BS &a, const BS &b) const
{
  if (a.st.ts != b.st.ts)
    return false;
  std::function<bool(const Val &, const Val &)> cov = [&](const Val &x, const Val &y) -> bool {
    if (x.k == Val::Top)
      return true;
    if (x.k != y.k)
      return false;
    if (x.k == Val::Ints)
    {
      if (x.dep >= 0)
      {
        if (y.dep != x.dep)
          return false;
        auto ia = a.st.vars.find(x.dep), ib = b.st.vars.find(x.dep);
        if (ia == a.st.vars.end() || ib == b.st.vars.end())
          return false;
        if (!std::includes(ia->second.begin(), ia->second.end(), ib->second.begin(), ib->second.end()))
          return false;
        size_t j = 0;
        for (auto &p : y.t)
        {
          if (!std::binary_search(ib->second.begin(), ib->second.end(), p.first))
            continue;
          while (j < x.t.size() && x.t[j].first < p.first)
            j++;
          if (j >= x.t.size() || x.t[j] != p)
            return false;
        }
        return true;
      }
      bool ok;
      auto vy = values(b.st, y, ok);
      return ok && std::includes(x.s.begin(), x.s.end(), vy.begin(), vy.end());
    }
    if (x.k == Val::Ptr)
    {
      if (x == y)
        return x.dep < 0 || true;
      if (x.dep >= 0 || y.dep >= 0)
        return false;
      return std::includes(x.p.begin(), x.p.end(), y.p.begin(), y.p.end());
    }
    if (x.e.size() != y.e.size())
      return false;
    for (size_t i = 0; i < x.e.size(); i++)
      if (!cov(x.e[i], y.e[i]))
        return false;
    return true;
  };
  // variables shared by several values: relation must be at least as wide
  for (auto &x : b.st.vars)
  {
    auto it = a.st.vars.find(x.first);
    if (it != a.st.vars.end() && !std::includes(it->second.begin(), it->second.end(), x.second.begin(), x.second.end()))
      return false;
  }
  for (auto &x : a.env)
  {
    auto it = b.env.find(x.first);
    if (it == b.env.end())
    {
      if (x.second.k != Val::Top)
        return false;
      continue;
    }
    if (!cov(x.second, it->second))
      return false;
  }
  for (auto &x : a.st.mem)
  {
    auto it = b.st.mem.find(x.first);
    if (it == b.st.mem.end() || it->second.size != x.second.size)
    {
      if (x.second.v.k != Val::Top)
        return false;
      continue;
    }
    if (!cov(x.second.v, it->second.v))
      return false;
  }
  return true;
}
void Interp::renameCalleeVars(State &st, Val &ret, Env &env, const CallBase &CB, int ctx, int cctx)
{
  // every variable that does not belong to this frame or to one of its callers belongs to the callee
  std::map<int, int> ren;
  u64 ord = 100;
  std::function<void(Val &)> fix = [&](Val &v) {
    if (v.dep >= 0 && varCtx[v.dep] == cctx)
    {
      auto it = ren.find(v.dep);
      int nid;
      if (it == ren.end())
      {
        nid = varId(&CB, ctx, ord++);
        ren[v.dep] = nid;
      }
      else
        nid = it->second;
      v.dep = nid;
    }
    if (!v.e.empty())
      for (auto &e : v.e.w())
      fix(e);
  };
  // decouple previous users of the new ids first
  std::set<int> callee;
  auto collect = [&](const Val &v) {
    std::set<int> d;
    depsOf(v, d);
    for (int x : d)
      if (varCtx[x] == cctx)
        callee.insert(x);
  };
  collect(ret);
  for (auto &x : st.mem)
    collect(x.second.v);
  if (!callee.empty())
  {
    for (u64 o = 100; o < 100 + callee.size(); o++)
    {
      int nid = varId(&CB, ctx, o);
      if (!st.vars.count(nid))
        continue;
      std::function<void(Val &)> dec = [&](Val &v) {
        if (v.dep == nid)
          plain(st, v);
        if (!v.e.empty())
          for (auto &e : v.e.w())
          dec(e);
      };
      for (auto &x : env)
        dec(x.second);
      for (auto &x : st.mem.w())
        dec(x.second.v);
      st.vars.erase(nid);
    }
    fix(ret);
    for (auto &x : st.mem.w())
      fix(x.second.v);
    for (auto &r : ren)
      st.vars[r.second] = st.vars[r.first];
  }
  st.vars.drop_if([&](const auto &x) { return varCtx[x.first] == cctx; });
}

void Interp::execCall(const CallBase &CB, Env &env, State &st, int ctx, int depth, std::vector<Exit> &out)
{
  const Function *F = CB.getCalledFunction();
  if (!F)
    F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  std::vector<Val> args;
  for (auto &a : CB.args())
    args.push_back(eval(a.get(), env, st));
  if (!F)
  {
    Val cv = eval(CB.getCalledOperand(), env, st);
    if (cv.k == Val::Ptr && cv.p.size() == 1 && cv.p[0].second == 0)
      F = dyn_cast_or_null<Function>(objs[cv.p[0].first].v);
  }
  if (auto *II = dyn_cast<IntrinsicInst>(&CB))
  {
    std::vector<Exit> ex;
    if (pol.onCall(*this, CB, F, args, st, ctx, ex))
    {
      out = ex;
      return;
    }
    Val r;
    unsigned bits = CB.getType()->getScalarType()->isIntegerTy() ? CB.getType()->getScalarType()->getIntegerBitWidth() : 64;
    auto b2 = [&](std::function<u64(u64, u64)> f) {
      r = binop(st, args[0], args[1], [&](u64 x, u64 y, u64 &o) {
        o = f(x, y) & mask(bits);
        return true;
      });
    };
    switch (II->getIntrinsicID())
    {
    case Intrinsic::memcpy:
    case Intrinsic::memmove: {
      u64 n;
      copyMem(st, args[0], args[1], isConst(st, args[2], n) ? (int64_t)n : -1);
      break;
    }
    case Intrinsic::memset: {
      u64 n, b;
      if (args[0].k == Val::Ptr)
      {
        bool kn = isConst(st, args[2], n);
        for (auto &t : args[0].p)
          havocRange(st, t.first, t.second, kn ? (int64_t)n : (1 << 30));
        if (kn && n <= 256 && isConst(st, args[1], b) && args[0].p.size() == 1 && args[0].p[0].second != UNKOFF)
          for (u64 i = 0; i < n; i++)
            st.mem[{args[0].p[0].first, args[0].p[0].second + (int64_t)i}] = Cell{1, Val::cst(b)};
      }
      break;
    }
    case Intrinsic::expect:
      r = args[0];
      break;
    case Intrinsic::umin:
      b2([](u64 x, u64 y) { return std::min(x, y); });
      break;
    case Intrinsic::umax:
      b2([](u64 x, u64 y) { return std::max(x, y); });
      break;
    case Intrinsic::usub_sat:
      b2([](u64 x, u64 y) { return x > y ? x - y : 0; });
      break;
    case Intrinsic::cttz:
      if (args[0].k == Val::Bits)
      {
        State rest = st;
        bool open = true;
        for (u64 i = 0; i < args[0].e.size() && open; i++)
        {
          State d = rest;
          if (refine(d, args[0].e[i], true))
            out.push_back({Val::cst(i), d});
          open = refine(rest, args[0].e[i], false);
        }
        if (open)
          out.push_back({Val::cst(bits), rest});
        return;
      }
      r = unop(st, args[0], [&](u64 x, u64 &o) {
        if (!x)
        {
          o = bits;
          return true;
        }
        o = (u64)__builtin_ctzll(x);
        return true;
      });
      break;
    case Intrinsic::ctlz:
      r = unop(st, args[0], [&](u64 x, u64 &o) {
        o = x ? (u64)__builtin_clzll(x) - (64 - bits) : bits;
        return true;
      });
      break;
    case Intrinsic::ctpop:
      r = unop(st, args[0], [&](u64 x, u64 &o) {
        o = (u64)__builtin_popcountll(x);
        return true;
      });
      break;
    case Intrinsic::x86_sse2_pmovmskb_128:
    case Intrinsic::x86_avx2_pmovmskb:
      if (args[0].k == Val::Agg)
      {
        std::vector<Val> bv;
        bool ok = true;
        for (auto &e : args[0].e)
        {
          bv.push_back(unop(st, e, [](u64 x, u64 &o) {
            o = (x >> 7) & 1;
            return true;
          }));
          ok &= bv.back().k == Val::Ints;
        }
        if (ok)
        {
          std::vector<State> fs;
          forkBits(st, bv, fs);
          for (auto &f : fs)
            out.push_back({packBits(bv, [&](const Val &v, u64 &c) { return isConst(f, v, c); }), f});
          return;
        }
      }
      break;
    case Intrinsic::x86_sse42_pcmpistri128:
    case Intrinsic::x86_sse42_pcmpestri128: {
      // index of the first byte (not) in a set
      bool ex = II->getIntrinsicID() == Intrinsic::x86_sse42_pcmpestri128;
      const Val &set = args[0], &txt = args[ex ? 2 : 1];
      u64 imm, la = 16, lb = 16;
      if (!isConst(st, args[ex ? 4 : 2], imm) || (imm & 0x4d) || set.k != Val::Agg || txt.k != Val::Agg)
        break;
      if (ex && (!isConst(st, args[1], la) || !isConst(st, args[3], lb)))
        break;
      auto absv = [](u64 x) {
        int64_t v = (int32_t)x;
        return u64(std::min<int64_t>(16, v < 0 ? -v : v));
      };
      la = absv(la);
      lb = absv(lb);
      std::vector<u64> in;
      bool ok = true;
      for (u64 i = 0; i < la && ok; i++)
      {
        u64 c;
        if (!isConst(st, set.e[i], c))
          ok = false;
        else if (!ex && (c & 0xff) == 0)
          break;
        else
          in.push_back(c & 0xff);
      }
      std::vector<Val> hit;
      for (u64 i = 0; i < 16 && ok; i++)
      {
        if (!ex && mayBe(st, txt.e[i], 0))
          ok = false; // text ends at a NUL: not modelled
        bool valid = i < lb;
        Val h = unop(st, txt.e[i], [&](u64 x, u64 &o) {
          o = valid && std::find(in.begin(), in.end(), x & 0xff) != in.end();
          if ((imm & 0x30) == 0x10 || ((imm & 0x30) == 0x30 && valid))
            o = !o;
          return true;
        });
        if (h.k != Val::Ints)
          ok = false;
        hit.push_back(h);
      }
      if (!ok)
        break;
      State rest = st;
      bool open = true;
      for (u64 i = 0; i < 16 && open; i++)
      {
        State d = rest;
        if (refine(d, hit[i], true))
          out.push_back({Val::cst(i), d});
        open = refine(rest, hit[i], false);
      }
      if (open)
        out.push_back({Val::cst(16), rest});
      return;
    }
    default:
      break;
    }
    out.push_back({r, st});
    return;
  }
  if (pol.onCall(*this, CB, F, args, st, ctx, out))
    return;
  if (F && !F->isDeclaration() && depth < (int)maxDepth && pol.shouldInline(*this, *F))
  {
    int cc = subCtx(ctx, &CB);
    bool rec = false;
    for (auto &x : active)
      if (x.first == F && !strict)
        rec = true;
    if (!rec)
    {
      std::vector<Val> fa = args;
      fa.resize(F->arg_size());
      // sret / byval handled as ordinary pointers
      callStack.push_back(&CB);
      auto ex = run(*F, fa, st, cc, depth + 1);
      callStack.pop_back();
      for (auto &e : ex)
        out.push_back(e);
      return;
    }
  }
  // strlen of constant text
  if (F && F->getName() == "strlen" && args.size() == 1 && args[0].k == Val::Ptr && args[0].dep < 0 &&
      args[0].p.size() == 1 && args[0].p[0].second != UNKOFF && objs[args[0].p[0].first].kind == ObjInfo::Global)
  {
    auto *G = dyn_cast_or_null<GlobalVariable>(objs[args[0].p[0].first].v);
    if (G && G->isConstant() && G->hasInitializer())
      for (u64 n = 0; n < 4096; n++)
      {
        Val b;
        u64 c;
        if (!constBytes(G, args[0].p[0].second + (int64_t)n, IntegerType::get(P.M.getContext(), 8), b) ||
            !isConst(st, b, c))
          break;
        if (c == 0)
        {
          out.push_back({Val::cst(n), st});
          return;
        }
      }
  }
  if (strict)
    throw BrokenAnalysis("calls something the analysis does not follow: " + (F ? P.name(F) : std::string("unknown function")) + " at " +
                         P.where(CB));
  // unknown callee: forget everything it may write
  if (F)
    havocked.insert(P.name(F));
  bool ro = CB.onlyReadsMemory() || (F && F->onlyReadsMemory());
  if (!ro)
    for (unsigned i = 0; i < args.size(); i++)
    {
      if (args[i].k != Val::Ptr)
        continue;
      if (CB.onlyReadsMemory(i) || CB.doesNotAccessMemory(i))
        continue;
      u64 n = CB.getParamDereferenceableBytes(i);
      if (F && i < F->arg_size())
        n = std::max(n, F->getParamDereferenceableBytes(i));
      for (auto &t : args[i].p)
      {
        if (objs[t.first].kind == ObjInfo::Global)
          continue;
        havocRange(st, t.first, t.second, n ? (int64_t)n : (1 << 30));
      }
    }
  Val r;
  if (CB.getType()->isIntegerTy(8) || CB.getType()->isIntegerTy(1))
  {
    std::vector<u64> d;
    for (u64 i = 0; i < (CB.getType()->isIntegerTy(1) ? 2u : 256u); i++)
      d.push_back(i);
    r = mkVar(st, &env, varId(&CB, ctx, 9), d);
  }
  out.push_back({r, st});
}

std::vector<Exit> Interp::run(const Function &F, std::vector<Val> args, State st0, int ctx, int depth)
{
  analysed.insert(&F);
  active.insert({&F, ctx});
  std::vector<Exit> exits;
  auto &L = live(F);
  struct Item
  {
    BS bs;
    const BasicBlock *bb;
  };
  std::map<const BasicBlock *, std::vector<BS>> seen;
  std::map<int, std::deque<Item>> wl; // earliest block in reverse post order first
  BS init;
  init.st = std::move(st0);
  for (unsigned i = 0; i < F.arg_size() && i < args.size(); i++)
    init.env[F.getArg(i)] = args[i];
  // forget stale locals of this frame
  for (auto &I : instructions(F))
    if (auto *A = dyn_cast<AllocaInst>(&I))
    {
      int o = obj(ObjInfo::Alloca, "", A, ctx);
      havocRange(init.st, o, UNKOFF, 0);
    }
  // order blocks by reverse post order for a sensible worklist
  auto &rpo = rpoOf[&F];
  if (rpo.empty())
  {
    int n = 0;
    std::vector<const BasicBlock *> post;
    std::set<const BasicBlock *> vis;
    std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
      if (!vis.insert(b).second)
        return;
      for (auto *s : successors(b))
        dfs(s);
      post.push_back(b);
    };
    dfs(&F.getEntryBlock());
    for (auto i = post.rbegin(); i != post.rend(); ++i)
      rpo[*i] = n++;
  }
  auto arrive = [&](BS bs, const BasicBlock *from, const BasicBlock *to) {
    // phis evaluated in parallel
    Env ph;
    if (from)
      for (auto &p : to->phis())
        ph[&p] = eval(p.getIncomingValueForBlock(from), bs.env, bs.st);
    auto &li = L.at(to);
    Env ne;
    for (auto &x : bs.env)
      if (li.count(x.first) && !isa<PHINode>(x.first))
        ne[x.first] = x.second;
      else if (li.count(x.first) && isa<PHINode>(x.first) && cast<PHINode>(x.first)->getParent() != to)
        ne[x.first] = x.second;
    for (auto &x : ph)
    {
      Val v = x.second;
      ne[x.first] = v;
    }
    bs.env = std::move(ne);
    // collect unused variables of this frame
    bool own = false;
    for (auto &x : bs.st.vars)
      own |= varCtx[x.first] == ctx;
    if (own)
    {
      std::set<int> used;
      for (auto &x : bs.env)
        depsOf(x.second, used);
      for (auto &x : bs.st.mem)
        depsOf(x.second.v, used);
      bs.st.vars.drop_if([&](const auto &x) { return !used.count(x.first) && varCtx[x.first] == ctx; });
    }
    // singletons become constants
    auto &sv = seen[to];
    for (auto &o : sv)
      if (subsumes(o, bs))
        return;
    if (sv.size() >= cap)
    {
      std::string key = pol.partitionKey(*this, bs.st);
      for (auto &o : sv)
        if (o.st.ts == bs.st.ts && pol.partitionKey(*this, o.st) == key)
        {
          BS j = join(o, bs, to, ctx);
          // multi-valued plain phis become variables so that branches can refine them
          for (auto &x : j.env)
            if (x.second.k == Val::Ints && x.second.dep < 0 && x.second.s.size() > 1)
              x.second = mkVar(j.st, &j.env, varId(x.first, ctx, 55), x.second.s);
          if (subsumes(o, j))
            return;
          o = j;
          // drop states now covered
          wl[rpo[to]].push_back({j, to});
          return;
        }
    }
    // large states that follow one path: remember the latest only
    if (strict && sv.size() > 16 + 400000 / (bs.st.mem.size() + 1))
      sv.erase(sv.begin(), sv.begin() + (long)sv.size() / 2);
    sv.push_back(bs);
    wl[rpo[to]].push_back({std::move(bs), to});
  };
  arrive(init, nullptr, &F.getEntryBlock());
  while (!wl.empty())
  {
    // pick the earliest block in RPO
    auto first = wl.begin();
    Item it = std::move(first->second.front());
    first->second.pop_front();
    if (first->second.empty())
      wl.erase(first);
    if (tick && steps % 256 == 0)
      tick();
    if (++steps > maxSteps)
    {
      exhausted = true;
      break;
    }
    // run the block; calls may fork
    struct Cont
    {
      BS bs;
      BasicBlock::const_iterator i;
    };
    std::vector<Cont> cs;
    cs.push_back({std::move(it.bs), it.bb->getFirstNonPHI()->getIterator()});
    while (!cs.empty())
    {
      Cont c = std::move(cs.back());
      cs.pop_back();
      bool alive = true;
      while (alive)
      {
        const Instruction &I = *c.i;
        cur = &I;
        ++c.i;
        if (auto *CB = dyn_cast<CallBase>(&I))
        {
          if (isa<DbgInfoIntrinsic>(CB) || CB->getIntrinsicID() == Intrinsic::lifetime_start ||
              CB->getIntrinsicID() == Intrinsic::lifetime_end)
            continue;
          std::vector<Exit> ex;
          execCall(*CB, c.bs.env, c.bs.st, ctx, depth, ex);
          cur = &I;
          int cc = subCtx(ctx, CB);
          for (size_t q = 0; q < ex.size(); q++)
          {
            if (!feasible(ex[q].st))
              continue;
            Cont n;
            n.bs.env = c.bs.env;
            n.bs.st = std::move(ex[q].st);
            Val r = ex[q].ret;
            renameCalleeVars(n.bs.st, r, n.bs.env, *CB, ctx, cc);
            if (!CB->getType()->isVoidTy())
              n.bs.env[CB] = r;
            n.i = c.i;
            cs.push_back(std::move(n));
          }
          alive = false;
          continue;
        }
        if (strict && (isa<ICmpInst>(I) || I.getOpcode() == Instruction::Add || I.getOpcode() == Instruction::Sub ||
                       I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::Xor ||
                       I.getOpcode() == Instruction::Mul || I.isShift() || I.isIntDivRem()) &&
            I.getOperand(0)->getType()->isIntegerTy())
        {
          Val a = eval(I.getOperand(0), c.bs.env, c.bs.st), b = eval(I.getOperand(1), c.bs.env, c.bs.st);
          u64 k;
          if (splitVars && a.k == Val::Ints && b.k == Val::Ints && a.dep >= 0 && b.dep >= 0 && a.dep != b.dep &&
              !isConst(c.bs.st, a, k) && !isConst(c.bs.st, b, k))
          {
            std::map<u64, Val> cases;
            for (auto &x : b.t)
              if (!cases.count(x.second))
              {
                Val e;
                e.k = Val::Ints;
                e.dep = b.dep;
                for (auto &y : b.t)
                  e.t.push_back({y.first, y.second == x.second});
                cases.emplace(x.second, e);
              }
            for (auto &w : cases)
            {
              Cont n;
              n.bs = c.bs;
              n.i = I.getIterator();
              if (refine(n.bs.st, w.second, true))
                cs.push_back(std::move(n));
            }
            alive = false;
            continue;
          }
          if (I.getOpcode() == Instruction::Mul || I.isShift() || I.isIntDivRem())
          {
            bool two = a.k == Val::Ints && b.k == Val::Ints && a.dep != b.dep && !isConst(c.bs.st, a, k) && !isConst(c.bs.st, b, k);
            if (!two && a.k != Val::Bits && b.k != Val::Bits && a.k != Val::Bytes && b.k != Val::Bytes)
              ;
            else
            {
              unsigned bits = I.getType()->getIntegerBitWidth(), op = I.getOpcode();
              std::vector<Val> x, y;
              u64 p;
              if (bits > 64 || !toBits(c.bs.st, a, bits, x) || !toBits(c.bs.st, b, bits, y))
              {
                c.bs.env[&I] = Val::top();
                continue;
              }
              u64 ka = 0, kb = 0;
              Val ux = Val::top(), uy = Val::top();
              bool badx = false, bady = false;
              for (unsigned i = 0; i < bits; i++)
              {
                if (isConst(c.bs.st, x[i], p))
                  ka |= (p & 1) << i;
                else if (x[i].k == Val::Ints)
                  ux = x[i];
                else
                  badx = true;
                if (isConst(c.bs.st, y[i], p))
                  kb |= (p & 1) << i;
                else if (y[i].k == Val::Ints)
                  uy = y[i];
                else
                  bady = true;
              }
              bool cx = ux.isTop() && !badx, cy = uy.isTop() && !bady;
              auto pow2 = [](u64 v) { return v && !(v & (v - 1)); };
              auto log2 = [](u64 v) {
                u64 n = 0;
                while (v >>= 1)
                  n++;
                return n;
              };
              u64 top;
              bool plus = isConst(c.bs.st, x[bits - 1], top) && !(top & 1);
              if (op == Instruction::Mul && cx && pow2(ka))
              {
                c.bs.env[&I] = oneVar(arith(Instruction::Shl, b, Val::cst(log2(ka)), bits, c.bs.st));
                continue;
              }
              if (cy && (I.isShift() || (op == Instruction::Mul && pow2(kb)) || ((op == Instruction::UDiv || op == Instruction::URem) && pow2(kb)) ||
                         ((op == Instruction::SDiv || op == Instruction::SRem) && plus && pow2(kb) && log2(kb) + 1 < bits)))
              {
                bool div = op == Instruction::UDiv || op == Instruction::SDiv, rem = op == Instruction::URem || op == Instruction::SRem;
                unsigned o2 = op == Instruction::Mul ? unsigned(Instruction::Shl) : div ? unsigned(Instruction::LShr) : rem ? unsigned(Instruction::And) : op;
                c.bs.env[&I] = oneVar(arith(o2, a, Val::cst(rem ? kb - 1 : I.isShift() ? kb : log2(kb)), bits, c.bs.st));
                continue;
              }
              if (cx && cy)
              {
                c.bs.env[&I] = arith(op, Val::cst(ka), Val::cst(kb), bits, c.bs.st);
                continue;
              }
              Val bit = ux.isTop() ? uy : ux;
              if (bit.isTop())
              {
                c.bs.env[&I] = Val::top();
                continue;
              }
              for (int w = 0; w < 2; w++)
              {
                Cont n;
                n.bs = c.bs;
                n.i = I.getIterator();
                if (refine(n.bs.st, bit, w))
                  cs.push_back(std::move(n));
              }
              alive = false;
              continue;
            }
          }
          else
          {
          bool two = a.k == Val::Ints && b.k == Val::Ints && a.dep != b.dep && !isConst(c.bs.st, a, k) && !isConst(c.bs.st, b, k);
          if (two || a.k == Val::Bits || b.k == Val::Bits || ((a.k == Val::Bytes || b.k == Val::Bytes) && isa<ICmpInst>(I)))
          {
            auto *IC = dyn_cast<ICmpInst>(&I);
            Val bit, res;
            bool bitwise = I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::Xor;
            if (!splitOn(I.getOpcode(), IC ? IC->getPredicate() : CmpInst::ICMP_EQ, a, b,
                         I.getOperand(0)->getType()->getIntegerBitWidth(), c.bs.st, bit, res))
            {
              c.bs.env[&I] = Val::top();
              continue;
            }
            if (bit.isTop() && bitwise)
              c.bs.env[&I] = arith(I.getOpcode(), a, b, I.getType()->getIntegerBitWidth(), c.bs.st);
            else if (bit.isTop())
              c.bs.env[&I] = oneVar(res);
            if (bit.isTop())
              continue;
            for (int w = 0; w < 2; w++)
            {
              Cont n;
              n.bs = c.bs;
              n.i = I.getIterator();
              if (refine(n.bs.st, bit, w))
                cs.push_back(std::move(n));
            }
            alive = false;
            continue;
          }
          }
        }
        if (auto *IC = dyn_cast<ICmpInst>(&I))
          if (precise && IC->isEquality())
          {
            // values composed of several undetermined bytes: one case per first difference
            Val a = eval(IC->getOperand(0), c.bs.env, c.bs.st), b = eval(IC->getOperand(1), c.bs.env, c.bs.st);
            if ((a.k == Val::Bytes || b.k == Val::Bytes) && IC->getOperand(0)->getType()->isIntegerTy())
            {
              unsigned n = IC->getOperand(0)->getType()->getIntegerBitWidth() / 8;
              BS cur2 = c.bs;
              bool open = true;
              std::vector<Cont> forks;
              for (unsigned j = 0; j < n && open; j++)
              {
                auto byteOf = [&](const Val &v) -> Val {
                  u64 k;
                  if (v.k == Val::Bytes && j < v.e.size())
                    return v.e[j];
                  if (v.k == Val::Ints && isConst(cur2.st, v, k))
                    return Val::cst((k >> (8 * j)) & 0xff);
                  return Val::top();
                };
                Val e = binop(cur2.st, byteOf(a), byteOf(b), [&](u64 p, u64 q, u64 &o) {
                  o = (p & 0xff) == (q & 0xff);
                  return true;
                });
                if (e.k != Val::Ints)
                  e = Val::set({0, 1});
                BS d = cur2;
                if (refine(d.st, e, false))
                {
                  d.env[&I] = Val::cst(IC->getPredicate() == CmpInst::ICMP_NE);
                  forks.push_back({std::move(d), c.i});
                }
                open = refine(cur2.st, e, true);
              }
              if (open)
              {
                cur2.env[&I] = Val::cst(IC->getPredicate() == CmpInst::ICMP_EQ);
                forks.push_back({std::move(cur2), c.i});
              }
              for (auto &f : forks)
                cs.push_back(std::move(f));
              alive = false;
              continue;
            }
          }
        if (auto *A = dyn_cast<AllocaInst>(&I))
        {
          c.bs.env[A] = Val::ptr(obj(ObjInfo::Alloca, "", A, ctx), 0);
          continue;
        }
        if (auto *S = dyn_cast<StoreInst>(&I))
        {
          Val p = eval(S->getPointerOperand(), c.bs.env, c.bs.st), v = eval(S->getValueOperand(), c.bs.env, c.bs.st);
          pol.onStore(*this, *S, p, v, c.bs.st);
          Type *vt = S->getValueOperand()->getType();
          std::vector<Val> by;
          if (precise && vt->isVectorTy() && p.k == Val::Ptr && p.p.size() == 1 && p.dep < 0 && p.p[0].second != UNKOFF &&
              flatten(c.bs.st, v, vt, by))
          {
            store(c.bs.st, p, Val::top(), storeSize(DL, vt));
            c.bs.st.mem.erase(p.p[0]);
            for (size_t q = 0; q < by.size(); q++)
              c.bs.st.mem[{p.p[0].first, p.p[0].second + (int64_t)q}] = Cell{1, by[q]};
            continue;
          }
          store(c.bs.st, p, v, storeSize(DL, vt));
          continue;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I))
        {
          Val v = R->getReturnValue() ? eval(R->getReturnValue(), c.bs.env, c.bs.st) : Val::top();
          pol.onReturn(*this, F, I, v, c.bs.st, depth);
          // locals die
          if (depth > 0)
            c.bs.st.mem.drop_if([&](const auto &x) {
              return objs[x.first.first].kind == ObjInfo::Alloca && objs[x.first.first].ctx == ctx;
            });
          bool dup = false;
          for (auto &e : exits)
            if (e.ret == v && e.st.eq(c.bs.st))
              dup = true;
          if (!dup)
          {
            // bound the number of exits: join those with equal typestate and return value
            bool joined = false;
            if (exits.size() >= cap)
              for (auto &e : exits)
                if (e.st.ts == c.bs.st.ts && e.ret == v &&
                    pol.partitionKey(*this, e.st) == pol.partitionKey(*this, c.bs.st))
                {
                  BS x, y;
                  x.st = e.st;
                  y.st = c.bs.st;
                  e.st = join(x, y, nullptr, ctx).st;
                  joined = true;
                  break;
                }
            if (!joined)
              exits.push_back({v, c.bs.st});
          }
          alive = false;
          continue;
        }
        if (auto *B = dyn_cast<BranchInst>(&I))
        {
          if (B->isUnconditional())
            arrive(c.bs, it.bb, B->getSuccessor(0));
          else
          {
            Val cv = eval(B->getCondition(), c.bs.env, c.bs.st);
            if (strict && (cv.k != Val::Ints || (cv.dep < 0 && cv.s.size() != 1)))
            {
              std::string ops;
              if (auto *IC = dyn_cast<ICmpInst>(B->getCondition()))
                ops = " (" + valStr(c.bs.st, eval(IC->getOperand(0), c.bs.env, c.bs.st)) + ", " +
                      valStr(c.bs.st, eval(IC->getOperand(1), c.bs.env, c.bs.st)) + ")";
              throw BrokenAnalysis("branches on something the analysis does not know at " + P.where(I) + ops);
            }
            BS t = c.bs, f = c.bs;
            if (refine(t.st, cv, true))
              arrive(t, it.bb, B->getSuccessor(0));
            if (refine(f.st, cv, false))
              arrive(f, it.bb, B->getSuccessor(1));
          }
          alive = false;
          continue;
        }
        if (auto *S = dyn_cast<SwitchInst>(&I))
        {
          Val cv = eval(S->getCondition(), c.bs.env, c.bs.st);
          std::vector<u64> cases;
          for (auto &k : S->cases())
          {
            u64 kv = k.getCaseValue()->getZExtValue();
            cases.push_back(kv);
            Val q = cv.k == Val::Ints ? unop(c.bs.st, cv,
                                             [&](u64 x, u64 &o) {
                                               o = x == kv;
                                               return true;
                                             })
                                      : Val::set({0, 1});
            BS t = c.bs;
            if (refine(t.st, q, true))
              arrive(t, it.bb, k.getCaseSuccessor());
          }
          Val q = cv.k == Val::Ints ? unop(c.bs.st, cv,
                                           [&](u64 x, u64 &o) {
                                             o = std::find(cases.begin(), cases.end(), x) == cases.end();
                                             return true;
                                           })
                                    : Val::set({0, 1});
          BS t = c.bs;
          if (refine(t.st, q, true))
            arrive(t, it.bb, S->getDefaultDest());
          alive = false;
          continue;
        }
        if (I.isTerminator())
        {
          alive = false; // unreachable
          continue;
        }
        Val v = evalInst(I, c.bs.env, c.bs.st, ctx);
        if (v.k == Val::Top)
          c.bs.env.erase(&I);
        else
          c.bs.env[&I] = v;
          // vectors are built element by element: forget the intermediate ones
          if (I.getType()->isVectorTy())
            for (auto &op : I.operands())
              if (auto *OI = dyn_cast<Instruction>(op.get()))
                if (OI->getParent() == I.getParent() && OI->getType()->isVectorTy() && OI->hasOneUse())
                  c.bs.env.erase(OI);
      }
    }
    if (exhausted)
      break;
  }
  active.erase({&F, ctx});
  return exits;
}
std::string Interp::valStr(const State &st, const Val &v) const
{
  if (v.k == Val::Top)
    return "?";
  if (v.k == Val::Ptr)
  {
    std::string s = "&";
    for (auto &t : v.p)
      s += std::to_string(t.first) + "+" + (t.second == UNKOFF ? "?" : std::to_string(t.second)) + " ";
    return s;
  }
  if (v.k == Val::Agg || v.k == Val::Bytes)
  {
    std::string s = v.k == Val::Agg ? "agg(" : "bytes(";
    for (auto &e : v.e)
      s += valStr(st, e) + " ";
    return s + ")";
  }
  bool ok;
  auto r = values(st, v, ok);
  std::string s = "{";
  for (size_t i = 0; i < r.size(); i++)
  {
    if (i > 8)
    {
      s += "..." + std::to_string(r.size());
      break;
    }
    s += (i ? "," : "") + std::to_string(r[i]);
  }
  return s + "}";
}
} // namespace jsa
