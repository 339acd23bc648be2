// Escaping of strings and keys on the way out, unescaping on the way in.
#include "text.h"
namespace jsa
{
namespace
{
typedef std::vector<std::vector<u64>> Shape;
int hexVal(int c)
{
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'f')
    return c - 'a' + 10;
  if (c >= 'A' && c <= 'F')
    return c - 'A' + 10;
  return -1;
}
bool hex4(const std::vector<int> &t, size_t i, int &v)
{
  v = 0;
  for (size_t k = 0; k < 4; k++)
  {
    if (i + k >= t.size() || hexVal(t[i + k]) < 0)
      return false;
    v = v * 16 + hexVal(t[i + k]);
  }
  return true;
}
void utf8(int cp, std::vector<int> &out)
{
  if (cp < 0x80)
    out.push_back(cp);
  else if (cp < 0x800)
  {
    out.push_back(0xc0 | (cp >> 6));
    out.push_back(0x80 | (cp & 63));
  }
  else if (cp < 0x10000)
  {
    out.push_back(0xe0 | (cp >> 12));
    out.push_back(0x80 | ((cp >> 6) & 63));
    out.push_back(0x80 | (cp & 63));
  }
  else
  {
    out.push_back(0xf0 | (cp >> 18));
    out.push_back(0x80 | ((cp >> 12) & 63));
    out.push_back(0x80 | ((cp >> 6) & 63));
    out.push_back(0x80 | (cp & 63));
  }
}
// The text between the quotes of a JSON string -> the text it stands for.  legal: nothing but what JSON allows;
// token: can stand between the quotes of a string token at all.
void decode(const std::vector<int> &t, std::vector<int> &out, bool &legal, bool &token)
{
  legal = token = true;
  out.clear();
  for (size_t i = 0; i < t.size();)
  {
    int c = t[i];
    if (c != '\\')
    {
      if (c == '"')
        legal = token = false;
      if (c < 0x20)
        legal = false;
      out.push_back(c);
      i++;
      continue;
    }
    if (i + 1 >= t.size())
    {
      legal = token = false;
      return;
    }
    int e = t[i + 1];
    static const char from[] = "bfnrt\"\\/";
    static const char to[] = "\b\f\n\r\t\"\\/";
    const char *p = e ? strchr(from, e) : nullptr;
    int v, w;
    if (p)
    {
      out.push_back(to[p - from]);
      i += 2;
    }
    else if (e == 'u' && hex4(t, i + 2, v))
    {
      i += 6;
      if (v >= 0xd800 && v < 0xdc00 && i + 1 < t.size() && t[i] == '\\' && t[i + 1] == 'u' && hex4(t, i + 2, w) && w >= 0xdc00 &&
          w < 0xe000)
      {
        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        i += 6;
      }
      utf8(v, out);
    }
    else
    {
      legal = false;
      out.push_back('\\');
      out.push_back(e);
      i += 2;
    }
  }
}

struct EscPolicy : TextPolicy
{
  bool writing = false;
  u64 nRead = 0, nWritten = 0, nCombos = 0;
  int64_t cToken;
  std::map<std::string, int64_t> &types;
  u64 eNo;
  EscPolicy(Program &P, Report &R) : TextPolicy(P, R), types(P.enums.at("JS::Type"))
  {
    cToken = P.field("JS::ParseContext", "token");
    eNo = (u64)P.enums.at("JS::Error").at("NoError");
  }
  bool special(u64 c) const override
  {
    return writing ? c < 0x20 || c == '"' || c == '\\' : c == '"' || (c && strchr("\\/bfnrtu", (int)c)) || hexVal((int)c) >= 0;
  }
  void written(Interp &I, State &s, const Val &p, const Val &n)
  {
    bool ok;
    auto bytes = textOf(I, s, p, n, ok);
    if (!ok)
      return;
    nWritten++;
    forAll(I, s, bytes, [&](const std::vector<int> &in, const std::vector<int> &o) {
      nCombos++;
      std::vector<int> d;
      bool legal, token;
      decode(o, d, legal, token);
      if (legal && d == in)
        return true;
      R.violation("wrong-encoding", entry + (legal ? " text" : " legal"), whereOf(s),
                  entry + " writes " + show(o) + " for the text " + show(in) +
                    (legal ? ", which stands for " + show(d) : ", which is not a legal JSON string"));
      return false;
    });
    R.ok();
  }
  bool event(Interp &I, const CallBase &, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
             std::vector<Exit> &out) override
  {
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "drv")
    {
      if (fn == "textData")
        return done(Val::ptr(input, 0));
      if (fn == "textSize")
        return done(Val::cst((u64)inputSize));
      if (fn == "readValue")
        return done(Val::cst(eNo));
      if (fn == "writeValue")
      {
        if (!I.mustBe(s, fieldOf(I, s, a[1], tNameType, i8()), (u64)types.at("String")))
          R.violation("wrong-encoding", entry + " kind", whereOf(s), "a key is not written as a string");
        written(I, s, fieldOf(I, s, a[1], tName + drData, ptrTy()), fieldOf(I, s, a[1], tName + drSize, i64()));
        s.ts[2]++;
        return done(Val::top());
      }
      if (fn == "read")
      {
        u64 e;
        if (!I.isConst(s, a[0], e) || e != eNo)
        {
          R.violation("wrong-decoding", entry + " fails", whereOf(s), "reading a string fails");
          return true;
        }
        bool ok;
        auto bytes = textOf(I, s, a[1], a[2], ok);
        if (!ok)
          return true;
        nRead++;
        s.ts[2]++;
        forAll(I, s, bytes, [&](const std::vector<int> &in, const std::vector<int> &o) {
          nCombos++;
          std::vector<int> d;
          bool legal, token;
          decode(in, d, legal, token);
          if (!token || d == o)
            return true;
          R.violation("wrong-decoding", entry + (legal ? " text" : " other"), whereOf(s),
                      entry + " reads " + show(in) + " as " + show(o) + " instead of " + show(d));
          return false;
        });
        R.ok();
        return done(Val::top());
      }
      return false;
    }
    if (sc == "JS::ParseContext" && fn == "nextToken")
    {
      // one member, then the end of the object
      Val c = Val::ptr(a[0].p[0].first, a[0].p[0].second + cToken);
      bool first = s.ts[1]++ == 0;
      setField(I, s, c, tValueType, Val::cst((u64)types.at(first ? "Number" : "ObjectEnd")), 1);
      setField(I, s, c, tNameType, Val::cst((u64)types.at("String")), 1);
      setField(I, s, c, tName + drData, Val::ptr(input, 0), 8);
      setField(I, s, c, tName + drSize, Val::cst(first ? (u64)inputSize : 0), 8);
      return done(Val::cst(eNo));
    }
    if (sc == "JS::Serializer" && fn == "write" && a.size() == 2)
    {
      Val vt = fieldOf(I, s, a[1], tValueType, i8());
      if (I.mustBe(s, vt, (u64)types.at("String")))
      {
        written(I, s, fieldOf(I, s, a[1], tValue + drData, ptrTy()), fieldOf(I, s, a[1], tValue + drSize, i64()));
        s.ts[2]++;
      }
      else if (entry == "stringOut")
        R.violation("wrong-encoding", entry + " kind", whereOf(s), "a string is not written as a string");
      return done(Val::cst(1));
    }
    return false;
  }
};
} // namespace

int checkText(Program &P, Report &R, const std::vector<std::string> &args)
{
  bool in = false, out = false, deep = false;
  Budget budget(R, args);
  unsigned shard = 0, nShards = 1, number = 0;
  std::vector<int> longs;
  for (auto &a : args)
  {
    in |= a == "in";
    out |= a == "out";
    deep |= a == "deep";
    if (startsWith(a, "shard="))
      sscanf(a.c_str(), "shard=%u/%u", &shard, &nShards);
    if (startsWith(a, "long="))
    {
      std::stringstream ss(a.substr(5));
      std::string w;
      while (std::getline(ss, w, ','))
        longs.push_back(atoi(w.c_str()));
    }
  }
  std::map<std::string, const Function *> fns;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (startsWith(n, "drv::") && !F.isDeclaration())
      fns[n.substr(5)] = &F;
  }
  u64 shapes = 0, steps = 0, combos = 0, reads = 0, writes = 0, allocs = 0, acc = 0;
  std::set<const Function *> followed;
  auto any = TextPolicy::any();
  auto c = [](int x) { return std::vector<u64>{u64(x)}; };
  auto lit = [&](Shape &s, const std::string &t) {
    for (char x : t)
      s.push_back(c((unsigned char)x));
  };
  auto run = [&](const std::string &entry, const Shape &sh) {
    // the longest shapes take most of the time: deal them out evenly
    if (number++ % nShards != shard)
      return;
    if (!fns.count(entry))
      throw BrokenAnalysis("driver function missing: " + entry);
    EscPolicy pol(P, R);
    pol.entry = entry;
    pol.writing = entry.find("Out") != std::string::npos;
    Interp I(P, pol);
    I.precise = I.strict = true;
    I.cap = 10000000;
    I.intCap = 64;
    I.maxSteps = ~0ull;
    I.tick = [&] { budget.check(); };
    I.maxDepth = 80;
    State s;
    s.ts = {0, 0, 0};
    pol.setInput(I, s, sh);
    std::vector<Val> as;
    static const char *names[] = {"a0", "a1", "a2"};
    for (unsigned i = 0; i < fns[entry]->arg_size(); i++)
      as.push_back(Val::ptr(I.obj(ObjInfo::Named, names[i]), 0));
    auto ex = I.run(*fns[entry], as, s, 0, 0);
    if (ex.empty())
      R.violation("no-result", entry, entry, entry + " never finishes for some text of " + std::to_string(sh.size()) + " bytes");
    for (auto &e : ex)
      if (e.st.ts[2] != 1)
        R.violation("no-result", entry + " count", entry, entry + " hands over " + std::to_string(e.st.ts[2]) + " texts instead of one");
    if (getenv("JSA_V"))
      std::cerr << entry << " " << sh.size() << " steps " << I.steps << " combos " << pol.nCombos << " exits " << ex.size() << " " << clock() / 1000
                << "\n";
    shapes++;
    steps += I.steps;
    combos += pol.nCombos;
    reads += pol.nRead;
    writes += pol.nWritten;
    allocs += pol.nAlloc;
    acc += pol.nAcc;
    for (auto *f : I.analysed)
      if (P.inJS(f))
        followed.insert(f);
  };
  std::vector<u64> hexd, notHex;
  for (u64 x = 0; x < 256; x++)
    (hexVal((int)x) >= 0 ? hexd : notHex).push_back(x);
  std::vector<u64> hi, lo;
  for (char x : std::string("89aAbB"))
    hi.push_back(u64(x));
  for (char x : std::string("cCdDeEfF"))
    lo.push_back(u64(x));
  std::sort(hi.begin(), hi.end());
  std::sort(lo.begin(), lo.end());
  std::vector<u64> dD = {'D', 'd'};
  if (in)
  {
    for (std::string e : {"stringIn", "keyIn", "stringAgain"})
    {
      std::vector<Shape> all;
      for (int n = 0; n <= (deep ? 4 : 3); n++)
        all.push_back(Shape((size_t)n, any));
      for (int pre = 0; pre < 2; pre++)
        for (int post = 0; post < 3; post++)
          for (int d = 0; d <= 4; d++)
          {
            Shape s;
            if (pre)
              lit(s, "x");
            lit(s, "\\u");
            for (int i = 0; i < d; i++)
              s.push_back(any);
            if (post == 1)
              lit(s, "z");
            if (post == 2)
              lit(s, "\\n");
            all.push_back(s);
          }
      // surrogate pairs
      for (int k = 0; k < 2; k++)
      {
        Shape s;
        lit(s, "\\u");
        s.push_back(dD);
        s.push_back(any);
        if (k == 0)
          s.push_back(hexd), s.push_back(hexd), lit(s, "\\uDC37");
        else
        {
          s.back() = c('8');
          lit(s, "3d\\u");
          for (int i = 0; i < 4; i++)
            s.push_back(any);
        }
        all.push_back(s);
        s.push_back(any);
        if (k == 0 || deep)
          all.push_back(s);
      }
      for (int n = 0; n < 7; n++) // cut or damaged in the middle
      {
        Shape s;
        lit(s, "\\uD83D");
        std::string low = "\\uDE00";
        for (int i = 0; i < 6; i++)
          if (i == n)
            s.push_back(any);
          else
            lit(s, low.substr((size_t)i, 1));
        all.push_back(s);
        s.resize(6 + (size_t)n);
        all.push_back(s);
      }
      for (int n : longs)
        for (int w = 0; w + 2 <= n; w++)
        {
          Shape s((size_t)n, c('x'));
          s[(size_t)w] = c('\\');
          s[(size_t)w + 1] = any;
          all.push_back(s);
          s[(size_t)w] = any;
          s[(size_t)w + 1] = c('n');
          all.push_back(s);
        }
      std::stable_sort(all.begin(), all.end(), [](const Shape &a, const Shape &b) {
        auto open = [](const Shape &s) { return std::count_if(s.begin(), s.end(), [](const std::vector<u64> &x) { return x.size() > 1; }); };
        return open(a) > open(b);
      });
      for (auto &s : all)
        if (e != "keyIn" || !s.empty())
          run(e, s);
    }
  }
  if (out)
  {
    for (std::string e : {"stringOut", "keyOut"})
    {
      std::vector<Shape> all;
      for (int n = 0; n <= (deep ? 3 : 2); n++)
        all.push_back(Shape((size_t)n, any));
      for (int n : longs)
        for (int fill : {int('x'), 0xc3, int('"')})
          for (int w = 0; w < n; w++)
          {
            Shape s((size_t)n, c(fill));
            s[(size_t)w] = any;
            all.push_back(s);
            if (deep && w + 1 < n)
            {
              s[(size_t)w + 1] = any;
              all.push_back(s);
            }
          }
      for (auto &s : all)
        if (e != "keyOut" || !s.empty())
          run(e, s);
    }
  }
  R.add("texts_shapes", shapes);
  R.add("interpreted_blocks", steps);
  R.add("byte_combinations_compared", combos);
  R.add("texts_read", reads);
  R.add("texts_written", writes);
  R.add("heap_objects", allocs);
  R.add("bounded_accesses", acc);
  R.add("library_functions_followed", followed.size());
  return 0;
}
} // namespace jsa
