// The bytes a serializer writes, and the buffers it writes them to.
#include "text.h"
namespace jsa
{
namespace
{
// what pick() chooses, see driver/output.cpp
enum
{
  Style,
  Shift,
  Depth,
  Skip,
  Convert,
  Kind,
  Name,
  SetStyle,
  Start,
  Again,
  Ending,
  nPicks
};
// entries of the log
enum : int
{
  L_PICK = 0x1000000, // + what << 16, value
  L_WROTE = 0x2000000,
  L_TEXT = 0x3000000, // + length, then the text
  L_BYTES = 0x4000000, // the rest are the bytes handed over in buffers
};
struct OutPolicy : TextPolicy
{
  std::map<int, std::vector<u64>> choices;
  std::vector<std::vector<u64>> sizes; // of buffers, by number of the request
  bool refuse = false;
  bool callback = true;
  const Function *nextFn = nullptr;
  int log = -1, bytes = -1, buf = -1;
  u64 nRuns = 0, nCombos = 0, nBuffers = 0, nTokens = 0;
  std::map<std::string, int64_t> &types;
  std::map<int64_t, std::string> typeName;
  int64_t bData, bSize, bUsed;
  OutPolicy(Program &P, Report &R) : TextPolicy(P, R), types(P.enums.at("JS::Type"))
  {
    for (auto &t : types)
      typeName[t.second] = t.first;
    bData = P.field("JS::SerializerBuffer", "buffer");
    bSize = P.field("JS::SerializerBuffer", "size");
    bUsed = P.field("JS::SerializerBuffer", "used");
  }
  bool special(u64) const override
  {
    return false;
  }
  // typestate: 1 size of the current buffer, 3 length of the log, 4 refused (1: once, 2: always), 5 bytes handed over,
  // 6 tokens, 7 number of the request
  void note(State &s, u64 v)
  {
    s.mem[{log, s.ts[3]++}] = Cell{8, Val::cst(v)};
  }
  int bufferOf(Interp &I, int64_t size)
  {
    int o = I.obj(ObjInfo::Named, "out" + std::to_string(size));
    sizeOf[o] = size;
    return o;
  }
  bool hand(Interp &I, State &s, int64_t n)
  {
    if (!n)
      return true;
    int o = bufferOf(I, s.ts[1]);
    for (int64_t i = 0; i < n; i++)
    {
      Val v = byteAt(I, s, Val::ptr(o, 0), (u64)i);
      if (v.k == Val::Top)
      {
        R.violation("gap", entry, whereOf(s),
                    entry + ": byte " + std::to_string(i) + " of " + std::to_string(n) + " used bytes of a buffer was never written");
        return false;
      }
      s.mem[{bytes, s.ts[5]++}] = Cell{8, v};
    }
    return true;
  }
  bool event(Interp &I, const CallBase &CB, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
             std::vector<Exit> &out) override
  {
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "JS::Tokenizer" && fn == "nextToken")
    {
      for (auto &e : I.run(*nextFn, {a[1]}, s, I.subCtx(1, &CB), 1))
        out.push_back(e);
      return true;
    }
    if (sc != "drv")
      return false;
    if (fn == "textData")
      return done(Val::ptr(input, 0));
    if (fn == "textSize")
      return done(Val::cst((u64)inputSize));
    if (fn == "pick")
    {
      u64 w;
      if (!I.isConst(s, a[0], w))
        throw BrokenAnalysis("choice expected");
      if (w == Again)
      {
        bool go = s.ts[6] < (int64_t)choices[Again][0];
        return done(Val::cst(go ? 1 : 0));
      }
      if (w == Name)
        s.ts[6]++;
      // the first token can have choices of its own
      int key = (w == Kind || w == Name) && s.ts[6] == 1 && choices.count(int(w) + nPicks) ? int(w) + nPicks : int(w);
      for (u64 v : choices[key])
      {
        State t = s;
        note(t, u64(L_PICK) + (w << 16) + v);
        out.push_back({Val::cst(v), t});
      }
      return true;
    }
    if (fn == "more")
    {
      // the buffer before is full
      if (s.ts[7] && !hand(I, s, s.ts[1]))
        return true;
      nBuffers++;
      int o = bufferOf(I, s.ts[1]);
      s.mem.drop_if([&](const auto &x) { return x.first.first == o; });
      bool first = !s.ts[7];
      size_t number = std::min((size_t)s.ts[7], sizes.size() - 1);
      if (s.ts[7] < (int64_t)sizes.size())
        s.ts[7]++;
      if ((refuse && s.ts[4] == 0) || s.ts[4] == 2)
        for (int64_t r = first ? 0 : 1; r <= (first ? 0 : 2); r++)
        {
          State t = s;
          t.ts[1] = 0;
          if (r)
            t.ts[4] = std::max(int(t.ts[4]), int(r));
          out.push_back({Val::cst(0), t});
        }
      if (s.ts[4] != 2)
        for (u64 n : sizes[number])
        {
          State t = s;
          t.ts[1] = (int64_t)n;
          out.push_back({Val::cst(n), t});
        }
      return true;
    }
    if (fn == "memory")
      return done(Val::ptr(bufferOf(I, s.ts[1]), 0));
    if (fn == "wrote")
    {
      u64 ok;
      if (!I.isConst(s, a[0], ok))
        throw BrokenAnalysis("unknown result in " + entry);
      note(s, u64(L_WROTE) + (ok & 1));
      return done(Val::top());
    }
    if (fn == "used")
    {
      u64 n;
      Val p = fieldOf(I, s, a[0], bData, ptrTy());
      if (!I.isConst(s, fieldOf(I, s, a[0], bUsed, i64()), n))
        throw BrokenAnalysis("unknown length in " + entry);
      if (n && (!oneTarget(p) || p.p[0] != std::make_pair(bufferOf(I, s.ts[1]), (int64_t)0) || (int64_t)n > s.ts[1]))
      {
        R.violation("gap", entry + " end", whereOf(s), entry + ": the current buffer is not the one supplied last");
        return true;
      }
      if (!hand(I, s, (int64_t)n))
        return true;
      int o = bufferOf(I, s.ts[1]);
      s.mem.drop_if([&](const auto &x) { return x.first.first == o; });
      s.ts[1] = 0;
      return done(Val::top());
    }
    if (fn == "text")
    {
      bool ok;
      auto t = textOf(I, s, a[0], a[1], ok);
      if (!ok)
        return true;
      note(s, u64(L_TEXT) + t.size());
      for (auto &v : t)
      {
        if (v.k == Val::Top)
        {
          R.violation("gap", entry, whereOf(s), entry + ": part of the text was never written");
          return true;
        }
        s.mem[{log, s.ts[3]++}] = Cell{8, v};
      }
      return done(Val::top());
    }
    if (fn == "done")
    {
      std::vector<Val> all;
      for (int64_t i = 0; i < s.ts[3]; i++)
        all.push_back(s.mem[{log, i}].v);
      all.push_back(Val::cst(u64(L_BYTES)));
      for (int64_t i = 0; i < s.ts[5]; i++)
        all.push_back(s.mem[{bytes, i}].v);
      bool refused = s.ts[4] != 0;
      nRuns++;
      s.ts[2]++;
      forAll(I, s, all, [&](const std::vector<int> &in, const std::vector<int> &o) {
        nCombos++;
        std::string rule, what, why;
        if (judge(in, o, refused, rule, what, why))
          return true;
        R.violation(rule, entry + " " + what, whereOf(s), entry + ": " + why);
        return false;
      });
      R.ok();
      return done(Val::top());
    }
    return false;
  }
  struct Ref
  {
    bool compact = false, skip = false, convert = true, first = true, start = true;
    int shift = 2, depth = 0;
    std::vector<int> text;
    void add(const char *t)
    {
      while (*t)
        text.push_back(*t++);
    }
    void value(const std::string &type, const std::vector<int> &t)
    {
      bool q = type == "String" || (type == "Ascii" && convert);
      if (q)
        text.push_back('"');
      if (type == "Null")
        add("null");
      else if (type == "ObjectStart")
        add("{");
      else if (type == "ObjectEnd")
        add("}");
      else if (type == "ArrayStart")
        add("[");
      else if (type == "ArrayEnd")
        add("]");
      else
        text.insert(text.end(), t.begin(), t.end());
      if (q)
        text.push_back('"');
    }
    bool token(const std::string &type, int name, const std::vector<int> &in)
    {
      return token(type, (name & 4) != 0, std::vector<int>(in.begin(), in.begin() + (name & 3)), in);
    }
    bool token(const std::string &type, bool ascii, const std::vector<int> &name, const std::vector<int> &in)
    {
      bool end = type == "ObjectEnd" || type == "ArrayEnd";
      if (end && depth <= 0)
        return false;
      if (end)
        depth--;
      if (!start && !end && !skip)
        add(",");
      if (!compact && !first)
        add("\n");
      if (!compact)
        for (int i = 0; i < depth * shift; i++)
          add(" ");
      first = false;
      if (!name.empty())
      {
        value(ascii ? "Ascii" : "String", name);
        add(compact ? ":" : ": ");
      }
      value(type, in);
      start = type == "ObjectStart" || type == "ArrayStart";
      if (start)
        depth++;
      return true;
    }
  };
  bool judge(const std::vector<int> &in, const std::vector<int> &o, bool refused, std::string &rule, std::string &what, std::string &why)
  {
    Ref r;
    size_t p = 0;
    int name = 0, ending = 0;

    std::string desc;
    bool failed = false, legal = true;
    auto shortened = [](std::vector<int> t) {
      std::string e;
      if (t.size() > 200)
      {
        t.resize(200);
        e = "...";
      }
      return show(t) + e;
    };
    while (p < o.size() && o[p] != L_BYTES)
    {
      int x = o[p++], k = x & ~0xffffff, w = (x >> 16) & 0xff, v = x & 0xffff;
      if (k == L_PICK)
      {
        if (w == Style)
        {
          r.compact = v != 0;
          r.shift = v ? 0 : 2;
          desc += v ? " compact" : " pretty";
        }
        else if (w == SetStyle && v)
        {
          r.compact = v == 2;
          desc += v == 2 ? " setStyle(compact)" : " setStyle(pretty)";
        }
        else if (w == Shift && v < 16)
        {
          r.shift = v;
          desc += " shift " + std::to_string(v);
        }
        else if (w == Depth && v)
        {
          r.depth = v;
          desc += " depth " + std::to_string(v);
        }
        else if (w == Skip && v)
        {
          r.skip = v == 1;
          desc += v == 1 ? " skipDelimiter" : "";
        }
        else if (w == Convert && v)
        {
          r.convert = v == 1;
          desc += v == 1 ? " convertAscii" : " keepAscii";
        }
        else if (w == Name)
          name = v;
        else if (w == Ending)
          ending = v;
        else if (w == Kind)
        {
          desc += " " + std::string(name ? "name:" : "") + typeName[v];
          legal = r.token(typeName[v], name, in);
        }
      }
      else if (k == L_WROTE && entry == "reformatted")
      {
        if ((v & 1) != (ending == 0))
        {
          rule = "wrong-result";
          what = "reformat";
          why = ending ? "reformat hides an error" : "reformat reports an error";
          why += ", after" + desc;
          return false;
        }
      }
      else if (k == L_WROTE)
      {
        nTokens++;
        failed = !(v & 1);
        if (failed)
          break;
        if (!legal)
        {
          rule = "wrong-result";
          what = "accepts";
          why = "a closing bracket without an open one is written without an error, after" + desc;
          return false;
        }
      }
      else if (k == L_TEXT)
      {
        std::vector<int> t(o.begin() + (long)p, o.begin() + (long)p + (x & 0xffffff));
        p += t.size();
        if (t != r.text)
        {
          rule = "wrong-text";
          what = r.compact ? "compact" : "pretty";
          why = "the text is " + shortened(t) + " instead of " + shortened(r.text) + ", after" + desc;
          return false;
        }
      }
    }
    while (p < o.size() && o[p] != L_BYTES)
      p++;
    if (entry != "three" && entry != "alone" && entry != "swap")
      return true;
    std::vector<int> t(o.begin() + (long)p + 1, o.end());
    if (!callback && failed)
      refused = r.text.size() > (sizes[0].empty() ? 0 : sizes[0][0]);
    if (failed && legal && !refused)
    {
      rule = "wrong-result";
      what = "fails";
      why = "writing fails although buffers were supplied, after" + desc;
      return false;
    }
    std::vector<int> e = r.text;
    if (failed && legal)
    {
      // a beginning of the text, something is missing
      if (t.size() < e.size())
        e.resize(t.size());
      else
        e.push_back(-1);
    }
    if (t != e)
    {
      rule = refused ? "wrong-text-after-refusal" : "wrong-text";
      what = r.compact ? "compact" : "pretty";
      why = "the bytes written are " + shortened(t) + (failed ? ", not a beginning of " : " instead of ") + shortened(r.text) + ", after" + desc;
      return false;
    }
    return true;
  }
};
struct OutRun
{
  std::string entry;
  std::map<int, std::vector<u64>> choices;
  std::vector<std::vector<u64>> sizes;
  bool refuse;
  int textSize;
};
} // namespace

int checkOutput(Program &P, Report &R, const std::vector<std::string> &args)
{
  bool deep = false;
  Budget budget(R, args);
  unsigned shard = 0, nShards = 1, number = 0;
  for (auto &a : args)
  {
    deep |= a == "deep";
    if (startsWith(a, "shard="))
      sscanf(a.c_str(), "shard=%u/%u", &shard, &nShards);
  }
  std::map<std::string, const Function *> fns;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (startsWith(n, "drv::") && !F.isDeclaration())
      fns[n.substr(5)] = &F;
  }
  auto &ty = P.enums.at("JS::Type");
  auto kinds = [&](std::initializer_list<const char *> l) {
    std::vector<u64> r;
    for (auto *n : l)
      r.push_back((u64)ty.at(n));
    return r;
  };
  std::vector<u64> allKinds;
  for (auto &t : ty)
    allKinds.push_back((u64)t.second);
  std::vector<OutRun> todo;
  auto base = [&]() {
    std::map<int, std::vector<u64>> c;
    c[Style] = {0, 1};
    c[SetStyle] = {0};
    c[Shift] = {16};
    c[Depth] = {0};
    c[Skip] = {0};
    c[Convert] = {0};
    c[Name] = {0, 2};
    c[Kind] = kinds({"Number", "ObjectStart", "ObjectEnd", "ArrayEnd"});
    c[Start] = {0};
    c[Again] = {2};
    c[Ending] = {0};
    return c;
  };
  // layout: all options, one buffer
  for (u64 d = 0; d <= (deep ? 9 : 7); d++)
    for (u64 sh : {16, 0, 2, 3})
      for (u64 st = 0; st < 4; st++)
      {
        auto c = base();
        c[Depth] = {d};
        c[Shift] = {sh};
        c[Style] = {st & 1};
        c[SetStyle] = {st < 2 ? 0 : 3 - (st & 1) - 1};
        c[Skip] = {0, 1};
        if (d == 1)
          c[Skip].push_back(2);
        if (deep)
        {
          c[SetStyle] = {0, 1, 2};
          c[Again] = {3};
          c[Kind] = kinds({"Number", "ArrayStart", "ArrayEnd"});
        }
        else
        {
          c[Kind + nPicks] = kinds({"Number", "ObjectStart", "ObjectEnd"});
          c[Name + nPicks] = {0};
        }
        if (!deep || st < 2)
          todo.push_back({"three", c, {{512}}, false, 2});
      }
  // all kinds of values
  for (u64 k : allKinds)
  {
    auto c = base();
    c[Convert] = {0, 1, 2};
    c[Name] = {0, 1, 2, 5, 6};
    c[Kind] = {k};
    c[Depth] = {0, 3};
    todo.push_back({"three", c, {{512}}, false, 2});
    c[Again] = {1};
    for (int n = 3; n <= 5; n++)
      todo.push_back({"three", c, {{512}}, false, n});
  }
  // buffers
  for (u64 d : deep ? std::vector<u64>{0, 1, 2, 3, 4, 5, 6} : std::vector<u64>{0, 1, 4, 5, 6})
    for (u64 skip = 0; skip < 2; skip++)
      for (u64 st = 0; st < 2; st++)
      {
        auto c = base();
        c[Depth] = {d};
        c[Skip] = {skip};
        c[Style] = {st};
        c[Kind + nPicks] = kinds({"Number", "ObjectStart"});
        c[Name + nPicks] = {0};
        c[Kind] = kinds({"String", "Null", "ArrayEnd"});
        // any first buffer, then a small one or none, then enough
        std::vector<u64> firsts;
        for (u64 n = 1; n <= (deep ? 40 : 20); n++)
          firsts.push_back(n);
        todo.push_back({"three", c, {firsts, {1, 2, 64}, {64}}, false, 2});
        if (skip == 0 || deep)
          todo.push_back({"three", c, {firsts, {1, 64}, {64}}, true, 2});
        if (skip == st || deep)
          for (u64 n = 1; n <= (deep ? 13 : 3); n++)
            todo.push_back({"three", c, {{n}}, false, 2});
        if (deep)
          todo.push_back({"three", c, {{1, 2, 3, 5, 7, 11, 13}, {1, 2, 3, 5, 7}, {1, 2, 4}, {2, 64}, {64}}, false, 2});
        for (u64 n = 1; n <= 24; n += deep ? 1 : 5)
          todo.push_back({"alone", c, {{n}}, false, 2});
        todo.push_back({"alone", c, {{}}, true, 2});
      }
  // growing strings
  for (u64 n = 0; n <= (deep ? 40 : 16); n++)
  {
    auto c = base();
    c[Start] = {n};
    c[Again] = {3};
    c[Kind] = kinds({"String", "ArrayStart"});
    todo.push_back({"context", c, {{}}, false, 2});
    todo.push_back({"serialize", c, {{}}, false, 2});
  }
  for (u64 n : {0, 4096})
  {
    auto c = base();
    c[Start] = {n};
    c[Style] = {1};
    c[Name] = {0};
    c[Kind] = kinds({"String"});
    for (int t : deep ? std::vector<int>{4092, 4093, 4094, 4095, 5000} : n ? std::vector<int>{4095} : std::vector<int>{4094, 4095, 5000})
    {
      c[Again] = {2};
      todo.push_back({"context", c, {{}}, false, t});
      c[Again] = {1};
      todo.push_back({"serialize", c, {{}}, false, t});
      c[Start] = {0, 1};
      if (!n)
        todo.push_back({"whole", c, {{}}, false, t});
    }
  }
  // a buffer for every token
  for (u64 st = 0; st < 2; st++)
    for (u64 d = 0; d < 3; d++)
    {
      auto c = base();
      c[Style] = {st};
      c[Depth] = {d};
      c[Again] = {3};
      todo.push_back({"swap", c, {{32, 40}}, false, 2});
    }
  // what is read is written again
  for (u64 n = 0; n <= (deep ? 40 : 8); n++)
  {
    auto c = base();
    c[Start] = {n};
    c[Depth] = {n & 3};
    c[Again] = {n < 3 || deep ? 3u : 2u};
    c[Kind] = kinds({"String", "ArrayStart"});
    c[Ending] = {0, 1};
    todo.push_back({"reformatted", c, {{}}, false, 2});
  }
  for (int t : {4094, 5000})
  {
    auto c = base();
    c[Name] = {0};
    c[Kind] = kinds({"String"});
    c[Ending] = {0};
    todo.push_back({"reformatted", c, {{}}, false, t});
  }
  u64 steps = 0, combos = 0, runs = 0, shapes = 0, acc = 0, buffers = 0, tokens = 0;
  std::set<const Function *> followed;
  for (auto &r : todo)
  {
    if (number++ % nShards != shard)
      continue;
    if (!fns.count(r.entry))
      throw BrokenAnalysis("driver function missing: " + r.entry);
    OutPolicy pol(P, R);
    pol.entry = r.entry;
    pol.choices = r.choices;
    pol.sizes = r.sizes;
    pol.nextFn = fns.at("next");
    pol.refuse = r.refuse;
    pol.callback = r.entry != "alone";
    Interp I(P, pol);
    I.precise = I.strict = true;
    I.cap = 10000000;
    I.intCap = 64;
    I.maxSteps = ~0ull;
    I.tick = [&] { budget.check(); };
    I.maxDepth = 120;
    State s;
    s.ts = {0, 0, 0, 0, 0, 0, 0, 0};
    pol.log = I.obj(ObjInfo::Named, "log");
    pol.bytes = I.obj(ObjInfo::Named, "bytes");
    std::vector<std::vector<u64>> in;
    for (int i = 0; i < r.textSize; i++)
      if (i < 4)
        in.push_back(TextPolicy::any());
      else
        in.push_back({u64('a' + i % 23)});
    pol.setInput(I, s, in);
    std::vector<Val> as;
    static const char *nm[] = {"a0", "a1", "a2"};
    for (unsigned i = 0; i < fns[r.entry]->arg_size(); i++)
      as.push_back(Val::ptr(I.obj(ObjInfo::Named, nm[i]), 0));
    auto ex = I.run(*fns[r.entry], as, s, 0, 0);
    if (ex.empty())
      R.violation("wrong-result", r.entry + " ends", r.entry, r.entry + " never returns");
    if (getenv("JSA_V"))
      std::cerr << r.entry << " d" << r.choices[Depth][0] << " start " << r.choices[Start][0] << " refuse " << r.refuse << " sizes " << r.sizes.size() << " text " << r.textSize << " steps " << I.steps << " combos " << pol.nCombos << " runs "
                << pol.nRuns << " " << clock() / 1000 << "\n";
    shapes++;
    steps += I.steps;
    combos += pol.nCombos;
    runs += pol.nRuns;
    acc += pol.nAcc;
    buffers += pol.nBuffers;
    tokens += pol.nTokens;
    for (auto *f : I.analysed)
      if (P.inJS(f))
        followed.insert(f);
  }
  R.add("configurations", shapes);
  R.add("interpreted_blocks", steps);
  R.add("paths_judged", runs);
  R.add("tokens_judged", tokens);
  R.add("texts_compared", combos);
  R.add("bounded_accesses", acc);
  R.add("buffer_requests", buffers);
  R.add("library_functions_followed", followed.size());
  return 0;
}
} // namespace jsa
