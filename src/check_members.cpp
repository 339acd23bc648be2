// Structs and enums: which member a name stands for, what happens to unknown and missing ones, the names written.
#include "text.h"
namespace jsa
{
namespace
{
// entries of the log of a run
enum : u64
{
  L_READ = 0x1000,  // + member: its reader is called
  L_FAIL = 0x2000,  // the tokenizer reports an error
  L_OUT = 0x3000,   // + 0 success, 1 error, 2 unknown member: how that reader ended
  L_WRITE = 0x4000, // + member: its writer is called, then the name
  L_TOKEN = 0x5000, // + type of token written
  L_FLAG = 0x6000,  // + 2 * flag + value
  L_TEXT = 0x7000,  // + list, then the text
  L_VALUE = 0x8000, // + enumerator
  L_DONE = 0x9000,  // + error
};
struct Tok
{
  std::string type;
  int nameOff, nameLen;
  int match; // index of the token that ends this value
};
struct Member
{
  int object;
  int64_t off, size;
  std::string name, reported;
  bool required;
  std::vector<std::string> aliases;
};
struct MemPolicy : TextPolicy
{
  std::vector<Tok> stream;
  std::vector<std::pair<int, int>> names; // offset, length of every member of the object
  std::vector<Member> members;
  std::set<int> letters;
  std::vector<std::string> enumNames;
  u64 nRuns = 0, nCombos = 0;
  int log = -1;
  std::map<std::string, int64_t> &types, &errors;
  int64_t cToken;
  MemPolicy(Program &P, Report &R) : TextPolicy(P, R), types(P.enums.at("JS::Type")), errors(P.enums.at("JS::Error"))
  {
    cToken = P.field("JS::ParseContext", "token");
  }
  u64 err(const char *n) const
  {
    return (u64)errors.at(n);
  }
  bool special(u64 c) const override
  {
    return letters.count((int)c) > 0;
  }
  void note(State &s, u64 v)
  {
    s.mem[{log, s.ts[3]++}] = Cell{8, Val::cst(v)};
  }
  void note(State &s, const std::vector<Val> &t)
  {
    for (auto &v : t)
      s.mem[{log, s.ts[3]++}] = Cell{8, v};
  }
  void setToken(Interp &I, State &s, const Val &tok, const Tok &t)
  {
    setField(I, s, tok, tValueType, Val::cst((u64)types.at(t.type)), 1);
    setField(I, s, tok, tNameType, Val::cst((u64)types.at("String")), 1);
    setField(I, s, tok, tName + drData, Val::ptr(input, t.nameOff), 8);
    setField(I, s, tok, tName + drSize, Val::cst((u64)t.nameLen), 8);
  }
  std::string literal(Interp &I, State &s, const Val &p)
  {
    std::string r;
    for (u64 i = 0; i < 256; i++)
    {
      u64 c;
      if (!I.isConst(s, byteAt(I, s, p, i), c))
        break;
      if (!c)
        return r;
      r += char(c);
    }
    throw BrokenAnalysis("name expected");
  }
  int memberAt(const Val &p)
  {
    if (oneTarget(p))
      for (size_t i = 0; i < members.size(); i++)
        if (members[i].object == p.p[0].first && p.p[0].second >= members[i].off && p.p[0].second < members[i].off + members[i].size)
          return (int)i;
    return 0xff;
  }
  bool event(Interp &I, const CallBase &CB, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
             std::vector<Exit> &out) override
  {
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "drv")
    {
      if (fn == "textData")
        return done(Val::ptr(input, 0));
      if (fn == "textSize")
        return done(Val::cst((u64)inputSize));
      if (fn == "member")
      {
        if (!oneTarget(a[0]))
          throw BrokenAnalysis("member expected");
        u64 size, req;
        I.isConst(s, a[1], size);
        I.isConst(s, a[3], req);
        Member m{a[0].p[0].first, a[0].p[0].second, (int64_t)size, literal(I, s, a[2]), literal(I, s, a[4]), (req & 1) != 0, {}};
        for (char c : m.name)
          letters.insert((unsigned char)c);
        members.push_back(m);
        return done(Val::top());
      }
      if (fn == "alias")
      {
        int m = memberAt(a[0]);
        if (m == 0xff)
          throw BrokenAnalysis("member expected");
        members[(size_t)m].aliases.push_back(literal(I, s, a[1]));
        for (char c : members[(size_t)m].aliases.back())
          letters.insert((unsigned char)c);
        return done(Val::top());
      }
      if (fn == "flag")
      {
        u64 f;
        I.isConst(s, a[0], f);
        for (u64 v = 0; v < 2; v++)
        {
          State t = s;
          note(t, L_FLAG + 2 * f + v);
          out.push_back({Val::cst(v), t});
        }
        return true;
      }
      if (fn == "readValue")
      {
        if (s.ts[4])
        {
          R.violation("wrong-result", entry + " goes on", whereOf(s), entry + " reads a value after something failed");
          return true;
        }
        note(s, L_READ + (u64)memberAt(a[0]));
        for (u64 o = 0; o < 3; o++)
        {
          State t = s;
          note(t, L_OUT + o);
          t.ts[4] = o != 0;
          if (o == 0)
          {
            // a reader leaves the last token of its value behind
            int p = (int)t.ts[1] - 1;
            if (p < 0 || p >= (int)stream.size())
              continue;
            t.ts[1] = stream[(size_t)p].match + 1;
            setToken(I, t, Val::ptr(a[1].p[0].first, a[1].p[0].second + cToken), stream[(size_t)stream[(size_t)p].match]);
          }
          out.push_back({Val::cst(o == 0 ? err("NoError") : o == 1 ? err("IllegalDataValue") : err("MissingPropertyMember")), t});
        }
        return true;
      }
      if (fn == "writeValue")
      {
        note(s, L_WRITE + (u64)memberAt(a[0]));
        bool ok;
        auto t = textOf(I, s, fieldOf(I, s, a[1], tName + drData, ptrTy()), fieldOf(I, s, a[1], tName + drSize, i64()), ok);
        note(s, t);
        // writers may leave anything behind as the token's name
        setField(I, s, a[1], tName + drSize, Val::cst(0), 8);
        setField(I, s, a[1], tNameType, Val::cst((u64)types.at("Number")), 1);
        return done(Val::top());
      }
      if (fn == "value")
      {
        u64 v;
        if (!I.isConst(s, a[0], v))
          throw BrokenAnalysis("unknown enumerator in " + entry);
        note(s, L_VALUE + (v & 0xff));
        return done(Val::top());
      }
      if (fn == "text")
      {
        u64 l;
        I.isConst(s, a[0], l);
        note(s, L_TEXT + l);
        bool ok;
        note(s, textOf(I, s, a[1], a[2], ok));
        return done(Val::top());
      }
      if (fn == "done")
      {
        u64 e;
        if (!I.isConst(s, a[0], e))
          throw BrokenAnalysis("unknown result of " + entry);
        note(s, L_DONE + e);
        std::vector<Val> all;
        for (int64_t i = 0; i < s.ts[3]; i++)
          all.push_back(s.mem[{log, i}].v);
        nRuns++;
        s.ts[2]++;
        forAll(I, s, all, [&](const std::vector<int> &in, const std::vector<int> &o) {
          nCombos++;
          std::string rule, why;
          if (judge(in, o, rule, why))
            return true;
          R.violation(rule, entry + " " + why, whereOf(s), entry + ": " + describe(in, o, why));
          return false;
        });
        R.ok();
        return done(Val::top());
      }
      return false;
    }
    if (sc == "JS::Tokenizer" && fn == "nextToken")
    {
      if (s.ts[4])
      {
        R.violation("wrong-result", entry + " goes on", whereOf(s), entry + " asks for a token after something failed");
        return true;
      }
      if (s.ts[1] >= (int)stream.size())
      {
        R.violation("reads-past-end", entry, whereOf(s), entry + " asks for a token after the end of the object");
        return true;
      }
      State t = s;
      note(t, L_FAIL);
      t.ts[4] = 1;
      out.push_back({Val::cst(err("InvalidToken")), t});
      setToken(I, s, a[1], stream[(size_t)s.ts[1]++]);
      return done(Val::cst(err("NoError")));
    }
    if (sc == "JS::Serializer" && fn == "write" && a.size() == 2)
    {
      u64 k;
      if (!I.isConst(s, fieldOf(I, s, a[1], tValueType, i8()), k))
        throw BrokenAnalysis("unknown kind of token written in " + entry);
      note(s, L_TOKEN + k);
      if (startsWith(entry, "enum"))
      {
        bool ok;
        note(s, textOf(I, s, fieldOf(I, s, a[1], tValue + drData, ptrTy()), fieldOf(I, s, a[1], tValue + drSize, i64()), ok));
      }
      return done(Val::cst(1));
    }
    (void)CB;
    return false;
  }
  static std::string str(const std::vector<int> &v, int off, int len)
  {
    std::string r;
    for (int i = 0; i < len; i++)
      r += char(v[(size_t)(off + i)]);
    return r;
  }
  static std::string textAt(const std::vector<int> &o, size_t &p)
  {
    std::string r;
    while (p < o.size() && o[p] < 0x100)
      r += char(o[p++]);
    return r;
  }
  std::string describe(const std::vector<int> &in, const std::vector<int> &o, const std::string &why)
  {
    std::string r = why + ";";
    for (auto &n : names)
    {
      std::vector<int> t(in.begin() + n.first, in.begin() + n.first + n.second);
      r += " " + show(t);
    }
    if (names.empty() && !in.empty())
      r += " " + show(in);
    r += " gives";
    for (size_t p = 0; p < o.size();)
    {
      int x = o[p++];
      int k = x & ~0xfff, v = x & 0xfff;
      if (k == L_READ || k == L_WRITE)
        r += std::string(k == L_READ ? " read(" : " write(") + (v < (int)members.size() ? members[(size_t)v].name : "?") + ")";
      else if (k == L_FAIL)
        r += " input-error";
      else if (k == L_OUT)
        r += v == 0 ? ":ok" : v == 1 ? ":error" : ":unknown-inside";
      else if (k == L_FLAG)
        r += " flag" + std::to_string(v / 2) + "=" + std::to_string(v & 1);
      else if (k == L_TEXT)
        r += v ? " unassigned" : " unknown";
      else if (k == L_DONE)
        r += " result " + std::to_string(v);
      else if (k == L_VALUE)
        r += " value " + std::to_string(v);
      std::string t = textAt(o, p);
      if (!t.empty())
      {
        std::vector<int> b;
        for (char c : t)
          b.push_back((unsigned char)c);
        r += " " + show(b);
      }
    }
    return r;
  }
  int find(const std::string &n) const
  {
    for (size_t i = 0; i < members.size(); i++)
      if (members[i].name == n)
        return (int)i;
    for (size_t i = 0; i < members.size(); i++)
      for (auto &a : members[i].aliases)
        if (a == n)
          return (int)i;
    return -1;
  }
  bool judge(const std::vector<int> &in, const std::vector<int> &o, std::string &rule, std::string &why)
  {
    auto bad = [&](const char *r, const char *w) {
      rule = r;
      why = w;
      return false;
    };
    if (entry == "enumIn")
    {
      std::string n = str(in, 0, (int)in.size());
      auto it = std::find(enumNames.begin(), enumNames.end(), n);
      if (it == enumNames.end())
        return o.size() == 1 && o[0] == (int)(L_DONE + err("IllegalDataValue")) ? true : bad("wrong-enumerator", "accepts a name that is none");
      return o.size() == 2 && o[0] == (int)L_VALUE + int(it - enumNames.begin()) && o[1] == (int)(L_DONE + err("NoError"))
               ? true
               : bad("wrong-enumerator", "a name gives the wrong enumerator");
    }
    if (entry == "enumOut")
    {
      size_t p = 0;
      for (auto &n : enumNames)
      {
        if (p >= o.size() || o[p++] != (int)L_TOKEN + (int)types.at("String") || textAt(o, p) != n)
          return bad("wrong-enumerator", "an enumerator is written under the wrong name");
      }
      return true;
    }
    bool flags[8] = {};
    size_t p = 0;
    while (p < o.size() && (o[p] & ~0xfff) == (int)L_FLAG)
    {
      flags[(o[p] & 0xfff) / 2] = o[p] & 1;
      p++;
    }
    if (entry.find("Out") != std::string::npos)
    {
      if (p >= o.size() || o[p++] != (int)L_TOKEN + (int)types.at("ObjectStart"))
        return bad("wrong-members-written", "no start of the object");
      std::vector<int> count(members.size(), 0);
      while (p < o.size() && (o[p] & ~0xfff) == (int)L_WRITE)
      {
        size_t m = size_t(o[p++] & 0xfff);
        std::string n = textAt(o, p);
        if (m >= members.size())
          return bad("wrong-members-written", "something that is no member is written");
        if (n != members[m].name)
          return bad("wrong-name-written", "a member is written under another name");
        if (count[m]++)
          return bad("wrong-members-written", "a member is written twice");
      }
      for (size_t i = 0; i < members.size(); i++)
      {
        bool want = !(members[i].name == "oc" && !flags[3]) && !(members[i].name == "so" && !flags[4]);
        if (!count[i] && want)
          return bad("wrong-members-written", "a member is not written");
      }
      if (p >= o.size() || o[p++] != (int)L_TOKEN + (int)types.at("ObjectEnd"))
        return bad("wrong-members-written", "no end of the object");
      return p < o.size() && (o[p] & ~0xfff) == (int)L_DONE ? true : bad("wrong-members-written", "something after the end of the object");
    }
    // reading
    std::vector<std::string> unknown;
    std::set<int> assigned;
    u64 expect = err("NoError");
    bool over = false;
    for (auto &n : names)
    {
      std::string nm = str(in, n.first, n.second);
      if (o[p] == (int)L_FAIL)
        break;
      int m = find(nm);
      if (m < 0)
      {
        unknown.push_back(nm);
        if (!flags[0])
        {
          expect = err("MissingPropertyMember");
          over = true;
          break;
        }
        continue;
      }
      if ((o[p] & ~0xfff) != (int)L_READ)
        return bad("wrong-member", "a member's value is not read");
      if ((o[p] & 0xfff) != m)
        return bad("wrong-member", "another member gets the value");
      p++;
      int r = o[p++] & 0xfff;
      assigned.insert(m);
      if (r)
      {
        expect = r == 1 ? err("IllegalDataValue") : err("UnknownPropertyMember");
        over = true;
        break;
      }
    }
    if (o[p] == (int)L_FAIL && !over)
    {
      expect = err("InvalidToken");
      over = true;
      p++;
    }
    if ((o[p] & ~0xfff) == (int)L_READ)
      return bad("wrong-member", "a value is read that belongs to no member");
    if (o[p] == (int)L_FAIL)
      return bad("wrong-result", "goes on after the end");
    std::vector<std::string> missing;
    if (!over)
      for (size_t i = 0; i < members.size(); i++)
        if (members[i].required && !assigned.count((int)i))
          missing.push_back(members[i].reported);
    if (!over && !missing.empty() && !flags[1])
      expect = err("UnassignedRequiredMember");
    std::vector<std::string> t[2];
    while (p < o.size() && (o[p] & ~0xfff) == (int)L_TEXT)
    {
      int l = o[p++] & 1;
      t[l].push_back(textAt(o, p));
    }
    std::vector<int> opt;
    while (p < o.size() && (o[p] & ~0xfff) == (int)L_VALUE)
      opt.push_back(o[p++] & 1);
    if (p >= o.size() || (o[p] & ~0xfff) != (int)L_DONE)
      return bad("wrong-result", "no result");
    if (expect == err("NoError") || expect == err("UnassignedRequiredMember"))
      for (size_t i = 0; i < opt.size(); i++)
        if (opt[i] != (assigned.count(find(i ? "so" : "oc")) ? 1 : 0))
          return bad("wrong-result", "an optional member is present though it was not in the input, or the other way round");
    if ((o[p] & 0xfff) != (int)expect)
      return bad("wrong-result", expect == err("NoError") ? "an error is returned" : expect == err("MissingPropertyMember") ? "an unknown member is accepted"
                                   : expect == err("UnassignedRequiredMember") ? "a missing required member is accepted" : "the wrong result is returned");
    if (!flags[2])
      return t[0].empty() && t[1].empty() ? true : bad("wrong-report", "members are reported though not asked for");
    if (t[0] != unknown && expect != err("InvalidToken"))
      return bad("wrong-report", "the unknown members reported are not those of the input");
    std::sort(t[1].begin(), t[1].end());
    std::sort(missing.begin(), missing.end());
    if (t[1] != missing)
      return bad("wrong-report", "the required members reported as missing are the wrong ones");
    return true;
  }
};
struct MemRun
{
  std::string entry;
  std::vector<std::vector<std::vector<u64>>> names;
  std::vector<int> kinds; // 0 number, 1 object, 2 array
};
} // namespace

int checkMembers(Program &P, Report &R, const std::vector<std::string> &args)
{
  bool deep = false;
  Budget budget(R, args);
  unsigned shard = 0, nShards = 1, number = 0;
  for (auto &a : args)
  {
    deep |= a == "deep";
    if (startsWith(a, "shard="))
      sscanf(a.c_str(), "shard=%u/%u", &shard, &nShards);
  }
  std::map<std::string, const Function *> fns;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (startsWith(n, "drv::") && !F.isDeclaration())
      fns[n.substr(5)] = &F;
  }
  u64 steps = 0, combos = 0, runs = 0, shapes = 0, acc = 0, allocs = 0;
  std::set<const Function *> followed;
  auto any = TextPolicy::any();
  auto lit = [&](const std::string &t) {
    std::vector<std::vector<u64>> r;
    for (char c : t)
      r.push_back({u64((unsigned char)c)});
    return r;
  };
  auto free = [&](int n) { return std::vector<std::vector<u64>>((size_t)n, any); };
  std::vector<MemRun> todo;
  // no member, one, two
  for (std::string e : {"rootIn", "singleIn"})
  {
    todo.push_back({e, {}, {}});
    for (int n = 0; n <= 4; n++)
      for (int k = 0; k < 3; k++)
        todo.push_back({e, {free(n)}, {k}});
  }
  for (int n = 1; n <= (deep ? 3 : 2); n++)
    for (int m = 1; m <= (deep ? 3 : 2); m++)
      for (int k = 0; k < (deep ? 3 : 1); k++)
        todo.push_back({"rootIn", {free(n), free(m)}, {k, 0}});
  // all required members, one of them damaged
  std::vector<std::string> req = {"x", "xy", "zz", "a", "bc", "k", "kk", "q"};
  for (size_t i = 0; i <= req.size(); i++)
  {
    MemRun r{"rootIn", {}, {}};
    for (size_t j = 0; j < req.size(); j++)
    {
      size_t w = i % 2 ? j : req.size() - 1 - j;
      r.names.push_back(w == i ? free((int)req[w].size()) : lit(req[w]));
      r.kinds.push_back(int(w % 3));
    }
    todo.push_back(r);
  }
  for (int i = 0; i < 4; i++)
  {
    MemRun r{"singleIn", {lit("only")}, {0}};
    r.names[0][(size_t)i] = any;
    todo.push_back(r);
    todo.push_back({"singleIn", {lit("only"), r.names[0]}, {1, 0}});
  }
  // many members
  {
    MemRun r{"singleIn", {}, {}};
    for (int i = 0; i < 36; i++)
    {
      r.names.push_back(i == 30 ? lit("only") : i == 34 ? free(2) : lit("n" + std::to_string(i)));
      r.kinds.push_back(i % 7 == 3 ? 1 : 0);
    }
    todo.push_back(r);
  }
  for (std::string e : {"rootOut", "singleOut"})
    todo.push_back({e, {}, {}});
  std::vector<std::string> en = {"Red", "Re", "green_2", "_1", "b", "Blue"};
  for (int n = 0; n <= 4; n++)
    todo.push_back({"enumIn", {free(n)}, {0}});
  for (auto &n : en)
  {
    for (size_t i = 0; i < n.size(); i++)
    {
      auto t = lit(n);
      t[i] = any;
      todo.push_back({"enumIn", {t}, {0}});
    }
    auto t = lit(n);
    t.push_back(any);
    todo.push_back({"enumIn", {t}, {0}});
  }
  todo.push_back({"enumOut", {}, {}});

  for (auto &r : todo)
  {
    if (number++ % nShards != shard)
      continue;
    if (!fns.count(r.entry))
      throw BrokenAnalysis("driver function missing: " + r.entry);
    MemPolicy pol(P, R);
    pol.entry = r.entry;
    pol.enumNames = en;
    for (auto &n : en)
      if (startsWith(r.entry, "enum"))
        for (char c : n)
          pol.letters.insert((unsigned char)c);
    Interp I(P, pol);
    I.precise = I.strict = true;
    I.cap = 10000000;
    I.intCap = 64;
    I.maxSteps = ~0ull;
    I.tick = [&] { budget.check(); };
    I.maxDepth = 120;
    State s;
    s.ts = {0, 0, 0, 0, 0};
    pol.log = I.obj(ObjInfo::Named, "log");
    std::vector<std::vector<u64>> in;
    for (size_t i = 0; i < r.names.size(); i++)
    {
      int off = (int)in.size(), len = (int)r.names[i].size();
      in.insert(in.end(), r.names[i].begin(), r.names[i].end());
      if (startsWith(r.entry, "enum"))
        continue;
      pol.names.push_back({off, len});
      int k = r.kinds[i], at = (int)pol.stream.size();
      if (k == 0)
        pol.stream.push_back({"Number", off, len, at});
      else
      {
        // nested objects and arrays whose members have the names of the first one
        int o0 = pol.names[0].first, l0 = pol.names[0].second;
        std::string b = k == 1 ? "ObjectStart" : "ArrayStart", e = k == 1 ? "ObjectEnd" : "ArrayEnd";
        pol.stream.push_back({b, off, len, at + 5});
        pol.stream.push_back({b, o0, k == 1 ? l0 : 0, at + 3});
        pol.stream.push_back({"String", o0, l0, at + 2});
        pol.stream.push_back({e, 0, 0, at + 3});
        pol.stream.push_back({"Number", o0, k == 1 ? l0 : 0, at + 4});
        pol.stream.push_back({e, 0, 0, at + 5});
      }
    }
    pol.stream.push_back({"ObjectEnd", 0, 0, (int)pol.stream.size()});
    pol.setInput(I, s, in);
    std::vector<Val> as;
    static const char *nm[] = {"a0", "a1", "a2"};
    for (unsigned i = 0; i < fns[r.entry]->arg_size(); i++)
      as.push_back(Val::ptr(I.obj(ObjInfo::Named, nm[i]), 0));
    auto ex = I.run(*fns[r.entry], as, s, 0, 0);
    if (ex.empty())
      R.violation("wrong-result", r.entry + " ends", r.entry, r.entry + " never returns");
    if (getenv("JSA_V"))
      std::cerr << r.entry << " " << in.size() << " steps " << I.steps << " combos " << pol.nCombos << " runs " << pol.nRuns << " "
                << clock() / 1000 << "\n";
    shapes++;
    steps += I.steps;
    combos += pol.nCombos;
    runs += pol.nRuns;
    acc += pol.nAcc;
    allocs += pol.nAlloc;
    for (auto *f : I.analysed)
      if (P.inJS(f))
        followed.insert(f);
  }
  R.add("object_shapes", shapes);
  R.add("interpreted_blocks", steps);
  R.add("paths_judged", runs);
  R.add("name_combinations_compared", combos);
  R.add("bounded_accesses", acc);
  R.add("heap_objects", allocs);
  R.add("library_functions_followed", followed.size());
  return 0;
}
} // namespace jsa
