// Function calls: which function a name stands for, what is called with what, what is returned and reported.
#include "text.h"
namespace jsa
{
namespace
{
enum : u64
{
  L_READ = 0x1000,  // + position in the stream: an argument is read
  L_FAIL = 0x2000,  // + position: the tokenizer reports an error
  L_OUT = 0x3000,   // how reading the argument ended
  L_CALL = 0x4000,  // + function
  L_TOKEN = 0x5000, // + type of token written
  L_FLAG = 0x6000,  // + 2 * flag + value
  L_ARG = 0x7000,   // + position: the argument a function got
  L_SET = 0x8000,   // + 1: the function reports an error
  L_DONE = 0x9000,  // + error
  L_RET = 0xa000,   // + function: its result is written
  L_ENTRY = 0xb000, // then the name
  L_ERR = 0xc000,   // + error, then the report
  L_MISS = 0xd000,  // + 16 * missing + unassigned
};
struct Fn
{
  int number, kind;
  std::string name;
  std::vector<std::string> aliases;
};
struct CTok
{
  std::string type;
  int nameOff, nameLen, match;
};
struct CallPolicy : TextPolicy
{
  std::vector<CTok> stream;
  std::vector<std::pair<int, int>> names;
  std::vector<int> at; // position of the members in the stream
  std::vector<Fn> fnList;
  std::set<int> letters;
  const Function *fresh = nullptr, *addMissing = nullptr;
  int log = -1;
  u64 nRuns = 0, nCombos = 0;
  std::map<std::string, int64_t> &types, &errors;
  std::map<int64_t, std::string> errorName;
  int64_t cToken;
  CallPolicy(Program &P, Report &R) : TextPolicy(P, R), types(P.enums.at("JS::Type")), errors(P.enums.at("JS::Error"))
  {
    cToken = P.field("JS::ParseContext", "token");
    for (auto &e : errors)
      errorName[e.second] = e.first;
  }
  u64 err(const char *n) const
  {
    return (u64)errors.at(n);
  }
  bool special(u64 c) const override
  {
    return letters.count((int)c) > 0;
  }
  void note(State &s, u64 v)
  {
    s.mem[{log, s.ts[3]++}] = Cell{8, Val::cst(v)};
  }
  void setToken(Interp &I, State &s, const Val &tok, const CTok &t)
  {
    setField(I, s, tok, tValueType, Val::cst((u64)types.at(t.type)), 1);
    setField(I, s, tok, tNameType, Val::cst((u64)types.at("String")), 1);
    setField(I, s, tok, tName + drData, Val::ptr(input, t.nameOff), 8);
    setField(I, s, tok, tName + drSize, Val::cst((u64)t.nameLen), 8);
  }
  std::string literal(Interp &I, State &s, const Val &p)
  {
    std::string r;
    for (u64 i = 0; i < 256; i++)
    {
      u64 c;
      if (!I.isConst(s, byteAt(I, s, p, i), c))
        break;
      if (!c)
        return r;
      r += char(c);
    }
    throw BrokenAnalysis("name expected");
  }
  u64 number(Interp &I, State &s, const Val &v)
  {
    u64 n;
    if (!I.isConst(s, v, n))
      throw BrokenAnalysis("number expected in " + entry);
    return n;
  }
  // runs a function of the driver
  State also(Interp &I, const CallBase &CB, const Function *F, std::vector<Val> a, State &s)
  {
    auto ex = I.run(*F, a, s, I.subCtx(1, &CB), 1);
    if (ex.size() != 1)
      throw BrokenAnalysis("unexpected effects of " + P.name(F));
    return ex[0].st;
  }
  bool event(Interp &I, const CallBase &CB, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
             std::vector<Exit> &out) override
  {
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "drv")
    {
      if (fn == "textData")
        return done(Val::ptr(input, 0));
      if (fn == "container")
        return done(Val::top());
      if (fn == "function")
      {
        fnList.push_back({(int)number(I, s, a[0]), (int)number(I, s, a[2]), literal(I, s, a[1]), {}});
        for (char c : fnList.back().name)
          letters.insert((unsigned char)c);
        return done(Val::top());
      }
      if (fn == "alias")
      {
        fnList.back().aliases.push_back(literal(I, s, a[1]));
        for (char c : fnList.back().aliases.back())
          letters.insert((unsigned char)c);
        return done(Val::top());
      }
      if (fn == "flag")
      {
        u64 f = number(I, s, a[0]);
        for (u64 v = 0; v < 2; v++)
        {
          State t = s;
          note(t, L_FLAG + 2 * f + v);
          out.push_back({Val::cst(v), t});
        }
        return true;
      }
      if (fn == "called")
      {
        note(s, L_CALL + number(I, s, a[0]));
        if (oneTarget(a[2]))
        {
          Val v = fieldOf(I, s, a[2], 0, IntegerType::get(P.M.getContext(), 32));
          u64 n;
          note(s, L_ARG + (I.isConst(s, v, n) ? n & 0xfff : 0xfff));
        }
        return done(Val::top());
      }
      if (fn == "fails")
      {
        for (u64 v = 0; v < 2; v++)
        {
          State t = s;
          note(t, L_SET + v);
          out.push_back({Val::cst(v), t});
        }
        return true;
      }
      if (fn == "readValue")
      {
        int p = (int)s.ts[1] - 1;
        note(s, L_READ + (u64)p);
        for (u64 o = 0; o < 5; o++)
        {
          State t = s;
          note(t, L_OUT + o);
          Val tok = Val::ptr(a[1].p[0].first, a[1].p[0].second + cToken);
          if (o == 0 || o == 4)
          {
            if (p < 0 || p >= (int)stream.size())
              continue;
            t.ts[1] = stream[(size_t)p].match + 1;
            setToken(I, t, tok, stream[(size_t)stream[(size_t)p].match]);
            setField(I, t, a[0], 0, Val::cst((u64)p), 4);
          }
          if (o == 2 && stream[(size_t)p].match != p)
            setToken(I, t, tok, stream[(size_t)t.ts[1]++]);
          if (o == 3)
          {
            if (s.ts[4])
              continue;
            t.ts[4] = 1;
          }
          if (o == 2 || o == 4)
            t = also(I, CB, addMissing, {a[1], Val::cst(o == 2)}, t);
          static const char *res[] = {"NoError", "IllegalDataValue", "UnassignedRequiredMember", "InvalidToken", "NoError"};
          out.push_back({Val::cst(err(res[o])), t});
        }
        return true;
      }
      if (fn == "writeValue")
      {
        note(s, L_RET + number(I, s, a[0]));
        return done(Val::top());
      }
      if (fn == "entry")
      {
        bool ok;
        note(s, L_ENTRY);
        for (auto &v : textOf(I, s, a[0], a[1], ok))
          s.mem[{log, s.ts[3]++}] = Cell{8, v};
        note(s, L_ERR + number(I, s, a[2]));
        for (auto &v : textOf(I, s, a[3], a[4], ok))
          s.mem[{log, s.ts[3]++}] = Cell{8, v};
        note(s, L_MISS + 16 * number(I, s, a[5]) + number(I, s, a[6]));
        return done(Val::top());
      }
      if (fn == "done")
      {
        note(s, L_DONE + number(I, s, a[0]));
        std::vector<Val> all;
        for (int64_t i = 0; i < s.ts[3]; i++)
          all.push_back(s.mem[{log, i}].v);
        nRuns++;
        s.ts[2]++;
        forAll(I, s, all, [&](const std::vector<int> &in, const std::vector<int> &o) {
          nCombos++;
          std::string rule, why;
          if (judge(in, o, rule, why))
            return true;
          R.violation(rule, entry + " " + why, whereOf(s), describe(in, o, why));
          return false;
        });
        R.ok();
        return done(Val::top());
      }
      return false;
    }
    if (sc == "JS::Tokenizer")
    {
      if (fn == "nextToken")
      {
        if (s.ts[4])
          return done(Val::cst(err("InvalidToken")));
        if (s.ts[1] >= (int)stream.size())
        {
          R.violation("reads-past-end", entry, whereOf(s), entry + " asks for a token after the end of the object");
          return true;
        }
        s = also(I, CB, fresh, {a[0]}, s);
        State t = s;
        note(t, L_FAIL + (u64)s.ts[1]);
        t.ts[4] = 1;
        out.push_back({Val::cst(err("InvalidToken")), t});
        setToken(I, s, a[1], stream[(size_t)s.ts[1]++]);
        return done(Val::cst(err("NoError")));
      }
      if (fn == "pushScope")
      {
        s.ts[5] = s.ts[1] - 1;
        return done(Val::top());
      }
      if (fn == "popScope")
        return done(Val::top());
      if (fn == "goToEndOfScope")
      {
        int p = (int)s.ts[5];
        if (p < 0 || p >= (int)stream.size() || stream[(size_t)p].match + 1 <= (int)s.ts[1])
          return done(Val::cst(err("NoError")));
        if (s.ts[4])
          return done(Val::cst(err("InvalidToken")));
        s = also(I, CB, fresh, {a[0]}, s);
        State t = s;
        note(t, L_FAIL + (u64)s.ts[1]);
        t.ts[4] = 1;
        out.push_back({Val::cst(err("InvalidToken")), t});
        s.ts[1] = stream[(size_t)p].match + 1;
        setToken(I, s, a[1], stream[(size_t)stream[(size_t)p].match]);
        return done(Val::cst(err("NoError")));
      }
    }
    if (sc == "JS::Serializer" && fn == "write" && a.size() == 2)
    {
      note(s, L_TOKEN + number(I, s, fieldOf(I, s, a[1], tValueType, i8())));
      return done(Val::cst(1));
    }
    if (fn == "fprintf" || fn == "fwrite" || fn == "fputs")
      return done(Val::cst(1));
    return false;
  }
  std::string describe(const std::vector<int> &in, const std::vector<int> &o, const std::string &why)
  {
    std::string r = why + "; calling";
    for (auto &n : names)
      r += " " + show(std::vector<int>(in.begin() + n.first, in.begin() + n.first + n.second));
    r += " gives";
    for (size_t p = 0; p < o.size();)
    {
      int x = o[p++], k = x & ~0xfff, v = x & 0xfff;
      switch (k)
      {
      case L_READ:
        r += " argument";
        break;
      case L_FAIL:
        r += " input-error";
        break;
      case L_OUT:
        r += v == 0 || v == 4 ? ":ok" : ":error";
        break;
      case L_CALL:
        r += " call(" + fnName(v) + ")";
        break;
      case L_RET:
        r += " result(" + fnName(v) + ")";
        break;
      case L_FLAG:
        r += std::string(v / 2 ? " stop_execute_on_fail=" : " allow_missing=") + std::to_string(v & 1);
        break;
      case L_SET:
        r += v ? ":reports-error" : "";
        break;
      case L_ENTRY:
        r += " entry";
        break;
      case L_ERR:
        r += " error " + errorName[v];
        break;
      case L_DONE:
        r += " ends with " + errorName[v];
        break;
      default:
        break;
      }
      std::vector<int> t;
      while (p < o.size() && o[p] < 0x100)
        t.push_back(o[p++]);
      if (!t.empty())
        r += " " + show(t);
    }
    return r;
  }
  std::string fnName(int n) const
  {
    for (auto &f : fnList)
      if (f.number == n)
        return f.name;
    return std::to_string(n);
  }
  const Fn *find(const std::string &n) const
  {
    for (auto &f : fnList)
      if (f.name == n)
        return &f;
    for (auto &f : fnList)
      for (auto &a : f.aliases)
        if (a == n)
          return &f;
    return nullptr;
  }
  struct Entry
  {
    std::string name;
    u64 error;
    std::string report; // part of it
    int message = -1;   // of the function
    int missing = 0, unassigned = 0;
  };
  bool judge(const std::vector<int> &in, const std::vector<int> &o, std::string &rule, std::string &why)
  {
    auto bad = [&](const char *r, const std::string &w) {
      rule = r;
      why = w;
      return false;
    };
    // the three strands of the log
    std::vector<int> doing, output;
    std::vector<Entry> got;
    bool flags[2] = {false, false};
    u64 result = ~0ull;
    for (size_t p = 0; p < o.size();)
    {
      int x = o[p++], k = x & ~0xfff, v = x & 0xfff;
      std::string t;
      while (p < o.size() && o[p] < 0x100)
        t += char(o[p++]);
      if (k == L_FLAG)
        flags[v / 2] = v & 1;
      else if (k == L_TOKEN || k == L_RET)
        output.push_back(x);
      else if (k == L_ENTRY)
        got.push_back({t, ~0ull, "", -1, 0, 0});
      else if (k == L_ERR)
      {
        got.back().error = (u64)v;
        got.back().report = t;
      }
      else if (k == L_MISS)
      {
        got.back().missing = v / 16;
        got.back().unassigned = v & 15;
      }
      else if (k == L_DONE)
        result = (u64)v;
      else
        doing.push_back(x);
    }
    size_t p = 0;
    auto take = [&](u64 x) {
      if (p < doing.size() && (u64)doing[p] == x)
      {
        p++;
        return true;
      }
      return false;
    };
    auto takeFail = [&](int from, int to) {
      if (p < doing.size() && doing[p] >= (int)L_FAIL + from && doing[p] <= (int)L_FAIL + to)
      {
        p++;
        return true;
      }
      return false;
    };
    std::vector<int> wantOut;
    std::vector<Entry> want;
    u64 wantResult = err("NoError");
    u64 broken = err("InvalidToken");
    if (takeFail(0, 1))
      wantResult = broken;
    else
    {
      wantOut.push_back(int(L_TOKEN + (u64)types.at("ArrayStart")));
      for (size_t m = 0; m < names.size(); m++)
      {
        Entry e;
        e.name = std::string();
        for (int i = 0; i < names[m].second; i++)
          e.name += char(in[(size_t)(names[m].first + i)]);
        e.error = err("NoError");
        const Fn *f = find(e.name);
        int end = stream[(size_t)at[m]].match;
        bool down = false;
        if (!f)
          e.error = err("MissingFunction");
        else
        {
          if (f->kind & 1)
          {
            if (!take(L_READ + (u64)at[m]))
              return bad("wrong-call", "the argument of a function is not read");
            if (p >= doing.size() || (doing[p] & ~0xfff) != (int)L_OUT)
              return bad("wrong-call", "the argument of a function is not read");
            int w = doing[p++] & 0xfff;
            if (w == 1)
              e.error = err("IllegalDataValue");
            if (w == 2)
            {
              e.error = err("UnassignedRequiredMember");
              e.unassigned = 1;
            }
            if (w == 3)
            {
              e.error = broken;
              down = true;
            }
            if (w == 4)
              e.missing = 1;
          }
          else if (takeFail(at[m] + 1, end))
          {
            // while the value is skipped, before the call; a failure after the call changes nothing about it
            down = true;
            e.error = broken;
          }
          if (e.error == err("NoError"))
          {
            if (!take(L_CALL + (u64)f->number))
            {
              if (p < doing.size() && (doing[p] & ~0xfff) == (int)L_CALL)
                return bad("wrong-call", "another function is called");
              return bad("wrong-call", "the function is not called");
            }
            if ((f->kind & 1) && !take(L_ARG + (u64)at[m]))
              return bad("wrong-call", "the function does not get the argument that was read");
            if (f->kind & 4)
            {
              if (take(L_SET + 1))
              {
                e.error = f->number == 7 ? err("IllegalDataValue") : err("UserDefinedErrors");
                e.message = f->number;
              }
              else
                take(L_SET);
            }
            if (e.error == err("NoError") && (f->kind & 2))
              wantOut.push_back(int(L_RET + (u64)f->number));
          }
        }
        if (!down && takeFail(at[m] + 1, end))
          down = true; // behind the call
        want.push_back(e);
        bool error = e.error != err("NoError") && !(e.error == err("MissingFunction") && flags[0]);
        if (flags[1] && error)
        {
          wantResult = e.error;
          break;
        }
        if (down || takeFail(end + 1, end + 1))
        {
          wantResult = broken;
          break;
        }
      }
      wantOut.push_back(int(L_TOKEN + (u64)types.at("ArrayEnd")));
    }
    if (p != doing.size())
      return bad("wrong-call", (doing[p] & ~0xfff) == (int)L_CALL ? "a function is called that should not be" : "something is read that should not be");
    if (output != wantOut)
      return bad("wrong-output", "the list of results is not that of the calls that succeeded");
    if (got.size() != want.size())
      return bad("wrong-report", "the execution list does not have one entry for each call");
    for (size_t i = 0; i < got.size(); i++)
    {
      auto &g = got[i], &w = want[i];
      if (g.name != w.name)
        return bad("wrong-report", "an entry of the execution list has another name");
      if (g.error != w.error)
        return bad("wrong-report", "an entry of the execution list has another error");
      if (g.missing != w.missing || g.unassigned != w.unassigned)
        return bad("wrong-report", "an entry of the execution list has other missing or unassigned members");
      if (w.error == err("NoError"))
      {
        if (!g.report.empty())
          return bad("wrong-report", "a call that succeeded has an error report");
        continue;
      }
      size_t q = g.report.find("message ");
      int msg = q == std::string::npos ? -1 : atoi(g.report.c_str() + q + 8);
      if (msg != w.message)
        return bad("wrong-report", w.message < 0 ? "the error report contains the message of another call"
                                                 : "the error report does not contain the message of the call");
      if (w.error != err("UserDefinedErrors") && (g.report + ":").find(" " + errorName[(int64_t)w.error]) == std::string::npos)
        return bad("wrong-report", "the error report does not name the error");
    }
    if (result != wantResult)
      return bad("wrong-result", "callFunctions returns something else");
    return true;
  }
};
struct CallRun
{
  std::vector<std::vector<std::vector<u64>>> names;
  std::vector<int> kinds;
};
} // namespace

int checkCalls(Program &P, Report &R, const std::vector<std::string> &args)
{
  bool deep = false;
  Budget budget(R, args);
  unsigned shard = 0, nShards = 1, number = 0;
  for (auto &a : args)
  {
    deep |= a == "deep";
    if (startsWith(a, "shard="))
      sscanf(a.c_str(), "shard=%u/%u", &shard, &nShards);
  }
  std::map<std::string, const Function *> fns;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (startsWith(n, "drv::") && !F.isDeclaration())
      fns[n.substr(5)] = &F;
  }
  for (auto *n : {"calls", "freshToken", "addMissing"})
    if (!fns.count(n))
      throw BrokenAnalysis(std::string("driver function missing: ") + n);
  auto any = TextPolicy::any();
  auto lit = [&](const std::string &t) {
    std::vector<std::vector<u64>> r;
    for (char c : t)
      r.push_back({u64((unsigned char)c)});
    return r;
  };
  auto free = [&](int n) { return std::vector<std::vector<u64>>((size_t)n, any); };
  std::vector<CallRun> todo;
  todo.push_back({{}, {}});
  for (int k = 0; k < 3; k++)
    for (int n = 0; n <= 3; n++)
      todo.push_back({{free(n)}, {k}});
  for (int i = 0; i < 7; i++)
  {
    auto t = lit("shadow");
    if (i < 6)
      t[(size_t)i] = any;
    else
      t.push_back(any);
    todo.push_back({{t}, {0}});
  }
  std::vector<std::string> first = {"a", "ab", "b", "bb", "bx", "kk", "c", "cd", "d", "dd", "e", "ef", "f", "g", "shadow", "x", "qq", "zz"};
  for (size_t i = 0; i < first.size(); i++)
  {
    todo.push_back({{lit(first[i]), free(1)}, {int(i % 2), int((i + 1) % 2)}});
    if (deep)
    {
      todo.push_back({{lit(first[i]), free(2)}, {int((i + 1) % 2), int(i % 2)}});
      todo.push_back({{free(2), lit(first[i])}, {int((i + 1) % 2), int(i % 2)}});
      for (auto &g : first)
        todo.push_back({{lit(first[i]), lit(g), lit("d")}, {0, 1, 0}});
    }
  }
  todo.push_back({{lit("d"), lit("zz"), lit("b")}, {0, 1, 0}});
  todo.push_back({{lit("cd"), lit("dd"), lit("b")}, {1, 0, 1}});
  todo.push_back({{lit("zz"), lit("fg"), lit("a"), lit("ef")}, {0, 0, 0, 0}});

  u64 steps = 0, combos = 0, runs = 0, shapes = 0, acc = 0, allocs = 0;
  std::set<const Function *> followed;
  for (auto &r : todo)
  {
    if (number++ % nShards != shard)
      continue;
    CallPolicy pol(P, R);
    pol.entry = "calls";
    pol.fresh = fns["freshToken"];
    pol.addMissing = fns["addMissing"];
    Interp I(P, pol);
    I.precise = I.strict = true;
    I.cap = 10000000;
    I.intCap = 64;
    I.maxSteps = ~0ull;
    I.tick = [&] { budget.check(); };
    I.maxDepth = 120;
    State s;
    s.ts = {0, 0, 0, 0, 0, -1};
    pol.log = I.obj(ObjInfo::Named, "log");
    std::vector<std::vector<u64>> in;
    pol.stream.push_back({"ObjectStart", 0, 0, 0});
    for (size_t i = 0; i < r.names.size(); i++)
    {
      int off = (int)in.size(), len = (int)r.names[i].size();
      in.insert(in.end(), r.names[i].begin(), r.names[i].end());
      pol.names.push_back({off, len});
      int k = r.kinds[i], p = (int)pol.stream.size();
      pol.at.push_back(p);
      if (k == 0)
        pol.stream.push_back({i % 2 ? "Null" : "Number", off, len, p});
      else
      {
        std::string b = k == 1 ? "ObjectStart" : "ArrayStart", e = k == 1 ? "ObjectEnd" : "ArrayEnd";
        pol.stream.push_back({b, off, len, p + 5});
        pol.stream.push_back({b, off, k == 1 ? len : 0, p + 3});
        pol.stream.push_back({"String", off, len, p + 2});
        pol.stream.push_back({e, 0, 0, p + 3});
        pol.stream.push_back({"Number", off, k == 1 ? len : 0, p + 4});
        pol.stream.push_back({e, 0, 0, p + 5});
      }
    }
    pol.stream.push_back({"ObjectEnd", 0, 0, (int)pol.stream.size()});
    pol.setInput(I, s, in);
    std::vector<Val> as;
    static const char *nm[] = {"a0", "a1", "a2", "a3"};
    for (unsigned i = 0; i < fns["calls"]->arg_size(); i++)
      as.push_back(Val::ptr(I.obj(ObjInfo::Named, nm[i]), 0));
    auto ex = I.run(*fns["calls"], as, s, 0, 0);
    if (ex.empty())
      R.violation("wrong-result", "calls ends", "calls", "callFunctions never returns");
    if (getenv("JSA_V"))
      std::cerr << "calls " << r.names.size() << " " << in.size() << " steps " << I.steps << " combos " << pol.nCombos << " runs " << pol.nRuns
                << " " << clock() / 1000 << "\n";
    shapes++;
    steps += I.steps;
    combos += pol.nCombos;
    runs += pol.nRuns;
    acc += pol.nAcc;
    allocs += pol.nAlloc;
    for (auto *f : I.analysed)
      if (P.inJS(f))
        followed.insert(f);
  }
  R.add("call_shapes", shapes);
  R.add("interpreted_blocks", steps);
  R.add("paths_judged", runs);
  R.add("name_combinations_compared", combos);
  R.add("bounded_accesses", acc);
  R.add("heap_objects", allocs);
  R.add("library_functions_followed", followed.size());
  return 0;
}
} // namespace jsa
