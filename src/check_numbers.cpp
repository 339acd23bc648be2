// Integers and boolean values: the value read from a text, and the text written for a value.
#include "text.h"
namespace jsa
{
namespace
{
enum : int
{
  L_OK = 0x1000,
  L_ERR = 0x1001,
  L_TYPE = 0x2000,
  L_DEC = 0x3000, // sign, exponent, number of digits, digits
};
struct NumPolicy : TextPolicy
{
  int log = -1;
  bool isSigned = true, isBool = false, reading = true, isFloat = false, decimal = false;
  u64 nDecimal = 0;
  unsigned width = 4;
  u64 nRuns = 0, nCombos = 0;
  std::map<std::string, int64_t> &types, &errors;
  NumPolicy(Program &P, Report &R) : TextPolicy(P, R), types(P.enums.at("JS::Type")), errors(P.enums.at("JS::Error"))
  {
  }
  bool special(u64) const override
  {
    return true;
  }
  void note(State &s, const Val &v)
  {
    s.mem[{log, s.ts[3]++}] = Cell{8, v};
  }
  void notes(State &s, const Val &v, unsigned n)
  {
    for (unsigned i = 0; i < n; i++)
    {
      if (v.k != Val::Ints || (v.dep < 0 && v.s.size() != 1))
        throw BrokenAnalysis("a value in " + entry + " is not a function of the text");
      Val b;
      b.k = Val::Ints;
      b.dep = v.dep;
      for (u64 x : v.s)
        b.s.push_back((x >> (8 * i)) & 0xff);
      for (auto &x : v.t)
        b.t.push_back({x.first, (x.second >> (8 * i)) & 0xff});
      note(s, b);
    }
  }
  bool event(Interp &I, const CallBase &CB, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
             std::vector<Exit> &out) override
  {
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "JS::Serializer" && fn == "write" && a.size() == 2)
    {
      u64 k;
      bool ok;
      if (!I.isConst(s, fieldOf(I, s, a[1], tValueType, i8()), k))
        throw BrokenAnalysis("unknown kind of token in " + entry);
      note(s, Val::cst(u64(L_TYPE) + k));
      Val d = fieldOf(I, s, a[1], tValue + drData, ptrTy()), n = fieldOf(I, s, a[1], tValue + drSize, i64());
      for (auto &v : textOf(I, s, d, n, ok))
        note(s, v);
      if (!ok)
        return true;
      return done(Val::cst(1));
    }
    if (decimal && sc == "JS::Internal::ft" && fn == "convertToNumber" && !a.empty())
    {
      // the decimal number that is converted
      nDecimal++;
      std::string c = "JS::Internal::ft::float_base10<unsigned long>";
      auto part = [&](const char *f, unsigned n) {
        Val v = fieldOf(I, s, a[0], P.field(c, f), IntegerType::get(P.M.getContext(), n * 8));
        notes(s, v, n);
      };
      note(s, Val::cst(L_DEC));
      part("negative", 1);
      part("exp", 4);
      part("significand_digit_count", 1);
      part("significand", 8);
      return done(Val::top());
    }
    if (decimal && nDecimal && startsWith(sc, "JS::") && CB.getType()->isFloatingPointTy())
      return done(Val::top()); // floating point arithmetic afterwards
    if (fn == "fprintf" || fn == "fwrite" || fn == "fputs")
      return done(Val::cst(1));
    if (sc != "drv")
      return false;
    if (fn == "textData")
      return done(Val::ptr(input, 0));
    if (fn == "textSize")
      return done(Val::cst((u64)inputSize));
    if (fn == "result")
    {
      u64 e;
      if (!I.isConst(s, a[0], e))
        throw BrokenAnalysis("unknown result in " + entry);
      note(s, Val::cst(e == (u64)errors.at("NoError") ? L_OK : L_ERR));
      if (e == (u64)errors.at("NoError"))
        if (!decimal)
          notes(s, fieldOf(I, s, a[1], 0, IntegerType::get(P.M.getContext(), width * 8)), width);
      return done(Val::top());
    }
    if (fn == "done")
    {
      std::vector<Val> all;
      for (int64_t i = 0; i < s.ts[3]; i++)
        all.push_back(s.mem[{log, i}].v);
      nRuns++;
      forAll(I, s, all, [&](const std::vector<int> &in, const std::vector<int> &o) {
        nCombos++;
        std::string rule, why;
        if (reading ? judgeRead(in, o, rule, why) : judgeWrite(in, o, rule, why))
          return true;
        R.violation(rule, entry, whereOf(s), entry + ": " + why);
        return false;
      });
      R.ok();
      return done(Val::top());
    }
    return false;
  }
  typedef unsigned __int128 Big;
  static std::string dec(Big v, bool neg)
  {
    std::string r;
    do
      r.insert(r.begin(), char('0' + int(v % 10)));
    while (v /= 10);
    return (neg ? "-" : "") + r;
  }
  std::string typeText() const
  {
    return isBool ? "bool" : std::string(isSigned ? "int" : "uint") + std::to_string(width * 8) + "_t";
  }
  bool judgeRead(const std::vector<int> &in, const std::vector<int> &o, std::string &rule, std::string &why)
  {
    std::string t(in.begin(), in.end());
    size_t q = 0;
    auto bytes = [&](unsigned n) {
      u64 v = 0;
      for (unsigned i = 0; i < n; i++)
        v |= u64(o.at(q++) & 0xff) << (8 * i);
      return v;
    };
    u64 dNeg = 0, dSig = 0;
    int dExp = 0, dCount = 0;
    bool dec = o.at(0) == L_DEC;
    if (dec)
    {
      q++;
      dNeg = bytes(1);
      dExp = (int)bytes(4);
      dCount = (int)bytes(1);
      dSig = bytes(8);
    }
    bool ok = o.at(q++) == L_OK;
    u64 got = ok && !decimal ? bytes(width) : 0;
    if (isBool)
    {
      bool valid = t == "true" || t == "false";
      rule = "wrong-value";
      if (valid != ok)
        why = show(in) + (ok ? " is accepted as a bool" : " is rejected");
      else if (ok && got != (t == "true"))
        why = show(in) + " is read as " + std::to_string(got);
      else
        return true;
      return false;
    }
    // JSON number?
    size_t p = 0;
    bool neg = false, valid = true;
    std::string digits; // without the point
    long exp = 0;
    auto isD = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
    if (p < t.size() && t[p] == '-')
    {
      neg = true;
      p++;
    }
    size_t from = p;
    while (isD())
      digits += t[p++];
    valid = p > from && (t[from] != '0' || p == from + 1);
    if (p < t.size() && t[p] == '.')
    {
      p++;
      from = p;
      while (isD())
      {
        digits += t[p++];
        exp--;
      }
      valid &= p > from;
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
    {
      p++;
      bool eneg = false;
      if (p < t.size() && (t[p] == '+' || t[p] == '-'))
        eneg = t[p++] == '-';
      from = p;
      long e = 0;
      while (isD())
        e = std::min(e * 10 + (t[p++] - '0'), 1000000000l);
      valid &= p > from;
      exp += eneg ? -e : e;
    }
    valid &= p == t.size();
    if (!valid)
    {
      // other characters cannot be part of a number
      if (ok && t.find_first_not_of("0123456789+-.eE \t\n\v\f\r") != std::string::npos)
      {
        rule = "accepts-malformed";
        why = show(in) + " is read as " + typeText();
        return false;
      }
      return true;
    }
    if (!ok)
    {
      rule = "rejects-valid";
      why = show(in) + " is rejected as " + typeText();
      return false;
    }
    if (isFloat)
    {
      digits.erase(0, digits.find_first_not_of('0'));
      rule = "wrong-value";
      why = show(in);
      if (!decimal)
      {
        // zero
        if (got == (neg ? 1ull << (width * 8 - 1) : 0))
          return true;
        why += " is not read as zero";
        return false;
      }
      if (!dec)
        return true;
      if (bool(dNeg) != neg)
      {
        why += " is read with another sign";
        return false;
      }
      if (digits.empty())
      {
        if (!dSig)
          return true;
        why += " is not read as zero";
        return false;
      }
      // the first digits, at least 17 of them
      std::string s = this->dec(dSig, false);
      long e = dExp, count = (long)s.size();
      if (dCount != count)
      {
        why += " is read with a wrong number of digits";
        return false;
      }
      while (s.size() > 1 && s.back() == '0')
      {
        s.pop_back();
        e++;
      }
      size_t n = digits.find_last_not_of('0') + 1;
      if (n > (size_t)count && count >= 17)
      {
        exp += long(digits.size() - (size_t)count);
        digits.resize((size_t)count);
        n = digits.find_last_not_of('0') + 1;
      }
      exp += long(digits.size() - n);
      digits.resize(n);
      // exponents beyond any float may be cut off
      bool far = exp > 1000000 ? e > 1000000 : exp < -1000000 ? e < -1000000 : e == exp;
      if (s == digits && far)
        return true;
      why += " is read as " + s + "e" + std::to_string(e) + " instead of " + digits + "e" + std::to_string(exp);
      return false;
    }
    // the integer part
    while (exp < 0 && !digits.empty())
    {
      digits.pop_back();
      exp++;
    }
    digits.erase(0, digits.find_first_not_of('0'));
    Big v = 0, cap = Big(1) << 100;
    if (!digits.empty())
    {
      for (char c : digits)
        v = std::min(v * 10 + Big(c - '0'), cap);
      for (long i = 0; i < exp && v < cap; i++)
        v = std::min(v * 10, cap);
    }
    Big max = (Big(1) << (width * 8 - (isSigned ? 1 : 0))) - 1;
    Big lim = neg ? (isSigned ? max + 1 : 0) : max;
    v = std::min(v, lim);
    u64 m = width == 8 ? ~0ull : (1ull << (width * 8)) - 1;
    u64 want = (neg ? u64(0) - u64(v) : u64(v)) & m;
    if (want == got)
      return true;
    rule = "wrong-value";
    why = show(in) + " is read as " + shown(got) + " instead of " + shown(want) + " (" + typeText() + ")";
    return false;
  }
  std::string shown(u64 v) const
  {
    if (isSigned && (v >> (width * 8 - 1)))
    {
      u64 m = width == 8 ? ~0ull : (1ull << (width * 8)) - 1;
      return dec((~v + 1) & m, true);
    }
    return dec(v, false);
  }
  bool judgeWrite(const std::vector<int> &in, const std::vector<int> &o, std::string &rule, std::string &why)
  {
    u64 v = 0;
    for (unsigned i = 0; i < width; i++)
      v |= u64(in.at(i) & 0xff) << (8 * i);
    std::string want = isBool ? (v & 1 ? "true" : "false") : shown(v);
    std::string got;
    for (size_t i = 1; i < o.size(); i++)
      got += char(o[i]);
    rule = "wrong-text";
    if (o.empty())
      why = want + " is not written (" + typeText() + ")";
    else if (o[0] != L_TYPE + types.at(isBool ? "Bool" : "Number"))
      why = want + " is written as another kind of value (" + typeText() + ")";
    else if (got != want)
      why = want + " is written as " + show(std::vector<int>(o.begin() + 1, o.end())) + " (" + typeText() + ")";
    else
      return true;
    return false;
  }
};
struct NumRun
{
  std::string type;
  bool read;
  std::vector<std::vector<u64>> in;
};
} // namespace

int checkNumbers(Program &P, Report &R, const std::vector<std::string> &args)
{
  bool deep = false;
  Budget budget(R, args);
  unsigned shard = 0, nShards = 1, number = 0;
  for (auto &a : args)
  {
    deep |= a == "deep";
    if (startsWith(a, "shard="))
      sscanf(a.c_str(), "shard=%u/%u", &shard, &nShards);
  }
  std::map<std::string, const Function *> fns;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (startsWith(n, "drv::") && !F.isDeclaration())
      fns[n.substr(5)] = &F;
  }
  // d: a digit, ?: anything, s: nothing, a sign or a digit
  auto pattern = [&](const std::string &t) {
    std::vector<std::vector<u64>> r;
    for (char c : t)
      if (c == 'd')
      {
        std::vector<u64> v;
        for (u64 x = '0'; x <= '9'; x++)
          v.push_back(x);
        r.push_back(v);
      }
      else if (c == '?')
        r.push_back(TextPolicy::any());
      else
        r.push_back({u64((unsigned char)c)});
    return r;
  };
  std::vector<std::string> ints = {"S1", "U1", "C1", "S2", "U2", "S4", "U4", "S8", "U8", "L8", "M8"};
  std::vector<NumRun> todo;
  for (auto &ty : ints)
  {
    int width = ty[1] - '0';
    bool sgn = ty[0] == 'S' || ty[0] == 'L' || ty[0] == 'C';
    unsigned __int128 max = ((unsigned __int128)1 << (width * 8 - (sgn ? 1 : 0))) - 1;
    std::string lim = NumPolicy::dec(max, false);
    std::set<std::string> pats = {"d", "dd", "ddd", "?", "??", "-d?", "d?", "?d", "dd?", "d.d", "d.dd", "ded", "deddd", "dEdd", "de+dd", "de-d", "dde-d", "d.ded", "d.dde-d",
                                  "d.dde+d", "0edd", "0.0edd", "0.00edd", "12345678901234567890123dd", "d.00000000000000000000000dd", "dd.123456789012345678901234567890",
                                  "0.000000000000000000000dedd", "9ed", "9edd", "99edd", "18446744073709551615.dd", "18446744073709551615edd",
                                  "d0000000000000000000000e-dd", "1234567890123456789012345678ded", "1e999999999d", "1e-999999999d"};
    // around the limits of the type
    for (size_t k = 0; k < lim.size(); k++)
    {
      std::string s = lim;
      s[k] = 'd';
      pats.insert(s);
      if (k + 1 < lim.size())
      {
        s[k + 1] = 'd';
        if (deep || k + 2 >= lim.size() || !k)
          pats.insert(s);
      }
    }
    pats.insert(lim + "d");
    pats.insert(lim + ".d");
    pats.insert(lim + "ed");
    pats.insert("d" + lim);
    pats.insert(lim.substr(0, lim.size() - 1) + "ded");
    pats.insert(lim.substr(0, 1) + "." + lim.substr(1) + "edd");
    pats.insert("de" + std::to_string(lim.size() - 1));
    pats.insert("dde" + std::to_string(lim.size() - 2));
    for (auto &p : pats)
    {
      todo.push_back({ty, true, pattern(p)});
      if (p[0] != '-' && p[0] != '?')
        todo.push_back({ty, true, pattern("-" + p)});
    }
    for (int pos = 0; pos < width; pos++)
      for (u64 bg : {0x00, 0xff, 0x80, 0x7f, 0x5a})
        for (u64 top : {0x00, 0xff, 0x80, 0x7f})
        {
          if (width == 1 && (bg || top))
            continue;
          std::vector<std::vector<u64>> in((size_t)width, {bg});
          in.back() = {top};
          in[(size_t)pos] = TextPolicy::any();
          todo.push_back({ty, false, in});
        }
  }
  for (auto *p : {"true", "false"})
    for (size_t k = 0; k < strlen(p); k++)
    {
      std::string s = p;
      s[k] = '?';
      todo.push_back({"B1", true, pattern(s)});
      todo.push_back({"B1", true, pattern(std::string(p).substr(0, k + 1))});
    }
  for (auto *p : {"true?", "false?", "?true", "tr??", "??se", "", "?"})
    todo.push_back({"B1", true, pattern(p)});
  todo.push_back({"B1", false, {{0, 1}}});
  for (const char *ty : {"F8", "F4"})
  {
    for (auto *p : {"d", "dd", "ddd", "?", "??", "d?", "-d?", "d?d", "dd.d", "d.dd", "0.0dd", "0.00000000000000000000000dd", "00?", "ded", "dedd", "de+d", "de-dd", "d.de-d", "d.dEd", "0.0ded",
                    "123456789012345678d", "1234567890123456789d", "12345678901234567dd", "1844674407370955161d", "18446744073709551dd.5", "9999999999999999999d", "99999999999999999999999dd",
                    "d0000000000000000000000000", "d.0000000000000000000000000d", "1234567890.1234567890123dde-dd", "0.d1234567890123456789d", "100000000000000000000000d.de+d",
                    "d12345678901234567890e5", "1e9999999999d", "de-9999999999d", "1234567890123456789.d", "123456789012345678901.dd", "0.01234567890123456789d"})
    {
      todo.push_back({ty, true, pattern(p)});
      if (p[0] == 'd' || p[0] == '1' || p[0] == '0')
        todo.push_back({ty, true, pattern(std::string("-") + p)});
    }
    if (ty[1] == '4')
      continue;
    for (auto *p : {"0", "0.0", "0edd", "0eddd", "0.00e+ddd", "0e-ddd", "0.000000000000000000000000000000", "0e9999999d"})
    {
      todo.push_back({std::string(ty) + "z", true, pattern(p)});
      todo.push_back({std::string(ty) + "z", true, pattern(std::string("-") + p)});
    }
  }

  u64 steps = 0, combos = 0, runs = 0, shapes = 0, acc = 0, undecided = 0;
  std::set<const Function *> followed;
  for (auto &r : todo)
  {
    if (number++ % nShards != shard)
      continue;
    std::string fn = (r.read ? "read" : "write") + r.type.substr(0, 2);
    if (!fns.count(fn))
      throw BrokenAnalysis("driver function missing: " + fn);
    NumPolicy pol(P, R);
    pol.entry = fn;
    pol.reading = r.read;
    pol.width = unsigned(r.type[1] - '0');
    pol.isBool = r.type[0] == 'B';
    pol.isFloat = r.type[0] == 'F';
    pol.decimal = r.type[0] == 'F' && r.type.size() == 2;
    pol.isSigned = r.type[0] == 'S' || r.type[0] == 'L' || r.type[0] == 'C';
    Interp I(P, pol);
    I.precise = I.strict = I.splitVars = true;
    I.cap = 10000000;
    I.intCap = 64;
    I.maxSteps = ~0ull;
    I.tick = [&] { budget.check(); };
    I.maxDepth = 120;
    State s;
    s.ts = {0, 0, 0, 0, 0};
    pol.log = I.obj(ObjInfo::Named, "log");
    pol.setInput(I, s, r.in);
    std::vector<Val> as;
    static const char *nm[] = {"a0", "a1", "a2"};
    for (unsigned i = 0; i < fns[fn]->arg_size(); i++)
      as.push_back(Val::ptr(I.obj(ObjInfo::Named, nm[i]), 0));
    std::vector<Exit> ex;
    try
    {
      ex = I.run(*fns[fn], as, s, 0, 0);
    }
    catch (BrokenAnalysis &b)
    {
      // floating point arithmetic is beyond this analysis
      if (!pol.isFloat || pol.nDecimal || startsWith(b.what(), "not finished"))
        throw;
      if (getenv("JSA_V"))
        std::cerr << fn << ": " << b.what() << "\n";
      undecided++;
      continue;
    }
    if (ex.empty())
      R.violation("wrong-value", fn + " ends", fn, fn + " never returns");
    if (getenv("JSA_V"))
    {
      std::string t;
      for (auto &x : r.in)
        t += x.size() == 1 ? char(x[0]) : x.size() == 10 ? 'd' : '?';
      std::cerr << fn << " " << t << " steps " << I.steps << " combos " << pol.nCombos << " runs " << pol.nRuns << " " << clock() / 1000 << "\n";
    }
    shapes++;
    steps += I.steps;
    combos += pol.nCombos;
    runs += pol.nRuns;
    acc += pol.nAcc;
    for (auto *f : I.analysed)
      if (P.inJS(f))
        followed.insert(f);
  }
  R.add("text_shapes", shapes);
  R.add("float_shapes_not_decided", undecided);
  R.add("interpreted_blocks", steps);
  R.add("paths_judged", runs);
  R.add("values_compared", combos);
  R.add("bounded_accesses", acc);
  R.add("library_functions_followed", followed.size());
  return 0;
}
} // namespace jsa
