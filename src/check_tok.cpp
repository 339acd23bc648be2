// Tokenizer analysis.
//
// One step of a consumer (register a piece of input if none is registered, ask for one token) is interpreted abstractly
// from every reachable boundary state, to a fixpoint over boundary states: the input is a stream of unknown bytes that
// arrives in pieces of 1..K bytes, nesting and stream length are unbounded.  Next to it runs a reference automaton of the
// accepted language (Mon), which is fed the same unknown bytes and says which token, with which name and text, is due.
#include "common.h"
#include <ctime>
#include <sstream>
#include <unordered_set>

namespace jsa
{
namespace
{
enum St
{
  ST,    // a value, a member name or a closing bracket may follow
  CM,    // after a comma: a value or member name must follow
  NSTR,  // in a quoted name
  NESC,
  NWORD, // in an unquoted name
  NEND,  // after a name
  COL,   // after the colon
  VSTR,
  VESC,
  VNUM,
  VWORD,
  AV, // after a value
  DEAD
};
const char *stName[] = {"start of a value or member",
                        "after a comma",
                        "in a quoted name",
                        "in an escape of a name",
                        "in an unquoted name",
                        "after a name",
                        "after a colon",
                        "in a string",
                        "in an escape of a string",
                        "in a number",
                        "in a word",
                        "after a value",
                        "malformed"};
const char *words[] = {"true", "false", "null"};
// word progress: 0 = other text, 1 + 8 * word + length = a prefix of a keyword
inline int wNode(int w, int n)
{
  return 1 + 8 * w + n;
}
struct Role
{
  int s = 0;  // 0 none, 1 open, 2 closed
  int ts = 0; // where the text starts in the current piece
  int te = 0; // where it ends, when closed
  int l = 0;  // how much of it lies in earlier pieces (saturating)
  int k = 0;  // 0 quoted or number, 1 word
};
struct Mon
{
  int st = ST, node = 0, com = 0;
  int M = 0, SZ = -1, ch = 0;
  int r0 = 0, r1 = -1; // innermost open containers at the last token: 0 none, 1 array, 2 object; -1 not looked at
  int sop = 0;         // effect of the outstanding token: 1/2 opened array/object, 3 closed
  int cpop = 0, cn = 0, c0 = 0, c1 = 0; // what the code did to its own stack
  Role n, v;
  int ev = 0, evn = 0; // outstanding token: kind + 1, has a name
  int cb = 0;          // pieces delivered by the callback during this call
  int over = 0;        // a second token became due while one was outstanding
  int rel = 0;         // 1 + name of a piece given back but not reported to the release callback
  int q = 0;           // size of a second piece registered behind the current one
  int rs = 0;          // being reset: 1 begun, 2 the current piece was reported as released, 3 nobody wants such reports, 4 dropped
  int old = 0;         // containers of the document before the reset are still open
};
std::vector<int> pack(const Mon &m)
{
  return {m.st,   m.node, m.com,  m.M,    m.SZ,   m.ch,   m.r0,   m.r1,   m.sop,  m.cpop, m.cn,
          m.c0,   m.c1,   m.n.s,  m.n.ts, m.n.te, m.n.l,  m.n.k,  m.v.s,  m.v.ts, m.v.te, m.v.l,
          m.v.k,  m.ev,   m.evn,  m.cb,   m.over, m.rel,  m.q,    m.rs,   m.old};
}
Mon unpack(const std::vector<int> &t)
{
  Mon m;
  size_t i = 0;
  for (int *p : {&m.st, &m.node, &m.com, &m.M, &m.SZ, &m.ch, &m.r0, &m.r1, &m.sop, &m.cpop, &m.cn, &m.c0, &m.c1, &m.n.s,
                 &m.n.ts, &m.n.te, &m.n.l, &m.n.k, &m.v.s, &m.v.ts, &m.v.te, &m.v.l, &m.v.k, &m.ev, &m.evn, &m.cb, &m.over,
                 &m.rel, &m.q, &m.rs, &m.old})
    *p = t[i++];
  return m;
}
enum Kind
{
  KString,
  KAscii,
  KNumber,
  KObjectStart,
  KObjectEnd,
  KArrayStart,
  KArrayEnd,
  KBool,
  KNull
};
const char *kindNames[] = {"String", "Ascii", "Number", "ObjectStart", "ObjectEnd", "ArrayStart", "ArrayEnd", "Bool", "Null"};

struct Flags
{
  bool ascii, newline, comma, comments;
};

bool isWs(int c)
{
  return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}
bool isLetter(int c)
{
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
bool isDigit(int c)
{
  return c >= '0' && c <= '9';
}
bool wordChar(int c)
{
  return isLetter(c) || isDigit(c) || c == '^' || c == '_' || c == '`' || c == '-' || c == '.' || c == '/';
}
bool numStart(int c)
{
  return isDigit(c) || c == '+' || c == '-';
}
bool numChar(int c)
{
  return isDigit(c) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E';
}

// ---- the reference automaton
struct Spec
{
  Flags f;
  void die(Mon &m) const
  {
    int M = m.M, SZ = m.SZ, ch = m.ch, r0 = m.r0, r1 = m.r1, cpop = m.cpop, cn = m.cn, c0 = m.c0, c1 = m.c1, cb = m.cb,
        rel = m.rel, q = m.q;
    m = Mon();
    m.st = DEAD;
    m.M = M;
    m.SZ = SZ;
    m.ch = ch;
    m.r0 = r0;
    m.r1 = r1;
    m.cpop = cpop;
    m.cn = cn;
    m.c0 = c0;
    m.c1 = c1;
    m.cb = cb;
    m.rel = rel;
    m.q = q;
  }
  int top(const Mon &m) const
  {
    if (m.sop == 1 || m.sop == 2)
      return m.sop;
    if (m.sop == 3)
      return m.r1;
    return m.r0;
  }
  void emit(Mon &m, int kind) const
  {
    if (m.ev)
      m.over = 1;
    m.ev = kind + 1;
    m.evn = m.n.s == 2;
  }
  int wordKind(const Mon &m) const
  {
    if (m.node == wNode(0, 4) || m.node == wNode(1, 5))
      return KBool;
    if (m.node == wNode(2, 4))
      return KNull;
    return KAscii;
  }
  static int stepWord(int node, int c)
  {
    if (!node)
      return 0;
    int w = (node - 1) / 8, n = (node - 1) % 8;
    const char *t = words[w];
    if (n < (int)strlen(t) && t[n] == c)
      return wNode(w, n + 1);
    return 0;
  }
  static int startWord(int c)
  {
    for (int w = 0; w < 3; w++)
      if (words[w][0] == c)
        return wNode(w, 1);
    return 0;
  }
  void open(Role &r, int at, int kind) const
  {
    r.s = 1;
    r.ts = at;
    r.te = 0;
    r.l = 0;
    r.k = kind;
  }
  void close(Role &r, int at) const
  {
    r.s = 2;
    r.te = at;
  }
  void value(Mon &m, int c, bool inArray) const
  {
    (void)inArray;
    switch (c)
    {
    case '"':
      m.st = VSTR;
      open(m.v, m.M + 1, 0);
      return;
    case '{':
    case '[':
      emit(m, c == '{' ? KObjectStart : KArrayStart);
      m.v.s = 2;
      m.v.ts = m.M;
      m.v.te = m.M + 1;
      m.v.l = 0;
      m.v.k = 0;
      m.sop = c == '{' ? 2 : 1;
      m.st = ST;
      return;
    default:
      break;
    }
    if (numStart(c))
    {
      m.st = VNUM;
      open(m.v, m.M, 0);
      return;
    }
    if (isLetter(c))
    {
      m.st = VWORD;
      open(m.v, m.M, 1);
      m.node = startWord(c);
      return;
    }
    die(m);
  }
  // one byte at position m.M; m.M advances.  The container in force must be known.
  void feed(Mon &m, int c) const
  {
    again:
    if (m.com == 1)
    {
      if (c == '/')
        m.com = 2;
      else
        die(m);
      m.M++;
      return;
    }
    if (m.com == 2)
    {
      if (c != '\n')
      {
        m.M++;
        return;
      }
      m.com = 0;
      if (!f.newline)
      {
        m.M++;
        return;
      }
    }
    switch (m.st)
    {
    case DEAD:
      break;
    case NSTR:
    case VSTR:
      if (c == '\\')
        m.st = m.st == NSTR ? NESC : VESC;
      else if (c == '"')
      {
        if (m.st == NSTR)
        {
          close(m.n, m.M);
          m.st = NEND;
        }
        else
        {
          close(m.v, m.M);
          emit(m, KString);
          m.st = AV;
        }
      }
      break;
    case NESC:
      m.st = NSTR;
      break;
    case VESC:
      m.st = VSTR;
      break;
    case NWORD:
      if (wordChar(c))
      {
        m.node = stepWord(m.node, c);
        break;
      }
      if (wordKind(m) != KAscii)
      {
        die(m);
        break;
      }
      close(m.n, m.M);
      m.node = 0;
      m.st = NEND;
      goto again;
    case VNUM:
      if (numChar(c))
        break;
      finish(m);
      goto again;
    case VWORD:
      if (wordChar(c))
      {
        m.node = stepWord(m.node, c);
        break;
      }
      if (wordKind(m) == KAscii && !f.ascii)
      {
        die(m);
        break;
      }
      finish(m);
      goto again;
    case ST:
    case CM:
    case NEND:
    case COL:
    case AV: {
      int t = top(m);
      if (m.st == AV && t == 0)
        m.st = ST;
      if (f.comments && c == '/')
      {
        m.com = 1;
        break;
      }
      if (m.st == NEND)
      {
        if (c == '\n' && f.newline)
          die(m);
        else if (isWs(c))
          ;
        else if (c == ':')
          m.st = COL;
        else
          die(m);
        break;
      }
      if (m.st == AV)
      {
        if (c == '\n' && f.newline)
        {
          m.st = ST;
          break;
        }
        if (isWs(c))
          break;
        if (c == ',')
        {
          // one comma may trail a scalar element of an array
          bool scalar = m.v.s == 2 && m.sop == 0 && m.ev;
          m.st = scalar && t == 1 ? ST : CM;
          if (m.node == 77)
            m.st = ST;
          m.node = 0;
          break;
        }
        if ((c == ']' && t == 1) || (c == '}' && t == 2))
        {
          m.node = 0;
          m.n = Role();
          emit(m, c == ']' ? KArrayEnd : KObjectEnd);
          m.v = Role();
          m.v.s = 2;
          m.v.ts = m.M;
          m.v.te = m.M + 1;
          m.sop = 3;
          m.st = AV;
          break;
        }
        die(m);
        break;
      }
      if (isWs(c))
        break;
      if (m.st == COL)
      {
        value(m, c, false);
        break;
      }
      // ST, CM
      if ((c == ']' && t == 1) || (c == '}' && t == 2))
      {
        if (m.st == CM && !f.comma)
        {
          die(m);
          break;
        }
        emit(m, c == ']' ? KArrayEnd : KObjectEnd);
        m.v = Role();
        m.v.s = 2;
        m.v.ts = m.M;
        m.v.te = m.M + 1;
        m.sop = 3;
        m.st = AV;
        break;
      }
      if (t == 2)
      {
        if (c == '"')
        {
          m.st = NSTR;
          open(m.n, m.M + 1, 0);
          break;
        }
        if (f.ascii && isLetter(c))
        {
          m.st = NWORD;
          open(m.n, m.M, 1);
          m.node = startWord(c);
          break;
        }
        die(m);
        break;
      }
      if (t == 0)
      {
        if (c == '{' || c == '[')
          value(m, c, false);
        else
          die(m);
        break;
      }
      value(m, c, true);
      break;
    }
    }
    m.M++;
  }
  // the number or word that is open ends before the current position
  void finish(Mon &m) const
  {
    int k = m.st == VNUM ? (int)KNumber : wordKind(m);
    close(m.v, m.M);
    emit(m, k);
    m.node = 0;
    m.st = AV;
  }
  // nothing that can follow makes the input well formed
  bool hopeless(const Mon &m) const
  {
    return m.st == DEAD || (m.st == VWORD && !f.ascii && !m.node);
  }
  bool continues(const Mon &m, int c) const
  {
    return m.st == VNUM ? numChar(c) : wordChar(c);
  }
  bool needsTop(const Mon &m) const
  {
    return m.st == ST || m.st == CM || m.st == NEND || m.st == COL || m.st == AV || m.st == VNUM || m.st == VWORD ||
           m.st == NWORD;
  }
};

struct TokPolicy : Policy
{
  Program &P;
  Report &R;
  Spec spec;
  int K;
  bool refill = false; // the callback that asks for more data may deliver a piece
  bool queue = false;  // two pieces may be registered at a time
  bool resets = false; // the tokenizer is also reset, from every state
  // long pieces: filled with one character except for a window of unknown bytes, which starts anywhere
  std::vector<int> longs;
  int fill = -1, window = 2;
  std::string cfg;
  int chunk[2] = {-1, -1}, dl = -1, cs = -1, tk = -1;
  int64_t drData, drSize, tName, tValue, tNameType, tValueType;
  std::map<int64_t, std::string> errName;
  int64_t eNo, eMore;
  std::map<int64_t, int> typeKind;
  std::vector<State> next; // boundary states found by the current step
  u64 nVec = 0, nTokens = 0, nMore = 0, nErr = 0, nFed = 0, nAcc = 0;
  std::map<std::string, u64> samples;

  TokPolicy(Program &p, Report &r) : P(p), R(r)
  {
    drData = P.field("JS::DataRef", "data");
    drSize = P.field("JS::DataRef", "size");
    tName = P.field("JS::Token", "name");
    tValue = P.field("JS::Token", "value");
    tNameType = P.field("JS::Token", "name_type");
    tValueType = P.field("JS::Token", "value_type");
    for (auto &x : P.enums.at("JS::Error"))
      errName[x.second] = x.first;
    eNo = P.enums.at("JS::Error").at("NoError");
    eMore = P.enums.at("JS::Error").at("NeedMoreData");
    auto &T = P.enums.at("JS::Type");
    for (int i = 0; i < 9; i++)
      typeKind[T.at(kindNames[i])] = i;
  }
  void init(Interp &I)
  {
    tk = I.obj(ObjInfo::Named, "tokenizer");
    chunk[0] = I.obj(ObjInfo::Named, "piece0");
    chunk[1] = I.obj(ObjInfo::Named, "piece1");
    dl = I.obj(ObjInfo::Named, "data_list");
    cs = I.obj(ObjInfo::Named, "container_stack");
  }

  // ---- reporting
  std::string example(const State &s) const
  {
    std::vector<std::string> v;
    for (auto t = s.tr; t; t = t->prev)
      v.push_back(t->what);
    std::string r;
    for (size_t i = v.size(); i-- > 0;)
      r += v[i];
    return r;
  }
  void viol(Interp &I, const State &s, const std::string &rule, const std::string &key, const std::string &msg)
  {
    Mon m = unpack(s.ts);
    std::string rest;
    if (m.SZ >= 0)
      for (int i = m.M; i < m.SZ; i++)
      {
        auto it = s.mem.find({chunk[m.ch], i});
        if (it == s.mem.end())
          rest += "?";
        else
        {
          bool ok;
          auto d = I.values(s, it->second.v, ok);
          rest += d.size() > 200 ? std::string("?") : show(int(pick(d)));
        }
      }
    const Instruction *at = s.loc ? s.loc : I.cur;
    std::string where = at ? P.where(*at) + " (" + bareFn(*at->getFunction()) + ")" : "";
    R.violation(rule, key, where, msg + " (" + cfg + "; example input, | between pieces: " + example(s) +
                                                           rest + ")");
  }
  static u64 pick(const std::vector<u64> &d)
  {
    static const char pref[] = "\"\\[]{}:,1at/ \nx";
    for (const char *p = pref; *p; p++)
      if (std::binary_search(d.begin(), d.end(), u64((unsigned char)*p)))
        return u64(*p);
    return d.empty() ? '?' : d[0];
  }
  static std::string show(int c)
  {
    if (c == '\n')
      return "\\n";
    if (c == '\t')
      return "\\t";
    if (c == '\r')
      return "\\r";
    if (c >= 32 && c < 127)
      return std::string(1, char(c));
    char b[8];
    snprintf(b, sizeof b, "\\x%02x", c);
    return b;
  }

  // ---- input pieces
  Val byteVar(Interp &I, State &s, int o, int64_t off)
  {
    std::vector<u64> d;
    for (u64 i = 1; i < 256; i++)
      d.push_back(i);
    return I.mkVar(s, nullptr, I.varId(this, -1, u64(o) * 1000 + u64(off)), d);
  }
  bool isChunk(int o) const
  {
    return o == chunk[0] || o == chunk[1];
  }
  // register a piece of every size
  void pieces(Interp &I, const State &s, std::vector<State> &out)
  {
    for (int n = 1; n <= K; n++)
      piece(I, s, n, 0, n, out);
    for (int n : longs)
      for (int w = 0; w + window <= n; w++)
        piece(I, s, n, w, w + window, out);
  }
  void piece(Interp &I, const State &s, int n, int from, int to, std::vector<State> &out)
  {
    State t = s;
    Mon m = unpack(t.ts);
    bool second = m.SZ >= 0;
    if (second)
      m.q = n;
    else
    {
      m.ch = 1 - m.ch;
      m.SZ = n;
      m.M = 0;
    }
    t.ts = pack(m);
    int o = chunk[second ? 1 - m.ch : m.ch];
    t.mem.drop_if([&](const auto &x) { return x.first.first == o; });
    for (int i = 0; i < n; i++)
      t.mem[{o, i}] = Cell{1, i >= from && i < to ? byteVar(I, t, o, i) : Val::cst(u64(fill))};
    if (!second)
      t.note("|");
    out.push_back(t);
  }
  // reveal the container below the closed one when it is needed
  void reveal(const State &s, std::vector<State> &out)
  {
    for (int k = 0; k < 3; k++)
    {
      State t = s;
      Mon m = unpack(t.ts);
      m.r1 = k;
      t.ts = pack(m);
      out.push_back(t);
    }
  }
  std::vector<State> feedTo(Interp &I, std::vector<State> in, int target)
  {
    std::vector<State> out;
    while (!in.empty())
    {
      State s = std::move(in.back());
      in.pop_back();
      Mon m = unpack(s.ts);
      if (m.M >= target)
      {
        out.push_back(std::move(s));
        continue;
      }
      if (m.st == DEAD)
      {
        m.M = target;
        s.ts = pack(m);
        out.push_back(std::move(s));
        continue;
      }
      if (spec.needsTop(m) && spec.top(m) < 0)
      {
        reveal(s, in);
        continue;
      }
      nFed++;
      int o = chunk[m.ch];
      auto it = s.mem.find({o, m.M});
      if (it == s.mem.end())
      {
        Cell c{1, byteVar(I, s, o, m.M)};
        s.mem[{o, m.M}] = c;
        it = s.mem.find({o, m.M});
      }
      bool ok;
      Val bv = it->second.v;
      auto dom = I.values(s, bv, ok);
      if (!ok)
        throw BrokenAnalysis("input byte not tracked");
      std::map<std::vector<int>, std::vector<u64>> g;
      for (u64 c : dom)
      {
        Mon x = m;
        spec.feed(x, int(c & 0xff));
        g[pack(x)].push_back(c);
      }
      for (auto &x : g)
      {
        State t = s;
        t.ts = x.first;
        if (bv.dep >= 0)
        {
          // restrict the variable behind the byte
          std::vector<u64> nd;
          auto &cur = t.vars[bv.dep];
          for (auto &e : bv.t)
            if (std::binary_search(cur.begin(), cur.end(), e.first) &&
                std::binary_search(x.second.begin(), x.second.end(), e.second))
              nd.push_back(e.first);
          cur = nd;
        }
        else
          t.mem[{o, m.M}].v = Val::set(x.second);
        t.note(show(int(pick(x.second))));
        in.push_back(std::move(t));
      }
    }
    return out;
  }

  // ---- text held in strings: a shadow of every std::string met
  struct Str
  {
    int tag = 0; // 0 empty, 1 text of the name, 2 text of the value, 3 anything else
    int from = 0, upto = 0; // the part of the current piece it covers
    int seg = 0;            // it does not start at the beginning of that text
    int len = 0;
    int gen = 0;
    int w = 0; // the characters are followed (words only)
  };
  int strObj(Interp &I, int o, int64_t off)
  {
    return I.obj(ObjInfo::Named, "text", nullptr, 0, o, off);
  }
  bool strOf(Interp &I, const Val &p, int &d)
  {
    if (p.k != Val::Ptr || p.dep >= 0 || p.p.size() != 1 || p.p[0].second == UNKOFF)
      return false;
    d = strObj(I, p.p[0].first, p.p[0].second);
    return true;
  }
  Str getStr(Interp &I, const State &s, int d)
  {
    Str r;
    auto g = [&](int64_t o, int &f) {
      auto it = s.mem.find({d, o});
      u64 c;
      if (it == s.mem.end())
        return;
      if (!I.isConst(s, it->second.v, c))
      {
        r.tag = 3;
        r.len = 99;
        return;
      }
      f = int(c);
    };
    g(1000, r.tag);
    g(1001, r.upto);
    g(1002, r.len);
    g(1003, r.gen);
    g(1004, r.w);
    g(1005, r.from);
    g(1006, r.seg);
    return r;
  }
  void putStr(State &s, int d, const Str &x)
  {
    s.mem[{d, 1000}] = Cell{1, Val::cst(u64(x.tag))};
    s.mem[{d, 1001}] = Cell{1, Val::cst(u64(x.upto))};
    s.mem[{d, 1002}] = Cell{1, Val::cst(u64(x.len))};
    s.mem[{d, 1003}] = Cell{1, Val::cst(u64(x.gen))};
    s.mem[{d, 1004}] = Cell{1, Val::cst(u64(x.w))};
    s.mem[{d, 1005}] = Cell{1, Val::cst(u64(x.seg ? x.from : 0))};
    s.mem[{d, 1006}] = Cell{1, Val::cst(u64(x.seg))};
  }
  void clearStr(State &s, int d)
  {
    for (int i = 0; i < 8; i++)
      s.mem.erase({d, i});
    putStr(s, d, Str());
  }
  static int capOf(const Str &x)
  {
    return x.w ? WMAX : 2;
  }
  // the characters of this string no longer matter
  void coarsen(State &s, int d, Str &x)
  {
    for (int i = 0; i < 8; i++)
      s.mem.erase({d, i});
    x.w = 0;
    x.len = std::min(x.len, 2);
  }
  static const int WMAX = 6; // words are followed character by character up to this length
  int strVar(Interp &I, int d, int gen)
  {
    return I.varId(this, -1, 5000000 + u64(d) * 16 + u64(gen));
  }
  Val strSize(Interp &I, State &s, int d)
  {
    Str x = getStr(I, s, d);
    int cap = capOf(x);
    if (x.len < cap)
      return Val::cst(u64(x.len));
    int id = strVar(I, d, x.gen);
    std::vector<u64> dom = {u64(cap), u64(cap + 1), 1000};
    if (cap < 4)
      dom = {u64(cap), u64(cap + 1), 4, 5, 1000};
    auto it = s.vars.find(id);
    if (it != s.vars.end())
    {
      Val v;
      v.k = Val::Ints;
      v.dep = id;
      for (u64 q : it->second)
        v.t.push_back({q, q});
      return v;
    }
    return I.mkVar(s, nullptr, id, dom);
  }
  // content (src, n) goes to the end of string d
  void append(Interp &I, State s, int d, const Val &src, const Val &nv, std::vector<State> &out)
  {
    u64 n;
    Str x = getStr(I, s, d);
    x.gen = (x.gen + 1) % 8;
    if (!I.isConst(s, nv, n))
    {
      int sd;
      // a whole other string
      if (src.k == Val::Ptr && src.p.size() == 1 && src.dep < 0 && src.p[0].second == 0 &&
          I.info(src.p[0].first).kind == ObjInfo::Named && I.info(src.p[0].first).name == "text" && x.len == 0)
      {
        sd = src.p[0].first;
        Str y = getStr(I, s, sd);
        int g = x.gen;
        if (nv.dep == strVar(I, sd, y.gen))
        {
          x = y;
          x.gen = g;
          for (int i = 0; i < 8; i++)
          {
            s.mem.erase({d, i});
            auto it = s.mem.find({sd, i});
            if (it != s.mem.end())
              s.mem[{d, i}] = it->second;
          }
          putStr(s, d, x);
          out.push_back(s);
          return;
        }
      }
      // the next part of the same text
      if (src.k == Val::Ptr && src.p.size() == 1 && src.dep < 0 && src.p[0].second == 0 && I.info(src.p[0].first).name == "text")
      {
        Str y = getStr(I, s, src.p[0].first);
        if (nv.dep == strVar(I, src.p[0].first, y.gen) && y.seg && (x.tag == 1 || x.tag == 2) && y.tag == x.tag && y.from == x.upto)
        {
          x.upto = y.upto;
          x.len = capOf(x);
          for (int i = 0; i < 8; i++)
            s.mem.erase({d, i});
          putStr(s, d, x);
          out.push_back(s);
          return;
        }
      }
      x.tag = 3;
      x.len = 99;
      coarsen(s, d, x);
      putStr(s, d, x);
      out.push_back(s);
      return;
    }
    if (n == 0)
    {
      out.push_back(s);
      return;
    }
    if (src.k != Val::Ptr || src.dep >= 0 || src.p.size() != 1 || src.p[0].second == UNKOFF)
    {
      x.tag = 3;
      x.len = std::min<int>(99, x.len + int(std::min<u64>(n, 90)));
      coarsen(s, d, x);
      putStr(s, d, x);
      out.push_back(s);
      return;
    }
    int so = src.p[0].first;
    int64_t off = src.p[0].second;
    std::vector<State> sts;
    Mon m0 = unpack(s.ts);
    if (isChunk(so))
    {
      if (!access(I, s, so, off, int64_t(n), "copies text from"))
      {
        return;
      }
      sts = feedTo(I, {s}, int(off + (int64_t)n));
    }
    else
      sts.push_back(s);
    for (auto &t : sts)
    {
      Str y = x;
      Mon m = unpack(t.ts);
      int tag = 3;
      if (m.st != DEAD && isChunk(so))
      {
        for (int r = 1; r <= 2; r++)
        {
          const Role &q = r == 1 ? m.n : m.v;
          if (!q.s)
            continue;
          bool fresh = y.tag == 0 && y.len == 0;
          if (!fresh && (y.tag != r || off != y.upto))
            continue;
          int lim = q.s == 2 ? q.te : m.M;
          if (off >= q.ts && off + (int64_t)n <= lim)
          {
            tag = r;
            if (fresh)
            {
              y.seg = q.l > 0 || off != q.ts;
              y.from = int(off);
            }
            y.upto = int(off + (int64_t)n);
          }
        }
      }
      else if (I.info(so).name == "text" && off == 0)
      {
        Str z = getStr(I, t, so);
        if (y.len == 0 && z.len == (int)n)
        {
          tag = z.tag;
          y.from = z.from;
          y.upto = z.upto;
          y.seg = z.seg;
        }
        else if (z.len == (int)n && z.seg && (y.tag == 1 || y.tag == 2) && z.tag == y.tag && z.from == y.upto)
        {
          tag = y.tag;
          y.upto = z.upto;
        }
      }
      if (tag == 3)
        y.w = 0;
      else if (isChunk(so))
      {
        if (y.tag == 0)
          y.w = (tag == 1 ? m.n : m.v).k;
      }
      else if (y.len == 0)
        y.w = getStr(I, t, so).w;
      y.tag = tag;
      int cap = capOf(y);
      // remember the characters of words
      bool keep = y.w && y.len + n < WMAX;
      if (!keep)
        for (int i = 0; i < 8; i++)
          t.mem.erase({d, i});
      else
        for (u64 i = 0; i < n; i++)
        {
          auto it = t.mem.find({so, off + (int64_t)i});
          if (it != t.mem.end() && it->second.size == 1)
          {
            Val v = it->second.v;
            t.mem[{d, y.len + (int)i}] = Cell{1, v};
          }
          else
            t.mem.erase({d, y.len + (int)i});
        }
      y.len = std::min<int>(cap, y.len + int(std::min<u64>(n, 50)));
      putStr(t, d, y);
      out.push_back(t);
    }
  }
  void copyStr(Interp &I, State &s, int dst, int src)
  {
    Str y = getStr(I, s, src), x = getStr(I, s, dst);
    int g = (x.gen + 1) % 8;
    for (int i = 0; i < 8; i++)
    {
      s.mem.erase({dst, i});
      auto it = s.mem.find({src, i});
      if (it != s.mem.end())
        s.mem[{dst, i}] = it->second;
    }
    y.gen = g;
    putStr(s, dst, y);
  }

  // ---- accesses to the input
  bool access(Interp &I, State &s, int o, int64_t off, int64_t len, const char *what)
  {
    Mon m = unpack(s.ts);
    nAcc++;
    std::string fn = I.cur ? bareFn(*I.cur->getFunction()) : "";
    if (m.q > 0 && o != chunk[m.ch])
      throw BrokenAnalysis("a piece of input is read before its turn, in " + fn);
    if (m.SZ < 0 || o != chunk[m.ch])
    {
      s.loc = I.cur;
      viol(I, s, "released-input", fn, std::string(what) + " a piece of input that was already given back");
      return false;
    }
    if (off == UNKOFF)
      throw BrokenAnalysis("an access to the input at a position the analysis cannot determine, in " + fn);
    if (off < 0 || off + len > m.SZ)
    {
      s.loc = I.cur;
      viol(I, s, "outside-input", fn,
           std::string(what) + " position " + std::to_string(off) + " of a piece of " + std::to_string(m.SZ) + " bytes");
      return false;
    }
    R.ok();
    s.locOff = off;
    s.loc = I.cur;
    return true;
  }
  std::string bareFn(const Function &F)
  {
    return Program::stripParams(P.name(&F));
  }
  bool onInit(Interp &I, int o, int64_t off, Type *ty, State &s, Val &out) override
  {
    if (isChunk(o) && ty->isIntegerTy(8))
    {
      out = byteVar(I, s, o, off);
      return true;
    }
    return false;
  }
  bool onLoad(Interp &I, const LoadInst &L, const Val &p, State &s, int, Val &out) override
  {
    if (p.k != Val::Ptr)
      return false;
    for (auto &t : p.p)
      if (isChunk(t.first))
      {
        int64_t off = p.dep >= 0 ? UNKOFF : t.second;
        if (L.getType()->isVectorTy())
          nVec++;
        if (!access(I, s, t.first, off, (int64_t)I.DL.getTypeStoreSize(L.getType()), "reads"))
        {
          out = Val::top();
          if (L.getType()->isIntegerTy(8))
          {
            std::vector<u64> d;
            for (u64 i = 0; i < 256; i++)
              d.push_back(i);
            out = Val::set(d);
          }
          return true;
        }
      }
    return false;
  }

  // ---- calls
  std::map<const Function *, std::pair<std::string, std::string>> names;
  const std::pair<std::string, std::string> &nameOf(const Function *F)
  {
    auto it = names.find(F);
    if (it != names.end())
      return it->second;
    std::string q = Program::stripParams(P.name(F));
    return names[F] = {scopeOf(q), bare(lastComponent(q))};
  }
  bool shouldInline(Interp &, const Function &) override
  {
    return true;
  }
  static bool oneTarget(const Val &v)
  {
    return v.k == Val::Ptr && v.dep < 0 && v.p.size() == 1 && v.p[0].second != UNKOFF;
  }
  // text read through pointers: compare byte by byte after the automaton has separated the cases
  bool needFeed(Interp &I, State &s, const Val &p, u64 n, std::vector<State> &out)
  {
    if (!oneTarget(p) || !isChunk(p.p[0].first) || n == 0)
    {
      out.push_back(s);
      return true;
    }
    if (!access(I, s, p.p[0].first, p.p[0].second, (int64_t)n, "reads"))
      return false;
    Mon m = unpack(s.ts);
    out = feedTo(I, {s}, std::max<int>(m.M, int(p.p[0].second + (int64_t)n)));
    return true;
  }
  Val byteAt(Interp &I, State &s, const Val &p, u64 i)
  {
    return I.load(s, nullptr, Val::ptr(p.p[0].first, p.p[0].second + (int64_t)i), IntegerType::get(P.M.getContext(), 8), -1,
                  this);
  }
  bool onCall(Interp &I, const CallBase &CB, const Function *F, const std::vector<Val> &a, State &s, int ctx,
              std::vector<Exit> &out) override
  {
    if (auto *II = dyn_cast<IntrinsicInst>(&CB))
    {
      auto id = II->getIntrinsicID();
      if (id == Intrinsic::memcpy || id == Intrinsic::memmove)
      {
        u64 n;
        if (oneTarget(a[1]) && isChunk(a[1].p[0].first) && I.isConst(s, a[2], n))
        {
          std::vector<State> sts;
          if (!needFeed(I, s, a[1], n, sts))
            return true;
          for (auto &t : sts)
          {
            I.copyMem(t, a[0], a[1], (int64_t)n);
            out.push_back({Val::top(), t});
          }
          return true;
        }
      }
      return false;
    }
    if (!F)
      throw BrokenAnalysis("indirect call in " + bareFn(*CB.getFunction()));
    auto &nm = nameOf(F);
    const std::string &sc = nm.first, &fn = nm.second;
    auto done = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (sc == "drv")
      return driver(I, CB, fn, a, s, out);
    if (sc == "JS::Tokenizer" && fn == "updateErrorContext")
      return done(a.size() > 1 ? a[1] : Val::top());
    if (sc == "JS::Internal::ErrorContext")
      return done(Val::top());
    if (startsWith(sc, "std::vector<"))
    {
      if (fn == "reserve" || fn == "shrink_to_fit")
        return done(Val::top());
      if (startsWith(sc, "std::vector<JS::DataRef,"))
        return dataList(I, CB, fn, a, s, out);
      if (startsWith(sc, "std::vector<JS::Type,"))
        return stack(I, CB, fn, a, s, ctx, out);
      return false;
    }
    if (startsWith(sc, "std::function<"))
      return callback(I, sc, fn, a, s, out);
    if (startsWith(sc, "std::__cxx11::basic_string<char,") || startsWith(sc, "std::basic_string<char,"))
      return string(I, CB, fn, a, s, out);
    if (F->getName() == "memcmp" || F->getName() == "bcmp" || F->getName() == "strncmp")
    {
      u64 n;
      if (!I.isConst(s, a[2], n) || !oneTarget(a[0]) || !oneTarget(a[1]))
        return false;
      std::vector<State> x, y;
      if (!needFeed(I, s, a[0], n, x))
        return true;
      for (auto &t : x)
        needFeed(I, t, a[1], n, y);
      for (auto &t : y)
      {
        // fork on the first difference
        State cur = t;
        bool open = true;
        for (u64 i = 0; i < n && open; i++)
        {
          Val p = byteAt(I, cur, a[0], i), q = byteAt(I, cur, a[1], i);
          Val ne = I.binop(cur, p, q, [](u64 l, u64 r, u64 &o) {
            o = (l & 0xff) != (r & 0xff);
            return true;
          });
          if (ne.k != Val::Ints)
            return false;
          State d = cur;
          if (I.refine(d, ne, true))
            out.push_back({Val::cst(1), d});
          open = I.refine(cur, ne, false);
        }
        if (open)
          out.push_back({Val::cst(0), cur});
      }
      return true;
    }
    if (F->getName() == "memchr" && oneTarget(a[0]))
    {
      u64 n, c;
      if (!I.isConst(s, a[2], n) || !I.isConst(s, a[1], c))
        return false;
      if (isChunk(a[0].p[0].first) && n && !access(I, s, a[0].p[0].first, a[0].p[0].second, (int64_t)n, "reads"))
        return true;
      State cur = s;
      bool open = true;
      for (u64 i = 0; i < n && open; i++)
      {
        Val p = byteAt(I, cur, a[0], i);
        Val eq = I.unop(cur, p, [&](u64 l, u64 &o) {
          o = (l & 0xff) == (c & 0xff);
          return true;
        });
        if (eq.k != Val::Ints)
          return false;
        State d = cur;
        if (I.refine(d, eq, true))
          out.push_back({Val::ptr(a[0].p[0].first, a[0].p[0].second + (int64_t)i), d});
        open = I.refine(cur, eq, false);
      }
      if (open)
        out.push_back({Val::cst(0), cur});
      return true;
    }
    if (F->isDeclaration())
    {
      StringRef n = F->getName();
      if (n == "llvm.prefetch")
        return done(Val::top());
    }
    return false;
  }
  // list of registered pieces
  void syncList(State &s)
  {
    Mon m = unpack(s.ts);
    if (m.SZ >= 0)
    {
      s.mem[{dl, drData}] = Cell{8, Val::ptr(chunk[m.ch], 0)};
      s.mem[{dl, drSize}] = Cell{8, Val::cst(u64(m.SZ))};
    }
    else
    {
      s.mem.erase({dl, drData});
      s.mem.erase({dl, drSize});
    }
    if (m.q > 0)
    {
      s.mem[{dl, 16 + drData}] = Cell{8, Val::ptr(chunk[1 - m.ch], 0)};
      s.mem[{dl, 16 + drSize}] = Cell{8, Val::cst(u64(m.q))};
    }
    else
    {
      s.mem.erase({dl, 16 + drData});
      s.mem.erase({dl, 16 + drSize});
    }
  }
  void dropPiece(Interp &I, State s, std::vector<State> &out)
  {
    Mon m0 = unpack(s.ts);
    for (auto &t : feedTo(I, {s}, m0.SZ))
    {
      Mon m = unpack(t.ts);
      // text of the open or outstanding roles moves to "earlier pieces"
      std::vector<std::pair<int, Role *>> rs = {{1, &m.n}, {2, &m.v}};
      for (auto &r : rs)
      {
        Role &q = *r.second;
        if (!q.s)
          continue;
        int end = q.s == 2 ? std::max(q.te, q.ts) : m.SZ;
        int cap = q.k ? WMAX : 2;
        q.l = std::min(cap, q.l + (end - q.ts));
      }
      // every string that holds the text up to the end of this piece still holds all of it
      std::vector<int> ds;
      for (auto &c : t.mem)
        if (c.first.second == 1000 && I.info(c.first.first).name == "text")
          ds.push_back(c.first.first);
      for (int d : ds)
      {
        Str x = getStr(I, t, d);
        if (x.tag == 1 || x.tag == 2)
        {
          Role &q = x.tag == 1 ? m.n : m.v;
          int end = q.s == 2 ? std::max(q.te, q.ts) : m.SZ;
          if (m.st != DEAD && (!q.s || x.seg || (x.upto != end && end != q.ts)))
            x.tag = 3;
          x.seg = 0;
          x.upto = 0;
        }
        putStr(t, d, x);
        for (int i = 0; i < 8; i++)
          if (t.mem.count({d, i}))
            I.plain(t, t.mem[{d, i}].v);
      }
      for (auto &r : rs)
        if (r.second->s)
        {
          r.second->ts = 0;
          r.second->te = 0;
        }
      int o = chunk[m.ch];
      t.mem.drop_if([&](const auto &x) { return x.first.first == o; });
      m.SZ = -1;
      m.M = 0;
      m.rel = 1 + m.ch;
      if (m.q > 0)
      {
        m.SZ = m.q;
        m.q = 0;
        m.ch = 1 - m.ch;
        t.note("|");
      }
      t.ts = pack(m);
      syncList(t);
      out.push_back(t);
    }
  }
  bool dataList(Interp &I, const CallBase &CB, const std::string &fn, const std::vector<Val> &a, State &s,
                std::vector<Exit> &out)
  {
    Mon m = unpack(s.ts);
    int64_t n = m.SZ < 0 ? 0 : m.q > 0 ? 2 : 1;
    auto ret = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (fn == "vector" || fn == "~vector")
      return ret(Val::top());
    if (fn == "size")
      return ret(Val::cst(u64(n)));
    if (fn == "empty")
      return ret(Val::cst(n == 0));
    if (fn == "begin" || fn == "cbegin" || fn == "data")
      return ret(Val::ptr(dl, 0));
    if (fn == "end" || fn == "cend")
      return ret(Val::ptr(dl, 16 * n));
    u64 ix = 0;
    if (fn == "front" || fn == "back" || ((fn == "operator[]" || fn == "at") && I.isConst(s, a[1], ix)))
    {
      if (fn == "back")
        ix = n ? u64(n - 1) : 0;
      if (ix >= u64(n))
      {
        viol(I, s, "outside-input", bareFn(*CB.getFunction()), "takes a piece of input from beyond the list of registered pieces");
        return true;
      }
      return ret(Val::ptr(dl, int64_t(16 * ix)));
    }
    u64 zero;
    if (m.rs && m.rs < 4 &&
        (fn == "clear" || (fn == "resize" && I.isConst(s, a[1], zero) && !zero) || (n && (fn == "pop_back" || fn == "erase")) ||
         (!n && (fn == "push_back" || fn == "emplace_back"))))
    {
      if (n && m.rs == 1)
      {
        m.rs = fn == "erase" || fn == "pop_back" ? 5 : 1;
        if (m.rs == 1)
        {
          viol(I, s, "release", "reset", "a reset drops a piece without passing it to the release callback");
          return true;
        }
      }
      Mon q; // from here on everything is new
      q.ch = n ? 1 - m.ch : m.ch;
      q.SZ = n ? m.q : m.SZ;
      q.rel = m.rs == 5 ? m.ch + 1 : 0;
      q.rs = 4;
      q.old = m.old;
      q.M = m.cb; // the reader starts there
      stale(I, s);
      s.ts = pack(q);
      syncList(s);
      if (fn == "push_back" || fn == "emplace_back")
        return dataList(I, CB, fn, a, s, out);
      return ret(fn == "erase" ? Val::ptr(dl, 0) : Val::top());
    }
    if ((fn == "pop_back" || fn == "clear") && n > 1)
      throw BrokenAnalysis("operation " + fn + " on the list of pieces is not modelled");
    if (fn == "pop_back")
    {
      if (!n)
      {
        viol(I, s, "outside-input", bareFn(*CB.getFunction()), "gives back a piece of input that is not registered");
        return true;
      }
      std::vector<State> ts;
      dropPiece(I, s, ts);
      for (auto &t : ts)
        out.push_back({Val::top(), t});
      return true;
    }
    if (fn == "erase")
    {
      if (!n || !oneTarget(a[1]) || a[1].p[0] != std::make_pair(dl, int64_t(0)))
      {
        viol(I, s, "outside-input", bareFn(*CB.getFunction()), "gives back a piece of input that is not registered");
        return true;
      }
      std::vector<State> ts;
      dropPiece(I, s, ts);
      for (auto &t : ts)
        out.push_back({Val::ptr(dl, 0), t});
      return true;
    }
    if (fn == "clear")
    {
      if (!n)
        return ret(Val::top());
      std::vector<State> ts;
      dropPiece(I, s, ts);
      for (auto &t : ts)
        out.push_back({Val::top(), t});
      return true;
    }
    if (fn == "push_back" || fn == "emplace_back")
    {
      if (n > 1)
        throw BrokenAnalysis("more than two pieces registered");
      Type *pt = PointerType::get(P.M.getContext(), 0), *i64 = IntegerType::get(P.M.getContext(), 64);
      Val d, z;
      if (a.size() == 2)
      {
        if (!oneTarget(a[1]))
          throw BrokenAnalysis("unknown piece registered");
        d = I.load(s, nullptr, Val::ptr(a[1].p[0].first, a[1].p[0].second + drData), pt, -1, &CB);
        z = I.load(s, nullptr, Val::ptr(a[1].p[0].first, a[1].p[0].second + drSize), i64, -1, &CB);
      }
      else if (a.size() == 3)
      {
        d = I.load(s, nullptr, a[1], pt, -1, &CB);
        z = I.load(s, nullptr, a[2], i64, -1, &CB);
      }
      // the piece about to be registered is described by the pending sizes
      u64 zc;
      if (!oneTarget(d) || d.p[0] != std::make_pair(chunk[n ? 1 - m.ch : m.ch], int64_t(0)) || !I.isConst(s, z, zc))
      {
        viol(I, s, "outside-input", bareFn(*CB.getFunction()), "registers something else than the piece it was given");
        return true;
      }
      Mon q = unpack(s.ts);
      int &size = n ? q.q : q.SZ;
      if (-(int)zc - 10 != size)
      {
        viol(I, s, "outside-input", bareFn(*CB.getFunction()), "registers a piece with the wrong size");
        return true;
      }
      size = (int)zc;
      s.ts = pack(q);
      syncList(s);
      return ret(Val::ptr(dl, 16 * n));
    }
    throw BrokenAnalysis("operation " + fn + " on the list of pieces is not modelled");
  }
  bool driver(Interp &I, const CallBase &CB, const std::string &fn, const std::vector<Val> &a, State &s,
              std::vector<Exit> &out)
  {
    if (fn == "any")
    {
      out.push_back({Val::cst(0), s});
      out.push_back({Val::cst(1), s});
      return true;
    }
    if (fn == "chunkData")
    {
      std::vector<State> ts;
      pieces(I, s, ts);
      for (auto &t : ts)
      {
        Mon m = unpack(t.ts);
        int &size = m.q > 0 ? m.q : m.SZ;
        int ch = m.q > 0 ? 1 - m.ch : m.ch;
        size = -size - 10; // not registered yet
        t.ts = pack(m);
        out.push_back({Val::ptr(chunk[ch], 0), t});
      }
      return true;
    }
    if (fn == "chunkSize")
    {
      Mon m = unpack(s.ts);
      out.push_back({Val::cst(u64(-(m.q < 0 ? m.q : m.SZ) - 10)), s});
      return true;
    }
    if (fn == "startIndex")
    {
      Mon m = unpack(s.ts);
      int size = -(m.q < 0 ? m.q : m.SZ) - 10;
      for (int i = 0; i < 2 && i < size; i++)
      {
        State t = s;
        m.cb = i;
        t.ts = pack(m);
        out.push_back({Val::cst(u64(i)), t});
      }
      return true;
    }
    if (fn == "resetting" || fn == "reset")
    {
      Mon m = unpack(s.ts);
      bool done = fn == "reset";
      if (done && m.rel)
      {
        viol(I, s, "release", "reset", "a reset drops a piece without passing it to the release callback");
        return true;
      }
      if (done && (m.rs != 4 || m.SZ < 0))
      {
        viol(I, s, "reset", "piece", "after a reset the new piece is not the one registered");
        return true;
      }
      if (done && m.old)
      {
        viol(I, s, "reset", "containers", "a reset leaves the containers of the previous document open");
        return true;
      }
      if (done)
        R.ok(2);
      m.rs = done ? 0 : 1;
      s.ts = pack(m);
      if (!done)
        s.note(" <reset> ");
      out.push_back({Val::top(), s});
      return true;
    }
    if (fn == "maxBuffers")
    {
      out.push_back({Val::cst(queue ? 2 : 1), s});
      return true;
    }
    if (fn == "token")
      return token(I, CB, a, s, out);
    return false;
  }
  bool callback(Interp &I, const std::string &sc, const std::string &fn, const std::vector<Val> &a, State &s,
                std::vector<Exit> &out)
  {
    bool rel = sc.find("char const*") != std::string::npos;
    if (fn == "operator bool")
    {
      out.push_back({Val::cst(0), s});
      out.push_back({Val::cst(1), s});
      if (rel)
        for (auto &e : out)
        {
          Mon m = unpack(e.st.ts);
          if (e.ret.s[0] == 0)
          {
            m.rel = 0;
            if (m.rs == 1)
              m.rs = 3;
          }
          e.st.ts = pack(m);
        }
      return true;
    }
    if (fn == "operator()")
    {
      if (rel)
      {
        Mon m = unpack(s.ts);
        if (m.rs == 1 && m.SZ >= 0 && oneTarget(a[1]) && a[1].p[0] == std::make_pair(chunk[m.ch], int64_t(0)))
        {
          m.rs = 2;
          s.ts = pack(m);
          R.ok();
          out.push_back({Val::top(), s});
          return true;
        }
        if (!oneTarget(a[1]) || !m.rel || a[1].p[0] != std::make_pair(chunk[m.rel - 1], int64_t(0)))
        {
          viol(I, s, "release", "callback", "the release callback is not given the start of the piece that was just used up");
          return true;
        }
        m.rel = 0;
        s.ts = pack(m);
        R.ok();
        out.push_back({Val::top(), s});
        return true;
      }
      // the consumer may deliver one more piece or nothing
      out.push_back({Val::top(), s});
      Mon m = unpack(s.ts);
      if (refill && m.cb == 0 && m.SZ < 0)
      {
        std::vector<State> ts;
        pieces(I, s, ts);
        for (auto &t : ts)
        {
          Mon q = unpack(t.ts);
          q.cb = 1;
          t.ts = pack(q);
          syncList(t);
          out.push_back({Val::top(), t});
        }
      }
      return true;
    }
    out.push_back({Val::top(), s});
    return true;
  }
  bool stack(Interp &I, const CallBase &CB, const std::string &fn, const std::vector<Val> &a, State &s, int ctx,
             std::vector<Exit> &out)
  {
    Mon m = unpack(s.ts);
    auto ret = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    if (fn == "vector" || fn == "~vector")
      return ret(Val::top());
    auto at = P.enums.at("JS::Type").at("ArrayStart"), ot = P.enums.at("JS::Type").at("ObjectStart");
    // container below what the code pushed during this call
    if (m.cn == 0 && m.cpop == 1 && m.r1 < 0 && fn != "push_back" && fn != "emplace_back")
    {
      std::vector<State> ts;
      reveal(s, ts);
      for (auto &t : ts)
        stack(I, CB, fn, a, t, ctx, out);
      return true;
    }
    if (m.rs && (fn == "clear" || fn == "empty"))
    {
      bool open = m.old;
      if (fn == "clear")
        m.old = 0;
      s.ts = pack(m);
      return ret(Val::cst(!open));
    }
    if (m.rs && fn != "reserve")
      throw BrokenAnalysis("operation " + fn + " on the container stack during a reset is not modelled");
    if (m.cpop > 1)
      throw BrokenAnalysis("the container stack is popped twice for one token");
    int base = m.cpop ? m.r1 : m.r0;
    int top = m.cn == 2 ? m.c1 : m.cn == 1 ? m.c0 : base;
    if (fn == "empty")
      return ret(Val::cst(top == 0));
    if (fn == "size")
    {
      if (base == 0)
        return ret(Val::cst(u64(m.cn)));
      int id = I.varId(&CB, I.subCtx(ctx, &CB), 3);
      return ret(I.mkVar(s, nullptr, id, {u64(m.cn + 1), u64(m.cn + 2), u64(m.cn + 70)}));
    }
    if (fn == "back")
    {
      if (top == 0)
      {
        viol(I, s, "empty-stack", bareFn(*CB.getFunction()), "looks at the innermost container when none is open");
        return true;
      }
      s.mem[{cs, 0}] = Cell{1, Val::cst(u64(top == 1 ? at : top == 2 ? ot : top - 10))};
      return ret(Val::ptr(cs, 0));
    }
    if (fn == "pop_back")
    {
      if (top == 0)
      {
        viol(I, s, "empty-stack", bareFn(*CB.getFunction()), "removes the innermost container when none is open");
        return true;
      }
      if (m.cn)
      {
        m.cn--;
        (m.cn ? m.c1 : m.c0) = 0;
      }
      else
        m.cpop++;
      s.ts = pack(m);
      return ret(Val::top());
    }
    if (fn == "push_back" || fn == "emplace_back")
    {
      Val v = a.size() > 1 ? I.load(s, nullptr, a[1], IntegerType::get(P.M.getContext(), 8), -1, &CB) : Val::top();
      u64 c;
      if (!I.isConst(s, v, c))
        throw BrokenAnalysis("unknown container kind pushed");
      int k = (int64_t)c == at ? 1 : (int64_t)c == ot ? 2 : 10 + (int)c;
      if (m.cn == 2)
        throw BrokenAnalysis("three containers pushed for one token");
      (m.cn ? m.c1 : m.c0) = k;
      m.cn++;
      s.ts = pack(m);
      s.mem[{cs, 0}] = Cell{1, Val::cst(c)};
      return ret(Val::ptr(cs, 0));
    }
    throw BrokenAnalysis("operation " + fn + " on the container stack is not modelled");
  }
  bool string(Interp &I, const CallBase &CB, const std::string &fn, const std::vector<Val> &a, State &s,
              std::vector<Exit> &out)
  {
    auto ret = [&](const Val &v) {
      out.push_back({v, s});
      return true;
    };
    int d;
    if (a.empty() || !strOf(I, a[0], d))
    {
      if (CB.getType()->isVoidTy())
        return ret(Val::top());
      return false;
    }
    auto fromStates = [&](std::vector<State> &ts, const Val &v) {
      for (auto &t : ts)
        out.push_back({v, t});
      return true;
    };
    bool isPtr2 = a.size() > 1 && oneTarget(a[1]);
    // is the argument a std::string object (rather than characters)?
    std::string pt = a.size() > 1 && CB.getCalledFunction() ? P.name(CB.getCalledFunction()) : "";
    size_t par = pt.find('(', pt.rfind(">::") == std::string::npos ? 0 : pt.rfind(">::"));
    std::string sig = par == std::string::npos ? "" : pt.substr(par);
    bool strArg = sig.find("basic_string<") != std::string::npos && isPtr2;
    if (fn == "basic_string")
    {
      clearStr(s, d);
      if (a.size() == 1)
        return ret(Val::top());
      if (strArg)
      {
        int sd = strObj(I, a[1].p[0].first, a[1].p[0].second);
        copyStr(I, s, d, sd);
        return ret(Val::top());
      }
      if (a.size() >= 3)
      {
        std::vector<State> ts;
        append(I, s, d, a[1], a[2], ts);
        return fromStates(ts, Val::top());
      }
      Str x;
      x.tag = 3;
      x.len = 99;
      putStr(s, d, x);
      return ret(Val::top());
    }
    if (fn == "~basic_string")
    {
      for (int64_t o : {0, 1, 2, 3, 4, 5, 6, 7, 1000, 1001, 1002, 1003, 1004, 1005, 1006})
        s.mem.erase({d, o});
      return ret(Val::top());
    }
    if (fn == "clear")
    {
      Str x = getStr(I, s, d);
      clearStr(s, d);
      Str y;
      y.gen = (x.gen + 1) % 8;
      putStr(s, d, y);
      return ret(Val::top());
    }
    if (fn == "reserve" || fn == "shrink_to_fit")
      return ret(Val::top());
    if (fn == "size" || fn == "length")
    {
      Val v = strSize(I, s, d);
      return ret(v);
    }
    if (fn == "empty")
      return ret(Val::cst(getStr(I, s, d).len == 0));
    if (fn == "data" || fn == "c_str" || fn == "begin" || fn == "front" || fn == "cbegin")
      return ret(Val::ptr(d, 0));
    if ((fn == "operator[]" || fn == "at"))
    {
      u64 c;
      if (I.isConst(s, a[1], c))
        return ret(Val::ptr(d, (int64_t)c));
      return ret(Val::ptr(d, UNKOFF));
    }
    bool charArg = fn == "operator+=" && CB.getArgOperand(1)->getType()->isIntegerTy(8);
    if (!charArg && (fn == "append" || fn == "assign" || fn == "operator=" || fn == "operator+="))
    {
      bool set = fn == "assign" || fn == "operator=";
      if (set && strArg)
      {
        copyStr(I, s, d, strObj(I, a[1].p[0].first, a[1].p[0].second));
        return ret(a[0]);
      }
      if (set)
      {
        Str x = getStr(I, s, d), y;
        clearStr(s, d);
        y.gen = (x.gen + 1) % 8;
        putStr(s, d, y);
      }
      std::vector<State> ts;
      if (strArg && a.size() == 2)
      {
        int sd = strObj(I, a[1].p[0].first, a[1].p[0].second);
        Val z = strSize(I, s, sd);
        append(I, s, d, Val::ptr(sd, 0), z, ts);
        return fromStates(ts, a[0]);
      }
      if (a.size() == 3 && isPtr2 && CB.getArgOperand(2)->getType()->isIntegerTy())
      {
        append(I, s, d, a[1], a[2], ts);
        return fromStates(ts, a[0]);
      }
      if (a.size() == 3 && isPtr2 && oneTarget(a[2]) && a[2].p[0].first == a[1].p[0].first)
      {
        append(I, s, d, a[1], Val::cst(u64(a[2].p[0].second - a[1].p[0].second)), ts);
        return fromStates(ts, a[0]);
      }
      Str x = getStr(I, s, d);
      x.tag = 3;
      x.len = 99;
      putStr(s, d, x);
      return ret(a[0]);
    }
    if (fn == "push_back" || charArg)
    {
      // one character: it continues the text when it is the next one of a role
      Mon m = unpack(s.ts);
      Str x = getStr(I, s, d);
      Val src = Val::top();
      std::vector<int> at;
      for (int pos = 0; pos < m.SZ; pos++)
      {
        auto it = s.mem.find({chunk[m.ch], pos});
        if (it != s.mem.end() && it->second.v == a[1])
          at.push_back(pos);
      }
      for (int pos : at)
        if (src.k != Val::Ptr || ((x.tag == 1 || x.tag == 2) ? pos == x.upto : pos == s.locOff))
          src = Val::ptr(chunk[m.ch], pos);
      std::vector<State> ts;
      append(I, s, d, src, Val::cst(1), ts);
      return fromStates(ts, Val::top());
    }
    if (fn == "insert" && a.size() == 4 && a[1].k == Val::Ptr && a[1].dep < 0 && a[1].p.size() == 1)
    {
      // only at the end
      Val z = strSize(I, s, d);
      u64 c;
      std::vector<State> ts;
      if (I.isConst(s, z, c) ? a[1].p[0] == std::make_pair(d, (int64_t)c) : a[1].p[0].first == d && a[1].p[0].second == UNKOFF)
      {
        if (CB.getArgOperand(3)->getType()->isIntegerTy())
          append(I, s, d, a[2], a[3], ts);
        else if (oneTarget(a[2]) && oneTarget(a[3]) && a[2].p[0].first == a[3].p[0].first)
          append(I, s, d, a[2], Val::cst(u64(a[3].p[0].second - a[2].p[0].second)), ts);
        if (!ts.empty())
          return fromStates(ts, Val::ptr(d, UNKOFF));
      }
    }
    if (fn == "swap" && isPtr2)
    {
      int e = strObj(I, a[1].p[0].first, a[1].p[0].second), t = strObj(I, cs, 777);
      copyStr(I, s, t, d);
      copyStr(I, s, d, e);
      copyStr(I, s, e, t);
      for (int64_t o : {0, 1, 2, 3, 4, 5, 6, 7, 1000, 1001, 1002, 1003, 1004, 1005, 1006})
        s.mem.erase({t, o});
      return ret(Val::top());
    }
    if (fn == "capacity" || fn == "max_size")
      return ret(Val::top());
    if (fn == "end" || fn == "cend")
    {
      Val z = strSize(I, s, d);
      u64 c;
      return ret(Val::ptr(d, I.isConst(s, z, c) ? (int64_t)c : UNKOFF));
    }
    throw BrokenAnalysis("std::string::" + fn + " is not modelled");
  }

  // ---- the step's outcome
  Val tokField(Interp &I, State &s, const Val &t, int64_t off, Type *ty)
  {
    return I.load(s, nullptr, Val::ptr(t.p[0].first, t.p[0].second + off), ty, -1, this);
  }
  std::string topName(const Mon &m)
  {
    int t = spec.top(m);
    return t == 0 ? "outside any container" : t == 1 ? "in an array" : t == 2 ? "in an object" : "";
  }
  std::string stStr(const Mon &m)
  {
    std::string r = m.com ? "in a comment" : stName[m.st];
    if (m.st != DEAD && m.st != NSTR && m.st != NESC && m.st != VSTR && m.st != VESC)
      r += " " + topName(m);
    return r;
  }
  // does the reference to text (ptr, size) denote exactly the text of the role?
  bool textOk(Interp &I, State &s, const Val &p, const Val &z, const Role &q, int tag, std::string &why)
  {
    Mon m = unpack(s.ts);
    int len = q.te - q.ts;
    u64 n;
    bool c = I.isConst(s, z, n);
    if (q.l == 0 && len == 0)
    {
      if (c && n == 0)
        return true;
      why = "is not empty";
      return false;
    }
    if (!oneTarget(p))
    {
      why = "points to an unknown place";
      return false;
    }
    int o = p.p[0].first;
    int64_t off = p.p[0].second;
    if (isChunk(o))
    {
      if (m.SZ < 0 || o != chunk[m.ch])
      {
        why = "points into a piece of input that was already given back";
        viol(I, s, "released-input", "token text", "the text of a returned token " + why);
        return false;
      }
      if (q.l > 0)
      {
        why = "misses the part that came in an earlier piece";
        return false;
      }
      if (off != q.ts)
      {
        why = "starts at position " + std::to_string(off) + " instead of " + std::to_string(q.ts);
        return false;
      }
      if (!c || (int)n != len)
      {
        why = "has size " + I.valStr(s, z) + " instead of " + std::to_string(len);
        return false;
      }
      return true;
    }
    if (I.info(o).name == "text" && off == 0)
    {
      Str x = getStr(I, s, o);
      if (x.tag != tag || x.upto != q.te || x.seg)
      {
        // text that ended with the previous piece
        if (!(x.tag == tag && len == 0 && !x.seg))
        {
          why = "is assembled wrongly from several pieces";
          return false;
        }
      }
      int cap = capOf(x);
      if (x.len < cap ? !(c && (int)n == x.len) : !(z.k == Val::Ints && z.dep == strVar(I, o, x.gen)))
      {
        why = "has the wrong size after being assembled from several pieces";
        return false;
      }
      return true;
    }
    why = "points to an unrelated place";
    return false;
  }
  bool token(Interp &I, const CallBase &CB, const std::vector<Val> &a, State &s0, std::vector<Exit> &out)
  {
    bool ok;
    auto errs = I.values(s0, a[0], ok);
    if (a[0].k != Val::Ints || !ok)
      throw BrokenAnalysis("the error code of a step is unknown");
    for (u64 e : errs)
    {
      State s = s0;
      // restrict to this outcome
      Val is = I.unop(s, a[0], [&](u64 x, u64 &o) {
        o = x == e;
        return true;
      });
      if (!I.refine(s, is, true))
        continue;
      Mon m = unpack(s.ts);
      if (m.rel)
        viol(I, s, "release", "missing", "a used up piece of input is not passed to the release callback");
      if ((int64_t)e == eMore)
      {
        nMore++;
        if (m.SZ >= 0)
        {
          viol(I, s, "stalls", "need-more-data", "more data is asked for while a piece of input is still registered");
          continue;
        }
        if (m.cn || m.cpop)
        {
          viol(I, s, "container-stack", "need-more-data", "the containers change although no token is returned");
          continue;
        }
        if (m.over)
        {
          viol(I, s, "lost-token", stStr(m), "input is used up beyond a token that was never returned");
          continue;
        }
        R.ok();
        finishStep(I, s, m, out);
        continue;
      }
      if ((int64_t)e == eNo)
      {
        nTokens++;
        success(I, CB, a, s, out);
        continue;
      }
      // an error: nothing that follows what was looked at may be well formed
      nErr++;
      int far = m.M;
      if (m.SZ >= 0)
        for (int i = m.M; i < m.SZ; i++)
        {
          auto it = s.mem.find({chunk[m.ch], i});
          bool k;
          if (it != s.mem.end() && I.values(s, it->second.v, k).size() < 255)
            far = i + 1;
        }
      for (auto &t : feedTo(I, {s}, far))
      {
        Mon x = unpack(t.ts);
        if (!spec.hopeless(x))
        {
          std::string en = errName.count((int64_t)e) ? errName[(int64_t)e] : std::to_string(e);
          viol(I, t, "rejects-valid", en + " " + stStr(x), "fails with " + en + " " + stStr(x) + " although nothing read so far is malformed");
        }
        else
          R.ok();
      }
      if (resets)
      {
        State t = s;
        Mon x = m;
        x.rs = 9;
        t.ts = pack(x);
        out.push_back({Val::top(), t});
      }
    }
    return true;
  }
  void success(Interp &I, const CallBase &CB, const std::vector<Val> &a, State &s, std::vector<Exit> &out)
  {
    Mon m = unpack(s.ts);
    if (m.SZ < 0 || !oneTarget(a[2]) || a[2].p[0].first != chunk[m.ch])
    {
      if (m.st == DEAD)
        viol(I, s, "accepts-malformed", "token", "returns a token although the input is malformed");
      else
        viol(I, s, "position", "unknown", "after a token the read position is not within the current piece");
      return;
    }
    int cur = (int)a[2].p[0].second;
    if (cur < m.M)
    {
      viol(I, s, "position", "back", "the read position lies before text that was already used");
      return;
    }
    if (cur > m.SZ)
    {
      viol(I, s, "position", "beyond", "the read position lies beyond the end of the piece");
      return;
    }
    for (auto &t0 : feedTo(I, {s}, cur))
    {
      State t = t0;
      Mon x = unpack(t.ts);
      if (x.st == DEAD)
      {
        viol(I, t, "accepts-malformed", "token", "returns a token although the input is malformed");
        continue;
      }
      // a number or word that has just ended: the next byte decides
      if (!x.ev && (x.st == VNUM || x.st == VWORD) && x.M < x.SZ)
      {
        auto it = t.mem.find({chunk[x.ch], x.M});
        bool k;
        std::vector<u64> dom;
        if (it != t.mem.end())
          dom = I.values(t, it->second.v, k);
        bool cont = dom.empty();
        for (u64 c : dom)
          if (spec.continues(x, int(c)))
            cont = true;
        if (cont)
        {
          viol(I, t, "wrong-text", std::string("cut ") + stName[x.st], std::string("returns a token before the end of the value ") + stStr(x));
          continue;
        }
        if (x.st == VWORD && spec.wordKind(x) == KAscii && !spec.f.ascii)
        {
          viol(I, t, "accepts-malformed", "word", "returns a word that is not true, false or null");
          continue;
        }
        spec.finish(x);
        t.ts = pack(x);
      }
      if (!x.ev)
      {
        viol(I, t, "spurious-token", stStr(x), "returns a token " + stStr(x) + " where none has ended");
        continue;
      }
      if (x.over)
      {
        viol(I, t, "lost-token", stStr(x), "input is used up beyond a token that was never returned");
        continue;
      }
      Type *pt = PointerType::get(P.M.getContext(), 0), *i64 = IntegerType::get(P.M.getContext(), 64),
           *i8 = IntegerType::get(P.M.getContext(), 8);
      int kind = x.ev - 1;
      Val vt = tokField(I, t, a[1], tValueType, i8);
      u64 c;
      std::string kn = kindNames[kind];
      if (!I.isConst(t, vt, c) || !typeKind.count((int64_t)c) || typeKind[(int64_t)c] != kind)
      {
        viol(I, t, "wrong-kind-token", kn, "returns kind " + I.valStr(t, vt) + " for a " + kn);
        continue;
      }
      Val np = tokField(I, t, a[1], tName + drData, pt), nz = tokField(I, t, a[1], tName + drSize, i64);
      Val vp = tokField(I, t, a[1], tValue + drData, pt), vz = tokField(I, t, a[1], tValue + drSize, i64);
      std::string why;
      if (x.evn)
      {
        if (!textOk(I, t, np, nz, x.n, 1, why))
        {
          viol(I, t, "wrong-text", "name", "the name of a " + kn + " token " + why);
          continue;
        }
        Val nt = tokField(I, t, a[1], tNameType, i8);
        if (!I.isConst(t, nt, c) || !typeKind.count((int64_t)c) || typeKind[(int64_t)c] != (x.n.k ? KAscii : KString))
        {
          viol(I, t, "wrong-kind-token", "name", "the name has kind " + I.valStr(t, nt));
          continue;
        }
      }
      else if (!I.mustBe(t, nz, 0))
      {
        viol(I, t, "wrong-text", "anonymous " + kn, "a " + kn + " token without a name carries one");
        continue;
      }
      if (!textOk(I, t, vp, vz, x.v, 2, why))
      {
        viol(I, t, "wrong-text", "value " + kn, "the value of a " + kn + " token " + why);
        continue;
      }
      // containers
      bool good = x.sop == 0 ? (x.cn == 0 && x.cpop == 0)
                  : x.sop == 3 ? (x.cn == 0 && x.cpop == 1)
                               : (x.cn == 1 && x.cpop == 0 && x.c0 == x.sop);
      if (!good)
      {
        viol(I, t, "container-stack", kn, "after a " + kn + " token the open containers are not tracked correctly");
        continue;
      }
      R.ok(4);
      samples["token " + kn + (x.evn ? " with name" : "") + (x.v.l || x.n.l ? " from several pieces" : "")]++;
      finishStep(I, t, x, out);
    }
  }
  // names of pieces and string generations do not matter between steps
  void normalize(Interp &I, State &s)
  {
    Mon m = unpack(s.ts);
    if (m.SZ < 0)
      m.ch = 0;
    if (m.n.s == 2 && m.st != NEND)
      m.n.l = std::min(m.n.l, 2);
    s.ts = pack(m);
    std::vector<int> ds;
    for (auto &c : s.mem)
      if (c.first.second == 1000 && I.info(c.first.first).name == "text")
        ds.push_back(c.first.first);
    for (int d : ds)
    {
      Str x = getStr(I, s, d);
      x.gen = 0;
      if ((m.st == DEAD && !x.w) || x.tag == 3)
      {
        if (x.len)
        {
          x.tag = 3;
          x.upto = 0;
        }
        coarsen(s, d, x);
      }
      if (x.tag == 1 && m.n.s != 1 && m.st != NEND && m.st != DEAD)
        coarsen(s, d, x);
      putStr(s, d, x);
    }
  }
  // what the tokenizer is reset from: only its own state matters
  State beforeReset(const State &s)
  {
    State t = s;
    Mon m = unpack(s.ts), q;
    q.ch = m.SZ >= 0 ? m.ch : 0;
    q.SZ = m.SZ >= 0 ? 1 : -1;
    q.old = m.r0 != 0 || m.cn || m.cpop;
    t.ts = pack(q);
    t.mem.drop_if([&](const auto &x) { return isChunk(x.first.first) || x.first.first == dl; });
    syncList(t);
    return t;
  }
  // text collected so far belongs to no token that is still due
  void stale(Interp &I, State &t)
  {
    std::vector<int> ds;
    for (auto &c : t.mem)
      if (c.first.second == 1000 && I.info(c.first.first).name == "text")
        ds.push_back(c.first.first);
    for (int d : ds)
    {
      Str x = getStr(I, t, d);
      if (x.len)
        x.tag = 3;
      putStr(t, d, x);
    }
  }
  void finishStep(Interp &I, State s, Mon m, std::vector<Exit> &out)
  {
    // bring both stacks in step
    std::vector<Mon> ms;
    bool tokenOut = m.SZ >= 0; // a token was returned
    if (tokenOut)
    {
      if (m.sop == 3)
      {
        if (m.r1 >= 0)
        {
          m.r0 = m.r1;
          m.r1 = -1;
          ms.push_back(m);
        }
        else
          for (int k = 0; k < 3; k++)
          {
            Mon q = m;
            q.r0 = k;
            q.r1 = -1;
            ms.push_back(q);
          }
      }
      else
      {
        if (m.sop)
        {
          m.r0 = m.sop;
          m.r1 = -1;
        }
        ms.push_back(m);
      }
    }
    else
      ms.push_back(m);
    for (auto &q : ms)
    {
      State t = s;
      if (tokenOut)
      {
        // a comma after a scalar element may trail
        bool scalarInArray = q.sop == 0 && q.r0 == 1 && q.st == AV;
        q.node = scalarInArray ? 77 : q.st == AV ? 0 : q.node;
        q.ev = q.evn = q.sop = q.cn = q.cpop = q.c0 = q.c1 = 0;
        q.n = Role();
        q.v = Role();
        q.r1 = -1;
        // text collected for the token is stale from here on
        stale(I, t);
      }
      if (q.st == AV && q.r0 == 0 && !q.ev)
      {
        q.st = ST;
        q.node = 0;
      }
      q.cb = 0;
      q.rel = 0;
      // bytes already fed carry no information any more
      if (q.SZ >= 0)
        for (int i = 0; i < q.M; i++)
          t.mem.erase({chunk[q.ch], i});
      t.ts = pack(q);
      out.push_back({Val::top(), t});
    }
  }
};

std::string canon(Interp &I, const State &s)
{
  std::string k;
  for (int x : s.ts)
    k += std::to_string(x) + ",";
  std::map<int, int> ren;
  std::function<void(const Val &)> pv = [&](const Val &v) {
    k += char('a' + v.k);
    if (v.dep >= 0)
    {
      auto it = ren.emplace(v.dep, (int)ren.size()).first;
      k += "v" + std::to_string(it->second) + ":";
      auto d = s.vars.find(v.dep);
      // run-length encoding of the table restricted to the domain
      u64 ps = ~0ull, pe = 0, n = 0;
      if (d != s.vars.end())
        for (auto &x : v.t)
          if (std::binary_search(d->second.begin(), d->second.end(), x.first))
          {
            if (n && x.first == ps + n && x.second == pe + n)
            {
              n++;
              continue;
            }
            if (n)
              k += std::to_string(ps) + ">" + std::to_string(pe) + "*" + std::to_string(n) + " ";
            ps = x.first;
            pe = x.second;
            n = 1;
          }
      if (n)
        k += std::to_string(ps) + ">" + std::to_string(pe) + "*" + std::to_string(n);
    }
    else
      for (u64 x : v.s)
        k += std::to_string(x) + " ";
    for (auto &p : v.p)
      k += std::to_string(p.first) + "+" + std::to_string(p.second) + " ";
    for (auto &e : v.e)
      pv(e);
  };
  for (auto &c : s.mem)
  {
    k += "|" + std::to_string(c.first.first) + "." + std::to_string(c.first.second) + "/" + std::to_string(c.second.size) + "=";
    pv(c.second.v);
  }
  return k;
}
} // namespace

int checkTok(Program &P, Report &R, const std::vector<std::string> &args)
{
  int K = 2;
  Flags f{false, false, false, false};
  bool debug = false, refill = false, queue = false, resets = false;
  u64 maxStates = 2000000, budget = 800;
  std::set<std::string> want;
  std::vector<int> longs;
  int pol_fill = 'x', pol_window = 2;
  time_t t0 = time(nullptr);
  for (auto &a : args)
  {
    if (startsWith(a, "k="))
      K = atoi(a.c_str() + 2);
    else if (startsWith(a, "flags="))
    {
      f.ascii = a.find('a', 6) != std::string::npos;
      f.newline = a.find('n', 6) != std::string::npos;
      f.comma = a.find('c', 6) != std::string::npos;
      f.comments = a.find('m', 6) != std::string::npos;
    }
    else if (startsWith(a, "budget="))
      budget = strtoull(a.c_str() + 7, nullptr, 10);
    else if (startsWith(a, "want="))
    {
      std::stringstream ss(a.substr(5));
      std::string w;
      while (std::getline(ss, w, ','))
        want.insert(w);
    }
    else if (a == "refill")
      refill = true;
    else if (startsWith(a, "fill="))
      pol_fill = atoi(a.c_str() + 5);
    else if (startsWith(a, "window="))
      pol_window = atoi(a.c_str() + 7);
    else if (startsWith(a, "long="))
    {
      std::stringstream ss(a.substr(5));
      std::string w;
      while (std::getline(ss, w, ','))
        longs.push_back(atoi(w.c_str()));
    }
    else if (a == "queue")
      queue = true;
    else if (a == "reset")
      resets = true;
    else if (a == "debug")
      debug = true;
    else if (startsWith(a, "max="))
      maxStates = strtoull(a.c_str() + 4, nullptr, 10);
  }
  const Function *make = nullptr, *step = nullptr, *again = nullptr;
  for (auto &F : P.M)
  {
    std::string n = Program::stripParams(P.name(&F));
    if (n == "drv::make")
      make = &F;
    if (n == "drv::step")
      step = &F;
    if (n == "drv::again")
      again = &F;
  }
  if (!make || !step || !again)
    throw BrokenAnalysis("driver functions missing");
  TokPolicy pol(P, R);
  pol.spec.f = f;
  pol.K = K;
  pol.refill = refill;
  pol.queue = queue;
  pol.resets = resets;
  pol.longs = longs;
  pol.fill = pol_fill;
  pol.window = pol_window;
  pol.cfg = std::string("options: ") + (f.ascii ? "ascii " : "") + (f.newline ? "newline " : "") + (f.comma ? "superfluous-comma " : "") +
            (f.comments ? "comments " : "") + (!f.ascii && !f.newline && !f.comma && !f.comments ? "default " : "");
  Interp I(P, pol);
  I.precise = true;
  I.cap = 100000;
  I.intCap = 64;
  I.maxSteps = ~0ull;
  I.maxDepth = 60;
  pol.init(I);
  State s0;
  s0.ts = pack(Mon());
  auto ex = I.run(*make,
                  {Val::ptr(pol.tk, 0), Val::cst(f.ascii), Val::cst(f.newline), Val::cst(f.comma), Val::cst(f.comments)}, s0, 0, 0);
  std::vector<State> wl, before;
  std::unordered_set<std::string> seen;
  u64 nResets = 0;
  auto push = [&](State s) {
    Mon m0 = unpack(s.ts);
    // only the tokenizer, its strings and the current piece survive a step
    s.mem.drop_if([&](const auto &x) {
      int o = x.first.first;
      auto &inf = I.info(o);
      bool keep = o == pol.tk || pol.isChunk(o) || o == pol.dl ||
                  (inf.kind == ObjInfo::Named && inf.name == "text" && inf.parent == pol.tk);
      return !keep;
    });
    std::set<int> used;
    std::function<void(const Val &)> deps = [&](const Val &v) {
      if (v.dep >= 0)
        used.insert(v.dep);
      for (auto &e : v.e)
        deps(e);
    };
    for (auto &c : s.mem.w())
    {
      // variables with one value left are constants
      u64 k;
      if (c.second.v.k == Val::Ints && c.second.v.dep >= 0 && I.isConst(s, c.second.v, k))
        c.second.v = Val::cst(k);
      else if (!pol.isChunk(c.first.first))
        I.plain(s, c.second.v);
      deps(c.second.v);
    }
    s.vars.drop_if([&](const auto &x) { return !used.count(x.first); });
    pol.normalize(I, s);
    if (resets)
    {
      State b = pol.beforeReset(s);
      if (seen.insert("reset " + canon(I, b)).second)
        before.push_back(std::move(b));
      if (m0.rs == 9)
        return;
    }
    std::string key = canon(I, s);
    if (seen.insert(key).second)
    {
      wl.push_back(std::move(s));
    }
  };
  for (auto &e : ex)
    push(e.st);
  u64 n = 0;
  while (!wl.empty() || !before.empty())
  {
    while (!before.empty())
    {
      State s = std::move(before.back());
      before.pop_back();
      nResets++;
      for (auto &e : I.run(*again, {Val::ptr(pol.tk, 0)}, s, 0, 0))
        push(e.st);
    }
    if (wl.empty())
      break;
    State s = std::move(wl.back());
    wl.pop_back();
    if (++n > maxStates)
      throw BrokenAnalysis("too many boundary states");
    auto r = I.run(*step, {Val::ptr(pol.tk, 0)}, s, 0, 0);
    for (auto &e : r)
      push(e.st);
    // violations make the set of states explode: stop once enough of them are found
    u64 sec = u64(time(nullptr) - t0), found = 0;
    for (auto &k : R.keys)
      if (want.empty() || want.count(k.substr(0, k.find('|'))))
        found++;
    if (found >= 8 || (found && sec > 300) || (!R.keys.empty() && sec > 700))
    {
      R.add("stopped_at_violations");
      break;
    }
    if (sec > budget)
      throw BrokenAnalysis("no fixpoint within " + std::to_string(budget) + " s");
    if (debug && n % 1000 == 0)
      std::cerr << n << " done, " << wl.size() << " waiting, steps " << I.steps << " tokens " << pol.nTokens << " viol "
                << R.keys.size() << "\n";
  }
  if (debug)
    for (auto &h : I.havocked)
      std::cerr << "havoc " << h << "\n";
  for (auto &h : I.havocked)
    if (h.find("JS::") != std::string::npos && !startsWith(h, "JS::Tokenizer::updateErrorContext"))
      throw BrokenAnalysis("not followed: " + h);
  R.add("boundary_states", n);
  R.add("piece_size_" + std::to_string(K), 1);
  R.add("interpreted_blocks", I.steps);
  R.add("states_reset", nResets);
  R.add("token_returns", pol.nTokens);
  R.add("need_more_returns", pol.nMore);
  R.add("error_returns", pol.nErr);
  R.add("input_accesses", pol.nAcc);
  R.add("vector_loads", pol.nVec);
  R.add("automaton_steps", pol.nFed);
  R.add("functions_followed", I.analysed.size());
  R.add("option_sets", 1);
  for (auto &x : pol.samples)
    R.sample(pol.cfg + ": " + x.first + " (" + std::to_string(x.second) + ")");
  return 0;
}
} // namespace jsa
