#pragma once
#include "core.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <iostream>
#include <sstream>

namespace jsa
{
// Report channel: one record per line, fields separated by tabs, read by check.py.
struct Report
{
  u64 obligations = 0, discharged = 0;
  std::set<std::string> keys;
  std::map<std::string, u64> stats;
  std::vector<std::string> samples;
  void ok(u64 n = 1)
  {
    obligations += n;
    discharged += n;
  }
  static std::string clean(std::string s)
  {
    for (auto &c : s)
      if (c == '\t' || c == '\n')
        c = ' ';
    return s;
  }
  // key identifies the violating construct independently of line numbers
  bool violation(const std::string &rule, const std::string &key, const std::string &where, const std::string &msg)
  {
    std::string k = rule + "|" + key;
    if (!keys.insert(k).second)
      return false;
    obligations++;
    std::cout << "VIOL\t" << clean(rule) << "\t" << clean(key) << "\t" << clean(where) << "\t" << clean(msg) << "\n";
    return true;
  }
  void stat(const std::string &k, u64 v)
  {
    stats[k] = v;
  }
  void add(const std::string &k, u64 v = 1)
  {
    stats[k] += v;
  }
  void sample(const std::string &s)
  {
    if (samples.size() < 400)
      samples.push_back(s);
  }
  void flush()
  {
    for (auto &s : samples)
      std::cout << "SAMPLE\t" << clean(s) << "\n";
    for (auto &s : stats)
      std::cout << "STAT\t" << s.first << "\t" << s.second << "\n";
    std::cout << "STAT\tobligations\t" << obligations << "\n";
    std::cout << "STAT\tdischarged\t" << discharged << "\n";
    std::cout.flush();
  }
};

inline bool startsWith(const std::string &s, const std::string &p)
{
  return s.compare(0, p.size(), p) == 0;
}
inline bool endsWith(const std::string &s, const std::string &p)
{
  return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}
// name of the method of a demangled qualified name
inline std::string lastComponent(const std::string &q)
{
  int ang = 0;
  for (size_t i = q.size(); i-- > 0;)
  {
    if (q[i] == '>')
      ang++;
    else if (q[i] == '<')
      ang--;
    else if (ang == 0 && i > 0 && q[i] == ':' && q[i - 1] == ':')
      return q.substr(i + 1);
  }
  return q;
}
inline std::string scopeOf(const std::string &q)
{
  std::string l = lastComponent(q);
  if (l.size() + 2 <= q.size())
    return q.substr(0, q.size() - l.size() - 2);
  return "";
}
// a method name without template arguments
inline std::string bare(const std::string &l)
{
  size_t p = l.find('<');
  if (p == std::string::npos || startsWith(l, "operator"))
    return l;
  return l.substr(0, p);
}
inline bool hasCycle(const Function &F)
{
  std::map<const BasicBlock *, int> c;
  std::function<bool(const BasicBlock *)> dfs = [&](const BasicBlock *b) -> bool {
    c[b] = 1;
    for (auto *s : successors(b))
    {
      if (c[s] == 1)
        return true;
      if (!c[s] && dfs(s))
        return true;
    }
    c[b] = 2;
    return false;
  };
  return dfs(&F.getEntryBlock());
}
struct SmallCache
{
  std::map<const Function *, bool> m;
  bool operator()(const Function &F, unsigned lim)
  {
    auto it = m.find(&F);
    if (it != m.end())
      return it->second;
    bool r = F.getInstructionCount() <= lim && !hasCycle(F);
    return m[&F] = r;
  }
};
// functions from which a target is reachable through direct calls
inline std::set<const Function *> reaching(Module &M, const std::set<const Function *> &targets)
{
  std::map<const Function *, std::set<const Function *>> callers;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
          callers[C].insert(&F);
  std::set<const Function *> r;
  std::vector<const Function *> wl(targets.begin(), targets.end());
  while (!wl.empty())
  {
    auto *f = wl.back();
    wl.pop_back();
    for (auto *c : callers[f])
      if (r.insert(c).second)
        wl.push_back(c);
  }
  return r;
}
typedef int (*CheckFn)(Program &, Report &, const std::vector<std::string> &);
} // namespace jsa
