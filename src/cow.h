// Copy-on-write containers: abstract states are copied far more often than they are changed.
#pragma once
#include <map>
#include <utility>
#include <vector>
namespace jsa
{
template <class C>
class Cow
{
  struct Node
  {
    unsigned rc = 1;
    C c;
  };
  Node *n = nullptr;
  static const C &none()
  {
    static const C e;
    return e;
  }
  void drop()
  {
    if (n && --n->rc == 0)
      delete n;
    n = nullptr;
  }

public:
  Cow()
  {
  }
  Cow(const Cow &o) : n(o.n)
  {
    if (n)
      n->rc++;
  }
  Cow(Cow &&o) noexcept : n(o.n)
  {
    o.n = nullptr;
  }
  Cow(const C &c)
  {
    if (!c.empty())
    {
      n = new Node;
      n->c = c;
    }
  }
  Cow(C &&c)
  {
    if (!c.empty())
    {
      n = new Node;
      n->c = std::move(c);
    }
  }
  Cow &operator=(const Cow &o)
  {
    if (n == o.n)
      return *this;
    if (o.n)
      o.n->rc++;
    drop();
    n = o.n;
    return *this;
  }
  Cow &operator=(Cow &&o) noexcept
  {
    std::swap(n, o.n);
    return *this;
  }
  ~Cow()
  {
    drop();
  }
  const C &r() const
  {
    return n ? n->c : none();
  }
  C &w()
  {
    if (!n)
      n = new Node;
    else if (n->rc > 1)
    {
      Node *m = new Node;
      m->c = n->c;
      n->rc--;
      n = m;
    }
    return n->c;
  }
  bool same(const Cow &o) const
  {
    return n == o.n;
  }
  operator const C &() const
  {
    return r();
  }
  bool operator==(const Cow &o) const
  {
    return n == o.n || r() == o.r();
  }
  bool operator!=(const Cow &o) const
  {
    return !(*this == o);
  }
  bool empty() const
  {
    return !n || n->c.empty();
  }
  size_t size() const
  {
    return n ? n->c.size() : 0;
  }
  void clear()
  {
    drop();
  }
  typename C::const_iterator begin() const
  {
    return r().begin();
  }
  typename C::const_iterator end() const
  {
    return r().end();
  }
};
template <class T>
class CowVec : public Cow<std::vector<T>>
{
  typedef Cow<std::vector<T>> B;

public:
  using B::B;
  CowVec()
  {
  }
  CowVec(std::initializer_list<T> l) : B(std::vector<T>(l))
  {
  }
  const T &operator[](size_t i) const
  {
    return this->r()[i];
  }
  const T &back() const
  {
    return this->r().back();
  }
  const T &front() const
  {
    return this->r().front();
  }
  void push_back(const T &t)
  {
    this->w().push_back(t);
  }
};
template <class K, class V>
class CowMap : public Cow<std::map<K, V>>
{
  typedef Cow<std::map<K, V>> B;

public:
  typedef typename std::map<K, V>::iterator iterator;
  typedef typename std::map<K, V>::const_iterator const_iterator;
  using B::B;
  using B::begin;
  using B::end;
  CowMap()
  {
  }
  const_iterator find(const K &k) const
  {
    return this->r().find(k);
  }
  size_t count(const K &k) const
  {
    return this->r().count(k);
  }
  const_iterator lower_bound(const K &k) const
  {
    return this->r().lower_bound(k);
  }
  const_iterator upper_bound(const K &k) const
  {
    return this->r().upper_bound(k);
  }
  V &operator[](const K &k)
  {
    return this->w()[k];
  }
  void insert(const std::pair<const K, V> &p)
  {
    this->w().insert(p);
  }
  // removes every element for which f holds
  template <class F>
  void drop_if(F f)
  {
    bool any = false;
    for (auto &x : this->r())
      if (f(x))
      {
        any = true;
        break;
      }
    if (!any)
      return;
    auto &m = this->w();
    for (auto it = m.begin(); it != m.end();)
      if (f(*it))
        it = m.erase(it);
      else
        ++it;
  }
  size_t erase(const K &k)
  {
    if (!count(k))
      return 0;
    return this->w().erase(k);
  }
};
} // namespace jsa
