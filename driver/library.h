// The string, vector and tree code of the standard library is instantiated in the drivers so that it can be followed like any
// other code.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define JS_STL_MAP 1
#include <new>
#include <string>
#include <map>
#include <json_struct/json_struct.h>

namespace std
{
// search trees without rebalancing
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  if (left)
  {
    p->_M_left = x;
    if (p == &h)
    {
      h._M_parent = x;
      h._M_right = x;
    }
    else if (p == h._M_left)
      h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
}
static _Rb_tree_node_base *drv_next(_Rb_tree_node_base *x)
{
  if (x->_M_right)
  {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y)
    x = y;
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
  return drv_next(x);
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept
{
  return drv_next(const_cast<_Rb_tree_node_base *>(x));
}
} // namespace std

