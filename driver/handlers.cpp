// Driver translation unit: instantiates every reader/writer the library offers so that the analyser
// sees resolved, fully typed code for each of them.  Nothing here is ever executed.
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#define JS_STD_TIMEPOINT 1
#define JS_INT_128 1
#include <chrono>
#include <map>
#include <optional>
#include <unordered_map>
#include <json_struct/json_struct.h>
#include <json_struct/json_struct_diff.h>

namespace drv
{
struct Leaf
{
  int i;
  std::string s;
  JS_OBJ(i, s);
};

struct BaseA
{
  int a1;
  JS::Optional<int> a2;
  JS_OBJECT(JS_MEMBER(a1), JS_MEMBER(a2));
};
struct BaseB
{
  double b1;
  std::unique_ptr<int> b2;
  JS_OBJECT(JS_MEMBER(b1), JS_MEMBER_WITH_NAME(b2, "bee_two"));
};
struct Derived : public BaseA, public BaseB
{
  int d1;
  std::string d2;
  bool d3;
  std::optional<int> d4;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(BaseA), JS_SUPER_CLASS(BaseB)), JS_MEMBER(d1),
                       JS_MEMBER_ALIASES(d2, "dee_two", "dtwo"), JS_MEMBER(d3), JS_MEMBER(d4));
};
struct GrandDerived : public Derived
{
  Leaf g1;
  std::vector<Leaf> g2;
  JS::Nullable<int> g3;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Derived)), JS_MEMBER(g1), JS_MEMBER(g2), JS_MEMBER(g3));
};

JS_ENUM(Colour, Red, Green, Blue)

struct Ext
{
  int x;
  std::string y;
};

struct Arg
{
  int value;
  JS_OBJ(value);
};
struct Ret
{
  int value;
  JS_OBJ(value);
};
struct FnBase
{
  Ret base_fn(const Arg &a);
  JS_FUNCTION_CONTAINER(JS_FUNCTION(base_fn));
};
struct Fn : public FnBase
{
  Ret ra(const Arg &a);
  void va(const Arg &a);
  Ret rv();
  void vv();
  Ret rac(const Arg &a, JS::CallFunctionErrorContext &c);
  Ret rap(const Arg &a, JS::CallFunctionContext &c);
  void vac(const Arg &a, JS::CallFunctionErrorContext &c);
  void vap(const Arg &a, JS::CallFunctionContext &c);
  Ret rvc(JS::CallFunctionErrorContext &c);
  Ret rvp(JS::CallFunctionContext &c);
  void vvc(JS::CallFunctionErrorContext &c);
  void vvp(JS::CallFunctionContext &c);
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(FnBase)), JS_FUNCTION(ra), JS_FUNCTION(va),
                                   JS_FUNCTION(rv), JS_FUNCTION(vv), JS_FUNCTION(rac), JS_FUNCTION(rap),
                                   JS_FUNCTION(vac), JS_FUNCTION(vap), JS_FUNCTION(rvc), JS_FUNCTION(rvp),
                                   JS_FUNCTION(vvc), JS_FUNCTION(vvp));
};
} // namespace drv
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(drv, Colour)
JS_OBJ_EXT(drv::Ext, x, y);

#define JSA_CAT2(a, b) a##b
#define JSA_CAT(a, b) JSA_CAT2(a, b)
#define HANDLER(...)                                                                                                   \
  namespace jsa_inst                                                                                                   \
  {                                                                                                                    \
  using JSA_CAT(T_, __LINE__) = __VA_ARGS__;                                                                           \
  __attribute__((used)) JS::Error (*const JSA_CAT(to_, __LINE__))(JSA_CAT(T_, __LINE__) &, JS::ParseContext &) =       \
    &JS::TypeHandler<JSA_CAT(T_, __LINE__)>::to;                                                                       \
  __attribute__((used)) void (*const JSA_CAT(from_, __LINE__))(const JSA_CAT(T_, __LINE__) &, JS::Token &,             \
                                                               JS::Serializer &) =                                     \
    &JS::TypeHandler<JSA_CAT(T_, __LINE__)>::from;                                                                     \
  __attribute__((used)) JS::Error JSA_CAT(parse_, __LINE__)(JS::ParseContext & c, JSA_CAT(T_, __LINE__) & t)           \
  {                                                                                                                    \
    return c.parseTo(t);                                                                                               \
  }                                                                                                                    \
  __attribute__((used)) std::string JSA_CAT(ser_, __LINE__)(const JSA_CAT(T_, __LINE__) & t)                           \
  {                                                                                                                    \
    return JS::serializeStruct(t);                                                                                     \
  }                                                                                                                    \
  }

HANDLER(drv::Leaf)
HANDLER(drv::BaseA)
HANDLER(drv::BaseB)
HANDLER(drv::Derived)
HANDLER(drv::GrandDerived)
HANDLER(drv::Colour)
HANDLER(drv::Ext)
HANDLER(JS::Error)
HANDLER(std::string)
HANDLER(double)
HANDLER(float)
HANDLER(short int)
HANDLER(unsigned short int)
HANDLER(int)
HANDLER(unsigned int)
HANDLER(long int)
HANDLER(unsigned long int)
HANDLER(long long int)
HANDLER(unsigned long long int)
HANDLER(uint8_t)
HANDLER(int8_t)
HANDLER(char)
HANDLER(JS::js_int128_t)
HANDLER(JS::js_uint128_t)
HANDLER(bool)
HANDLER(JS::Nullable<drv::Leaf>)
HANDLER(JS::NullableChecked<drv::Leaf>)
HANDLER(JS::Optional<drv::Leaf>)
HANDLER(JS::OptionalChecked<drv::Leaf>)
HANDLER(std::optional<drv::Leaf>)
HANDLER(std::shared_ptr<drv::Leaf>)
HANDLER(std::unique_ptr<drv::Leaf>)
HANDLER(JS::SilentString)
HANDLER(JS::SilentVector<drv::Leaf>)
HANDLER(JS::SilentUniquePtr<drv::Leaf>)
HANDLER(std::chrono::high_resolution_clock::time_point)
HANDLER(std::vector<drv::Leaf>)
HANDLER(std::vector<int>)
HANDLER(std::vector<bool>)
HANDLER(std::vector<JS::Token>)
HANDLER(JS::JsonTokens)
HANDLER(JS::JsonArrayRef)
HANDLER(JS::JsonArray)
HANDLER(JS::JsonObjectRef)
HANDLER(JS::JsonObject)
HANDLER(JS::JsonObjectOrArrayRef)
HANDLER(JS::JsonObjectOrArray)
HANDLER(JS::Tuple<int, std::string, drv::Leaf>)
HANDLER(std::tuple<int, std::string, drv::Leaf>)
HANDLER(JS::OneOrMany<drv::Leaf>)
HANDLER(drv::Leaf[5])
HANDLER(std::array<drv::Leaf, 5>)
HANDLER(std::map<std::string, drv::Leaf>)
HANDLER(std::unordered_map<std::string, drv::Leaf>)
HANDLER(std::set<std::string>)
HANDLER(std::unordered_set<std::string>)
HANDLER(JS::Map)
HANDLER(JS::ArrayVariableContent<drv::Leaf, 5>)

namespace jsa_inst
{
__attribute__((used)) JS::Error call_functions(JS::CallFunctionContext &c, drv::Fn &f)
{
  return c.callFunctions(f);
}
__attribute__((used)) JS::Error map_uses(JS::Map &m, drv::Leaf &l, JS::ParseContext &c)
{
  JS::Error e = m.setValue(c, l);
  if (e != JS::Error::NoError)
    return e;
  e = m.setValue("k", c, l);
  if (e != JS::Error::NoError)
    return e;
  e = m.setValue("n", c, 5);
  if (e != JS::Error::NoError)
    return e;
  drv::Leaf x = m.castTo<drv::Leaf>(c);
  x = m.castTo<drv::Leaf>("k", c);
  e = m.castToType(m.begin(), c, x);
  if (e != JS::Error::NoError)
    return e;
  return m.castToType("k", c, x);
}
__attribute__((used)) JS::Error reformat_uses(const std::string &in, std::string &out)
{
  return JS::reformat(in, out);
}
__attribute__((used)) size_t diff_uses(const std::string &a, const std::string &b)
{
  JS::DiffContext d(a);
  d.diff(b);
  d.invalidate();
  d.changeBase(0);
  d.reset(b);
  d.clear();
  return d.diffs.size();
}
__attribute__((used)) std::string ctx_uses(JS::ParseContext &c)
{
  return c.makeErrorString() + c.tokenizer.makeErrorString();
}
__attribute__((used)) void tok_uses(JS::Tokenizer &t, const std::vector<JS::Token> *v, std::function<void(JS::Tokenizer &)> n,
                                    std::function<void(const char *)> r, JS::Token &k)
{
  t.allowAsciiType(true);
  t.allowNewLineAsTokenDelimiter(true);
  t.allowSuperfluousComma(true);
  t.allowComments(true);
  t.addData("x", 1);
  t.addData("xy");
  t.addData(v);
  t.resetData("x", 1, 0);
  t.resetData(v, 0);
  t.setNeedMoreDataCallback(n);
  t.setReleaseCallback(r);
  t.setErrorContextConfig(1, 2);
  t.pushScope(JS::Type::ObjectStart);
  t.popScope();
  (void)t.goToEndOfScope(k);
  (void)t.currentPosition();
  (void)t.registeredBuffers();
  (void)t.nextToken(k);
  (void)t.updateErrorContext(JS::Error::NoError, "");
}
__attribute__((used)) void ser_uses(JS::Serializer &s, char *b, std::function<void(JS::Serializer &)> cb, const JS::Token &t)
{
  JS::SerializerOptions o(JS::SerializerOptions::Compact);
  o.setShiftSize(3);
  o.setConvertAsciiToString(true);
  o.skipDelimiter(true);
  o.setDepth(2);
  o.setStyle(JS::SerializerOptions::Pretty);
  s.setOptions(o);
  s.setBuffer(b, 3);
  s.setRequestBufferCallback(cb);
  s.write(t);
  s.write("x", 1);
  (void)s.currentBuffer();
}
__attribute__((used)) std::string serctx_uses(const drv::Leaf &l)
{
  std::string out;
  JS::SerializerContext c(out);
  c.serialize(l);
  JS::SerializerContext c2(out);
  c2.serialize(l);
  c2.flush();
  return JS::serializeStruct(l, JS::SerializerOptions(JS::SerializerOptions::Compact));
}
} // namespace jsa_inst
