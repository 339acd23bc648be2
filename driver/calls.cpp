// Driver for the function call analyses.  Nothing here is ever executed.
#include "library.h"

namespace drv
{
struct Arg
{
  int v;
};
struct Ret
{
  int v;
};
bool flag(int which);
const char *textData();
// a function of the container: names, whether it takes an argument and whether it returns something
void function(int number, const char *name, int kind);
void alias(int number, const char *name);
void called(int number, const void *container, const Arg *arg);
bool fails(int number); // whether the function reports an error
JS::Error readValue(Arg &v, JS::ParseContext &context);
void writeValue(int number, JS::Serializer &serializer);
void entry(const char *name, size_t size, JS::Error error, const char *report, size_t reportSize, size_t missing, size_t unassigned);
void done(JS::Error error);
void container(const void *address, size_t size);
} // namespace drv

namespace JS
{
template <>
struct TypeHandler<drv::Arg>
{
  static Error to(drv::Arg &v, ParseContext &context)
  {
    return drv::readValue(v, context);
  }
};
template <>
struct TypeHandler<drv::Ret>
{
  static void from(const drv::Ret &v, Token &, Serializer &serializer)
  {
    drv::writeValue(v.v, serializer);
  }
};
} // namespace JS

namespace drv
{
inline Ret ret(int n)
{
  Ret r;
  r.v = n;
  return r;
}
struct Base0
{
  int pad0;
  void x(const Arg &a)
  {
    called(20, this, &a);
  }
  Ret kk(JS::CallFunctionErrorContext &c)
  {
    called(21, this, nullptr);
    if (fails(21))
      c.setError("message 21");
    return ret(21);
  }
  void shadow()
  {
    called(22, this, nullptr);
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(x), JS_FUNCTION_ALIASES(kk, "e", "ka", "kb", "kc", "kd", "ke", "kf", "kg"), JS_FUNCTION(shadow));
};
struct Base1
{
  int pad1;
  virtual ~Base1()
  {
  }
  virtual Ret q(const Arg &a)
  {
    called(23, this, &a);
    return ret(23);
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION_WITH_NAME(q, "qq"));
};
struct Base2 : Base1
{
  int pad2;
  Ret q(const Arg &a) override
  {
    called(24, static_cast<Base1 *>(this), &a);
    return ret(24);
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base1)));
};
struct Calls : Base0, Base2
{
  int pad;
  void a()
  {
    called(0, this, nullptr);
  }
  Ret ab()
  {
    called(1, this, nullptr);
    return ret(1);
  }
  void b(const Arg &a)
  {
    called(2, this, &a);
  }
  Ret ba(const Arg &a)
  {
    called(3, this, &a);
    return ret(3);
  }
  void c(JS::CallFunctionErrorContext &c)
  {
    called(4, this, nullptr);
    if (fails(4))
      c.setError("message 4");
  }
  Ret cd(JS::CallFunctionErrorContext &c)
  {
    called(5, this, nullptr);
    if (fails(5))
      c.setError("message 5");
    return ret(5);
  }
  void d(const Arg &a, JS::CallFunctionErrorContext &c)
  {
    called(6, this, &a);
    if (fails(6))
      c.setError("message 6");
  }
  Ret dd(Arg a, JS::CallFunctionErrorContext &c)
  {
    called(7, this, &a);
    if (fails(7))
      c.setError(JS::Error::IllegalDataValue, "message 7");
    return ret(7);
  }
  void e(JS::CallFunctionContext &c)
  {
    called(8, this, nullptr);
    if (fails(8))
      c.error_context.setError("message 8");
  }
  Ret ef(JS::CallFunctionContext &c)
  {
    called(9, this, nullptr);
    if (fails(9))
      c.error_context.setError("message 9");
    return ret(9);
  }
  void f(const Arg &a, JS::CallFunctionContext &c)
  {
    called(10, this, &a);
    if (fails(10))
      c.error_context.setError("message 10");
  }
  Ret fg(const Arg &a, JS::CallFunctionContext &c)
  {
    called(11, this, &a);
    if (fails(11))
      c.error_context.setError("message 11");
    return ret(11);
  }
  void shadow()
  {
    called(12, this, nullptr);
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base0), JS_SUPER_CLASS(Base2)), JS_FUNCTION(a), JS_FUNCTION(ab),
                                   JS_FUNCTION_ALIASES(b, "a", "bb"), JS_FUNCTION_WITH_NAME_ALIASES(ba, "bx", "ba", "kk"), JS_FUNCTION(c),
                                   JS_FUNCTION(cd), JS_FUNCTION(d), JS_FUNCTION_ALIASES(dd, "ddd", "x"), JS_FUNCTION(e), JS_FUNCTION(ef),
                                   JS_FUNCTION(f), JS_FUNCTION_ALIASES(fg, "g"), JS_FUNCTION(shadow));
};
inline void describe(Calls *calls)
{
  container(calls, sizeof(Calls));
  // kind: 1 takes an argument, 2 returns something, 4 can fail
  function(0, "a", 0);
  function(1, "ab", 2);
  function(2, "b", 1);
  alias(2, "a");
  alias(2, "bb");
  function(3, "bx", 3);
  alias(3, "ba");
  alias(3, "kk");
  function(4, "c", 4);
  function(5, "cd", 6);
  function(6, "d", 5);
  function(7, "dd", 7);
  alias(7, "ddd");
  alias(7, "x");
  function(8, "e", 4);
  function(9, "ef", 6);
  function(10, "f", 5);
  function(11, "fg", 7);
  alias(11, "g");
  function(12, "shadow", 0);
  function(20, "x", 1);
  function(21, "kk", 6);
  alias(21, "e");
  alias(21, "ka");
  alias(21, "kb");
  alias(21, "kc");
  alias(21, "kd");
  alias(21, "ke");
  alias(21, "kf");
  alias(21, "kg");
  function(24, "qq", 3);
}
void calls(Calls *object, JS::ParseContext *parse, JS::Serializer *serializer, JS::CallFunctionContext *context)
{
  new (object) Calls();
  describe(object);
  new (parse) JS::ParseContext();
  new (serializer) JS::Serializer();
  new (context) JS::CallFunctionContext(*parse, *serializer);
  context->allow_missing = flag(0);
  context->stop_execute_on_fail = flag(1);
  JS::Error error = context->callFunctions(*object);
  for (auto &x : context->execution_list)
    entry(x.name.data(), x.name.size(), x.error, x.error_string.data.data(), x.error_string.data.size(), x.missing_members.data.size(),
          x.unassigned_required_members.data.size());
  done(error);
}
// what a tokenizer does at the start of every token
void freshToken(JS::Tokenizer *tokenizer)
{
  const_cast<JS::Internal::ErrorContext &>(tokenizer->errorContext()).clear();
}
void addMissing(JS::ParseContext *parse, bool unassigned)
{
  (unassigned ? parse->unassigned_required_members : parse->missing_members).emplace_back("name");
}
} // namespace drv
