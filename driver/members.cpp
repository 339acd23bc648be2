// Driver for the member analyses: structs, their members' names, enum names.  Nothing here is ever executed.
#define JS_STD_OPTIONAL 1
#include <optional>
#include <vector>
#include "library.h"

namespace drv
{
struct Value
{
  int v;
};
void member(const void *address, size_t size, const char *name, bool required, const char *reported);
void alias(const void *address, const char *name);
bool flag(int which);
const char *textData();
size_t textSize();
JS::Error readValue(Value &v, JS::ParseContext &context);
void writeValue(const Value &v, JS::Token &token, JS::Serializer &serializer);
void text(int list, const char *data, size_t size);
void done(JS::Error error);
void value(int v);
} // namespace drv

namespace JS
{
template <>
struct TypeHandler<drv::Value>
{
  static Error to(drv::Value &v, ParseContext &context)
  {
    return drv::readValue(v, context);
  }
  static void from(const drv::Value &v, Token &token, Serializer &serializer)
  {
    drv::writeValue(v, token, serializer);
  }
};
} // namespace JS

namespace drv
{
struct Base0
{
  Value k;
  Value kk;
  JS_OBJ(k, kk);
};
struct Base1 : Base0
{
  Value a;
  Value bc;
  JS_OBJ_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base0)), a, bc);
};
struct Base2
{
  Value q;
  JS::OptionalChecked<Value> oc;
  std::optional<Value> so;
};
struct Root : Base1, Base2
{
  Value x;
  Value xy;
  Value ab;
  JS::Optional<Value> o;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base2), JS_SUPER_CLASS(Base1)), JS_MEMBER(x), JS_MEMBER_ALIASES(xy, "y", "q"),
                       JS_MEMBER_WITH_NAME_AND_ALIASES(ab, "zz", "bc", "ab"), JS_MEMBER(o));
};
struct Single
{
  Value only;
  JS_OBJ(only);
};
} // namespace drv
JS_OBJ_EXT(drv::Base2, q, oc, so);

namespace drv
{
void describe(const Root *o)
{
  member(&o->x, sizeof(o->x), "x", true, "x");
  member(&o->xy, sizeof(o->xy), "xy", true, "xy");
  alias(&o->xy, "y");
  alias(&o->xy, "q");
  member(&o->ab, sizeof(o->ab), "zz", true, "zz");
  alias(&o->ab, "bc");
  alias(&o->ab, "ab");
  member(&o->o, sizeof(o->o), "o", false, "o");
  member(&o->a, sizeof(o->a), "a", true, "Base1::a");
  member(&o->bc, sizeof(o->bc), "bc", true, "Base1::bc");
  member(&o->k, sizeof(o->k), "k", true, "Base0::k");
  member(&o->kk, sizeof(o->kk), "kk", true, "Base0::kk");
  member(&o->q, sizeof(o->q), "q", true, "Base2::q");
  member(&o->oc, sizeof(o->oc), "oc", false, "Base2::oc");
  member(&o->so, sizeof(o->so), "so", false, "Base2::so");
}
void describe(const Single *o)
{
  member(&o->only, sizeof(o->only), "only", true, "only");
}
void optionals(const Root *o)
{
  value(o->oc.assigned);
  value(o->so.has_value());
}
void optionals(const Single *)
{
}
template <typename T>
void in(JS::ParseContext *context, T *o)
{
  new (o) T();
  describe(o);
  new (&context->missing_members) std::vector<std::string>();
  new (&context->unassigned_required_members) std::vector<std::string>();
  context->error = JS::Error::NoError;
  context->allow_missing_members = flag(0);
  context->allow_unasigned_required_members = flag(1);
  context->track_member_assignement_state = flag(2);
  context->token.value_type = JS::Type::ObjectStart;
  JS::Error error = JS::TypeHandler<T>::to(*o, *context);
  for (size_t i = 0; i < context->missing_members.size(); i++)
    text(0, context->missing_members[i].data(), context->missing_members[i].size());
  for (size_t i = 0; i < context->unassigned_required_members.size(); i++)
    text(1, context->unassigned_required_members[i].data(), context->unassigned_required_members[i].size());
  optionals(o);
  done(error);
}
void rootIn(JS::ParseContext *context, Root *o)
{
  in(context, o);
}
void singleIn(JS::ParseContext *context, Single *o)
{
  in(context, o);
}
void rootOut(JS::Serializer *serializer, Root *o, JS::Token *token)
{
  new (o) Root();
  describe(o);
  o->oc.assigned = flag(3);
  if (flag(4))
    o->so.emplace();
  new (token) JS::Token();
  JS::TypeHandler<Root>::from(*o, *token, *serializer);
  done(JS::Error::NoError);
}
void singleOut(JS::Serializer *serializer, Single *o, JS::Token *token)
{
  new (o) Single();
  describe(o);
  new (token) JS::Token();
  JS::TypeHandler<Single>::from(*o, *token, *serializer);
  done(JS::Error::NoError);
}
} // namespace drv

JS_ENUM(DrvEnum, Red, Re, green_2, _1, b, Blue)
JS_ENUM_DECLARE_STRING_PARSER(DrvEnum)

namespace drv
{
void enumIn(JS::ParseContext *context, DrvEnum *o)
{
  context->token.value = JS::DataRef(textData(), textSize());
  context->token.value_type = JS::Type::String;
  JS::Error error = JS::TypeHandler<DrvEnum>::to(*o, *context);
  if (error == JS::Error::NoError)
    value(int(*o));
  done(error);
}
void enumOut(JS::Serializer *serializer, DrvEnum *o, JS::Token *token)
{
  new (token) JS::Token();
  for (int i = 0; i < 6; i++)
  {
    *o = DrvEnum(i);
    JS::TypeHandler<DrvEnum>::from(*o, *token, *serializer);
  }
  done(JS::Error::NoError);
}
} // namespace drv
