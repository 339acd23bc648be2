// Driver for the text analyses: strings and keys on their way in and out.
// Nothing here is ever executed.
#include "library.h"

namespace drv
{
struct Value
{
  int v;
};
const char *textData();
size_t textSize();
void memory(void *object);
void read(JS::Error error, const char *data, size_t size);
JS::Error readValue(Value &v, JS::ParseContext &context);
void writeValue(const Value &v, JS::Token &token, JS::Serializer &serializer);
} // namespace drv

namespace JS
{
template <>
struct TypeHandler<drv::Value>
{
  static Error to(drv::Value &v, ParseContext &context)
  {
    return drv::readValue(v, context);
  }
  static void from(const drv::Value &v, Token &token, Serializer &serializer)
  {
    drv::writeValue(v, token, serializer);
  }
};
} // namespace JS

namespace drv
{
void stringIn(JS::ParseContext *context, std::string *to)
{
  new (to) std::string();
  context->token.value = JS::DataRef(textData(), textSize());
  context->token.value_type = JS::Type::String;
  JS::Error error = JS::TypeHandler<std::string>::to(*to, *context);
  read(error, to->data(), to->size());
}
// a target that holds text already
void stringAgain(JS::ParseContext *context, std::string *to)
{
  new (to) std::string("earlier text that does not fit into the object itself");
  context->token.value = JS::DataRef(textData(), textSize());
  context->token.value_type = JS::Type::String;
  JS::Error error = JS::TypeHandler<std::string>::to(*to, *context);
  read(error, to->data(), to->size());
}
void stringOut(JS::Serializer *serializer, std::string *from, JS::Token *token)
{
  new (from) std::string(textData(), textSize());
  new (token) JS::Token();
  JS::TypeHandler<std::string>::from(*from, *token, *serializer);
}
typedef std::map<std::string, Value> Keys;
void keyIn(JS::ParseContext *context, Keys *to)
{
  new (to) Keys();
  context->token.value_type = JS::Type::ObjectStart;
  JS::Error error = JS::TypeHandler<Keys>::to(*to, *context);
  for (auto &k : *to)
    read(error, k.first.data(), k.first.size());
}
void keyOut(JS::Serializer *serializer, Keys *from, JS::Token *token)
{
  new (from) Keys();
  from->emplace(std::string(textData(), textSize()), Value());
  new (token) JS::Token();
  JS::TypeHandler<Keys>::from(*from, *token, *serializer);
}
} // namespace drv
