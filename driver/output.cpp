// Driver for the output analyses: the bytes a serializer writes and the buffers it writes them to.
// Nothing here is ever executed.
#include "library.h"
#include <functional>

namespace drv
{
struct Value
{
  int v;
};
size_t pick(int what);           // one of several values, which the log records
const char *textData();          // unknown bytes
size_t textSize();
size_t more();                   // the size of the next buffer, 0: none
char *memory();                  // that buffer
void wrote(bool ok);             // a token was written
void used(const JS::SerializerBuffer *buffer); // the end: this is the current buffer
void text(const char *data, size_t size);
void done();
bool token(JS::Serializer *serializer);
} // namespace drv

namespace JS
{
template <>
struct TypeHandler<drv::Value>
{
  static Error to(drv::Value &, ParseContext &)
  {
    return Error::NoError;
  }
  static void from(const drv::Value &, Token &, Serializer &serializer)
  {
    drv::wrote(drv::token(&serializer));
  }
};
} // namespace JS

namespace drv
{
// what pick() chooses
enum
{
  Style,
  Shift,
  Depth,
  Skip,
  Convert,
  Kind,
  Name,
  SetStyle,
  Start,
  Again,
  Ending,
};
inline JS::SerializerOptions options()
{
  JS::SerializerOptions o(pick(Style) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  size_t n = pick(SetStyle);
  if (n)
    o.setStyle(n == 2 ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  n = pick(Shift);
  if (n < 16)
    o.setShiftSize((unsigned char)n);
  n = pick(Depth);
  if (n)
    o.setDepth(int(n));
  n = pick(Skip);
  if (n)
    o.skipDelimiter(n == 1);
  n = pick(Convert);
  if (n)
    o.setConvertAsciiToString(n == 1);
  return o;
}
inline void options(JS::Serializer *serializer)
{
  serializer->setOptions(options());
}
void fill(JS::Token &t)
{
  t = JS::Token();
  size_t n = pick(Name);
  if (n)
    t.name = JS::DataRef(textData(), n & 3);
  t.name_type = n & 4 ? JS::Type::Ascii : JS::Type::String;
  size_t k = pick(Kind);
  t.value_type = JS::Type(k);
  t.value = JS::DataRef(textData(), textSize());
  if (t.value_type == JS::Type::ObjectStart)
    t.value = JS::DataRef("{");
  if (t.value_type == JS::Type::ObjectEnd)
    t.value = JS::DataRef("}");
  if (t.value_type == JS::Type::ArrayStart)
    t.value = JS::DataRef("[");
  if (t.value_type == JS::Type::ArrayEnd)
    t.value = JS::DataRef("]");
}
bool token(JS::Serializer *serializer)
{
  JS::Token t;
  fill(t);
  return serializer->write(t);
}
// the result of Tokenizer::nextToken
JS::Error next(JS::Token *t)
{
  if (pick(Again))
  {
    fill(*t);
    return JS::Error::NoError;
  }
  return pick(Ending) ? JS::Error::InvalidToken : JS::Error::NeedMoreData;
}
void three(JS::Serializer *serializer)
{
  size_t n = more();
  if (n)
    new (serializer) JS::Serializer(memory(), n);
  else
    new (serializer) JS::Serializer();
  serializer->setRequestBufferCallback([](JS::Serializer &s) {
    size_t m = more();
    if (m)
      s.setBuffer(memory(), m);
  });
  options(serializer);
  bool ok = true;
  for (int i = 0; ok && i < 3 && pick(Again); i++)
  {
    ok = token(serializer);
    wrote(ok);
  }
  used(&serializer->currentBuffer());
  done();
}
// every token goes to a buffer of its own
void swap(JS::Serializer *serializer)
{
  new (serializer) JS::Serializer();
  options(serializer);
  bool ok = true;
  for (int i = 0; ok && i < 3 && pick(Again); i++)
  {
    size_t n = more();
    if (n)
      serializer->setBuffer(memory(), n);
    ok = token(serializer);
    wrote(ok);
    used(&serializer->currentBuffer());
  }
  done();
}
// no callback
void alone(JS::Serializer *serializer)
{
  size_t n = more();
  if (n)
    new (serializer) JS::Serializer(memory(), n);
  else
    new (serializer) JS::Serializer();
  options(serializer);
  bool ok = true;
  for (int i = 0; ok && i < 2 && pick(Again); i++)
  {
    ok = token(serializer);
    wrote(ok);
  }
  used(&serializer->currentBuffer());
  done();
}
void context(std::string *out, JS::SerializerContext *ctx)
{
  new (out) std::string(pick(Start), 'x');
  new (ctx) JS::SerializerContext(*out);
  options(&ctx->serializer);
  while (pick(Again))
  {
    bool ok = token(&ctx->serializer);
    wrote(ok);
    ctx->flush();
    text(out->data(), out->size());
  }
  ctx->~SerializerContext();
  text(out->data(), out->size());
  done();
}
void serialize(std::string *out, JS::SerializerContext *ctx, Value *value)
{
  new (out) std::string(pick(Start), 'x');
  new (ctx) JS::SerializerContext(*out);
  options(&ctx->serializer);
  ctx->serialize(*value);
  text(out->data(), out->size());
  while (pick(Again))
  {
    ctx->serialize(*value);
    text(out->data(), out->size());
  }
  ctx->~SerializerContext();
  text(out->data(), out->size());
  done();
}
void reformatted(std::string *out, JS::SerializerOptions *o)
{
  new (out) std::string(pick(Start), 'x');
  new (o) JS::SerializerOptions(options());
  wrote(JS::reformat(textData(), textSize(), *out, *o) == JS::Error::NoError);
  text(out->data(), out->size());
  done();
}
void whole(Value *value, std::string *out, JS::SerializerOptions *o)
{
  if (pick(Start))
  {
    new (o) JS::SerializerOptions(pick(Style) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    new (out) std::string(JS::serializeStruct(*value, *o));
  }
  else
    new (out) std::string(JS::serializeStruct(*value));
  text(out->data(), out->size());
  done();
}
} // namespace drv
