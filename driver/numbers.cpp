// Driver for the analyses of integers and boolean values.  Nothing here is ever executed.
#include "library.h"

namespace drv
{
const char *textData();
size_t textSize();
void result(JS::Error error, const void *target, size_t size);
void wrote(const char *text, size_t size);
void done();

template <typename T>
inline void readAs(T *target, JS::ParseContext *context)
{
  *target = T(77);
  new (context) JS::ParseContext();
  context->token.value = JS::DataRef(textData(), textSize());
  context->token.value_type = JS::Type::Number;
  JS::Error error = JS::TypeHandler<T>::to(*target, *context);
  result(error, target, sizeof(T));
  done();
}
template <typename T>
inline void writeAs(JS::Serializer *serializer, JS::Token *token)
{
  new (serializer) JS::Serializer();
  new (token) JS::Token();
  unsigned long long bits = 0;
  for (size_t i = 0; i < sizeof(T); i++)
    bits |= (unsigned long long)(unsigned char)textData()[i] << (8 * i);
  T value = T(bits);
  JS::TypeHandler<T>::from(value, *token, *serializer);
  done();
}
#define BOTH(name, type)                                                                                                          \
  void read##name(type *target, JS::ParseContext *context)                                                                        \
  {                                                                                                                               \
    readAs<type>(target, context);                                                                                                \
  }                                                                                                                               \
  void write##name(JS::Serializer *serializer, JS::Token *token)                                                                  \
  {                                                                                                                               \
    writeAs<type>(serializer, token);                                                                                             \
  }
BOTH(S1, int8_t)
BOTH(U1, uint8_t)
BOTH(C1, char)
BOTH(S2, short)
BOTH(U2, unsigned short)
BOTH(S4, int)
BOTH(U4, unsigned int)
BOTH(S8, long)
BOTH(U8, unsigned long)
BOTH(L8, long long)
BOTH(M8, unsigned long long)
BOTH(B1, bool)
void readF8(double *target, JS::ParseContext *context)
{
  readAs<double>(target, context);
}
void readF4(float *target, JS::ParseContext *context)
{
  readAs<float>(target, context);
}
} // namespace drv
