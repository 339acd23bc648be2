// Driver for the tokenizer analysis: one step of a consumer that registers input piecewise and asks for tokens.
// Nothing here is ever executed.
#include <new>
#include <json_struct/json_struct.h>

namespace drv
{
const char *chunkData();
size_t chunkSize();
bool any();
size_t maxBuffers();
void token(JS::Error error, const JS::Token &token, const char *position);

size_t startIndex();
void resetting();
void reset();

void make(JS::Tokenizer *t, bool ascii, bool newline, bool comma, bool comments)
{
  new (t) JS::Tokenizer();
  t->allowAsciiType(ascii);
  t->allowNewLineAsTokenDelimiter(newline);
  t->allowSuperfluousComma(comma);
  t->allowComments(comments);
}

void step(JS::Tokenizer *t)
{
  while (t->registeredBuffers() < maxBuffers() && any())
  {
    const char *data = chunkData();
    t->addData(data, chunkSize());
  }
  JS::Token tok;
  JS::Error error = t->nextToken(tok);
  token(error, tok, t->currentPosition());
}

void again(JS::Tokenizer *t)
{
  resetting();
  const char *data = chunkData();
  size_t size = chunkSize();
  t->resetData(data, size, startIndex());
  reset();
}
} // namespace drv
