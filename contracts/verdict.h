// What every validation promises.
#ifndef VERDICT_H
#define VERDICT_H
#include "spec.h"
#include "models/base/error_message.h"
// The verdict is `ok`, with and without a list for the messages, and a rejection adds to the list.
#define VERDICT(object, ok)                                                          \
  std::list<ErrorMessage> messages;                                                  \
  ENSURES("accepted within the limits", (object).Validate(strict, nullptr) || !(ok));          \
  ENSURES("refused outside the limits", !(object).Validate(strict, nullptr) || (ok));          \
  ENSURES("same verdict with messages", (object).Validate(strict, &messages) == (ok));         \
  ENSURES("a message for a rejection", (ok) ? messages.empty() : !messages.empty());

#define VERDICT_ALONE(object, ok)                                                              \
  ENSURES("accepted within the limits", (object).Validate(strict, nullptr) || !(ok));          \
  ENSURES("refused outside the limits", !(object).Validate(strict, nullptr) || (ok));
// for objects with loops over their parts: the same, stated once
#define MESSAGES(object)                                                                       \
  std::list<ErrorMessage> messages;                                                            \
  const bool ok = (object).Validate(strict, &messages);                                        \
  ENSURES("same verdict with messages", (object).Validate(strict, nullptr) == ok);             \
  ENSURES("a message for a rejection", ok || !messages.empty());                               \
  ENSURES("no message when accepted", !ok || messages.empty());

#endif
