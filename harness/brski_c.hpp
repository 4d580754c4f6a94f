// The repository's public C headers.
#pragma once
#include <cstddef>
extern "C" {
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
#include "voucher/voucher_defs.h"
}
#include "vh.hpp"
#include <algorithm>
#include <memory>
namespace vh {
// View of a std::string as a BinaryArray on memory of exactly that size, so
// that the address sanitizer sees any access past it.
struct Buf {
  BinaryArray a{};
  Buf() {}
  explicit Buf(const Bytes &b) { set(b); }
  void set(const Bytes &b) {
    free(a.array);
    a.array = (uint8_t *)malloc(b.size() ? b.size() : 1);
    if (b.size()) memcpy(a.array, b.data(), b.size());
    a.length = b.size();
  }
  Buf(const Buf &o) { set(o.str()); }
  Buf &operator=(const Buf &o) { if (this != std::addressof(o)) set(o.str()); return *this; }
  ~Buf() { free(a.array); }
  Bytes str() const { return Bytes((const char *)a.array, a.length); }
};
static inline Bytes str(const BinaryArray *b) { return b && b->array ? Bytes((const char *)b->array, b->length) : Bytes(); }
static inline std::vector<Bytes> str_list(const BinaryArrayList *l) {
  std::vector<Bytes> v;
  if (!l) return v;
  for (const struct dl_list *p = l->list.next; p != &l->list; p = p->next) {
    const BinaryArrayList *e = (const BinaryArrayList *)p->el;
    v.push_back(e->arr ? Bytes((const char *)e->arr, e->length) : Bytes());
  }
  return v;
}
struct List {
  BinaryArrayList *l = nullptr;
  List() {}
  List(const List &) = delete;
  void add(const Bytes &b, int flags = 0) {
    if (!l) l = init_array_list();
    Buf x(b);
    if (push_array_list(l, x.a.array, x.a.length, flags) < 0) harness_error("push_array_list");
  }
  void empty() { if (!l) l = init_array_list(); }
  ~List() { free_array_list(l); }
  operator const BinaryArrayList *() const { return l; }
};
// One list object used again and again: the same addresses hold other content
// on every use, which nobody may have remembered from an earlier call.
struct Recycled {
  BinaryArrayList *l = init_array_list();
  const BinaryArrayList *as(const BinaryArrayList *src) {
    if (!src) return nullptr;
    std::vector<BinaryArrayList *> mine;
    for (const struct dl_list *p = l->list.next; p != &l->list; p = p->next) mine.push_back(at(p));
    size_t k = 0;
    for (const struct dl_list *p = src->list.next; p != &src->list; p = p->next, k++) {
      const BinaryArrayList *s = at(p);
      if (k == mine.size()) {
        if (push_array_list(l, s->arr, s->length, s->flags) < 0) harness_error("push_array_list");
        mine.push_back(at(l->list.prev));
        continue;
      }
      BinaryArrayList *d = mine[k];
      if (d->length != s->length && !(d->length > s->length && d->length - s->length < 48)) { free(d->arr); d->arr = (uint8_t *)malloc(s->length ? s->length : 1); }
      memcpy(d->arr, s->arr, s->length);
      d->length = s->length;
      d->flags = s->flags;
    }
    for (; k < mine.size(); k++) {
      dl_list_del(&mine[k]->list);
      free(mine[k]->arr);
      free(mine[k]);
    }
    return l;
  }
  static BinaryArrayList *at(const struct dl_list *p) { return (BinaryArrayList *)((char *)p - offsetof(BinaryArrayList, list)); }
  ~Recycled() { free_array_list(l); }
};
static inline void quiet_log() { log_set_quiet(true); }
} // namespace vh
