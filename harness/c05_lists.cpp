// C05: lists and arrays against vectors of strings.
#include "vmodel.hpp"
using namespace vh;
using namespace ref;

struct Item { Bytes b; int flags; };
static void compare(BinaryArrayList *l, const std::vector<Item> &m, const std::string &hist) {
  size_t n = 0;
  BinaryArrayList *el;
  if (dl_list_len(&l->list) != m.size()) { failf("list-length", "%u elements, pushed %zu: %s", dl_list_len(&l->list), m.size(), hist.c_str()); return; }
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) {
    if (n >= m.size()) { fail("list-length", hist); return; }
    if (el->length != m[n].b.size() || (el->length && memcmp(el->arr, m[n].b.data(), el->length)) || el->flags != m[n].flags) {
      failf("list-element", "element %zu differs: %s", n, hist.c_str());
      return;
    }
    n++;
  }
  // backwards as well
  struct dl_list *p = l->list.prev;
  while (n > 0) {
    n--;
    BinaryArrayList *e = (BinaryArrayList *)p->el;
    if (!e || e->length != m[n].b.size() || e->flags != m[n].flags) { failf("list-backlinks", "element %zu from behind: %s", n, hist.c_str()); return; }
    p = p->prev;
  }
  if (p != &l->list) fail("list-backlinks", hist);
}
static void lists(Rng &r, long i) {
  std::vector<BinaryArrayList *> ls;
  std::vector<std::vector<Item>> ms;
  for (int k = 0; k < 2; k++) { ls.push_back(init_array_list()); ms.emplace_back(); if (!ls.back()) harness_error("init_array_list"); }
  std::string hist;
  int steps = (int)r.range(0, 30);
  uint64_t h = 7;
  for (int s = 0; s < steps; s++) {
    size_t k = r.below(2);
    std::string d;
    switch (r.below(8)) {
    case 0: { // refused pushes
      Buf x(Bytes("x"));
      int rc = r.chance(1, 2) ? push_array_list(ls[k], nullptr, r.below(5), 0) : push_array_list(nullptr, x.a.array, 1, 0);
      if (rc >= 0) fail("bad-push-accepted", hist);
      d = "bad push";
      break;
    }
    case 1: { // an element of one list into another
      BinaryArrayList *el = dl_list_first(&ls[1 - k]->list, struct BinaryArrayList, list);
      if (!el) { d = "-"; break; }
      Bytes v((char *)el->arr, el->length);
      if (push_array_list(ls[k], el->arr, el->length, el->flags) < 0) fail("push-refused", hist);
      ms[k].push_back({v, el->flags});
      d = "push element of other list";
      break;
    }
    case 2: { // restart a list
      free_array_list(ls[k]);
      ls[k] = init_array_list();
      ms[k].clear();
      d = "free";
      break;
    }
    default: {
      Bytes v = r.chance(1, 12) ? Bytes() : rand_blob(r);
      int flags = r.chance(1, 2) ? (int)r.next() : (int)r.below(4);
      Buf x(v);
      if (push_array_list(ls[k], x.a.array, x.a.length, flags) < 0) fail("push-refused", hist);
      memset(x.a.array, 0x41, x.a.length);
      ms[k].push_back({v, flags});
      d = fmt("push %zu bytes flags %d", v.size(), flags);
    }
    }
    hist += "; " + d;
    h = hash(d.data(), d.size(), h);
    for (int q = 0; q < 2; q++) compare(ls[q], ms[q], hist);
    count("list_operations");
  }
  for (auto l : ls) free_array_list(l);
  free_array_list(nullptr);
  evaluated(h, steps > 1);
  if (i % 1500 == 0) sample("list history " + hist.substr(0, 300));
}
static void keyvalues(Rng &r, long i) {
  struct keyvalue_list *l = init_keyvalue_list();
  if (!l) harness_error("init_keyvalue_list");
  std::vector<std::pair<Bytes, Bytes>> m;
  auto text = [&]() { Bytes b; size_t n = r.chance(1, 8) ? 0 : (size_t)r.range(1, r.chance(1, 6) ? 3000 : 30); while (b.size() < n) b += (char)r.range(1, 255); return b; };
  int steps = (int)r.range(0, 25);
  uint64_t h = 9;
  char *none = serialize_keyvalue2json(l);
  if (none) { fail("empty-list-serialized", none); free(none); }
  for (int s = 0; s < steps; s++) {
    Bytes k = text(), v = text();
    char *kk = strdup(k.c_str()), *vv = strdup(v.c_str());
    if (r.chance(1, 8)) {
      int rc = r.chance(1, 3) ? push_keyvalue_list(nullptr, kk, vv) : r.chance(1, 2) ? push_keyvalue_list(l, nullptr, vv) : push_keyvalue_list(l, kk, nullptr);
      if (rc >= 0) fail("bad-push-accepted", "key/value");
    } else {
      if (push_keyvalue_list(l, kk, vv) < 0) fail("push-refused", "key/value");
      m.push_back({k, v});
    }
    memset(kk, 'Z', k.size());
    memset(vv, 'Z', v.size());
    free(kk);
    free(vv);
    size_t n = 0;
    struct keyvalue_list *el;
    dl_list_for_each(el, &l->list, struct keyvalue_list, list) {
      if (n >= m.size() || m[n].first != el->key || m[n].second != el->value) { failf("kv-element", "element %zu differs", n); break; }
      n++;
    }
    if (n != m.size()) failf("kv-length", "%zu elements, pushed %zu", n, m.size());
    h = hash(k.data(), k.size(), h);
    h = hash(v.data(), v.size(), h);
    count("kv_operations");
  }
  if (!m.empty()) {
    Bytes want = "{";
    for (size_t k = 0; k < m.size(); k++) want += (k ? "," : "") + m[k].first + ":" + m[k].second;
    want += "}";
    char *s = serialize_keyvalue2json(l);
    if (!s || want != s) failf("kv-serialized", "want %s got %s", printable(want).c_str(), s ? printable(s).c_str() : "NULL");
    free(s);
    count("kv_serialized");
  }
  free_keyvalue_list(l);
  free_keyvalue_list(nullptr);
  evaluated(h, steps > 1);
  (void)i;
}
static void arrays(Rng &r, long i) {
  // a pool of arrays and their model
  const int N = 4;
  BinaryArray *p[N];
  std::optional<Bytes> m[N]; // nullopt: no array
  for (int k = 0; k < N; k++) {
    p[k] = init_binary_array();
    if (!p[k]) harness_error("init_binary_array");
    if (p[k]->array || p[k]->length) fail("fresh-array-not-empty", "");
  }
  std::string hist;
  uint64_t h = 3;
  int steps = (int)r.range(1, 30);
  for (int s = 0; s < steps; s++) {
    int a = (int)r.below(N), b = (int)r.below(N);
    std::string d;
    switch (r.below(7)) {
    case 0: case 1: { // fill from a buffer
      Bytes v = r.chance(1, 4) ? (m[b] ? *m[b] : Bytes("q")) : rand_blob(r); // often equal content elsewhere
      if (v.size() > 1 && r.chance(1, 3)) v[r.below(v.size())] ^= (char)(1 << r.below(8));
      Buf x(v);
      free_binary_array_content(p[a]);
      int rc = copy_binary_array(p[a], &x.a);
      memset(x.a.array, 0x41, x.a.length);
      if (rc != 0) fail("copy-refused", hist);
      m[a] = v;
      d = fmt("fill %d with %zu bytes", a, v.size());
      break;
    }
    case 2: { // copy one to another
      if (a == b) { d = "-"; break; }
      if (m[b]) {
        free_binary_array_content(p[a]);
        if (copy_binary_array(p[a], p[b]) != 0) fail("copy-refused", hist);
        m[a] = m[b];
      } else { // refused: there is nothing to copy; target keeps what it had
        if (copy_binary_array(p[a], p[b]) >= 0) fail("bad-copy-accepted", hist);
      }
      d = fmt("copy %d to %d", b, a);
      break;
    }
    case 3: { // compare
      int c = compare_binary_array(p[a], p[b]);
      Bytes x = m[a] ? *m[a] : Bytes(), y = m[b] ? *m[b] : Bytes();
      if (c != (x == y ? 1 : 0)) failf("compare", "compare gives %d for %s and %s: %s", c, hex(x).c_str(), hex(y).c_str(), hist.c_str());
      count(x == y ? "compared_equal" : x.size() == y.size() ? "compared_same_length" : "compared_other_length");
      d = "compare";
      break;
    }
    case 4: { // direct comparison of near misses
      Bytes v = rand_blob(r), w = v;
      switch (r.below(4)) {
      case 0: break;
      case 1: w[r.chance(1, 2) ? (r.chance(1, 2) ? 0 : w.size() - 1) : r.below(w.size())] ^= (char)(1 << r.below(8)); break;
      case 2: w += '\0'; break;
      default: w.pop_back();
      }
      Buf x(v), y(w);
      int c = compare_binary_array(&x.a, &y.a), e = compare_binary_array(&y.a, &x.a);
      if (c != (v == w ? 1 : 0) || e != c) failf("compare", "compare gives %d/%d for %s and %s", c, e, hex(v).c_str(), hex(w).c_str());
      count("compared_near_miss");
      d = "compare near miss";
      break;
    }
    case 5: { // NULL arguments
      Buf x(Bytes("a"));
      if (compare_binary_array(nullptr, &x.a) != -1 || compare_binary_array(&x.a, nullptr) != -1) fail("compare-null", "");
      if (copy_binary_array(nullptr, &x.a) != -1 || copy_binary_array(p[a], nullptr) != -1) fail("copy-null", "");
      free_binary_array_content(nullptr);
      free_binary_array(nullptr);
      d = "null arguments";
      break;
    }
    default:
      free_binary_array_content(p[a]);
      m[a].reset();
      if (p[a]->array || p[a]->length) fail("freed-array-not-empty", hist);
      d = fmt("free %d", a);
    }
    hist += "; " + d;
    h = hash(d.data(), d.size(), h);
    for (int k = 0; k < N; k++)
      if ((p[k]->array != nullptr) != m[k].has_value() || (m[k] && str(p[k]) != *m[k]) || (!m[k] && p[k]->length)) { failf("array-state", "array %d: %s", k, hist.c_str()); break; }
    count("array_operations");
  }
  for (auto x : p) free_binary_array(x);
  evaluated(h, steps > 2);
  (void)i;
}
// Arrays whose lengths agree in their low bits: 4 GiB of address space of which
// only the first bytes are ever backed by memory.
static void lengths(Rng &r) {
  static uint8_t *far = nullptr;
  static const size_t MOST = (size_t(1) << 32) + (1 << 20);
  if (!far) {
    far = (uint8_t *)mmap(nullptr, MOST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (far == MAP_FAILED) harness_error("mmap");
  }
  Bytes v = rand_blob(r);
  static const size_t delta[] = {1 << 8, 1 << 15, 1 << 16, 1 << 24, size_t(1) << 31, size_t(1) << 32};
  size_t by = delta[r.below(6)] * (size_t)1;
  memcpy(far, v.data(), v.size());
  Buf x(v);
  BinaryArray y{far, v.size() + by};
  int c = compare_binary_array(&x.a, &y), e = compare_binary_array(&y, &x.a);
  if (c != 0 || e != 0) failf("compare", "compare gives %d/%d for %zu bytes and the same followed by %zu more", c, e, v.size(), by);
  memset(far, 0, v.size());
  count("compared_far_longer");
}
static void one(Rng &r, long i) {
  if (i % 8 == 0) lengths(r);
  switch (i % 3) {
  case 0: lists(r, i); break;
  case 1: keyvalues(r, i); break;
  default: arrays(r, i);
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  return run(one, 300);
}
