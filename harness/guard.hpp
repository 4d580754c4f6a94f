// What the address sanitizer does not see: libcrypto is not instrumented, so an
// object handed to it after it was freed, or a buffer shorter than announced,
// goes unnoticed there. touch() makes the instrumented side look at what is
// handed over first.
#pragma once
#include <cstddef>
#include <type_traits>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
namespace guard {
template <class T> struct object { static const bool value = !std::is_void<T>::value && !std::is_function<T>::value && !std::is_same<typename std::remove_cv<T>::type, char>::value && !std::is_same<typename std::remove_cv<T>::type, unsigned char>::value; };
template <class T, typename std::enable_if<object<T>::value, int>::type = 0> static inline void touch1(T *p) { if (p) (void)*(volatile const char *)p; }
template <class T, typename std::enable_if<!object<T>::value, int>::type = 0> static inline void touch1(T *) {}
template <class T, typename std::enable_if<!std::is_pointer<T>::value, int>::type = 0> static inline void touch1(T) {}
static inline void touch() {}
template <class T, class... R> static inline void touch(T a, R... r) { touch1(a); touch(r...); }
static inline void region(const void *p, size_t n) {
#if defined(__SANITIZE_ADDRESS__)
  if (p && n) if (const volatile char *bad = (const volatile char *)__asan_region_is_poisoned((void *)p, n)) (void)*bad;
#endif
}
} // namespace guard
