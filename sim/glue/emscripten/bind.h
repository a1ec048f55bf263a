#ifndef VERIF_EMBIND_H
#define VERIF_EMBIND_H
#include <iostream>
#include "../glue.h"
namespace emscripten {
class val {
 public:
  template <class T, class A>
  static val array(const std::vector<T, A>&) {
    return val();
  }
};
template <class T>
std::vector<T> vecFromJSArray(const val&) {
  return {};
}
struct allow_raw_pointers {};
namespace internal {
using TYPEID = const void*;
template <class T, class = void>
struct BindingType;
template <>
struct BindingType<val> {
  using WireType = void*;
  static WireType toWireType(const val&) { return nullptr; }
  static val fromWireType(WireType) { return val(); }
};
template <class T>
struct Canonicalized {
  using type = std::remove_cv_t<std::remove_reference_t<T>>;
};
template <class T, class = void>
struct TypeID {
  static constexpr TYPEID get() { return nullptr; }
};
}  // namespace internal
template <class R, class... A, class... P>
void function(const char* name, R (*f)(A...), P...) {
  glue::javascript()[name] = glue::bind(std::function<R(A...)>(f));
}
template <class Signature>
Signature* select_overload(Signature* f) {
  return f;
}
template <class C>
class value_object {
 public:
  value_object(const char*) {}
  template <class F>
  value_object& field(const char*, F C::*) {
    return *this;
  }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name)                                  \
  static void embind_init_##name();                                \
  static const bool embind_done_##name = (embind_init_##name(), true); \
  static void embind_init_##name()
#endif
