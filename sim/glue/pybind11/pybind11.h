#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H
#include "../glue.h"
namespace pybind11 {
struct arg {
  explicit arg(const char*) {}
  template <class T>
  arg& operator=(T&&) {
    return *this;
  }
};
namespace literals {
inline arg operator""_a(const char* s, std::size_t) { return arg(s); }
}  // namespace literals
enum class return_value_policy { automatic, copy, move, reference };
struct gil_scoped_release {};
template <class...>
struct call_guard {};
struct object {
  template <class T>
  object& operator=(T&&) {
    return *this;
  }
};
template <class... A>
struct overload_cast_impl {
  template <class R>
  constexpr auto operator()(R (*f)(A...)) const -> R (*)(A...) {
    return f;
  }
};
template <class... A>
static constexpr overload_cast_impl<A...> overload_cast{};
class module_ {
 public:
  object doc() { return object(); }
  object attr(const char*) { return object(); }
  template <class Func, class... Extra>
  module_& def(const char* name, Func&& f, const Extra&...) {
    glue::python()[name] = glue::bind(std::function(std::forward<Func>(f)));
    return *this;
  }
};
using module = module_;
}  // namespace pybind11
#define PYBIND11_MODULE(name, m)                                           \
  static void pybind11_init_##name(::pybind11::module_&);                  \
  static const bool pybind11_done_##name = [] {                            \
    ::pybind11::module_ m;                                                 \
    pybind11_init_##name(m);                                               \
    return true;                                                           \
  }();                                                                     \
  static void pybind11_init_##name(::pybind11::module_& m)
#endif
