// What the modules for Python (libs/wrappers/python/rtbot.cpp) and JavaScript (libs/api/wasm/emscripten-bindings.cpp) export:
// the real sources of both are compiled against the headers beside this one, which record name and function as pybind11 and
// embind do, so that the simulators call what those modules call.
#ifndef VERIF_GLUE_H
#define VERIF_GLUE_H
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace glue {
struct Arg {
  enum Kind { TEXT, INT, REAL, INTS, REALS, TEXTS } kind;
  std::string s;
  std::uint64_t t = 0;
  double v = 0;
  std::vector<std::uint64_t> ts;
  std::vector<double> vs;
  std::vector<std::string> ss;
  Arg(const std::string& s) : kind(TEXT), s(s) {}
  Arg(const char* s) : kind(TEXT), s(s) {}
  Arg(std::uint64_t t) : kind(INT), t(t) {}
  Arg(double v) : kind(REAL), v(v) {}
  Arg(const std::vector<std::uint64_t>& ts) : kind(INTS), ts(ts) {}
  Arg(const std::vector<double>& vs) : kind(REALS), vs(vs) {}
  Arg(const std::vector<std::string>& ss) : kind(TEXTS), ss(ss) {}
};
using Args = std::vector<Arg>;
using Call = std::function<std::string(const Args&)>;
using Table = std::map<std::string, Call>;
Table& python();
Table& javascript();

inline void want(bool ok) {
  if (!ok) throw std::invalid_argument("incompatible function arguments");
}
template <class T, class = void>
struct As {
  static T of(const Arg& a) {  // numbers
    want(a.kind == Arg::INT || (a.kind == Arg::REAL && std::is_floating_point<T>::value));
    return a.kind == Arg::INT ? (T)a.t : (T)a.v;
  }
};
template <>
struct As<std::string> {
  static std::string of(const Arg& a) {
    want(a.kind == Arg::TEXT);
    return a.s;
  }
};
template <class E>
struct As<std::vector<E>, std::enable_if_t<std::is_integral<E>::value>> {
  static std::vector<E> of(const Arg& a) {
    want(a.kind == Arg::INTS);
    return std::vector<E>(a.ts.begin(), a.ts.end());
  }
};
template <class E>
struct As<std::vector<E>, std::enable_if_t<std::is_floating_point<E>::value>> {
  static std::vector<E> of(const Arg& a) {
    want(a.kind == Arg::REALS);
    return std::vector<E>(a.vs.begin(), a.vs.end());
  }
};
template <>
struct As<std::vector<std::string>> {
  static std::vector<std::string> of(const Arg& a) {
    want(a.kind == Arg::TEXTS);
    return a.ss;
  }
};
inline std::string text(const std::string& s) { return s; }
inline std::string text(const char* s) { return s; }
inline std::string text(bool b) { return b ? "1" : "0"; }

template <class R, class... A, std::size_t... I>
Call bind(std::function<R(A...)> f, std::index_sequence<I...>) {
  return [f](const Args& a) -> std::string {
    want(a.size() == sizeof...(A));
    if constexpr (std::is_void<R>::value) {
      f(As<std::decay_t<A>>::of(a[I])...);
      return "";
    } else
      return text(f(As<std::decay_t<A>>::of(a[I])...));
  };
}
template <class R, class... A>
Call bind(std::function<R(A...)> f) {
  return bind(std::move(f), std::index_sequence_for<A...>());
}
}  // namespace glue
#endif
