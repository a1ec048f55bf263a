// The repository's real engine (text bindings) as a shared library: a C interface for Python (ctypes) and a Node-API
// module for JavaScript. rb_call is the engine itself; rb_python and the module's `javascript` go through the functions
// that the repository's pybind11 and embind sources export (sim/glue).
#ifndef WITHOUT_NODE
#include <node_api.h>
#endif

#include <exception>
#include <string>
#include <vector>

#include "rtbot/bindings.h"
#include "glue/glue.h"

static thread_local std::string result;

extern "C" __attribute__((visibility("default"))) int rb_call(const char* op, const char* a, const char* b,
                                                              unsigned long long t, double v) {
  std::string o = op;
  try {
    if (o == "validate") result = validate(a);
    else if (o == "validateOperator") result = validateOperator(a, b);
    else if (o == "createProgram") result = createProgram(std::string(a), std::string(b));
    else if (o == "deleteProgram") result = deleteProgram(a);
    else if (o == "addToMessageBuffer") result = addToMessageBuffer(a, b, t, v);
    else if (o == "processMessageBuffer") result = processMessageBuffer(a);
    else if (o == "processMessageBufferDebug") result = processMessageBufferDebug(a);
    else if (o == "getProgramEntryOperatorId") result = getProgramEntryOperatorId(a);
    else if (o == "getProgramEntryPorts") result = getProgramEntryPorts(a);
    else if (o == "getProgramOutputFilter") result = getProgramOutputFilter(a);
    else { result = "no such call: " + o; return 1; }
    return 0;
  } catch (const std::exception& e) {
    result = e.what();
  } catch (...) {
    result = "unknown exception";
  }
  return 1;
}
extern "C" __attribute__((visibility("default"))) const char* rb_result() { return result.c_str(); }

#ifdef WITH_GLUE
using glue::Arg;
static int through(const glue::Table& t, const char* op, const char* a, const char* b, unsigned long long time, double v) {
  std::string o = op;
  if (t.empty()) return rb_call(op, a, b, time, v);  // the sources do not compile against sim/glue
  auto it = t.find(o);
  if (it == t.end()) return result = "the module has no function " + o, 1;
  try {
    std::string x = a, y = b;
    if (o == "createProgram" || o == "validateOperator") result = it->second({x, y});
    else if (o == "addToMessageBuffer") result = it->second({x, y, (std::uint64_t)time, v});
    else result = it->second({x});
    return 0;
  } catch (const std::exception& e) {
    result = e.what();
  } catch (...) {
    result = "unknown exception";
  }
  return 1;
}
extern "C" __attribute__((visibility("default"))) int rb_python(const char* op, const char* a, const char* b,
                                                                unsigned long long t, double v) {
  return through(glue::python(), op, a, b, t, v);
}
extern "C" __attribute__((visibility("default"))) int rb_javascript(const char* op, const char* a, const char* b,
                                                                    unsigned long long t, double v) {
  return through(glue::javascript(), op, a, b, t, v);
}
#endif

#ifndef WITHOUT_NODE
static std::string str(napi_env env, napi_value v) {
  size_t n = 0;
  if (napi_get_value_string_utf8(env, v, nullptr, 0, &n) != napi_ok) return "";
  std::string s(n + 1, 0);
  napi_get_value_string_utf8(env, v, &s[0], n + 1, &n);
  s.resize(n);
  return s;
}
// (op, a, b, time, value)
template <int (*F)(const char*, const char*, const char*, unsigned long long, double)>
static napi_value call(napi_env env, napi_callback_info info) {
  size_t argc = 5;
  napi_value argv[5];
  napi_get_cb_info(env, info, &argc, argv, nullptr, nullptr);
  std::string op = str(env, argv[0]), a = argc > 1 ? str(env, argv[1]) : "", b = argc > 2 ? str(env, argv[2]) : "";
  double t = 0, v = 0;
  if (argc > 3) napi_get_value_double(env, argv[3], &t);
  if (argc > 4) napi_get_value_double(env, argv[4], &v);
  int rc = F(op.c_str(), a.c_str(), b.c_str(), (unsigned long long)t, v);
  if (rc) {
    napi_throw_error(env, nullptr, result.c_str());
    return nullptr;
  }
  napi_value r;
  napi_create_string_utf8(env, result.c_str(), result.size(), &r);
  return r;
}
extern "C" __attribute__((visibility("default"))) napi_value napi_register_module_v1(napi_env env, napi_value exports) {
  napi_value f;
  napi_create_function(env, "call", NAPI_AUTO_LENGTH, call<rb_call>, nullptr, &f);
  napi_set_named_property(env, exports, "call", f);
  napi_create_function(env, "javascript", NAPI_AUTO_LENGTH, call<rb_javascript>, nullptr, &f);
  napi_set_named_property(env, exports, "javascript", f);
  return exports;
}
#endif
