// Stand-in for the json-schema-validator library, which is not available offline. It implements the draft-07
// keywords that rtbot's published schema uses, behind the same two classes the bindings use.
#ifndef RTBOT_VERIF_STUB_JSON_SCHEMA
#define RTBOT_VERIF_STUB_JSON_SCHEMA
#include <cmath>
#include <functional>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>
namespace nlohmann {
namespace json_schema {
inline void default_string_format_check(const std::string&, const std::string&) {}
class json_validator {
  json root;
  static bool isType(const json& v, const std::string& t) {
    if (t == "object") return v.is_object();
    if (t == "array") return v.is_array();
    if (t == "string") return v.is_string();
    if (t == "boolean") return v.is_boolean();
    if (t == "null") return v.is_null();
    if (t == "number") return v.is_number();
    if (t == "integer")
      return v.is_number_integer() || (v.is_number_float() && std::floor(v.get<double>()) == v.get<double>());
    return true;
  }
  static void check(const json& s, const json& v, const std::string& at) {
    auto fail = [&](const std::string& m) { throw std::invalid_argument("At " + at + ": " + m); };
    if (!s.is_object()) return;
    if (auto t = s.find("type"); t != s.end()) {
      bool ok = false;
      if (t->is_string())
        ok = isType(v, t->get<std::string>());
      else if (t->is_array())
        for (auto& x : *t) ok = ok || isType(v, x.get<std::string>());
      else
        ok = true;
      if (!ok) fail("unexpected instance type");
    }
    if (auto e = s.find("enum"); e != s.end()) {
      bool ok = false;
      for (auto& x : *e) ok = ok || x == v;
      if (!ok) fail("instance not found in required enum");
    }
    if (v.is_number()) {
      if (auto m = s.find("minimum"); m != s.end() && v.get<double>() < m->get<double>()) fail("below minimum");
      if (auto m = s.find("maximum"); m != s.end() && v.get<double>() > m->get<double>()) fail("above maximum");
    }
    if (v.is_array()) {
      if (auto m = s.find("minItems"); m != s.end() && v.size() < m->get<size_t>()) fail("too few items");
      if (auto m = s.find("maxItems"); m != s.end() && v.size() > m->get<size_t>()) fail("too many items");
      if (auto m = s.find("items"); m != s.end())
        for (size_t i = 0; i < v.size(); i++) check(*m, v[i], at + "/" + std::to_string(i));
    }
    if (v.is_object()) {
      if (auto m = s.find("required"); m != s.end())
        for (auto& x : *m)
          if (!v.contains(x.get<std::string>())) fail("required property '" + x.get<std::string>() + "' not found");
      auto props = s.find("properties");
      auto pats = s.find("patternProperties");
      auto add = s.find("additionalProperties");
      for (auto& [k, x] : v.items()) {
        bool known = false;
        if (props != s.end() && props->contains(k)) known = true, check((*props)[k], x, at + "/" + k);
        if (pats != s.end())
          for (auto& [re, sub] : pats->items())
            if (std::regex_search(k, std::regex(re))) known = true, check(sub, x, at + "/" + k);
        if (!known && add != s.end()) {
          if (add->is_boolean() && !add->get<bool>()) fail("additional property '" + k + "' not allowed");
          if (add->is_object()) check(*add, x, at + "/" + k);
        }
      }
    }
    if (auto o = s.find("oneOf"); o != s.end()) {
      int n = 0;
      for (auto& x : *o) try {
          check(x, v, at), n++;
        } catch (const std::invalid_argument&) {
        }
      if (n != 1) fail(n ? "more than one subschema has succeeded" : "no subschema has succeeded");
    }
  }

 public:
  template <class A, class B>
  json_validator(A, B) {}
  void set_root_schema(const json& s) { root = s; }
  void validate(const json& v) const { check(root, v, "/"); }
};
}  // namespace json_schema
}  // namespace nlohmann
#endif
