// What the harness of generated C++ code shares with the glue of a schema.
#pragma once
#include <json/json.h>

#include <boost/filesystem/path.hpp>
#include <boost/optional.hpp>
#include <date/date.h>
#include <date/tz.h>
#include <optional.hpp>

#include <chrono>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pv {

struct Graph {
  virtual ~Graph() {}
  // references of the errors
  virtual std::vector<std::string> parse(const Json::Value& v,
                                         const std::string& ref,
                                         size_t cap) = 0;
  virtual Json::Value write() const = 0;
  virtual Json::Value dump() const = 0;
  virtual void tamper(const std::string& cls, const std::string& id,
                      const std::string& renamed) = 0;
};

typedef std::function<std::unique_ptr<Graph>()> Make;
std::map<int, Make>& table();

struct Register {
  Register(int i, Make m) { table()[i] = m; }
};

inline Json::Value tagged(const char* tag, Json::Value x) {
  Json::Value o(Json::objectValue);
  o[tag] = std::move(x);
  return o;
}

inline Json::Value address(const void* p) {
  std::ostringstream o;
  o << p;
  return Json::Value(o.str());
}

inline Json::Value dump_tm(const struct tm& t) {
  Json::Value a(Json::arrayValue);
  for (int x : {t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec,
                t.tm_wday, t.tm_yday, t.tm_isdst,
                static_cast<int>(t.tm_gmtoff)}) {
    a.append(Json::Value(x));
  }
  return a;
}

template <typename T>
struct Dump;

template <typename T>
Json::Value dump(const T& x) {
  return Dump<T>::of(x);
}

template <>
struct Dump<bool> {
  static Json::Value of(bool x) { return Json::Value(x); }
};
template <>
struct Dump<int64_t> {
  static Json::Value of(int64_t x) {
    return tagged("i", std::to_string(x));
  }
};
template <>
struct Dump<double> {
  static Json::Value of(double x) {
    std::ostringstream o;
    o.precision(17);
    o << x;
    return tagged("f", o.str());
  }
};
template <>
struct Dump<std::string> {
  static Json::Value of(const std::string& x) { return tagged("s", x); }
};
template <>
struct Dump<std::filesystem::path> {
  static Json::Value of(const std::filesystem::path& x) {
    return tagged("s", x.native());
  }
};
template <>
struct Dump<boost::filesystem::path> {
  static Json::Value of(const boost::filesystem::path& x) {
    return tagged("s", x.native());
  }
};
template <>
struct Dump<struct tm> {
  static Json::Value of(const struct tm& x) { return tagged("t", dump_tm(x)); }
};
template <>
struct Dump<std::chrono::nanoseconds> {
  static Json::Value of(const std::chrono::nanoseconds& x) {
    return tagged("d", std::to_string(static_cast<int64_t>(x.count())));
  }
};
template <>
struct Dump<date::local_days> {
  static Json::Value of(const date::local_days& x) {
    return tagged("t", std::to_string(x.time_since_epoch().count()));
  }
};
template <>
struct Dump<date::local_seconds> {
  static Json::Value of(const date::local_seconds& x) {
    return tagged("t", std::to_string(x.time_since_epoch().count()));
  }
};
template <>
struct Dump<date::time_of_day<std::chrono::seconds>> {
  static Json::Value of(const date::time_of_day<std::chrono::seconds>& x) {
    return tagged("t", std::to_string(x.to_duration().count()));
  }
};
template <>
struct Dump<const date::time_zone*> {
  static Json::Value of(const date::time_zone* const& x) {
    return x == nullptr ? Json::Value() : tagged("s", x->name());
  }
};
template <typename T>
struct Dump<std::vector<T>> {
  static Json::Value of(const std::vector<T>& x) {
    Json::Value a(Json::arrayValue);
    for (size_t i = 0; i < x.size(); ++i) {
      a.append(Dump<T>::of(x[i]));
    }
    return tagged("a", a);
  }
};
template <typename T>
struct Dump<std::map<std::string, T>> {
  static Json::Value of(const std::map<std::string, T>& x) {
    Json::Value o(Json::objectValue);
    for (const auto& kv : x) {
      o[kv.first] = Dump<T>::of(kv.second);
    }
    return tagged("m", o);
  }
};
template <typename O>
Json::Value dump_optional(const O& x) {
  if (!x) {
    return Json::Value();
  }
  return tagged("p", dump(*x));
}
template <typename T>
struct Dump<std::optional<T>> {
  static Json::Value of(const std::optional<T>& x) { return dump_optional(x); }
};
template <typename T>
struct Dump<std::experimental::optional<T>> {
  static Json::Value of(const std::experimental::optional<T>& x) {
    return dump_optional(x);
  }
};
template <typename T>
struct Dump<boost::optional<T>> {
  static Json::Value of(const boost::optional<T>& x) {
    return dump_optional(x);
  }
};
// references to instances
template <typename T>
struct Dump<T*> {
  static Json::Value of(T* const& x) {
    return x == nullptr ? Json::Value() : tagged("r", address(x));
  }
};

template <typename T>
Json::Value dump_registry(
    const std::map<std::string, std::unique_ptr<T>>& registry) {
  Json::Value o(Json::objectValue);
  for (const auto& kv : registry) {
    Json::Value e(Json::objectValue);
    if (kv.second) {
      e["a"] = address(kv.second.get());
      e["id"] = kv.second->id;
      e["x"] = Dump<T>::of(*kv.second);
    }
    o[kv.first] = e;
  }
  return o;
}

}  // namespace pv
