// Stands in for Jsoncpp, which is not installed here: the part of the
// interface of Json::Value (1.9) that generated code may use, and its
// documented behaviour.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json {

typedef int Int;
typedef unsigned int UInt;
typedef std::int64_t Int64;
typedef std::uint64_t UInt64;
typedef unsigned int ArrayIndex;
typedef std::string String;

class LogicError : public std::runtime_error {
 public:
  explicit LogicError(const std::string& s) : std::runtime_error(s) {}
};

enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};

class Value;

class ValueConstIterator {
 public:
  typedef std::map<std::string, std::unique_ptr<Value>> Members;
  typedef std::vector<std::unique_ptr<Value>> Items;
  typedef std::ptrdiff_t difference_type;
  typedef std::bidirectional_iterator_tag iterator_category;
  typedef const Value value_type;
  typedef const Value& reference;
  typedef const Value* pointer;
  ValueConstIterator() : object_(false), items_(nullptr), i_(0) {}
  explicit ValueConstIterator(Members::const_iterator it)
      : object_(true), it_(it), items_(nullptr), i_(0) {}
  ValueConstIterator(const Items* items, std::size_t i)
      : object_(false), items_(items), i_(i) {}
  std::string name() const { return object_ ? it_->first : std::string(); }
  UInt index() const { return static_cast<UInt>(i_); }
  inline Value key() const;
  const Value& operator*() const {
    return object_ ? *it_->second : *(*items_)[i_];
  }
  const Value* operator->() const { return &**this; }
  ValueConstIterator& operator++() {
    if (object_) {
      ++it_;
    } else {
      ++i_;
    }
    return *this;
  }
  ValueConstIterator operator++(int) {
    ValueConstIterator old(*this);
    ++*this;
    return old;
  }
  bool operator==(const ValueConstIterator& o) const {
    return object_ == o.object_ && (object_ ? it_ == o.it_ : i_ == o.i_);
  }
  bool operator!=(const ValueConstIterator& o) const { return !(*this == o); }

 private:
  bool object_;
  Members::const_iterator it_;
  const Items* items_;
  std::size_t i_;
};

class Value {
 public:
  typedef ValueConstIterator const_iterator;
  typedef Json::UInt UInt;
  typedef Json::Int Int;
  typedef Json::UInt64 UInt64;
  typedef Json::Int64 Int64;
  typedef Json::ArrayIndex ArrayIndex;

  Value(ValueType type = nullValue) : t_(type) {}
  Value(Int x) : t_(intValue), i_(x) {}
  Value(UInt x) : t_(uintValue), u_(x) {}
  Value(Int64 x) : t_(intValue), i_(x) {}
  Value(UInt64 x) : t_(uintValue), u_(x) {}
  Value(double x) : t_(realValue), d_(x) {}
  Value(const char* x) : t_(stringValue), s_(x) {}
  Value(const std::string& x) : t_(stringValue), s_(x) {}
  Value(bool x) : t_(booleanValue), b_(x) {}
  Value(const Value& o) { copy(o); }
  Value(Value&& o) { swap(o); }
  Value& operator=(const Value& o) {
    Value other(o);
    swap(other);
    return *this;
  }
  Value& operator=(Value&& o) {
    Value other(std::move(o));
    swap(other);
    return *this;
  }
  void swap(Value& o) {
    std::swap(t_, o.t_);
    std::swap(i_, o.i_);
    std::swap(u_, o.u_);
    std::swap(d_, o.d_);
    std::swap(b_, o.b_);
    std::swap(s_, o.s_);
    std::swap(items_, o.items_);
    std::swap(members_, o.members_);
  }

  ValueType type() const { return t_; }
  bool isNull() const { return t_ == nullValue; }
  bool isBool() const { return t_ == booleanValue; }
  bool isInt() const {
    return isInt64() && asInt64() >= INT32_MIN && asInt64() <= INT32_MAX;
  }
  bool isInt64() const {
    switch (t_) {
      case intValue:
        return true;
      case uintValue:
        return u_ <= static_cast<UInt64>(INT64_MAX);
      case realValue:
        return d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0 &&
               std::floor(d_) == d_;
      default:
        return false;
    }
  }
  bool isUInt64() const {
    switch (t_) {
      case intValue:
        return i_ >= 0;
      case uintValue:
        return true;
      case realValue:
        return d_ >= 0 && d_ < 18446744073709551616.0 && std::floor(d_) == d_;
      default:
        return false;
    }
  }
  bool isIntegral() const { return isInt64() || isUInt64(); }
  bool isDouble() const {
    return t_ == intValue || t_ == uintValue || t_ == realValue;
  }
  bool isNumeric() const { return isDouble(); }
  bool isString() const { return t_ == stringValue; }
  bool isArray() const { return t_ == arrayValue; }
  bool isObject() const { return t_ == objectValue; }

  bool asBool() const {
    switch (t_) {
      case booleanValue:
        return b_;
      case nullValue:
        return false;
      case intValue:
        return i_ != 0;
      case uintValue:
        return u_ != 0;
      case realValue:
        return d_ != 0;
      default:
        throw LogicError("Value is not convertible to bool.");
    }
  }
  Int64 asInt64() const {
    switch (t_) {
      case intValue:
        return i_;
      case uintValue:
        if (u_ > static_cast<UInt64>(INT64_MAX)) {
          throw LogicError("LargestUInt out of Int64 range");
        }
        return static_cast<Int64>(u_);
      case realValue:
        if (!(d_ >= -9223372036854775808.0 && d_ <= 9223372036854775807.0)) {
          throw LogicError("double out of Int64 range");
        }
        return static_cast<Int64>(d_);
      case nullValue:
        return 0;
      case booleanValue:
        return b_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to Int64.");
    }
  }
  Int asInt() const {
    if (!isInt()) {
      throw LogicError("out of Int range");
    }
    return static_cast<Int>(asInt64());
  }
  double asDouble() const {
    switch (t_) {
      case intValue:
        return static_cast<double>(i_);
      case uintValue:
        return static_cast<double>(u_);
      case realValue:
        return d_;
      case nullValue:
        return 0.0;
      case booleanValue:
        return b_ ? 1.0 : 0.0;
      default:
        throw LogicError("Value is not convertible to double.");
    }
  }
  std::string asString() const {
    switch (t_) {
      case nullValue:
        return "";
      case stringValue:
        return s_;
      case booleanValue:
        return b_ ? "true" : "false";
      case intValue:
        return std::to_string(i_);
      case uintValue:
        return std::to_string(u_);
      case realValue: {
        std::ostringstream o;
        o.precision(17);
        o << d_;
        return o.str();
      }
      default:
        throw LogicError("Type is not convertible to string");
    }
  }
  const char* asCString() const {
    if (t_ != stringValue) {
      throw LogicError("in Json::Value::asCString(): requires stringValue");
    }
    return s_.c_str();
  }

  ArrayIndex size() const {
    return static_cast<ArrayIndex>(
        t_ == arrayValue ? items_.size()
                         : t_ == objectValue ? members_.size() : 0);
  }
  bool empty() const {
    return (isNull() || isArray() || isObject()) && size() == 0;
  }
  explicit operator bool() const { return !isNull(); }
  void resize(ArrayIndex n) {
    need(arrayValue);
    while (items_.size() < n) {
      items_.emplace_back(new Value());
    }
    items_.resize(n);
  }

  Value& operator[](ArrayIndex i) {
    need(arrayValue);
    if (items_.size() <= i) {
      resize(i + 1);
    }
    return *items_[i];
  }
  Value& operator[](int i) {
    if (i < 0) {
      throw LogicError("index cannot be negative");
    }
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  const Value& operator[](ArrayIndex i) const {
    require(arrayValue);
    return t_ == arrayValue && i < items_.size() ? *items_[i] : null();
  }
  const Value& operator[](int i) const {
    if (i < 0) {
      throw LogicError("index cannot be negative");
    }
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  Value& operator[](const char* k) { return (*this)[std::string(k)]; }
  Value& operator[](const std::string& k) {
    need(objectValue);
    std::unique_ptr<Value>& p = members_[k];
    if (!p) {
      p.reset(new Value());
    }
    return *p;
  }
  const Value& operator[](const char* k) const {
    return (*this)[std::string(k)];
  }
  const Value& operator[](const std::string& k) const {
    require(objectValue);
    if (t_ != objectValue) {
      return null();
    }
    auto it = members_.find(k);
    return it == members_.end() ? null() : *it->second;
  }
  Value& append(const Value& x) {
    Value& last = (*this)[size()];
    last = x;
    return last;
  }
  bool isMember(const char* k) const { return isMember(std::string(k)); }
  bool isMember(const std::string& k) const {
    require(objectValue);
    return t_ == objectValue && members_.count(k) > 0;
  }
  std::vector<std::string> getMemberNames() const {
    std::vector<std::string> out;
    for (const auto& kv : members_) {
      out.push_back(kv.first);
    }
    return out;
  }
  const_iterator begin() const {
    return t_ == objectValue ? const_iterator(members_.begin())
                             : const_iterator(&items_, 0);
  }
  const_iterator end() const {
    return t_ == objectValue ? const_iterator(members_.end())
                             : const_iterator(&items_, items_.size());
  }
  bool operator==(const Value& o) const {
    if (t_ != o.t_ || size() != o.size()) {
      return false;
    }
    switch (t_) {
      case nullValue:
        return true;
      case intValue:
        return i_ == o.i_;
      case uintValue:
        return u_ == o.u_;
      case realValue:
        return d_ == o.d_;
      case booleanValue:
        return b_ == o.b_;
      case stringValue:
        return s_ == o.s_;
      case arrayValue:
        for (std::size_t i = 0; i < items_.size(); ++i) {
          if (!(*items_[i] == *o.items_[i])) {
            return false;
          }
        }
        return true;
      default:
        for (const auto& kv : members_) {
          auto it = o.members_.find(kv.first);
          if (it == o.members_.end() || !(*kv.second == *it->second)) {
            return false;
          }
        }
        return true;
    }
  }
  bool operator!=(const Value& o) const { return !(*this == o); }

  // of real numbers: the text they were written as (see the harness)
 private:
  static const Value& null() {
    static const Value n;
    return n;
  }
  void require(ValueType t) const {
    if (t_ != nullValue && t_ != t) {
      throw LogicError("in Json::Value: requires another type of value");
    }
  }
  void need(ValueType t) {
    require(t);
    t_ = t;
  }
  void copy(const Value& o) {
    t_ = o.t_;
    i_ = o.i_;
    u_ = o.u_;
    d_ = o.d_;
    b_ = o.b_;
    s_ = o.s_;
    for (const auto& x : o.items_) {
      items_.emplace_back(new Value(*x));
    }
    for (const auto& kv : o.members_) {
      members_[kv.first].reset(new Value(*kv.second));
    }
  }
  ValueType t_ = nullValue;
  Int64 i_ = 0;
  UInt64 u_ = 0;
  double d_ = 0;
  bool b_ = false;
  std::string s_;
  ValueConstIterator::Items items_;
  ValueConstIterator::Members members_;
};

inline Value ValueConstIterator::key() const {
  return object_ ? Value(it_->first) : Value(index());
}

}  // namespace Json
