#ifndef OPENTRACING_VALUE_H
#define OPENTRACING_VALUE_H
#include <opentracing/string_view.h>
#include <opentracing/version.h>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Value;
typedef std::unordered_map<std::string, Value> Dictionary;
typedef std::vector<Value> Values;

class Value {
 public:
  Value() noexcept : k_(K::null) {}
  Value(std::nullptr_t) noexcept : k_(K::null) {}
  template <typename T, typename std::enable_if<
      std::is_integral<T>::value && std::is_signed<T>::value>::type* = nullptr>
  Value(T t) noexcept : k_(K::i) { u_.i = static_cast<int64_t>(t); }
  template <typename T, typename std::enable_if<
      std::is_integral<T>::value && std::is_unsigned<T>::value &&
      !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : k_(K::u) { u_.u = static_cast<uint64_t>(t); }
  template <typename T, typename std::enable_if<
      std::is_floating_point<T>::value>::type* = nullptr>
  Value(T t) noexcept : k_(K::d) { u_.d = static_cast<double>(t); }
  template <typename T, typename std::enable_if<
      std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : k_(K::b) { u_.b = t; }
  Value(const char* s) noexcept : k_(K::c) { u_.c = s; }
  Value(const std::string& s) : k_(K::s), s_(s) {}
  Value(std::string&& s) : k_(K::s), s_(std::move(s)) {}
  Value(string_view s) : k_(K::s), s_(s.data(), s.size()) {}
  Value(const Values& v) : k_(K::v), v_(new Values(v)) {}
  Value(Values&& v) : k_(K::v), v_(new Values(std::move(v))) {}
  Value(const Dictionary& v) : k_(K::m), m_(new Dictionary(v)) {}
  Value(Dictionary&& v) : k_(K::m), m_(new Dictionary(std::move(v))) {}
  Value(const Value& o)
      : k_(o.k_), u_(o.u_), s_(o.s_),
        v_(o.v_ ? new Values(*o.v_) : nullptr),
        m_(o.m_ ? new Dictionary(*o.m_) : nullptr) {}
  Value(Value&& o) noexcept
      : k_(o.k_), u_(o.u_), s_(std::move(o.s_)), v_(o.v_), m_(o.m_) {
    o.v_ = nullptr; o.m_ = nullptr;
    if (o.k_ == K::v || o.k_ == K::m) o.k_ = K::null;
  }
  ~Value() { delete v_; delete m_; }
  Value& operator=(Value o) noexcept {
    std::swap(k_, o.k_); std::swap(u_, o.u_); s_.swap(o.s_);
    std::swap(v_, o.v_); std::swap(m_, o.m_);
    return *this;
  }
  template <class F>
  auto visit(F&& f) const -> decltype(f(true)) {
    switch (k_) {
      case K::b: return f(u_.b);
      case K::d: return f(u_.d);
      case K::i: return f(u_.i);
      case K::u: return f(u_.u);
      case K::s: return f(static_cast<const std::string&>(s_));
      case K::c: return f(u_.c);
      case K::v: return f(static_cast<const Values&>(*v_));
      case K::m: return f(static_cast<const Dictionary&>(*m_));
      default: return f(nullptr);
    }
  }
  friend bool operator==(const Value& a, const Value& b);
  friend bool operator!=(const Value& a, const Value& b) { return !(a == b); }

 private:
  enum class K { null, b, d, i, u, s, c, v, m };
  K k_;
  union U { bool b; double d; int64_t i; uint64_t u; const char* c; U() : u(0) {} } u_;
  std::string s_;
  Values* v_{nullptr};
  Dictionary* m_{nullptr};
};
inline bool operator==(const Value& a, const Value& b) {
  if (a.k_ != b.k_) return false;
  switch (a.k_) {
    case Value::K::b: return a.u_.b == b.u_.b;
    case Value::K::d: return a.u_.d == b.u_.d;
    case Value::K::i: return a.u_.i == b.u_.i;
    case Value::K::u: return a.u_.u == b.u_.u;
    case Value::K::s: return a.s_ == b.s_;
    case Value::K::c: return a.u_.c == b.u_.c;
    case Value::K::v: return *a.v_ == *b.v_;
    case Value::K::m: return *a.m_ == *b.m_;
    default: return true;
  }
}
template <class F>
auto apply_visitor(F&& f, const Value& v) -> decltype(f(true)) {
  return v.visit(std::forward<F>(f));
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
