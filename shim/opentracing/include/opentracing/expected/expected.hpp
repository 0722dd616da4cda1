#ifndef OPENTRACING_EXPECTED_HPP
#define OPENTRACING_EXPECTED_HPP
#include <opentracing/version.h>
#include <cassert>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
template <typename E>
class unexpected_type {
 public:
  unexpected_type() = delete;
  explicit unexpected_type(E const& e) : error_(e) {}
  explicit unexpected_type(E&& e) : error_(std::move(e)) {}
  E const& value() const { return error_; }
  E& value() { return error_; }

 private:
  E error_;
};
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& v) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(v));
}

template <typename T, typename E = std::error_code>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;
  expected() : has_(true) { new (&val_) T(); }
  expected(expected const& o) : has_(o.has_) {
    if (has_) new (&val_) T(o.val_); else new (&err_) E(o.err_);
  }
  expected(expected&& o) noexcept : has_(o.has_) {
    if (has_) new (&val_) T(std::move(o.val_)); else new (&err_) E(std::move(o.err_));
  }
  expected(T const& v) : has_(true) { new (&val_) T(v); }
  expected(T&& v) : has_(true) { new (&val_) T(std::move(v)); }
  template <class U, class = typename std::enable_if<
      std::is_convertible<U&&, T>::value &&
      !std::is_same<typename std::decay<U>::type, expected>::value &&
      !std::is_same<typename std::decay<U>::type, T>::value &&
      !std::is_same<typename std::decay<U>::type, unexpected_type<E>>::value>::type>
  expected(U&& v) : has_(true) { new (&val_) T(std::forward<U>(v)); }
  expected(unexpected_type<E> const& u) : has_(false) { new (&err_) E(u.value()); }
  expected(unexpected_type<E>&& u) : has_(false) { new (&err_) E(std::move(u.value())); }
  ~expected() { destroy(); }
  expected& operator=(expected o) {
    destroy();
    has_ = o.has_;
    if (has_) new (&val_) T(std::move(o.val_)); else new (&err_) E(std::move(o.err_));
    return *this;
  }
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  T const& value() const& { return check(), val_; }
  T& value() & { return check(), val_; }
  T&& value() && { return check(), std::move(val_); }
  T const& operator*() const& { return assert(has_), val_; }
  T& operator*() & { return assert(has_), val_; }
  T&& operator*() && { return assert(has_), std::move(val_); }
  T const* operator->() const { return assert(has_), &val_; }
  T* operator->() { return assert(has_), &val_; }
  E const& error() const { return assert(!has_), err_; }
  E& error() { return assert(!has_), err_; }
  template <class U>
  T value_or(U&& v) const& { return has_ ? val_ : static_cast<T>(std::forward<U>(v)); }

 private:
  void check() const { if (!has_) throw std::system_error(err_); }
  void destroy() { if (has_) val_.~T(); else err_.~E(); }
  bool has_;
  union { T val_; E err_; };
};
template <typename E>
class expected<void, E> {
 public:
  expected() : has_(true) {}
  expected(unexpected_type<E> const& u) : has_(false), err_(u.value()) {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  void value() const { if (!has_) throw std::system_error(err_); }
  E const& error() const { return assert(!has_), err_; }

 private:
  bool has_;
  E err_;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
