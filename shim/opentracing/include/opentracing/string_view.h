#ifndef OPENTRACING_STRING_VIEW_H
#define OPENTRACING_STRING_VIEW_H
#include <opentracing/version.h>
#include <algorithm>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class string_view {
 public:
  static const size_t npos = static_cast<size_t>(-1);
  string_view() noexcept : length_(0), data_(nullptr) {}
  string_view(const char* s) noexcept
      : length_(std::strlen(s)), data_(s) {}
  string_view(const std::basic_string<char>& s) noexcept
      : length_(s.length()), data_(s.data()) {}
  string_view(const char* s, size_t len) noexcept : length_(len), data_(s) {}

  operator std::string() const { return std::string(data_, length_); }

  const char* data() const noexcept { return data_; }
  bool empty() const noexcept { return length_ == 0; }
  size_t length() const noexcept { return length_; }
  size_t size() const noexcept { return length_; }
  const char* begin() const noexcept { return data(); }
  const char* end() const noexcept { return data() + length(); }
  const char& operator[](std::size_t i) const { return *(data() + i); }
  const char& at(std::size_t i) const {
    if (i >= length_) throw std::out_of_range("string_view::at");
    return data_[i];
  }

 private:
  size_t length_;
  const char* data_;
};
inline bool operator==(string_view lhs, string_view rhs) noexcept {
  return lhs.length() == rhs.length() &&
         std::equal(lhs.data(), lhs.data() + lhs.length(), rhs.data());
}
inline bool operator==(string_view lhs, const std::string& rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const std::string& lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator==(string_view lhs, const char* rhs) noexcept {
  return lhs == string_view(rhs);
}
inline bool operator==(const char* lhs, string_view rhs) noexcept {
  return string_view(lhs) == rhs;
}
inline bool operator!=(string_view lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(string_view lhs, const std::string& rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(const std::string& lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(string_view lhs, const char* rhs) noexcept {
  return !(lhs == rhs);
}
inline bool operator!=(const char* lhs, string_view rhs) noexcept {
  return !(lhs == rhs);
}
inline std::ostream& operator<<(std::ostream& os, string_view ref) {
  return os.write(ref.data(), static_cast<std::streamsize>(ref.length()));
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
