#ifndef OPENTRACING_TRACER_H
#define OPENTRACING_TRACER_H
#include <opentracing/propagation.h>
#include <opentracing/span.h>
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <opentracing/value.h>
#include <opentracing/version.h>
#include <iosfwd>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
struct StartSpanOptions {
  SystemTime start_system_timestamp;
  SteadyTime start_steady_timestamp;
  std::vector<std::pair<SpanReferenceType, const SpanContext*>> references;
  std::vector<std::pair<std::string, Value>> tags;
};
class StartSpanOption {
 public:
  virtual ~StartSpanOption() = default;
  virtual void Apply(StartSpanOptions& options) const noexcept = 0;
};
class Tracer {
 public:
  virtual ~Tracer() = default;
  std::unique_ptr<Span> StartSpan(
      string_view operation_name,
      std::initializer_list<std::reference_wrapper<const StartSpanOption>>
          option_list = {}) const noexcept {
    StartSpanOptions options;
    for (const auto& option : option_list) option.get().Apply(options);
    return StartSpanWithOptions(operation_name, options);
  }
  virtual std::unique_ptr<Span> StartSpanWithOptions(
      string_view operation_name, const StartSpanOptions& options) const
      noexcept = 0;
  virtual expected<void> Inject(const SpanContext& sc,
                                std::ostream& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc,
                                const TextMapWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc,
                                const HTTPHeadersWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc,
                                const CustomCarrierWriter& writer) const {
    return writer.Inject(*this, sc);
  }
  virtual expected<std::unique_ptr<SpanContext>> Extract(
      std::istream& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(
      const TextMapReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(
      const HTTPHeadersReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(
      const CustomCarrierReader& reader) const {
    return reader.Extract(*this);
  }
  virtual void Close() noexcept {}
  static std::shared_ptr<Tracer> Global() noexcept;
  static std::shared_ptr<Tracer> InitGlobal(
      std::shared_ptr<Tracer> tracer) noexcept;
};
class StartTimestamp : public StartSpanOption {
 public:
  StartTimestamp(SystemTime system_when, SteadyTime steady_when) noexcept
      : system_when_(system_when), steady_when_(steady_when) {}
  explicit StartTimestamp(SystemTime system_when) noexcept
      : system_when_(system_when) {}
  explicit StartTimestamp(SteadyTime steady_when) noexcept
      : steady_when_(steady_when) {}
  void Apply(StartSpanOptions& options) const noexcept override {
    options.start_system_timestamp = system_when_;
    options.start_steady_timestamp = steady_when_;
  }

 private:
  SystemTime system_when_;
  SteadyTime steady_when_;
};
class SpanReference : public StartSpanOption {
 public:
  SpanReference(SpanReferenceType type, const SpanContext* referenced) noexcept
      : type_(type), referenced_(referenced) {}
  void Apply(StartSpanOptions& options) const noexcept override {
    if (referenced_ != nullptr) options.references.emplace_back(type_, referenced_);
  }

 private:
  SpanReferenceType type_;
  const SpanContext* referenced_;
};
inline SpanReference ChildOf(const SpanContext* span_context) noexcept {
  return {SpanReferenceType::ChildOfRef, span_context};
}
inline SpanReference FollowsFrom(const SpanContext* span_context) noexcept {
  return {SpanReferenceType::FollowsFromRef, span_context};
}
class SetTag : public StartSpanOption {
 public:
  SetTag(string_view key, const Value& value) noexcept
      : key_(key), value_(value) {}
  SetTag(const SetTag& other) noexcept : key_(other.key_), value_(other.value_) {}
  void Apply(StartSpanOptions& options) const noexcept override {
    options.tags.emplace_back(key_, value_);
  }

 private:
  const string_view key_;
  const Value& value_;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
