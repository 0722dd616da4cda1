#include <opentracing/dynamic_load.h>
#include <opentracing/ext/tags.h>
#include <opentracing/noop.h>
#include <opentracing/tracer.h>
#include <opentracing/tracer_factory.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace {
struct Category : std::error_category {
  const char* n;
  explicit Category(const char* name) : n(name) {}
  const char* name() const noexcept override { return n; }
  std::string message(int code) const override {
    return std::string(n) + ":" + std::to_string(code);
  }
};
struct NoopTracer;
struct NoopSpan : Span, SpanContext {
  std::shared_ptr<const Tracer> t;
  explicit NoopSpan(std::shared_ptr<const Tracer> tr) : t(std::move(tr)) {}
  void FinishWithOptions(const FinishSpanOptions&) noexcept override {}
  void SetOperationName(string_view) noexcept override {}
  void SetTag(string_view, const Value&) noexcept override {}
  void SetBaggageItem(string_view, string_view) noexcept override {}
  std::string BaggageItem(string_view) const noexcept override { return {}; }
  void Log(std::initializer_list<std::pair<string_view, Value>>) noexcept override {}
  const SpanContext& context() const noexcept override { return *this; }
  const Tracer& tracer() const noexcept override { return *t; }
  void ForeachBaggageItem(
      std::function<bool(const std::string&, const std::string&)>) const override {}
};
struct NoopTracer : Tracer, std::enable_shared_from_this<NoopTracer> {
  std::unique_ptr<Span> StartSpanWithOptions(
      string_view, const StartSpanOptions&) const noexcept override {
    return std::unique_ptr<Span>(new NoopSpan(shared_from_this()));
  }
  expected<void> Inject(const SpanContext&, std::ostream&) const override { return {}; }
  expected<void> Inject(const SpanContext&, const TextMapWriter&) const override { return {}; }
  expected<void> Inject(const SpanContext&, const HTTPHeadersWriter&) const override { return {}; }
  expected<std::unique_ptr<SpanContext>> Extract(std::istream&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
  expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
  expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader&) const override {
    return std::unique_ptr<SpanContext>(nullptr);
  }
};
std::shared_ptr<Tracer>& G() {
  static std::shared_ptr<Tracer> g = MakeNoopTracer();
  return g;
}
}  // namespace
const std::error_category& propagation_error_category() {
  static const Category c("OpenTracingPropagationError");
  return c;
}
const std::error_category& tracer_factory_error_category() {
  static const Category c("OpenTracingTracerFactoryError");
  return c;
}
const std::error_category& dynamic_load_error_category() {
  static const Category c("OpenTracingDynamicLoadError");
  return c;
}
std::shared_ptr<Tracer> MakeNoopTracer() noexcept {
  return std::make_shared<NoopTracer>();
}
std::shared_ptr<Tracer> Tracer::Global() noexcept { return G(); }
std::shared_ptr<Tracer> Tracer::InitGlobal(std::shared_ptr<Tracer> t) noexcept {
  G().swap(t);
  return t;
}
namespace ext {
const string_view sampling_priority = "sampling.priority";
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
