#ifndef OPENTRACING_DYNAMIC_LOAD_H
#define OPENTRACING_DYNAMIC_LOAD_H
#include <opentracing/tracer_factory.h>
#include <opentracing/version.h>
#include <cstring>
typedef int (*OpenTracingMakeTracerFactoryType)(
    const char* opentracing_version, const char* opentracing_abi_version,
    const void** error_category, void* error_message, void** tracer_factory);
#define OPENTRACING_DECLARE_IMPL_FACTORY(X)                             \
  extern "C" {                                                          \
  extern OpenTracingMakeTracerFactoryType const                         \
      OpenTracingMakeTracerFactory;                                     \
  OpenTracingMakeTracerFactoryType const OpenTracingMakeTracerFactory = X; \
  }
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
const std::error_category& dynamic_load_error_category();
const std::error_code dynamic_load_failure_error(1, dynamic_load_error_category());
const std::error_code dynamic_loading_not_supported_error(2, dynamic_load_error_category());
const std::error_code incompatible_library_versions_error(3, dynamic_load_error_category());
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
