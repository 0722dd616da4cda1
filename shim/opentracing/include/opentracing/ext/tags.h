#ifndef OPENTRACING_EXT_TAGS_H
#define OPENTRACING_EXT_TAGS_H
#include <opentracing/string_view.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace ext {
extern const string_view sampling_priority;
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
#endif
