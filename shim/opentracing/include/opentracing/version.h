// API-compatible stand-in for opentracing-cpp 1.5.1 (v2 ABI), written for the
// offline sandbox where the real library isn't available.
#ifndef OPENTRACING_VERSION_H
#define OPENTRACING_VERSION_H
#define OPENTRACING_VERSION "1.5.1"
#define OPENTRACING_ABI_VERSION "2"
#define BEGIN_OPENTRACING_ABI_NAMESPACE inline namespace v2 {
#define END_OPENTRACING_ABI_NAMESPACE }
#endif
