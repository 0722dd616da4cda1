#ifndef OPENTRACING_CONFIG_H
#define OPENTRACING_CONFIG_H
#define OPENTRACING_BUILD_DYNAMIC_LOADING
#endif
