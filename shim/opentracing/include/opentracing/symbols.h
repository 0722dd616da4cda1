#ifndef OPENTRACING_SYMBOLS_H
#define OPENTRACING_SYMBOLS_H
#define OPENTRACING_API
#endif
