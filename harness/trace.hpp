#pragma once
#include <cstdint>
constexpr unsigned TRACE_MAX = 6000;
struct TraceEv { uint32_t site; uint8_t kind; double a, b; };
extern bool traceOn;
extern TraceEv traceEv[];
extern unsigned traceN;
