// Receives the comparison and block events of library code compiled with
// -fsanitize-coverage=trace-cmp,trace-pc. Idle unless traceOn.
#include "trace.hpp"
#include <cmath>
#include <cstring>

bool traceOn = false;
TraceEv traceEv[TRACE_MAX];
unsigned traceN = 0;

static inline uint32_t site(void * ra)
{
	uint64_t x = reinterpret_cast<uint64_t>(ra);
	x *= 0x9E3779B97F4A7C15ull;
	return static_cast<uint32_t>(x >> 40); // 24 bits
}
static inline void ev(void * ra, double a, double b, uint8_t kind)
{
	if (!traceOn || traceN >= TRACE_MAX) return;
	TraceEv & e = traceEv[traceN++];
	e.site = site(ra);
	e.a = a; e.b = b; e.kind = kind;
}
#define RA __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_trace_pc() { ev(RA, 0., 0., 0); }
void __sanitizer_cov_trace_cmpd(double a, double b) { ev(RA, a, b, 1); }
void __sanitizer_cov_trace_cmpf(float a, float b) { ev(RA, a, b, 1); }
#define ICMP(N, TY) \
void __sanitizer_cov_trace_cmp##N(TY a, TY b) { ev(RA, (double)a, (double)b, 2); } \
void __sanitizer_cov_trace_const_cmp##N(TY a, TY b) { ev(RA, (double)a, (double)b, 2); }
ICMP(1, uint8_t) ICMP(2, uint16_t) ICMP(4, uint32_t) ICMP(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t * cases)
{ for (uint64_t i = 0; i < cases[0]; ++i) ev(RA, (double)v, (double)cases[2 + i], 2); }
}
