#include "h.h"
#define P(x) void x(long);
#define LIST X(C23,c23) X(C24,c24) X(C25,c25) X(C26,c26) X(C27,c27)
#define X(n,f) P(f)
LIST
#undef X
#define X(n,f) { #n, f, 0, 0, "" },
const prop_t props[] = { LIST { 0 } };
