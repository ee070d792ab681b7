#include "h.h"
#define P(x) void x(long);
#define LIST X(C01,c01) X(C02,c02) X(C02m,c02m) X(C03,c03) X(C04,c04) X(C05,c05) X(C06,c06) X(C07,c07) X(C08,c08) X(C09,c09) X(C10,c10) X(C11,c11) X(C12,c12) X(C13,c13) X(C14,c14) X(C15,c15) X(C16,c16) X(C17,c17) X(C18,c18) X(C19,c19) X(C20,c20) X(C21,c21) X(C22,c22) X(C28,c28)
#define X(n,f) P(f)
LIST
#undef X
#define X(n,f) { #n, f, 0, 0, "" },
const prop_t props[] = { LIST { 0 } };
