// Reference integer arithmetic for drivers/arith.fu: values travel as 64-bit patterns.
#pragma once
#include <cstdint>
#include <string>
#include <cstdio>

namespace fva {
typedef __int128 W;
inline W val(int64_t bits, int n, bool sgn) {          // the value the low n bits denote
    unsigned __int128 m = n == 64 ? (unsigned __int128) 0xffffffffffffffffull : (((unsigned __int128) 1 << n) - 1);
    unsigned __int128 v = (unsigned __int128) (uint64_t) bits & m;
    if (sgn && (v >> (n - 1)) & 1) return (W) v - ((W) 1 << n);
    return (W) v;
}
inline int64_t pat(W v, int n, bool sgn) { return (int64_t) val((int64_t) (uint64_t) (unsigned __int128) v, n, sgn); }
inline bool fits(W v, int n, bool sgn) {
    W lo = sgn ? -((W) 1 << (n - 1)) : 0, hi = sgn ? ((W) 1 << (n - 1)) - 1 : ((W) 1 << n) - 1;
    return v >= lo && v <= hi;
}
// op: + - * / % & | ^ << >> < <= > >= == != <> min max, then wrapping + - *. ok = false: the language leaves it open.
inline int64_t ref(int op, int n, bool sgn, int64_t a_, int64_t b_, bool& ok) {
    W a = val(a_, n, sgn), b = val(b_, n, sgn), r = 0;
    ok = true;
    switch (op) {
    case 0: r = a + b; ok = !sgn || fits(r, n, sgn); break;
    case 1: r = a - b; ok = !sgn || fits(r, n, sgn); break;
    case 2: r = a * b; ok = !sgn || fits(r, n, sgn); break;
    case 3: if (!b) { ok = false; break; } r = a / b; ok = fits(r, n, sgn); break;
    case 4: if (!b || !fits(a / b, n, sgn)) { ok = false; break; } r = a % b; break;
    case 5: r = a & b; break;
    case 6: r = a | b; break;
    case 7: r = a ^ b; break;
    case 8: if (b < 0 || b >= n || a < 0) { ok = false; break; } r = a << (int) b; ok = !sgn || fits(r, n, sgn); break;
    case 9: if (b < 0 || b >= n) { ok = false; break; } { W q = (W) 1 << (int) b; r = a >= 0 ? a / q : -((-a + q - 1) / q); } break;
    case 10: r = a < b; break;
    case 11: r = a <= b; break;
    case 12: r = a > b; break;
    case 13: r = a >= b; break;
    case 14: r = a == b; break;
    case 15: r = a != b; break;
    case 16: r = a < b ? -1 : a > b; return (int64_t) r;
    case 17: r = a < b ? a : b; break;
    case 18: r = a > b ? a : b; break;
    case 19: r = a + b; break;
    case 20: r = a - b; break;
    case 21: r = a * b; break;
    }
    return pat(r, n, sgn);
}
inline std::string hex(int64_t v, int n, bool sgn) { char t[64]; W w = val(v, n, sgn); snprintf(t, sizeof t, sgn ? "%lld" : "%llu", (long long) (int64_t) w); return t; }
// Conversion: the sign only moves between signed types; otherwise through the unsigned type as wide as the signed one.
inline int64_t conv(int64_t a, int n, bool sgn, int m, bool sgn2) {
    if (sgn && sgn2) return pat(val(a, n, true), m, true);
    W u = val(a, n, false);                   // zero extension of the source's own bits
    return pat(u, m, sgn2);
}
}
