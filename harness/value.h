// Reference number domain of the model: real values as balls (mid +- rad) in long double, with an exact
// rational carried along as long as it stays small. Nothing in here knows about tsym.
#ifndef MC_VALUE_H
#define MC_VALUE_H
#include <cmath>
#include <cstdint>
#include <string>
#include <cstdio>

namespace mc {
using i128 = __int128;
enum class St : uint8_t { NUM, UNDEF, INDET };

struct Val {
    St st = St::NUM;
    bool ex = true; // exact rational n/d valid
    int64_t n = 0, d = 1;
    long double m = 0, r = 0;
    bool num() const { return st == St::NUM; }
    bool undef() const { return st == St::UNDEF; }
    bool isInt() const { return num() && ex && d == 1; }
    bool exactZero() const { return num() && ex && n == 0; }
    bool surelyPos() const { return num() && (ex ? n > 0 : m - r > 0); }
    bool surelyNeg() const { return num() && (ex ? n < 0 : m + r < 0); }
    bool surelyNonZero() const { return surelyPos() || surelyNeg(); }
};

inline constexpr long double ULP = 0x1p-62L; // generous: long double has a 64 bit significand
inline constexpr long double HUGE_LIMIT = 1e2000L;

inline Val undefVal() { Val v; v.st = St::UNDEF; v.ex = false; return v; }
inline Val indetVal() { Val v; v.st = St::INDET; v.ex = false; return v; }

inline uint64_t gcdU(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
inline i128 abs128(i128 a) { return a < 0 ? -a : a; }
inline i128 gcd128(i128 a, i128 b)
{
    a = abs128(a); b = abs128(b);
    while (b) {
        if (a <= INT64_MAX && b <= INT64_MAX) return gcdU((uint64_t)a, (uint64_t)b);
        i128 t = a % b; a = b; b = t;
    }
    return a;
}
inline Val ball(long double m, long double r)
{
    Val v;
    v.ex = false;
    if (!std::isfinite(m) || !std::isfinite(r) || std::fabs(m) > HUGE_LIMIT) return indetVal();
    v.m = m;
    v.r = r + std::fabs(m) * ULP + 1e-4000L;
    return v;
}
inline Val exact(i128 n, i128 d, long double m, long double r)
{
    // n/d not reduced, d != 0; m, r: ball fallback
    if (d < 0) { n = -n; d = -d; }
    i128 g = gcd128(n, d);
    if (g > 1) { n /= g; d /= g; }
    const i128 lim = (i128)1 << 61;
    if (abs128(n) >= lim || d >= lim) return ball(m, r);
    Val v;
    v.n = (int64_t)n; v.d = (int64_t)d;
    v.m = (long double)v.n / (long double)v.d;
    v.r = v.d == 1 ? 0 : std::fabs(v.m) * ULP;
    return v;
}
inline Val rat(int64_t n, int64_t d = 1) { return exact(n, d, 0, 0); }

#define MC_PROP2(x, y) \
    if ((x).st == St::UNDEF || (y).st == St::UNDEF) return undefVal(); \
    if ((x).st == St::INDET || (y).st == St::INDET) return indetVal();
#define MC_PROP1(x) if ((x).st != St::NUM) return (x);

inline Val add(const Val& x, const Val& y)
{
    MC_PROP2(x, y)
    const long double m = x.m + y.m, r = x.r + y.r;
    if (x.ex && y.ex) return exact((i128)x.n * y.d + (i128)y.n * x.d, (i128)x.d * y.d, m, r);
    return ball(m, r + (std::fabs(x.m) + std::fabs(y.m)) * ULP * 0.25L);
}
inline Val neg(const Val& x) { MC_PROP1(x) Val v = x; v.n = -v.n; v.m = -v.m; return v; }
inline Val sub(const Val& x, const Val& y) { return add(x, neg(y)); }
inline Val mul(const Val& x, const Val& y)
{
    MC_PROP2(x, y)
    if (x.exactZero() || y.exactZero()) return rat(0);
    const long double m = x.m * y.m, r = std::fabs(x.m) * y.r + std::fabs(y.m) * x.r + x.r * y.r;
    if (x.ex && y.ex) return exact((i128)x.n * y.n, (i128)x.d * y.d, m, r);
    return ball(m, r);
}
inline Val inv(const Val& x)
{
    MC_PROP1(x)
    if (x.ex) {
        if (x.n == 0) return undefVal();
        return exact(x.d, x.n, 1 / x.m, std::fabs(x.r / (x.m * x.m)) * 2);
    }
    if (!x.surelyNonZero()) return indetVal();
    const long double lo = std::fabs(x.m) - x.r;
    return ball(1 / x.m, x.r / (lo * std::fabs(x.m)));
}
inline Val div(const Val& x, const Val& y) { return mul(x, inv(y)); }

inline Val ipow(Val x, int64_t e)
{
    MC_PROP1(x)
    if (e == 0) return x.exactZero() ? undefVal() : (x.ex || x.surelyNonZero()) ? rat(1) : indetVal();
    if (e < 0) { x = inv(x); MC_PROP1(x) e = -e; }
    if (e > 4096) {
        if (x.ex && (x.n == 0 || (x.d == 1 && (x.n == 1 || x.n == -1)))) return rat(x.n == -1 && e % 2 ? -1 : x.n ? 1 : 0);
        if (!x.surelyNonZero()) return indetVal();
        const long double m = std::pow(std::fabs(x.m), (long double)e);
        return ball(x.m < 0 && e % 2 ? -m : m, std::fabs(m) * (e * (x.r / std::fabs(x.m)) * 2 + e * ULP));
    }
    Val res = rat(1);
    while (e) {
        if (e & 1) res = mul(res, x);
        e >>= 1;
        if (e) x = mul(x, x);
    }
    return res;
}

inline bool intRoot(int64_t x, int64_t k, int64_t& out)
{
    if (x < 0 || k > 62) return false;
    long double g = std::pow((long double)x, 1.0L / k);
    for (int64_t c = (int64_t)g - 1; c <= (int64_t)g + 1; ++c) {
        if (c < 0) continue;
        i128 p = 1; bool over = false;
        for (int64_t i = 0; i < k; ++i) { p *= c; if (p > ((i128)1 << 62)) { over = true; break; } }
        if (!over && p == x) { out = c; return true; }
    }
    return false;
}
inline Val powv(const Val& x, const Val& y)
{
    MC_PROP2(x, y)
    if (y.isInt()) return ipow(x, y.n);
    if (x.exactZero()) {
        if (y.surelyPos()) return rat(0);
        return y.surelyNeg() || y.exactZero() ? undefVal() : indetVal();
    }
    if (x.surelyNeg()) {
        if (y.ex) return undefVal();
        const long double nearest = std::round(y.m);
        return std::fabs(y.m - nearest) <= y.r * 2 ? indetVal() : undefVal();
    }
    if (!x.surelyPos()) return indetVal();
    if (x.ex && x.n == 1 && x.d == 1) return rat(1);
    if (x.ex && y.ex) {
        int64_t rn, rd;
        if (intRoot(x.n, y.d, rn) && intRoot(x.d, y.d, rd)) return ipow(rat(rn, rd), y.n);
    }
    const long double m = std::pow(x.m, y.m);
    const long double lo = x.m - x.r;
    const long double rel = std::fabs(y.m) * x.r / lo + std::fabs(std::log(x.m)) * y.r + (2 + std::fabs(y.m * std::log(x.m))) * ULP;
    if (rel > 1e-3L) return indetVal();
    return ball(m, std::fabs(m) * rel * 2);
}
inline Val logv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero() || x.surelyNeg()) return undefVal();
    if (!x.surelyPos()) return indetVal();
    if (x.ex && x.n == 1 && x.d == 1) return rat(0);
    return ball(std::log(x.m), x.r / (x.m - x.r) + ULP);
}
inline Val sinv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero()) return rat(0);
    if (std::fabs(x.m) > 1e6L) return indetVal();
    return ball(std::sin(x.m), x.r + ULP + std::fabs(x.m) * ULP);
}
inline Val cosv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero()) return rat(1);
    if (std::fabs(x.m) > 1e6L) return indetVal();
    return ball(std::cos(x.m), x.r + ULP + std::fabs(x.m) * ULP);
}
inline Val tanv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero()) return rat(0);
    const Val c = cosv(x), s = sinv(x);
    return div(s, c);
}
inline Val asinv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero()) return rat(0);
    if (x.ex) {
        if (x.n > x.d || x.n < -x.d) return undefVal();
        return ball(std::asin(x.m), (x.n == x.d || x.n == -x.d) ? ULP : ULP + 4 * x.r / std::sqrt(1 - x.m * x.m));
    }
    if (std::fabs(x.m) - x.r > 1) return undefVal();
    if (std::fabs(x.m) + x.r >= 1) return indetVal();
    const long double w = 1 - std::fabs(x.m) - x.r;
    return ball(std::asin(x.m), x.r / std::sqrt(w * (1 + std::fabs(x.m) - x.r)) + ULP);
}
inline const Val& piv() { static const Val v = ball(3.141592653589793238462643383279502884L, 1e-19L); return v; }
inline const Val& ev() { static const Val v = ball(2.718281828459045235360287471352662498L, 1e-19L); return v; }
inline Val acosv(const Val& x)
{
    if (x.num() && x.ex && x.n == x.d) return rat(0);
    const Val as = asinv(x);
    MC_PROP1(as)
    return sub(div(piv(), rat(2)), as);
}
inline Val atanv(const Val& x)
{
    MC_PROP1(x)
    if (x.exactZero()) return rat(0);
    return ball(std::atan(x.m), x.r + ULP);
}
inline Val atan2v(const Val& y, const Val& x)
{
    MC_PROP2(x, y)
    if (y.exactZero() && x.exactZero()) return undefVal();
    if (!y.surelyNonZero() && !y.exactZero()) return indetVal();
    if (!x.surelyNonZero() && !x.exactZero()) return indetVal();
    const long double h2 = x.m * x.m + y.m * y.m;
    const long double h = std::sqrt(h2);
    if (x.r + y.r > h * 1e-3L) return indetVal();
    long double m = std::atan2(y.m, x.m);
    if (m < 0) m += 2 * piv().m; // tsym's convention: angle in [0, 2*pi)
    return ball(m, 2 * (x.r + y.r) / h + 4 * ULP);
}

enum class Cmp { EQUAL, DIFFERENT, UNKNOWN };
// tol: additional absolute/relative slack, used only where tsym itself computes in double precision.
inline Cmp compare(const Val& x, const Val& y, long double tol = 0)
{
    if (!x.num() || !y.num()) return Cmp::UNKNOWN;
    if (tol == 0 && x.ex && y.ex) return x.n == y.n && x.d == y.d ? Cmp::EQUAL : Cmp::DIFFERENT;
    const long double scale = std::fmax(std::fabs(x.m), std::fabs(y.m));
    const long double r = x.r + y.r;
    if (r > 1e-7L * std::fmax(scale, 1e-3L)) return Cmp::UNKNOWN;
    return std::fabs(x.m - y.m) <= 4 * r + tol * std::fmax(1.0L, scale) ? Cmp::EQUAL : Cmp::DIFFERENT;
}
// Angle equality modulo 2*pi.
inline std::string str(const Val& v)
{
    char buf[128];
    if (v.undef()) return "undefined";
    if (!v.num()) return "indeterminate";
    if (v.ex && v.d == 1) snprintf(buf, sizeof buf, "%lld", (long long)v.n);
    else if (v.ex) snprintf(buf, sizeof buf, "%lld/%lld", (long long)v.n, (long long)v.d);
    else snprintf(buf, sizeof buf, "%.18Lg+-%.1Lg", v.m, v.r);
    return buf;
}
}
#endif
