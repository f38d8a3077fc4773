// C14: integers and fractions are exact and in lowest terms whatever their size; conversions to and from int and double.
#include "common.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <climits>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C14";

namespace {
using BI = boost::multiprecision::cpp_int;
using BQ = boost::multiprecision::cpp_rational;
std::string txt(const BQ& q)
{
    const BI n = numerator(q), d = denominator(q);
    return d == 1 ? n.str() : n.str() + "/" + d.str();
}
Var intVar(const BI& n)
{
    if (n >= INT_MIN && n <= INT_MAX) return Var(static_cast<int>(n));
    return n < 0 ? -Var(BI(-n).str()) : Var(n.str());
}
Var make(const BQ& q)
{
    const BI n = numerator(q), d = denominator(q);
    return d == 1 ? intVar(n) : intVar(n) / intVar(d);
}
BI two(int e) { return BI(1) << e; }
std::vector<BQ> numbers(bool small)
{
    std::vector<BI> ints{0, 1, -1, 2, -2, 3, 5, -7, 10, 12, 30, 97, -360, 1000, 1001, 46341, 65536};
    if (!small)
        for (BI n : {BI(INT_MAX), BI(INT_MIN), BI(INT_MAX) + 1, BI(INT_MIN) - 1, two(32), two(32) - 1, two(53) + 1, two(62), two(63) - 1, two(63), -two(63), two(64), two(64) - 1, two(64) + 1, -two(64), two(100), BI("100000000000000000000"), BI("-99999999999999999999999999999999999999"), two(127), two(128) + 3, BI("18446744073709551629"), BI("2305843009213693951")})
            ints.push_back(n);
    std::vector<BQ> out(ints.begin(), ints.end());
    for (auto& f : std::vector<std::pair<BI, BI>>{{1, 2}, {-1, 2}, {1, 3}, {-2, 3}, {3, 4}, {5, 6}, {-7, 10}, {22, 7}, {1, 97}, {999, 1000}, {1001, 999}})
        out.push_back(BQ(f.first, f.second));
    if (!small)
        for (auto& f : std::vector<std::pair<BI, BI>>{{1, two(31)}, {-1, two(64)}, {two(64), 3}, {two(53) + 1, two(53) - 1}, {BI("12345678901234567890"), BI("98765432109876543211")}, {two(100) + 1, two(64) + 1}, {INT_MAX, BI(INT_MAX) - 1}, {BI(INT_MIN), 3}, {BI("100000000000000000000"), 7}, {1, BI("100000000000000000000000000000")}})
            out.push_back(BQ(f.first, f.second));
    return out;
}
bool sameNumber(Ctx& c, const char* kind, const Var& v, const BQ& want)
{
    c.compared();
    const auto type = denominator(want) == 1 ? Var::Type::INT : Var::Type::FRACTION;
    if (text(v) == txt(want) && v.type() == type) return true;
    std::ostringstream t;
    t << v.type();
    c.fail(kind, "result " + text(v) + " of type " + t.str() + ", expected " + txt(want), text(v));
    return false;
}
const char* const opn[] = {"+", "-", "*", "/"};
bool apply(int op, const BQ& x, const BQ& y, BQ& r)
{
    if (op == 3 && y == 0) return false;
    r = op == 0 ? BQ(x + y) : op == 1 ? BQ(x - y) : op == 2 ? BQ(x * y) : BQ(x / y);
    return true;
}
Var applyV(int op, const Var& x, const Var& y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }
BQ power(const BQ& x, int n)
{
    BQ r = 1;
    for (int k = 0; k < std::abs(n); ++k) r *= x;
    return n < 0 ? BQ(1 / r) : r;
}
template <class E, class F> bool throws(F&& f)
{
    try { f(); } catch (const E&) { return true; } catch (...) { return false; }
    return false;
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto big = std::make_shared<std::vector<BQ>>(numbers(false));
    auto small = std::make_shared<std::vector<BQ>>(numbers(true));
    (void)small;
    auto bigV = std::make_shared<std::vector<Var>>();
    for (auto& q : *big) bigV->push_back(make(q));
    auto smallV = std::make_shared<std::vector<Var>>();
    for (auto& q : *small) smallV->push_back(make(q));
    e.note("numbers", std::to_string(big->size()));
    { // arithmetic of two numbers, exact in any size; comparison; lowest terms
        Space sp;
        sp.name = "rational-arithmetic";
        sp.n = big->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            c.begin(txt((*big)[i]));
            sameNumber(c, "construction", (*bigV)[i], (*big)[i]);
            for (size_t j = 0; j < big->size(); ++j)
                for (int op = 0; op < 4; ++op) {
                    c.begin(txt((*big)[i]) + " " + opn[op] + " " + txt((*big)[j]));
                    BQ want;
                    const Var r = applyV(op, (*bigV)[i], (*bigV)[j]);
                    c.transitions();
                    c.state(r);
                    if (!apply(op, (*big)[i], (*big)[j], want)) {
                        c.compared();
                        if (!isUndef(r)) c.fail("division-by-zero", "gives " + text(r), text(r));
                        continue;
                    }
                    sameNumber(c, "exact", r, want);
                    c.compared(2);
                    const bool eq = (*big)[i] == (*big)[j];
                    if (((*bigV)[i] == (*bigV)[j]) != eq || ((*bigV)[i] != (*bigV)[j]) == eq) c.fail("comparison", "== is wrong");
                    if (tsym::isPositive(r) != (want > 0) || tsym::isNegative(r) != (want < 0)) c.fail("sign", "sign of " + text(r) + " is wrong");
                    if ((r == make(want)) == false || std::hash<Var>{}(r) != std::hash<Var>{}(make(want))) c.fail("comparison", text(r) + " differs from the number built directly");
                }
        };
        e.add(sp);
    }
    { // chains of three operations
        Space sp;
        sp.name = "rational-chains";
        auto nums = big;
        auto vars = bigV;
        sp.n = nums->size() * nums->size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const size_t m = nums->size(), a = i / m, b = i % m;
            for (size_t k = 0; k < m; ++k)
                for (int o1 = 0; o1 < 4; ++o1)
                    for (int o2 = 0; o2 < 4; ++o2) {
                        BQ t, r;
                        if (!apply(o1, (*nums)[a], (*nums)[b], t) || !apply(o2, t, (*nums)[k], r)) continue;
                        c.begin("(" + txt((*nums)[a]) + " " + opn[o1] + " " + txt((*nums)[b]) + ") " + opn[o2] + " " + txt((*nums)[k]));
                        c.transitions(2);
                        sameNumber(c, "exact", applyV(o2, applyV(o1, (*vars)[a], (*vars)[b]), (*vars)[k]), r);
                    }
        };
        e.add(sp);
    }
    { // exact coefficients in expressions
        Space sp;
        sp.name = "coefficients";
        sp.n = big->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Var a("a"), b("b");
            const BQ& x = (*big)[i];
            for (size_t j = 0; j < big->size(); ++j) {
                const BQ& y = (*big)[j];
                const Var &X = (*bigV)[i], &Y = (*bigV)[j];
                c.begin("coefficients " + txt(x) + ", " + txt(y));
                c.transitions(6);
                auto at = [&](const Var& v, const BQ& s) { return tsym::subst(v, a, make(s)); };
                sameNumber(c, "coefficient", at(X * a + Y * a, 1), x + y);
                sameNumber(c, "coefficient", at(X * a - Y * a, 3), 3 * (x - y));
                sameNumber(c, "coefficient", at(X * (a * Y), -2), -2 * x * y);
                sameNumber(c, "coefficient", at(tsym::expand((X + a) * (Y - a)), 5), (x + 5) * (y - 5));
                sameNumber(c, "coefficient", tsym::diff(X * a + Y * a, a), x + y);
                if (y != 0) sameNumber(c, "coefficient", at(X * a / Y, 1), x / y);
                if (y != 0) sameNumber(c, "coefficient", tsym::normal(X * a / (Y * a)), x / y);
                if (x + y != 0 && y != 0 && y != -1) sameNumber(c, "coefficient", at(tsym::normal((X / a + b) / (Y / a + 1) - b / (Y / a + 1)), 1), x / (y + 1));
            }
        };
        e.add(sp);
    }
    { // powers of sums: coefficients beyond every machine integer
        Space sp;
        sp.name = "binomials";
        sp.n = deep ? 90 : 45;
        sp.chunk = 1;
        sp.caseLimit = 60;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int n = i + 1;
            const Var a("a");
            for (int m : {1, 2, -3, 10}) {
                c.begin("expand (a + " + std::to_string(m) + ")^" + std::to_string(n));
                const Var ex = tsym::expand(tsym::pow(a + m, Var(n)));
                c.transitions(5);
                c.state(ex);
                for (int k : {0, 1, -1, 2, 7}) sameNumber(c, "binomial", tsym::subst(ex, a, Var(k)), power(BQ(k + m), n));
                c.compared();
                if (n > 1 && tsym::operands(ex).size() != size_t(n) + 1) c.fail("binomial", "wrong number of terms: " + std::to_string(tsym::operands(ex).size()));
            }
        };
        e.add(sp);
    }
    { // integer powers
        Space sp;
        sp.name = "integer-powers";
        sp.n = big->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (int n = -40; n <= 64; ++n) {
                c.begin(txt((*big)[i]) + " ^ " + std::to_string(n));
                const Var r = tsym::pow((*bigV)[i], Var(n));
                c.transitions();
                if ((*big)[i] == 0 && n <= 0) { // 0^0: convention left open
                    c.compared();
                    if (n < 0 && !isUndef(r)) c.fail("zero-power", "gives " + text(r), text(r));
                    continue;
                }
                c.state(r);
                sameNumber(c, "exact", r, power((*big)[i], n));
            }
        };
        e.add(sp);
    }
    { // roots of perfect powers are exact, in any size the factorisation covers
        Space sp;
        sp.name = "exact-roots";
        sp.n = deep ? 1000 : 200;
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int n = i + 1;
            for (int d : {1, 2, 3, 7, 10, 31})
                for (int m = 2; m <= 7; ++m)
                    for (int k : {1, 2, 3, -1, -2}) {
                        const BQ base(n, d);
                        const BQ x = power(base, m);
                        if (numerator(x) > 1000 || denominator(x) > 1000) continue; // larger numbers are deliberately not factorised
                        c.begin("(" + txt(x) + ")^(" + std::to_string(k) + "/" + std::to_string(m) + ")");
                        c.transitions();
                        sameNumber(c, "root", tsym::pow(make(x), Var(k, m)), power(base, k));
                    }
        };
        e.add(sp);
    }
    { // Var(int), Var(int, int) and conversion to int
        std::vector<int> ints{0, 1, -1, 2, -2, 3, 7, -10, 9999, 10000, 10001, 65535, 65536, 1000000007, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 46340, 46341, -65536, 12, 18};
        Space sp;
        sp.name = "int-constructors";
        sp.n = ints.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int n = ints[i];
            c.begin("Var(" + std::to_string(n) + ")");
            sameNumber(c, "int", Var(n), BQ(n));
            c.compared();
            if (static_cast<int>(Var(n)) != n) c.fail("int", "conversion back gives " + std::to_string(static_cast<int>(Var(n))));
            for (int d : ints) {
                c.begin("Var(" + std::to_string(n) + ", " + std::to_string(d) + ")");
                c.transitions();
                if (d == 0) { // 1/0 is documented as an error of the caller: either an exception or Undefined
                    bool ok = false;
                    try { ok = isUndef(Var(n, d)); } catch (const std::exception&) { ok = true; }
                    c.compared();
                    if (!ok) c.fail("zero-denominator", "gives a number");
                    continue;
                }
                const Var v(n, d);
                sameNumber(c, "fraction", v, BQ(BI(n), BI(d)));
                c.compared();
                const BQ q = BQ(BI(n), BI(d));
                if (denominator(q) != 1) {
                    if (!throws<std::domain_error>([&] { (void)static_cast<int>(v); })) c.fail("int", "conversion of a fraction to int isn't refused");
                } else if (numerator(q) > INT_MAX) {
                    if (!throws<std::overflow_error>([&] { (void)static_cast<int>(v); })) c.fail("int", "conversion of a too large number to int isn't refused");
                } else if (static_cast<int>(v) != static_cast<int>(numerator(q))) c.fail("int", "conversion to int gives " + std::to_string(static_cast<int>(v)));
            }
        };
        e.add(sp);
    }
    { // conversion of large numbers to int and double
        std::vector<BI> ints;
        for (int k = 29; k <= 66; ++k)
            for (int d = -3; d <= 3; ++d)
                for (int s : {1, -1}) ints.push_back(s * (two(k) + d));
        Space sp;
        sp.name = "int-limits";
        sp.n = ints.size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const BI n = ints[i];
            const Var v = intVar(n);
            c.begin("int of " + n.str());
            c.transitions();
            c.compared();
            c.state(v);
            if (n >= INT_MIN && n <= INT_MAX) {
                if (static_cast<int>(v) != static_cast<int>(n)) c.fail("int", "conversion gives " + std::to_string(static_cast<int>(v)));
            } else if (!throws<std::overflow_error>([&] { (void)static_cast<int>(v); })) c.fail("int", "conversion of a too large number isn't refused by overflow_error");
            const double want = n.convert_to<double>();
            if (static_cast<double>(v) != want) c.fail("double", "conversion to double gives " + std::to_string(static_cast<double>(v)));
        };
        e.add(sp);
    }
    { // conversion to double
        Space sp;
        sp.name = "to-double";
        sp.n = big->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (int n = -12; n <= 12; ++n) {
                if ((*big)[i] == 0 && n <= 0) continue;
                const BQ q = power((*big)[i], n);
                c.begin("double of " + txt(q));
                const double got = static_cast<double>(make(q));
                c.transitions();
                c.compared();
                // relative error, computed exactly
                const double lim = q.convert_to<double>();
                if (!std::isfinite(lim)) { if (!(std::isinf(got) && (got < 0) == (q < 0))) c.fail("double", "gives " + std::to_string(got) + " instead of infinity"); continue; }
                if (std::fabs(got - lim) > 4e-16 * std::fabs(lim) + 5e-324) c.fail("double", "gives " + std::to_string(got) + ", expected " + std::to_string(lim));
            }
        };
        e.add(sp);
    }
    { // refused conversions
        const Strs others{"a", "p", "pi", "e", "(+ a 1)", "(* 2 a)", "(sqrt 2)", "(sin 1)", "(log 2)", "undefined", "1/2", "D1.23456789", "(^ a 2)", "(sin a)", "(atan2 a 1)", "(+ 1 (sqrt 2))", "(^ 2 a)", "(* a pi)", "D1e300", "(^ pi e)"};
        Space sp;
        sp.name = "conversions-refused";
        sp.n = others.size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const T t = parseTerm(others[i]);
            const Var v = build(t);
            c.begin(others[i]);
            c.transitions(2);
            c.compared(2);
            if (!throws<std::domain_error>([&] { (void)static_cast<int>(v); }) && others[i] != "D1e300") c.fail("int", "conversion to int isn't refused by domain_error");
            if (others[i] == "D1e300" && !throws<std::exception>([&] { (void)static_cast<int>(v); })) c.fail("int", "conversion to int isn't refused");
            const Val x = isUndef(v) || !isConst(v) ? undefVal() : evalTerm(t, Sample());
            if (!x.num()) {
                if (!throws<std::domain_error>([&] { (void)static_cast<double>(v); })) c.fail("double", "conversion to double isn't refused by domain_error");
            } else if (std::fabs(static_cast<double>(v) - x.m) > 1e-14L * std::fabs(x.m)) c.fail("double", "conversion to double gives " + std::to_string(static_cast<double>(v)));
        };
        e.add(sp);
    }
    { // Var(double): decimals with up to four digits are exact, everything else keeps its value
        Space sp;
        sp.name = "decimal-doubles";
        const int N = deep ? 2000000 : 200000;
        sp.n = (2 * N) / 100 + 1;
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (int k = -N + int(i) * 100; k < -N + int(i) * 100 + 100 && k <= N; ++k) {
                c.begin("Var(" + std::to_string(k) + "/10000.0)");
                c.transitions();
                sameNumber(c, "decimal", Var(k / 10000.0), BQ(BI(k), BI(10000)));
            }
        };
        e.add(sp);
        std::vector<double> ds;
        for (double m : {1.0, 1.23456789, 3.14159265358979, 9.99999, 0.5, 1.00001, 2.718281828459045, 7.0 / 3})
            for (int ex = -14; ex <= 300; ex += ex < 20 ? 1 : 40)
                for (double s : {1.0, -1.0}) ds.push_back(s * m * std::pow(10.0, ex));
        Space sd;
        sd.name = "doubles";
        sd.n = ds.size();
        sd.chunk = 16;
        sd.run = [=](uint64_t i, Ctx& c) {
            const double d = ds[i];
            char b[64];
            snprintf(b, sizeof b, "%.17g", d);
            c.begin(std::string("Var(") + b + ")");
            const Var v(d);
            c.transitions();
            c.compared(3);
            c.state(v);
            auto near = [](double x, long double y) { return std::fabs(x - y) <= 4e-16L * std::fmax(1.0L, std::fabs(y)); };
            if (!near(static_cast<double>(v), d)) c.fail("double", "has value " + std::to_string(static_cast<double>(v)));
            if (v.type() == Var::Type::DOUBLE && static_cast<double>(v) != d) c.fail("double", "has another value");
            if (!isNumber(v) || tsym::isPositive(v) != (static_cast<double>(v) > 0) || tsym::isNegative(v) != (static_cast<double>(v) < 0)) c.fail("double", "isn't a number with the sign of the double");
            if (v.type() == Var::Type::DOUBLE && !throws<std::domain_error>([&] { (void)static_cast<int>(v); })) c.fail("double", "conversion of a floating point number to int isn't refused");
            for (double f : ds) {
                if (std::fabs(std::log10(std::fabs(d)) - std::log10(std::fabs(f))) > 6 || std::fabs(f) > 1e6 || std::fabs(d) > 1e6 || std::fabs(f) < 1e-6 || std::fabs(d) < 1e-6) continue; // below 1e-13: taken as zero by design
                const Var w(f);
                const long double x = static_cast<double>(v), y = static_cast<double>(w), want[] = {x + y, x - y, x * y, x / y};
                for (int op = 0; op < 4; ++op) {
                    const Var r = applyV(op, v, w);
                    c.transitions();
                    c.compared();
                    const long double scale = std::fmax(1.0L, op < 2 ? std::fmax(std::fabs(x), std::fabs(y)) : std::fabs(want[op]));
                    if (!isNumber(r) || std::fabs(static_cast<double>(r) - want[op]) > 1e-15L * scale) {
                        snprintf(b, sizeof b, "%.17g", f);
                        c.fail("double-arithmetic", std::string(opn[op]) + " " + b + " gives " + text(r), text(r));
                    }
                }
            }
        };
        e.add(sd);
    }
}
