// C04: normalisation keeps the value, cancels completely and recognises zero.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C04";

// Polynomial in symbols with integer (rational) coefficients?
static bool isPoly(const Var& v)
{
    switch (v.type()) {
        case Var::Type::INT:
        case Var::Type::FRACTION:
        case Var::Type::SYMBOL: return true;
        case Var::Type::SUM:
        case Var::Type::PRODUCT:
            for (auto& o : tsym::operands(v)) if (!isPoly(o)) return false;
            return true;
        case Var::Type::POWER: {
            const auto o = tsym::operands(v);
            return isPoly(o[0]) && o[1].type() == Var::Type::INT && static_cast<int>(o[1]) > 0;
        }
        default: return false;
    }
}
static bool isRationalFct(const Var& v)
{
    switch (v.type()) {
        case Var::Type::INT:
        case Var::Type::FRACTION:
        case Var::Type::SYMBOL: return true;
        case Var::Type::SUM:
        case Var::Type::PRODUCT:
            for (auto& o : tsym::operands(v)) if (!isRationalFct(o)) return false;
            return true;
        case Var::Type::POWER: {
            const auto o = tsym::operands(v);
            return isRationalFct(o[0]) && o[1].type() == Var::Type::INT;
        }
        default: return false;
    }
}
// Reference decision on common factors: univariate polynomial arithmetic modulo a prime along generic lines.
// Substituting a -> u0 + u1*t etc. keeps coprimality for all but finitely many lines; two polynomials with a common
// factor of positive degree have one on every line (unless degenerate), so agreement on two lines decides.
namespace {
    constexpr int64_t MOD = 1000000007;
    using Poly = std::vector<int64_t>;
    int64_t pw(int64_t b, int64_t e) { int64_t r = 1; b %= MOD; if (b < 0) b += MOD; while (e) { if (e & 1) r = r * b % MOD; b = b * b % MOD; e >>= 1; } return r; }
    void trim(Poly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
    Poly padd(Poly x, const Poly& y) { if (x.size() < y.size()) x.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) x[i] = (x[i] + y[i]) % MOD; trim(x); return x; }
    Poly pmul(const Poly& x, const Poly& y) { if (x.empty() || y.empty()) return {}; Poly r(x.size() + y.size() - 1); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) r[i + j] = (r[i + j] + x[i] * y[j]) % MOD; trim(r); return r; }
    Poly pgcd(Poly x, Poly y)
    {
        while (!y.empty()) {
            while (x.size() >= y.size()) {
                const int64_t f = x.back() * pw(y.back(), MOD - 2) % MOD;
                const size_t d = x.size() - y.size();
                for (size_t i = 0; i < y.size(); ++i) x[i + d] = ((x[i + d] - f * y[i]) % MOD + MOD) % MOD;
                trim(x);
                if (x.empty()) break;
            }
            std::swap(x, y);
        }
        return x;
    }
    struct Line { std::map<std::string, std::pair<int64_t, int64_t>> m; };
    const Line& line(int k)
    {
        static const std::array<Line, 2> l = [] { std::array<Line, 2> l{Line{{{"a", {12345, 678}}, {"b", {-9871, 31337}}, {"c", {555, 7919}}, {"d", {4242, 104729}}, {"a'", {77, 3331}}, {"a_1", {-45, 717}}, {"a_1'", {919, 21}}, {"a_2", {66, 1001}}, {"sin", {3, -505}}, {"p", {31, 65537}}, {"q", {271828, 314159}}}},
          Line{{{"a", {8128, 1729}}, {"b", {6174, -2357}}, {"c", {-111, 2718}}, {"d", {17, 9001}}, {"a'", {-13, 777}}, {"a_1", {4, 8191}}, {"a_1'", {123, 4567}}, {"a_2", {9, 31}}, {"sin", {100, 3}}, {"p", {1234567, 89}}, {"q", {-5, 424243}}}}};
            for (int k = 0; k < 2; ++k)
                for (int i = 1; i < 10; ++i) l[k].m["x" + std::to_string(i)] = {1013 * i * i - 777 * k, 313 + 4099 * i * (k + 1)};
            return l;
        }();
        return l[k];
    }
    // false if not representable
    bool onLine(const Var& v, const Line& l, Poly& out)
    {
        switch (v.type()) {
            case Var::Type::INT:
            case Var::Type::FRACTION: {
                const Val x = numberValue(v);
                if (!x.ex) { // too large for the exact values, take the printed digits
                    int64_t part[2] = {0, 1};
                    bool neg = false;
                    int k = 0;
                    const std::string t = text(v);
                    for (char ch : t)
                        if (ch == '-') neg = true;
                        else if (ch == '/') part[k = 1] = 0;
                        else if (ch >= '0' && ch <= '9') part[k] = (part[k] * 10 + (ch - '0')) % MOD;
                        else return false;
                    if (part[1] == 0) return false;
                    out = {(neg ? MOD - part[0] : part[0]) % MOD * pw(part[1], MOD - 2) % MOD};
                    trim(out);
                    return true;
                }
                int64_t n = x.n % MOD; if (n < 0) n += MOD;
                out = {n * pw(x.d, MOD - 2) % MOD};
                trim(out);
                return true;
            }
            case Var::Type::SYMBOL: {
                auto it = tsym::isPositive(v) ? l.m.find(tsym::name(v) + "'") : l.m.end();
                if (it == l.m.end()) it = l.m.find(tsym::name(v));
                if (it == l.m.end()) return false;
                out = {((it->second.first % MOD) + MOD) % MOD, ((it->second.second % MOD) + MOD) % MOD};
                return true;
            }
            case Var::Type::SUM:
            case Var::Type::PRODUCT: {
                const bool sum = v.type() == Var::Type::SUM;
                out = sum ? Poly{} : Poly{1};
                for (auto& o : tsym::operands(v)) {
                    Poly p;
                    if (!onLine(o, l, p)) return false;
                    out = sum ? padd(out, p) : pmul(out, p);
                }
                return true;
            }
            case Var::Type::POWER: {
                const auto o = tsym::operands(v);
                Poly p;
                if (o[1].type() != Var::Type::INT || !onLine(o[0], l, p)) return false;
                const int n = static_cast<int>(o[1]);
                if (n < 0 || n > 60) return false;
                out = {1};
                for (int i = 0; i < n; ++i) out = pmul(out, p);
                return true;
            }
            default: return false;
        }
    }
}
static bool commonFactor(const Var& n, const Var& d, bool& known)
{
    int yes = 0;
    for (int k = 0; k < 2; ++k) {
        Poly x, y;
        if (!onLine(n, line(k), x) || !onLine(d, line(k), y)) { known = false; return false; }
        if (pgcd(x, y).size() > 1) ++yes;
    }
    known = true;
    return yes == 2;
}

void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    auto chkWith = [](Ctx& c, const State& st, const Samples& S, long double tol = 0) {
        c.begin("(normal " + str(st.t) + ")");
        Var r = tsym::normal(st.v);
        Var n = tsym::numerator(st.v), d = tsym::denominator(st.v);
        c.transitions(3);
        c.state(r);
        c.state(n);
        c.state(d);
        const bool partial = !isRationalFct(st.v); // sqrt(a/b) = sqrt(a)/sqrt(b) may lose assignments
        if (!sameValue(c, "value", r, st.vals, S, tol, partial)) return;
        // numerator and denominator
        for (size_t k = 0; k < S.size(); ++k) {
            if (!st.vals[k].num()) { c.skipped(); continue; }
            const Val q = div(evalTree(n, S[k]), evalTree(d, S[k]));
            if (q.undef() && partial && !isUndef(n) && !isUndef(d)) { c.skipped(); continue; }
            if (q.undef() || compare(q, st.vals[k], tol) == Cmp::DIFFERENT) {
                c.fail("fraction", "numerator " + text(n) + " and denominator " + text(d) + " of " + text(st.v) + " give " + str(q) + ", expected " + str(st.vals[k]));
                return;
            }
            c.compared();
        }
        if (!isRationalFct(st.v)) return;
        if (!isPoly(n) || !isPoly(d)) { c.fail("not-polynomial", "numerator " + text(n) + ", denominator " + text(d) + " of " + text(st.v)); return; }
        // recognises zero
        size_t zeros = 0, def = 0;
        for (auto& v : st.vals) if (v.num() && v.ex) { ++def; zeros += v.n == 0; }
        if (def >= 8 && zeros == def && key(r) != "0") { c.fail("zero", text(st.v) + " is identically zero but normalised to " + text(r)); return; }
        bool known;
        if (commonFactor(n, d, known)) { c.fail("not-cancelled", "numerator " + text(n) + " and denominator " + text(d) + " of " + text(st.v) + " have a common factor"); return; }
        if (known) c.compared(); else c.skipped();
    };
    auto chk = [S, chkWith](Ctx& c, const State& st) { chkWith(c, st, *S); };
    { // rational functions
        Strs atoms{"a", "b", "1", "-1", "2", "1/3", "(+ a b)", "(- a b)", "(+ a 1)", "(^ a 2)", "(* a b)", "(- (^ a 2) 1)"};
        if (deep) atoms = cat({atoms, {"c", "p", "-2/5", "(- (^ a 2) (^ b 2))", "(+ (^ a 2) (* 2 a b) (^ b 2))", "(/ 1 a)", "6"}});
        auto all = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, *S));
        e.note("rational_closure_states", std::to_string(all->size()));
        auto sp = universeSpace("rational-closure", {all, all, {Op::ADD, Op::SUB, Op::DIV}, S}, chk);
        e.add(sp);
    }
    { // floating point coefficients
        auto F = fpClosure(*S), G = share(distinct(fpAtoms(), *S));
        e.add(universeSpace("floating-point", {F, deep ? F : G, {Op::ADD, Op::MUL, Op::DIV}, S}, [S, chkWith](Ctx& c, const State& st) { chkWith(c, st, *S, fpTol); }));
    }
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(deep ? 1 : 0, false), *GS)), R = share(distinct(growthOperands(), *GS));
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, [GS, chkWith](Ctx& c, const State& st) { chkWith(c, st, *GS); }));
    }
    { // symbols of the same name
        auto NS = std::make_shared<Samples>(namesakeSamples());
        auto N = share(closure1({"a", "a'", "a_1", "a_1'", "2", "-1", "(sin a)", "(+ a a')"}, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, *NS));
        e.add(universeSpace("namesakes", {N, deep ? N : share(closure1({"a", "a'", "a_1'", "1"}, {Op::ADD, Op::SUB, Op::MUL}, *NS)), {Op::ADD, Op::DIV}, NS}, [=](Ctx& c, const State& x) { chkWith(c, x, *NS); }));
    }
    { // quotients of products of polynomials: all cancellations
        auto P = share(distinct(polynomials({"(^ a 2)", "(* a b)", "a", "b", "1"}, {0, 1, -2}, deep ? 3 : 2), *S));
        Strs f{"(+ a b)", "(- a b)", "(+ a 1)", "(- (* 2 a) b)", "(+ (^ a 2) b)", "a", "(+ (* a b) 1)", "(- (* 3 a) 2)", "(+ a b c)", "(- (^ b 2) 2)"};
        auto F = share(distinct(f, *S));
        e.note("polynomials", std::to_string(P->size()));
        Space sp;
        sp.name = "cancellation";
        sp.n = P->size() * P->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*P)[i / P->size()], &y = (*P)[i % P->size()];
            for (const State& f : *F) {
                // (x*f)/(y*f), expanded so that the common factor is hidden
                Var num = tsym::expand(x.v * f.v), den = tsym::expand(y.v * f.v);
                State st{mk(Op::DIV, mk(Op::EXPAND, mk(Op::MUL, x.t, f.t)), mk(Op::EXPAND, mk(Op::MUL, y.t, f.t))), num / den, {}};
                for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(div(mul(x.vals[k], f.vals[k]), mul(y.vals[k], f.vals[k])));
                chk(c, st);
            }
        };
        e.add(sp);
        // sums of fractions
        Strs g;
        for (auto& x : deep ? Strs{"1", "a", "(- b 1)", "(* 2 a b)", "(^ a 2)"} : Strs{"1", "a", "(- b 2)"})
            for (auto& y : deep ? Strs{"a", "b", "(+ a b)", "(- a b)", "(- (^ a 2) (^ b 2))", "(^ (+ a b) 2)", "(+ a 1)", "(* a b)", "(^ a 3)"} : Strs{"a", "(+ a b)", "(- a b)", "(- (^ a 2) (^ b 2))", "(^ (+ a b) 2)", "(* a b)"}) g.push_back("(/ " + x + " " + y + ")");
        auto G = share(distinct(g, *S));
        Space t;
        t.name = "sums-of-fractions";
        t.n = G->size() * G->size();
        t.chunk = 4;
        t.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*G)[i / G->size()], &y = (*G)[i % G->size()];
            Var xy = x.v - y.v;
            for (const State& z : *G) {
                State st{mk(Op::ADD, mk(Op::SUB, x.t, y.t), z.t), xy + z.v, {}};
                for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(add(sub(x.vals[k], y.vals[k]), z.vals[k]));
                chk(c, st);
            }
        };
        e.add(t);
    }
    { // numerators and denominators that are unexpanded sums of products and powers
        Strs base{"a", "b", "1", "(+ a b)", "(* a b)", "(- a 1)", "(- (* 2 a) b)", "(+ (^ a 2) b)"};
        if (deep) base = cat({base, {"2", "c", "(* 2 (+ a c))", "(^ (+ b 1) 2)"}});
        Strs num, den{"1"};
        for (auto& x : base)
            for (auto& y : base) {
                for (auto& k : {"2", "3"}) {
                    num.push_back("(- (^ " + x + " " + k + ") (^ " + y + " " + k + "))");
                    num.push_back("(+ (^ " + x + " " + k + ") (^ " + y + " " + k + "))");
                }
                num.push_back("(+ (* " + x + " " + y + ") (* (+ " + x + " 1) " + x + "))");
                num.push_back("(- (* (+ " + x + " " + y + ") " + y + ") (* 3 " + x + "))");
                den.push_back("(+ " + x + " " + y + ")");
                den.push_back("(- " + x + " " + y + ")");
                den.push_back("(* " + x + " (+ " + x + " " + y + "))");
                den.push_back("(^ (+ " + x + " " + y + ") 2)");
            }
        auto N = share(distinct(num, *S)), D = share(distinct(den, *S));
        e.note("unexpanded_numerators", std::to_string(N->size()));
        e.note("unexpanded_denominators", std::to_string(D->size()));
        e.add(universeSpace("unexpanded", {N, D, {Op::DIV}, S}, chk));
    }
    { // high degrees
        auto L = share(mkStates(largeRationals(deep), *S));
        Space sp;
        sp.name = "high-degree";
        sp.n = L->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) { chk(c, (*L)[i]); };
        e.add(sp);
    }
    { // the function of two arguments
        auto T = share(distinct(atan2Terms(deep), *S)), R = share(distinct({"a", "(+ a b)", "(/ 1 b)", "2", "(atan2 a b)", "(/ 1 (+ 1 (atan2 (+ a b) a)))"}, *S));
        e.add(universeSpace("atan2", {T, R, {Op::ADD, Op::MUL, Op::DIV}, S}, chk));
    }
    { // identities that are zero: (x op y) - expanded form
        auto all = share(closure1({"a", "b", "1", "2", "(+ a b)", "(- a b)", "(/ 1 b)", "(- 1 a)"}, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, *S));
        e.add(universeSpace("zero-recognition", {all, all, {Op::MUL, Op::DIV, Op::ADD}, S}, [S](Ctx& c, const State& st) {
            if (!isRationalFct(st.v)) return;
            c.begin("(normal (- " + str(st.t) + " (expand " + str(st.t) + ")))");
            Var z1 = tsym::normal(st.v - tsym::expand(st.v)), z2 = tsym::normal(st.v - tsym::normal(st.v));
            Var n = tsym::numerator(st.v), d = tsym::denominator(st.v);
            Var z3 = tsym::normal(st.v - n / d), z4 = tsym::normal(tsym::pow(st.v, Var(2)) - st.v * st.v);
            c.transitions(4);
            for (auto& z : {z1, z2, z3, z4})
                if (key(z) != "0" && !isUndef(z)) c.fail("zero", "difference of equal expressions for " + text(st.v) + " normalised to " + text(z));
            c.compared(4);
        }));
    }
    { // non-rational: powers, functions, numeric powers, exponents
        Strs atoms{"a", "b", "p", "2", "-1", "1/2", "(sqrt 2)", "(sqrt 3)", "pi", "(sin a)", "(sqrt a)", "(sqrt p)", "(sqrt (+ a b))", "(log b)", "(^ 2 a)", "(^ a b)", "(cos (/ 1 a))"};
        if (deep) atoms = cat({atoms, {"(^ a 1/3)", "(tan (+ a b))", "(atan2 a b)", "(^ (+ a b) 3/2)", "(+ 1 (sqrt 2))", "(log (+ (/ 1 a) (/ 1 b)))", "q"}});
        auto A = share(closure1(atoms, {Op::ADD, Op::MUL, Op::DIV}, *S));
        Strs rhs = cat({atoms, {"(+ a b)", "(/ 1 (+ a b))", "(+ 1 (sqrt 2))", "(/ a (sqrt a))", "(/ (sin a) a)", "(+ (sqrt a) 1)", "(- (sqrt p) (sqrt q))", "(/ 1 (+ (sqrt 2) a))"}});
        auto B = share(distinct(rhs, *S));
        e.note("nonrational_closure_states", std::to_string(A->size()));
        e.add(universeSpace("non-rational", {A, B, {Op::ADD, Op::DIV, Op::MUL}, S}, chk));
        auto X = share(distinct({"2", "-2", "1/2", "-1/2", "1/3", "-3/2", "a", "(/ 1 a)", "(sqrt 2)"}, *S));
        e.add(universeSpace("powers", {A, X, {Op::POW}, S}, chk));
    }
}
