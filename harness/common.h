// Shared pieces of the drivers.
#ifndef MC_COMMON_H
#define MC_COMMON_H
#include "core.h"
namespace mc {
using Strs = std::vector<std::string>;
inline Strs cat(std::initializer_list<Strs> l)
{
    Strs r;
    for (auto& x : l) r.insert(r.end(), x.begin(), x.end());
    return r;
}
inline std::vector<State> catS(std::initializer_list<std::vector<State>> l)
{
    std::vector<State> r;
    for (auto& x : l) r.insert(r.end(), x.begin(), x.end());
    return r;
}
// Distinct states of a list of term strings (Undefined results dropped).
inline std::vector<State> distinct(const Strs& ts, const Samples& s)
{
    std::vector<State> out;
    std::set<std::string> known;
    for (auto& t : ts) {
        State st = mkState(parseTerm(t), s);
        if (isUndef(st.v) || !known.insert(key(st.v)).second) continue;
        out.push_back(std::move(st));
    }
    return out;
}
// One transition: apply op to two states on the implementation and compare with the reference on the values.
inline Var step(Ctx& c, Op op, const State& x, const State* y, const Samples& s, const char* kind = "value", long double tol = 0)
{
    c.begin(str(mk(op, x.t, y ? y->t : nullptr)));
    Var r = y ? applyOp(op, x.v, y->v) : applyOp(op, x.v);
    c.transitions();
    Vals want;
    want.reserve(s.size());
    for (size_t k = 0; k < s.size(); ++k) want.push_back(y ? refOp(op, x.vals[k], y->vals[k]) : refOp(op, x.vals[k]));
    sameValue(c, kind, r, want, s, tol, op == Op::LOG);
    return r;
}
// Integer powers of this size are computed digit by digit: left out everywhere (see C16 for the limits).
inline bool hugePower(Op op, const State& y)
{
    return op == Op::POW && isNumber(y.v) && std::fabs(y.vals[0].m) > 400;
}
// All ops over all ordered pairs xs x ys; one case = one row.
inline Space pairSpace(const std::string& name, std::shared_ptr<std::vector<State>> xs, std::shared_ptr<std::vector<State>> ys,
  std::vector<Op> ops, std::shared_ptr<Samples> s, long double tol = 0)
{
    Space sp;
    sp.name = name;
    sp.n = xs->size();
    sp.chunk = 1;
    sp.run = [=](uint64_t i, Ctx& c) {
        const State& x = (*xs)[i];
        for (const auto& y : *ys)
            for (Op op : ops) {
                if (hugePower(op, y)) continue;
                Var r = step(c, op, x, &y, *s, "value", tol);
                c.state(r);
                if (i % 97 == 5 && &y == &(*ys)[ys->size() / 2]) c.sample(str(mk(op, x.t, y.t)) + " -> " + text(r));
            }
    };
    return sp;
}
inline std::shared_ptr<std::vector<State>> share(std::vector<State> v) { return std::make_shared<std::vector<State>>(std::move(v)); }
}
namespace mc {
// A universe of expressions given by rows: row i = all (ops) combinations of xs[i] with every ys.
// visit is called with the combined state (vals computed by the reference from the operands' values).
struct Universe {
    std::shared_ptr<std::vector<State>> xs, ys;
    std::vector<Op> ops;
    std::shared_ptr<Samples> s;
    size_t rows() const { return xs->size(); }
    template <class F> void row(uint64_t i, F&& visit) const
    {
        const State& x = (*xs)[i];
        for (const auto& y : *ys)
            for (Op op : ops) {
                if (hugePower(op, y)) continue;
                State st{mk(op, x.t, y.t), applyOp(op, x.v, y.v), {}};
                if (isUndef(st.v)) continue;
                st.vals.reserve(s->size());
                for (size_t k = 0; k < s->size(); ++k) st.vals.push_back(refOp(op, x.vals[k], y.vals[k]));
                visit(st);
            }
    }
};
inline Space universeSpace(const std::string& name, Universe u, std::function<void(Ctx&, const State&)> f, uint64_t chunk = 1)
{
    Space sp;
    sp.name = name;
    sp.n = u.rows();
    sp.chunk = chunk;
    sp.run = [u, f](uint64_t i, Ctx& c) { u.row(i, [&](const State& st) { f(c, st); }); };
    return sp;
}
inline Space listSpace(const std::string& name, std::shared_ptr<std::vector<State>> xs, std::function<void(Ctx&, const State&)> f, uint64_t chunk = 8)
{
    Space sp;
    sp.name = name;
    sp.n = xs->size();
    sp.chunk = chunk;
    sp.run = [xs, f](uint64_t i, Ctx& c) { f(c, (*xs)[i]); };
    return sp;
}
inline std::vector<State> closure1(const Strs& atoms, const std::vector<Op>& ops, const Samples& s)
{
    auto A0 = distinct(atoms, s);
    std::set<std::string> known;
    for (auto& x : A0) known.insert(key(x.v));
    auto A1 = closure(A0, A0, ops, s, known);
    return catS({A0, A1});
}
// Symbols that share their name or most of it, and a symbol with the name of a function.
inline Strs namesakes() { return {"a", "a'", "a_1", "a_1'", "a_2", "sin", "(sin a)", "(sin a')", "2", "-1"}; }
// Operands with floating point coefficients: results are defined up to rounding.
inline Strs fpAtoms() { return {"a", "b", "p", "2", "-1/3", "D1.23456789", "D-0.3141592", "(sqrt 2)", "(sin a)", "(+ a b)", "(* D0.7071068 b)", "(+ a D0.123456789)"}; }
inline std::shared_ptr<std::vector<State>> fpClosure(const Samples& s) { return share(closure1(fpAtoms(), {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, s)); }
constexpr long double fpTol = 1e-9L;
// Expressions that grow in one direction: number of operands, of symbols, degree, depth, digits.
inline Samples manySamples()
{
    Samples out = signSamples();
    int m = 0;
    for (auto& s : out) {
        for (int k = 1; k <= 9; ++k) s.v["x" + std::to_string(k)] = rat(((m * 5 + k * k) % 3 == 0 ? -1 : 1) * (2 * k + 1 + m % 4), k + 7 + m % 3);
        for (int k = 1; k <= 40; ++k) s.v["y" + std::to_string(k)] = rat(((m * 7 + k * k) % 4 == 0 ? -1 : 1) * (k % 9 + 1 + m % 4), k % 5 + 1 + m % 3);
        ++m;
    }
    return out;
}
// Very many operands, very deep nestings.
inline Strs wide()
{
    auto n2s = [](int i) { return std::to_string(i); };
    auto fold = [&](const char* op, int n, std::function<std::string(int)> f) {
        std::string r = std::string("(") + op;
        for (int i = 1; i <= n; ++i) r += " " + f(i);
        return r + ")";
    };
    auto y = [&](int i) { return "y" + n2s(i); };
    Strs out;
    for (int n : {10, 17, 26, 40}) {
        out.push_back(fold("+", n, y));
        out.push_back(fold("*", n, y));
        out.push_back(fold("+", n, [&](int i) { return "(* " + n2s(i % 2 ? i : -i) + " " + y(n + 1 - i) + ")"; }));
        out.push_back(fold("*", n, [&](int i) { return "(^ " + y(i) + " " + n2s(i % 2 ? i % 5 + 1 : -(i % 4) - 1) + ")"; }));
        out.push_back(fold("+", n, [&](int i) { return "(* " + y(i) + " " + y(i % n + 1) + ")"; }));
        out.push_back(fold("+", n, [&](int i) { return "(sin (* " + n2s(i) + " a))"; }));
        out.push_back(fold("*", n, [&](int i) { return "(cos (* " + n2s(i) + " a))"; }));
        out.push_back(fold("+", n, [&](int i) { return "(* 1/" + n2s(i + 1) + " (^ a " + n2s(i) + "))"; }));
        out.push_back(fold("+", n, [&](int i) { return "(^ " + n2s(i + 1) + " a)"; }));
        out.push_back(fold("+", n, [&](int i) { return "(sqrt (+ " + y(i) + " 9))"; }));
        out.push_back("(sqrt " + out[out.size() - 10] + ")");
        out.push_back("(atan " + out[out.size() - 10] + ")");
        out.push_back("(/ " + out[out.size() - 12] + " " + out[out.size() - 7] + ")");
        out.push_back("(^ a " + out[out.size() - 13] + ")");
    }
    for (int n : {8, 12, 17}) {
        std::string s = "a", r = "a", q = "a", f = "a", e = "2", t = "a", h = "a";
        for (int i = 1; i <= n; ++i) {
            s = "(sin " + s + ")";
            r = "(sqrt (+ " + n2s(i + 3) + " " + r + "))";
            q = "(/ 1 (+ " + n2s(i) + " " + q + "))";
            f = "(+ b (* a " + f + "))";
            e = "(+ 1 (sqrt " + e + "))";
            t = "(cos (+ " + y(i) + " " + t + "))";
            h = "(* " + y(i) + " (+ 1 " + h + "))";
        }
        out = cat({out, {s, r, q, f, t, h}});
        if (n == 8) out.push_back(e);
    }
    return out;
}
inline Strs wideOperands() { return {"a", "-1", "2", "y3", "(neg y9)", "(* y7 y8)", "(+ a y1)", "(sin a)", "(/ 1 y2)"}; }
// Products and powers of sums that expand to very many terms.
inline Strs largeProducts(bool deep)
{
    auto n2s = [](int i) { return std::to_string(i); };
    Strs out;
    for (int n = 5; n <= 9; ++n) {
        std::string p = "(*", q = "(*", r = "(*";
        for (int i = 1; i <= n; ++i) {
            p += " (+ 1 x" + n2s(i) + ")";
            q += " (- (* " + n2s(i) + " x" + n2s(i) + ") x" + n2s(i % n + 1) + ")";
            r += " (+ a (^ x" + n2s(i) + " " + n2s(i) + "))";
        }
        out.push_back(p + ")");
        out.push_back(r + ")");
        if (n < (deep ? 9 : 8)) out.push_back(q + ")");
        out.push_back("(/ " + p + ") (+ a b))");
        out.push_back("(* " + p + ") (+ a b) c)");
    }
    for (int n : deep ? std::vector<int>{15, 25, 40, 60, 80} : std::vector<int>{15, 25, 40})
        for (const char* b : {"(+ a b)", "(- 1 (* 2 a))", "(+ (/ 1 a) p)", "(+ (sqrt 2) a)", "(- (sqrt p) (^ b 2))"}) out.push_back("(^ " + std::string(b) + " " + n2s(n) + ")");
    for (int n : deep ? std::vector<int>{8, 10, 13, 20} : std::vector<int>{8, 13, 18}) out.push_back("(^ (+ a b c) " + n2s(n) + ")");
    for (int n : deep ? std::vector<int>{6, 9, 12} : std::vector<int>{6, 9}) out.push_back("(^ (+ a b c d) " + n2s(n) + ")");
    for (int n : deep ? std::vector<int>{4, 5, 6, 7} : std::vector<int>{4, 5}) {
        out.push_back("(* (^ (+ x1 x2) " + n2s(n) + ") (^ (- x3 1) " + n2s(n - 1) + ") (^ (+ x4 x5) " + n2s(n - 2) + "))");
        out.push_back("(^ (+ x1 x2 x3 x4 x5) " + n2s(n) + ")");
        out.push_back("(^ (+ x1 (* x2 (+ x3 (^ (+ 1 x4) 2)))) " + n2s(n) + ")");
    }
    return out;
}
// Quotients and sums of fractions with polynomials of high degree, most of them with common factors.
inline Strs largeRationals(bool deep)
{
    auto n2s = [](int i) { return std::to_string(i); };
    Strs out;
    const int M = deep ? 48 : 26, K = deep ? 16 : 11;
    for (int m = 2; m <= M; ++m)
        for (int n = 2; n <= M; ++n)
            if (m != n) {
                out.push_back("(/ (- (^ a " + n2s(m) + ") 1) (- (^ a " + n2s(n) + ") 1))");
                if (m % 3 == 0 || n % 3 == 0) out.push_back("(/ (- (^ a " + n2s(m) + ") (^ 2 " + n2s(m) + ")) (- (^ a " + n2s(n) + ") (^ 2 " + n2s(n) + ")))");
            }
    for (int m = 2; m <= K; ++m)
        for (int n = 2; n <= K; ++n) {
            const std::string pm = "(- (^ a " + n2s(m) + ") (^ b " + n2s(m) + "))", pn = "(- (^ b " + n2s(n) + ") (^ a " + n2s(n) + "))";
            if (m != n) out.push_back("(/ " + pm + " " + pn + ")");
            if (m > n) out.push_back("(+ (/ a " + pm + ") (/ b " + pn + "))");
            if (m > n) out.push_back("(/ (expand (^ (+ a b) " + n2s(m) + ")) (expand (* (- a b) (^ (+ a b) " + n2s(n) + "))))");
        }
    for (int m = 3; m <= (deep ? 16 : 12); ++m)
        for (int k = 1; k < m; ++k) { // (a + 1)...(a + m) by (a - k + 1)...(a - k + m)
            std::string p = "(expand (*", q = "(expand (*";
            for (int i = 1; i <= m; ++i) {
                p += " (+ a " + n2s(i) + ")";
                q += " (+ a " + n2s(i - k) + ")";
            }
            out.push_back("(/ " + p + ")) " + q + ")))");
        }
    for (int m = 3; m <= (deep ? 10 : 8); ++m) {
        std::string s1 = "(+", s2 = "(+", s3 = "(+";
        for (int i = 1; i <= m; ++i) {
            s1 += " (/ 1 (+ a " + n2s(i) + "))";
            s2 += " (- (/ 1 (+ a " + n2s(i) + ")) (/ 1 (+ a " + n2s(i % m + 1) + ")))"; // zero
            s3 += " (/ b (- (^ a " + n2s(i) + ") 1))";
        }
        out.push_back(s1 + ")");
        out.push_back(s2 + ")");
        out.push_back(s3 + ")");
    }
    return out;
}
// The function of two arguments, which share symbols and can be normalised; never both numbers.
inline Strs atan2Terms(bool deep = false)
{
    Strs x{"a", "b", "(+ a b)", "(* 2 a)", "(/ (- (^ a 2) (^ b 2)) (- a b))", "(+ (/ 1 a) (/ 1 b))", "(sqrt a)", "(- a 1)", "p", "(* a b)", "2", "-1"}, out;
    if (deep) x = cat({x, {"(sin a)", "(/ (* a b) (+ a (^ a 2)))", "(^ (+ a b) 2)", "(neg b)", "(sqrt 2)", "(log p)", "(/ 1 b)"}});
    const auto number = [](const std::string& t) { return t.find_first_of("abp") == std::string::npos; };
    for (auto& i : x)
        for (auto& j : x)
            if (!number(i) || !number(j)) out.push_back("(atan2 " + i + " " + j + ")");
    return out;
}
// size 0: short, 1: quick, 2: thorough. Without rational: only what normal() treats within a moment.
inline Strs growth(int size, bool heavy = true)
{
    const int M = size == 2 ? 9 : size == 1 ? 7 : 5, N = size == 2 ? 20 : size == 1 ? 12 : 7, D = size == 2 ? 9 : size == 1 ? 6 : 4;
    const int primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73};
    auto n2s = [](int i) { return std::to_string(i); };
    auto fold = [&](const char* op, int from, int to, std::function<std::string(int)> f) {
        std::string r = std::string("(") + op;
        for (int i = from; i <= to; ++i) r += " " + f(i);
        return r + ")";
    };
    Strs out;
    for (int n = 3; n <= M; ++n) { // symbols
        out.push_back(fold("+", 1, n, [&](int i) { return "x" + n2s(i); }));
        out.push_back(fold("*", 1, n, [&](int i) { return "x" + n2s(i); }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(* " + n2s(i % 2 ? i : -i) + " x" + n2s(n + 1 - i) + ")"; }));
        out.push_back(fold("*", 1, n, [&](int i) { return "(^ x" + n2s(i) + " " + n2s(i % 2 ? i : -i) + ")"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return i == n ? std::string("1") : "(* x" + n2s(i) + " x" + n2s(i + 1) + ")"; }));
        out.push_back(fold("*", 1, n, [&](int i) { return "(sqrt x" + n2s(i) + ")"; }));
        out.push_back("(sqrt " + out[out.size() - 6] + ")");
        out.push_back("(sin " + out[out.size() - 6] + ")");
    }
    for (int n = 3; n <= N; ++n) { // operands
        out.push_back(fold("+", 1, n, [&](int i) { return "(^ a " + n2s(i) + ")"; }));
        out.push_back(fold("+", 0, n, [&](int i) { return "(* " + n2s(i % 2 ? i + 1 : -i - 1) + "/" + n2s(n + 2) + " (^ a " + n2s(n - i) + "))"; }));
        if (n <= 8) out.push_back(fold("+", 0, n, [&](int i) { return "(* (^ a " + n2s(i) + ") (^ b " + n2s(n - i) + "))"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(sin (* " + n2s(i) + " a))"; }));
        out.push_back(fold("*", 1, n, [&](int i) { return "(cos (* " + n2s(i) + " a))"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(sqrt " + n2s(primes[i - 1]) + ")"; }));
        if (n <= 6) out.push_back(fold("*", 1, n, [&](int i) { return "(^ " + n2s(primes[i - 1]) + " 1/" + n2s(i + 1) + ")"; }));
        out.push_back(fold("+", 2, n, [&](int i) { return "(^ 2 1/" + n2s(i) + ")"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(* (^ a " + n2s(i) + "/7) (log b))"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(^ " + n2s(i + 1) + " a)"; }));
        out.push_back(fold("+", 1, n, [&](int i) { return "(* (sqrt " + n2s(primes[i - 1]) + ") (^ a " + n2s(i) + "))"; }));
        // degree, digits
        out.push_back("(^ a " + n2s(n * 3) + ")");
        out.push_back("(* (^ a " + n2s(n * 7) + ") (^ b -" + n2s(n * 5) + "))");
        out.push_back("(* 1" + std::string(n * 2, '0') + " (+ a 1/1" + std::string(n, '0') + "))");
        out.push_back("(^ a " + n2s(n * 2 + 1) + "/" + n2s(n) + ")");
        out.push_back("(- (^ a " + n2s(n) + ") (^ b " + n2s(n) + "))");
    }
    for (int n = 3; n <= D; ++n) { // products of sums, depth
        out.push_back(fold("*", 1, n, [&](int i) { return "(+ a " + n2s(i) + ")"; }));
        out.push_back(fold("*", 1, n, [&](int i) { return "(+ (^ a " + n2s(i) + ") b)"; }));
        if (heavy || n < 5) out.push_back(fold("+", 1, n, [&](int i) { return "(/ 1 (+ a " + n2s(i) + "))"; }));
        if (heavy || n < 4) out.push_back(fold("+", 1, n, [&](int i) { return "(/ x" + n2s(i) + " (+ a x" + n2s(i) + "))"; }));
        out.push_back("(^ (+ a b) " + n2s(n) + ")");
        out.push_back("(^ (+ a b 1) -" + n2s(n) + ")");
        std::string s = "a", r = "a", q = "a", f = "a", l = "b", e = "2", t = "a";
        for (int i = 1; i <= n; ++i) {
            s = "(sin " + s + ")";
            r = "(sqrt (+ " + n2s(i) + " " + r + "))";
            q = "(/ 1 (+ " + n2s(i) + " " + q + "))";
            f = "(+ b (* a " + f + "))";
            if (i < 4) l = "(atan (+ a " + l + "))"; // its derivative grows exponentially
            e = "(+ 1 (sqrt " + e + "))";
            t = "(^ (+ 1 (^ " + t + " 2)) 1/2)";
        }
        out = cat({out, {s, r, f, l, e, t}});
        if (heavy || n < 6) out.push_back(q);
    }
    return out;
}
inline Strs growthOperands() { return {"a", "2", "-1", "(neg a)", "(sqrt 2)", "x1", "x2", "(sin a)", "(^ a 2)", "(+ a b)", "(/ 1 a)", "(+ a 1)", "(* x1 x2)", "1/3"}; }
// Polynomials with small coefficients in a and b, as terms.
inline Strs polynomials(const Strs& monomials, const std::vector<int>& coeff, size_t maxTerms)
{
    Strs out;
    std::function<void(size_t, std::string, size_t)> rec = [&](size_t i, std::string cur, size_t terms) {
        if (i == monomials.size()) {
            if (terms) out.push_back(terms == 1 ? cur : "(+" + cur + ")");
            return;
        }
        for (int c : coeff) {
            if (c == 0) { rec(i + 1, cur, terms); continue; }
            if (terms == maxTerms) continue;
            std::string t = c == 1 ? monomials[i] : "(* " + std::to_string(c) + " " + monomials[i] + ")";
            rec(i + 1, cur + " " + t, terms + 1);
        }
    };
    rec(0, "", 0);
    for (auto& s : out) if (s[0] == ' ') s = s.substr(1);
    return out;
}
}
#endif
