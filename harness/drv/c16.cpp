// C16: Undefined appears exactly where the mathematics is undefined, swallows everything it meets, and no input brings the library down.
#include "common.h"
#include <climits>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C16";

namespace {
const Sample& noSym()
{
    static const Sample s;
    return s;
}
void mustBeUndef(Ctx& c, const char* kind, const Var& v, const std::string& what)
{
    c.compared();
    if (!isUndef(v)) c.fail(kind, what + " gives " + text(v) + ", expected Undefined", text(v));
}
// All queries on an Undefined are answered without complaint.
void queries(Ctx& c, const Var& u)
{
    mustBeUndef(c, "function", tsym::expand(u), "expand");
    mustBeUndef(c, "function", tsym::normal(u), "normal");
    mustBeUndef(c, "function", tsym::simplify(u), "simplify");
    mustBeUndef(c, "function", tsym::numerator(u) / tsym::denominator(u), "numerator/denominator");
    mustBeUndef(c, "function", tsym::diff(u, Var("a")), "diff");
    mustBeUndef(c, "function", tsym::subst(u, Var("a"), Var(1)), "subst");
    mustBeUndef(c, "function", -u, "negation");
    mustBeUndef(c, "function", +u, "unary plus");
    mustBeUndef(c, "function", Var(u), "copy");
    c.transitions(9);
    c.compared(9);
    if (u == u || u == Var(0) || Var(0) == u) c.fail("query", "Undefined compares equal");
    if (!(u != u)) c.fail("query", "Undefined does not differ from itself");
    if (tsym::isPositive(u) || tsym::isNegative(u)) c.fail("query", "Undefined has a sign");
    if (u.type() != Var::Type::UNDEFINED) c.fail("query", "wrong type");
    if (!tsym::operands(u).empty() || !tsym::collectSymbols(u).empty()) c.fail("query", "Undefined has operands or symbols");
    if (!tsym::name(u).empty()) c.fail("query", "Undefined has a name");
    if (tsym::has(u, Var("a"))) c.fail("query", "Undefined contains a symbol");
    if (text(u) != "Undefined") c.fail("query", "printed as " + text(u));
    if (std::hash<Var>()(u) != std::hash<Var>()(Var(1) / Var(0))) c.fail("query", "hash differs");
    for (int i = 0; i < 2; ++i) {
        try {
            if (i) (void)static_cast<int>(u);
            else (void)static_cast<double>(u);
            c.fail("query", std::string("conversion to ") + (i ? "int" : "double") + " succeeds");
        } catch (const std::domain_error&) {
        }
    }
}
const Strs producers{"(/ 1 0)", "(/ 0 0)", "(/ a 0)", "(^ 0 -1)", "(^ 0 -1/2)", "(^ 0 -2)", "(/ pi 0)", "(/ (sqrt 2) 0)", "(sqrt -1)", "(^ -2 1/2)", "(^ -1 1/3)", "(^ -2/3 3/2)", "(sqrt (neg (sqrt 2)))", "(sqrt (neg pi))", "(log 0)", "(log -1)", "(log (neg pi))", "(log -1/2)", "(asin 2)", "(asin -3/2)", "(acos 2)", "(acos -5/4)", "(asin pi)", "(acos (sqrt 2))", "(acos (neg e))", "(tan (/ pi 2))", "(tan (* 3/2 pi))", "(tan (* -1/2 pi))", "(atan2 0 0)", "(/ 1 (- a a))", "(/ a (- (+ a b) (+ a b)))", "(/ 1 (sin pi))", "(/ 1 (cos (/ pi 2)))", "(/ 1 (log 1))", "(/ 1 (+ 1 (cos pi)))", "(/ 1 (- (sqrt 4) 2))", "(/ 1 (- (* (sqrt 2) (sqrt 2)) 2))", "(^ (- a a) -3)", "(^ -1 (sqrt 2))", "(^ -2 pi)", "(^ (neg pi) 1/2)", "(sqrt (- (sqrt 2) 2))", "(log (- (sqrt 2) 2))", "(asin (+ 1 (sqrt 2)))"};
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    Samples none;
    auto std0 = std::make_shared<Samples>(stdSamples());
    auto N = std::make_shared<Samples>(Samples{noSym()});
    const Strs partners{"0", "1", "-1", "2", "-3", "1/2", "-2/3", "D0.123456789", "pi", "e", "(sqrt 2)", "(neg (sqrt 3))", "(^ 2 1/3)", "a", "b", "p", "(neg a)", "(+ a b)", "(- a b)", "(* a b)", "(/ a b)", "(^ a 2)", "(^ a b)", "(sqrt a)", "(sin a)", "(cos 2)", "(log 2)", "(log a)", "(atan2 a b)", "(acos a)"};
    auto A1 = share(catS({closure1(partners, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, none), distinct({"1000000007", "(^ 10 30)", "(/ 1 (^ 10 400))"}, none)}));
    e.note("partners", std::to_string(A1->size()));
    { // Undefined absorbs every operation with every partner on both sides, however it came about
        Space sp;
        sp.name = "absorb";
        sp.n = producers.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            c.begin(producers[i]);
            const Var u = build(parseTerm(producers[i]));
            c.state(producers[i]);
            mustBeUndef(c, "producer", u, producers[i]);
            queries(c, u);
            for (Op f : {Op::NEG, Op::SQRT, Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN}) {
                c.begin("(" + std::string(opName(f)) + " " + producers[i] + ")");
                mustBeUndef(c, "function", applyOp(f, u), "function");
                c.transitions();
            }
            for (auto& x : *A1) {
                for (Op op : {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW, Op::ATAN2}) {
                    c.begin("(" + std::string(opName(op)) + " " + producers[i] + " " + str(x.t) + ")");
                    mustBeUndef(c, "absorb", applyOp(op, u, x.v), "left");
                    mustBeUndef(c, "absorb", applyOp(op, x.v, u), "right");
                    c.transitions(2);
                }
                Var y = x.v, z = x.v, w = x.v, v = x.v;
                y += u, z -= u, w *= u, v /= u;
                mustBeUndef(c, "inplace", y, "+=");
                mustBeUndef(c, "inplace", z, "-=");
                mustBeUndef(c, "inplace", w, "*=");
                mustBeUndef(c, "inplace", v, "/=");
                c.begin("(subst " + str(x.t) + " a " + producers[i] + ")");
                const Var s = tsym::subst(x.v, Var("a"), u);
                if (tsym::has(x.v, Var("a"))) mustBeUndef(c, "subst", s, "substitution of a by Undefined");
                else if (s != x.v) c.fail("subst", "substitution of an absent symbol changes " + text(x.v) + " to " + text(s));
                c.begin("(diff " + str(x.t) + " " + producers[i] + ")");
                mustBeUndef(c, "diff", tsym::diff(x.v, u), "derivative with respect to Undefined");
                if (tsym::has(x.v, u)) c.fail("has", text(x.v) + " contains Undefined");
                if (x.v == u || u == x.v) c.fail("equal", text(x.v) + " equals Undefined");
                c.transitions(9);
            }
            c.sample(producers[i] + " with " + std::to_string(A1->size()) + " partners");
        };
        e.add(sp);
    }
    { // constants: Undefined if the reference is certain that there is no real value, defined if it is certain that there is one
        const Strs nums{"0", "1", "-1", "2", "-2", "3", "1/2", "-1/2", "-4", "2/3", "-5/3", "pi", "e", "(sqrt 2)", "(neg (sqrt 3))", "(^ 2 1/3)", "(neg pi)", "(log 2)", "(log 1/3)", "(sin 1)", "(neg e)", "D0.123456789", "D-1.23456789", "(acos 1/3)", "(atan -2)"};
        auto B = share(closure1(nums, deep ? std::vector<Op>{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW, Op::ATAN2} : std::vector<Op>{Op::ADD, Op::MUL, Op::DIV, Op::POW}, *N));
        auto B0 = share(distinct(nums, *N));
        e.note("constant_states", std::to_string(B->size()));
        Space sp;
        sp.name = "constants";
        sp.n = B->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*B)[i];
            auto check = [&](Op op, const State& l, const State* r) {
                if (r && hugePower(op, *r)) return;
                c.begin(str(mk(op, l.t, r ? r->t : nullptr)));
                const Var v = r ? applyOp(op, l.v, r->v) : applyOp(op, l.v);
                const Val want = r ? refOp(op, l.vals[0], r->vals[0]) : refOp(op, l.vals[0]);
                c.transitions();
                c.state(v);
                // rounding decides whether a floating point exponent is an integer; 0^0 is a convention
                if (op == Op::POW && str(r->t).find('D') != std::string::npos) { c.skipped(); return; }
                if (op == Op::POW && l.vals[0].exactZero() && r->vals[0].exactZero()) return;
                if (want.undef()) mustBeUndef(c, "undefined", v, "undefined operation");
                else if (want.num()) {
                    c.compared();
                    if (isUndef(v)) c.fail("defined", "gives Undefined, but has the value " + str(want));
                } else c.skipped();
            };
            for (Op f : {Op::SQRT, Op::LOG, Op::TAN, Op::SIN, Op::COS, Op::ASIN, Op::ACOS, Op::ATAN}) check(f, x, nullptr);
            for (auto& y : *B0)
                for (Op op : {Op::ADD, Op::MUL, Op::DIV, Op::POW, Op::ATAN2}) {
                    check(op, x, &y);
                    if (op != Op::ADD && op != Op::MUL) check(op, y, &x);
                    if (op == Op::ATAN2) continue; // its value is only determined modulo 2*pi
                    // functions of the combination
                    for (bool swap : {false, true}) {
                        if (swap && (op == Op::ADD || op == Op::MUL)) continue;
                        const State &l = swap ? y : x, &r = swap ? x : y;
                        if (hugePower(op, r)) continue;
                        const State z{mk(op, l.t, r.t), applyOp(op, l.v, r.v), {refOp(op, l.vals[0], r.vals[0])}};
                        if (isUndef(z.v) || !z.vals[0].num() || str(z.t).find('D') != std::string::npos) continue;
                        for (Op g : {Op::SQRT, Op::LOG, Op::ASIN, Op::ACOS}) check(g, z, nullptr);
                    }
                }
        };
        e.add(sp);
    }
    { // poles of tan and roots of hidden zeros
        Space sp;
        sp.name = "poles";
        sp.n = 241;
        sp.chunk = 16;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int k = int(i) - 120;
            const std::string n = std::to_string(k);
            c.begin("tan pole " + n);
            const Var u = tsym::tan(Var(k, 2) * tsym::pi());
            if (k % 2) mustBeUndef(c, "pole", u, "tan(" + n + "/2*pi)");
            else if (!(u == Var(0))) c.fail("pole", "tan(" + n + "/2*pi) = " + text(u));
            if (k % 2) mustBeUndef(c, "pole", Var(3) / tsym::cos(Var(k, 2) * tsym::pi()), "1/cos(" + n + "/2*pi)");
            mustBeUndef(c, "pole", Var(3) / tsym::sin(Var(k) * tsym::pi()), "1/sin(" + n + "*pi)");
            mustBeUndef(c, "pole", tsym::log(tsym::sin(Var(k) * tsym::pi())), "log(sin(" + n + "*pi))");
            mustBeUndef(c, "pole", Var(1) / (Var("a") * Var(k) - Var(k) * Var("a")), "1/(k*a - a*k)");
            mustBeUndef(c, "pole", Var(k) / (tsym::sqrt(Var(2)) * tsym::sqrt(Var(2)) - 2), "k/(sqrt2^2 - 2)");
            c.transitions(6);
            c.state("pole" + n);
            mustBeUndef(c, "number", Var(k, 0), "Var(" + n + ", 0)");
            mustBeUndef(c, "number", Var(k) / Var(0.0), n + "/0.0");
            mustBeUndef(c, "number", Var(k) / Var(-0.0), n + "/-0.0");
        };
        e.add(sp);
    }
    { // substituting numbers into expressions gives Undefined exactly where the expression has no value
        const Strs atoms{"a", "b", "1", "-1", "2", "1/2", "(+ a 1)", "(- a b)", "(^ a 2)", "(sqrt a)", "(log a)", "(asin a)", "(acos b)", "(tan a)", "(/ 1 a)", "(/ 1 b)", "(^ a b)", "(sin b)", "(atan2 a b)", "(- (^ a 2) 1)", "pi"};
        auto X = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, none));
        const Strs vals{"0", "1", "-1", "2", "-2", "1/2", "-3/2", "pi", "(sqrt 2)"};
        e.note("substituted_expressions", std::to_string(X->size()));
        Space sp;
        sp.name = "subst-values";
        sp.n = X->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*X)[i];
            for (auto& va : vals)
                for (auto& vb : vals) {
                    c.begin("(subst (subst " + str(x.t) + " a " + va + ") b " + vb + ")");
                    c.state(str(x.t) + va + vb);
                    c.transitions(4);
                    for (bool bFirst : {false, true}) {
                        const Val a = evalTerm(parseTerm(va), noSym()), b = evalTerm(parseTerm(vb), noSym());
                        const Var one = bFirst ? tsym::subst(x.v, Var("b"), build(parseTerm(vb))) : tsym::subst(x.v, Var("a"), build(parseTerm(va)));
                        Sample s;
                        s.v = {{"a", a}, {"b", b}};
                        if (isUndef(one)) continue;
                        const Val want = evalTree(one, s);
                        if (!want.undef()) { c.skipped(); continue; }
                        bool zeroPow = false; // 0^0 is a convention
                        std::function<void(const Var&)> walk = [&](const Var& v) {
                            if (isNumber(v)) return;
                            const auto o = tsym::operands(v);
                            if (v.type() == Var::Type::POWER && evalTree(o[0], s).exactZero() && evalTree(o[1], s).exactZero()) zeroPow = true;
                            for (auto& y : o) walk(y);
                        };
                        walk(one);
                        if (zeroPow) { c.skipped(); continue; }
                        const Var all = bFirst ? tsym::subst(one, Var("a"), build(parseTerm(va))) : tsym::subst(one, Var("b"), build(parseTerm(vb)));
                        mustBeUndef(c, "undefined", all, text(one) + " at " + (bFirst ? "a=" + va : "b=" + vb));
                    }
                }
        };
        e.add(sp);
    }
    { // linear algebra with Undefined entries: never a wrong value, never a crash
        const Strs ent{"0", "1", "a", "undefined"};
        const uint64_t n = 4 * 4 * 4 * 4 * 4 * 4;
        Space sp;
        sp.name = "matrices";
        sp.n = n;
        sp.chunk = 64;
        sp.run = [=](uint64_t i, Ctx& c) {
            std::vector<Var> v;
            std::string d;
            bool matUndef = false, rhsUndef = false;
            for (int k = 0; k < 6; ++k, i /= 4) {
                v.push_back(leafVar(ent[i % 4]));
                d += (k ? " " : "") + ent[i % 4];
                if (i % 4 == 3) (k < 4 ? matUndef : rhsUndef) = true;
            }
            if (!matUndef && !rhsUndef) return;
            c.begin(d);
            c.state(d);
            c.transitions(3);
            const std::vector<std::vector<Var>> m{{v[0], v[1]}, {v[2], v[3]}};
            const std::vector<Var> rhs{v[4], v[5]};
            try {
                const Var det = tsym::determinant(m, size_t(2));
                c.compared();
                if (matUndef && !isUndef(det)) c.fail("determinant", "of a matrix with Undefined is " + text(det), text(det));
            } catch (const std::exception&) {
                c.outcome("determinant refused");
            }
            try {
                std::vector<Var> x(2);
                tsym::solve(m, rhs, x, size_t(2));
                c.compared();
                if (!isUndef(x[0]) && !isUndef(x[1])) c.fail("solve", "of a system with Undefined gives " + text(x[0]) + ", " + text(x[1]), text(x[0]) + ", " + text(x[1]));
            } catch (const std::exception&) {
                c.outcome("refused");
            }
        };
        e.add(sp);
    }
    { // extreme operands: every operation on every pair terminates normally; every function of every result
        Strs ext{"0", "1", "-1", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967297", "9223372036854775807", "18446744073709551616", "(^ 10 30)", "(neg (^ 10 30))", "(^ 10 100)", "(neg (^ 10 100))", "(/ 1 (^ 10 30))", "(/ 1 (^ 10 100))", "(/ (^ 10 100) (+ 1 (^ 10 100)))", "(/ 1 2147483648)", "(/ -1 4294967297)", "(/ 3 18446744073709551616)", "D1e100", "D-1e100", "D0.123456789", "D-0.123456789", "D1e-9", "D1e-15", "D123456789.123456", "D1.5e-12", "D3e60", "pi", "e", "(sqrt 2)", "(sqrt (^ 10 101))", "(^ 2 1/400)", "(^ 3 2/397)", "a", "p", "(neg a)", "(+ a 1)", "(^ a (^ 10 30))", "(^ a 1/4294967297)", "(* (^ 10 100) a)", "(^ (+ a b) 3)", "(sin (^ 10 30))", "(log (^ 10 100))", "(atan a)", "(^ a D1e15)"};
        if (deep) for (auto x : {"D1e101", "D4.9e-324", "D2.5e-5", "(^ a (/ 1 (^ 10 30)))", "(sqrt (+ a (^ 10 30)))", "(cos (* 1/4294967297 pi))", "(tan (* (^ 10 30) a))", "(^ (^ 10 30) 1/2)", "(asin (/ 1 (^ 10 100)))"}) ext.push_back(x);
        auto E0 = share(distinct(ext, none));
        e.note("extreme_operands", std::to_string(E0->size()));
        auto all = [](Ctx& c, const Var& v) {
            for (Op f : {Op::NEG, Op::SQRT, Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::NORMAL, Op::NUMER, Op::DENOM}) {
                applyOp(f, v);
                c.transitions();
            }
            tsym::expand(v);
            tsym::simplify(v);
            tsym::diff(v, Var("a"));
            tsym::isPositive(v);
            tsym::isNegative(v);
            tsym::complexity(v);
            (void)std::hash<Var>()(v);
            tsym::collectSymbols(v);
            text(v);
            tsym::has(v, Var("a"));
            // powers of numbers with huge exponents are a known limit
            tsym::subst(v, Var("a"), text(v).find("a^") == std::string::npos ? Var(3, 2) : Var("p"));
            for (int i = 0; i < 2; ++i)
                try {
                    if (i) (void)static_cast<int>(v);
                    else (void)static_cast<double>(v);
                } catch (const std::domain_error&) {
                } catch (const std::overflow_error&) {
                }
            c.transitions(12);
        };
        auto tooLarge = [](Op op, const State& l, const State& r) {
            // integer powers of this size are really computed (known limit, see the space huge-exponents)
            if (op != Op::POW || isUndef(l.v) || isUndef(r.v)) return false;
            if (!isNumber(r.v)) return false;
            const Val b = evalTree(r.v, noSym());
            return !b.num() || std::fabs(b.m) > 400;
        };
        Space sp;
        sp.name = "extreme";
        sp.n = E0->size() * E0->size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*E0)[i / E0->size()], &y = (*E0)[i % E0->size()];
            for (Op op : {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW, Op::ATAN2}) {
                if (tooLarge(op, x, y)) continue;
                c.begin(str(mk(op, x.t, y.t)));
                const Var v = applyOp(op, x.v, y.v);
                c.transitions();
                c.state(v);
                if (hasDouble(v) && text(v).find("inf") != std::string::npos) continue; // left the range of double
                all(c, v);
                c.compared();
            }
        };
        e.add(sp);
        if (deep) { // a third operand
            auto E1 = share(distinct({"2147483648", "(^ 10 30)", "(/ 1 (^ 10 400))", "D1e-9", "D0.123456789", "D3e200", "(sqrt 2)", "a", "(^ a (^ 10 30))", "pi", "-1/3"}, none));
            Space t;
            t.name = "extreme-3";
            t.n = E0->size() * E0->size();
            t.chunk = 8;
            t.run = [=](uint64_t i, Ctx& c) {
                const State &x = (*E0)[i / E0->size()], &y = (*E0)[i % E0->size()];
                for (Op op : {Op::ADD, Op::MUL, Op::DIV}) {
                    const State m{mk(op, x.t, y.t), applyOp(op, x.v, y.v), {}};
                    if (isUndef(m.v) || text(m.v).find("inf") != std::string::npos) continue;
                    for (auto& z : *E1)
                        for (Op o2 : {Op::ADD, Op::MUL, Op::DIV, Op::POW}) {
                            if (tooLarge(o2, m, z)) continue;
                            c.begin(str(mk(o2, m.t, z.t)));
                            const Var v = applyOp(o2, m.v, z.v);
                            c.transitions();
                            c.state(v);
                            if (text(v).find("inf") != std::string::npos) continue;
                            tsym::normal(v);
                            tsym::diff(v, Var("a"));
                            text(v);
                            c.compared();
                        }
                }
            };
            e.add(t);
        }
    }
    { // a pole at one place of a long or deep expression
        Space sp;
        sp.name = "wide";
        sp.n = 40;
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int n = i + 3;
            std::vector<Var> y;
            for (int k = 1; k <= n; ++k) y.emplace_back("y" + std::to_string(k));
            Var s(0), p(1), l(0), q(1), t(0), d(0);
            for (int k = 0; k < n; ++k) {
                s += 1 / y[k];
                p *= tsym::pow(y[k], Var(-(k % 3) - 1));
                l += tsym::log(y[k]);
                q *= tsym::sqrt(y[k] + 1);
                if (n <= 24) t = tsym::sin(t + 1 / y[k]);
                if (n <= 24) d = tsym::sqrt(d + 2 + tsym::log(y[k]));
            }
            const Var zero(0), minus(-2);
            auto must = [&c](const std::string& what, const Var& v) {
                c.begin(what);
                c.transitions();
                c.compared();
                if (!isUndef(v)) c.fail("undefined", "undefined operation gives " + text(v) + ", expected Undefined");
            };
            for (int k = 0; k < n; k += k < 3 || k > n - 4 ? 1 : 4) {
                const std::string w = " of " + std::to_string(n) + " at operand " + std::to_string(k + 1);
                must("pole in a sum" + w, tsym::subst(s, y[k], zero));
                must("pole in a product" + w, tsym::subst(p, y[k], zero));
                must("logarithm of zero in a sum" + w, tsym::subst(l, y[k], zero));
                must("logarithm of a negative number in a sum" + w, tsym::subst(l, y[k], minus));
                must("root of a negative number in a product" + w, tsym::subst(q, y[k], minus));
                if (n > 24) continue;
                must("pole in nested functions" + w, tsym::subst(t, y[k], zero));
                must("logarithm of zero in nested roots" + w, tsym::subst(d, y[k], zero));
            }
            c.state(s);
            c.state(p);
            c.state(t);
        };
        e.add(sp);
    }
    { // powers with an exponent beyond 32 bits
        const Strs bases{"-1", "1", "0", "2", "3/2", "-2", "1/7", "pi", "a", "(+ a 1)", "D0.5123456", "(neg a)"};
        const Strs exps{"(^ 10 30)", "(+ 1 (^ 10 30))", "4294967296", "(neg (^ 10 30))", "(/ 1 (^ 10 30))", "1/4294967296", "-1/10000000000", "(/ -1 (^ 10 30))"};
        Space sp;
        sp.name = "huge-exponents";
        sp.n = bases.size() * exps.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const std::string t = "(^ " + bases[i / exps.size()] + " " + exps[i % exps.size()] + ")";
            c.begin(t);
            const Var v = build(parseTerm(t));
            c.state(v);
            c.transitions();
            c.compared();
            text(v);
            tsym::isPositive(v);
            const bool even = i % exps.size() != 1;
            if (bases[i / exps.size()] == "-1" && i % exps.size() < 4 && !(v == Var(even ? 1 : -1))) c.fail("value", "is " + text(v));
            if (bases[i / exps.size()] == "1" && !(v == Var(1))) c.fail("value", "is " + text(v));
        };
        e.add(sp);
    }
    e.assume("Operands whose double value leaves the range of double (inf) are not explored further.");
}
