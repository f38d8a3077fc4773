// C11: equality is structural, consistent with the hash, and the canonical form doesn't depend on the order in which operands are given.
#include "common.h"
#include <algorithm>
#include <numeric>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C11";

namespace {
bool same(Ctx& c, const char* kind, const Var& x, const Var& y, const std::string& what)
{
    c.compared();
    if (key(x) != key(y)) { c.fail(kind, what + ": " + text(x) + " and " + text(y) + " are different expressions", text(y)); return false; }
    if (!(x == y) || x != y || !(y == x)) { c.fail(kind, what + ": equal expressions " + text(x) + " compare unequal"); return false; }
    if (std::hash<Var>{}(x) != std::hash<Var>{}(y)) { c.fail(kind, what + ": equal expressions " + text(x) + " have different hash values"); return false; }
    return true;
}
}
namespace {
// Powers with non-integer exponents of possibly negative bases deliberately aren't contracted (the contracted form would hide where they are undefined).
bool contracts(const Var& v)
{
    if (v.type() == Var::Type::PRODUCT) {
        for (auto& o : tsym::operands(v)) if (!contracts(o)) return false;
        return true;
    }
    if (v.type() == Var::Type::SUM) return true;
    return v.type() != Var::Type::POWER || (tsym::operands(v)[1].type() == Var::Type::INT && contracts(tsym::operands(v)[0]));
}
}
namespace {
// Three or more powers of the same base, one of them a root: which pair meets first decides on the form of the result (by design).
bool rootsMeet(std::initializer_list<const State*> l)
{
    std::map<std::string, std::pair<int, bool>> bases;
    for (auto* x : l) {
        const std::vector<Var> f = x->v.type() == Var::Type::PRODUCT ? tsym::operands(x->v) : std::vector<Var>{x->v};
        for (auto& y : f) {
            const bool pw = y.type() == Var::Type::POWER;
            const Var b = pw ? tsym::operands(y)[0] : y;
            auto& e = bases[isNumber(b) ? "number" : key(b)];
            ++e.first;
            e.second = e.second || (pw && tsym::operands(y)[1].type() != Var::Type::INT);
        }
    }
    for (auto& kv : bases) if (kv.second.first > 2 && kv.second.second) return true;
    return false;
}
bool coefficientAndSumPower(const Var& v) // -1/(a + b): the reciprocal is a sum, which isn't cancelled against its multiple
{
    if (v.type() != Var::Type::PRODUCT) return false;
    bool num = false, sum = false;
    for (auto& o : tsym::operands(v)) {
        num = num || isConst(o);
        sum = sum || (o.type() == Var::Type::POWER && tsym::operands(o)[0].type() == Var::Type::SUM);
    }
    return num && sum;
}
bool numericRoot(const Var& v)
{
    if (isNumber(v)) return false;
    if (v.type() == Var::Type::POWER && isConst(v)) return true;
    for (auto& o : tsym::operands(v)) if (numericRoot(o)) return true;
    return false;
}
bool minusOnePower(const Var& v) // (-1)^a, whose sign is merged into the exponent
{
    if (v.type() == Var::Type::POWER) return isNumber(tsym::operands(v)[0]) && tsym::isNegative(tsym::operands(v)[0]);
    if (v.type() != Var::Type::PRODUCT && v.type() != Var::Type::SUM) return false;
    for (auto& o : tsym::operands(v)) if (minusOnePower(o)) return true;
    return false;
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(namesakeSamples());
    const std::vector<Op> ops{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW};
    Strs atoms{"a", "b", "p", "q", "c", "-1", "2", "1/2", "-2/3", "(sqrt 2)", "(sqrt a)", "(+ a b)", "pi", "e", "(sin a)", "(cos a)", "(^ a b)", "(atan2 a b)", "(^ 2 1/3)", "(^ a 2)", "(log a)", "(- 1 a)", "(atan2 a c)", "(sin (+ a b))", "a'", "a_1", "a_1'", "sin"};
    auto all = share(closure1(atoms, ops, *S));
    auto closureStates = all, fps = fpClosure(*S), grown = share(distinct(growth(deep ? 2 : 1), manySamples()));
    e.note("closure_states", std::to_string(all->size()));
    for (int fp = 0; fp < 3; ++fp) { // equality is decided by structure; equal hash for equal expressions; two histories of the same structure are equal
        auto all = fp == 2 ? grown : fp ? fps : closureStates;
        Space sp;
        sp.name = fp == 2 ? "equality-growth" : fp ? "equality-floating-point" : "equality";
        sp.n = all->size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            const std::string kx = key(x.v);
            const size_t hx = std::hash<Var>{}(x.v);
            c.begin("rebuild " + str(x.t));
            same(c, "rebuild", x.v, build(x.t), "built twice");
            c.state(x.v);
            for (auto& y : *all) {
                const bool eq = x.v == y.v;
                if (eq == (&x == &y) && (x.v != y.v) == !eq && (y.v == x.v) == eq) continue;
                c.begin("compare " + str(x.t) + " and " + str(y.t));
                c.fail("equality", text(x.v) + (eq ? " == " : " != ") + text(y.v) + " is wrong or not symmetric");
            }
            c.transitions(all->size());
            c.compared(all->size());
            (void)hx;
            (void)kx;
        };
        e.add(sp);
    }
    for (int fp = 0; fp < 3; ++fp) { // both orders of two operands
        auto all = fp == 2 ? grown : fp ? fps : closureStates;
        Space sp;
        sp.name = fp == 2 ? "commutative-pairs-growth" : fp ? "commutative-pairs-floating-point" : "commutative-pairs";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (size_t j = 0; j < i; ++j) {
                const State& y = (*all)[j];
                for (Op op : {Op::ADD, Op::MUL}) {
                    c.begin(str(mk(op, x.t, y.t)));
                    c.transitions(2);
                    const Var r = applyOp(op, x.v, y.v);
                    c.state(r);
                    same(c, "commute", r, applyOp(op, y.v, x.v), "both orders");
                }
            }
        };
        e.add(sp);
    }
    { // very many operands, very deep nestings: rebuilt, told apart, in both orders with a further operand
        auto W = share(mkStates(wide(), manySamples())), R = share(mkStates(wideOperands(), manySamples()));
        Space sp;
        sp.name = "wide";
        sp.n = W->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*W)[i];
            c.begin("rebuild " + str(x.t));
            c.state(x.v);
            same(c, "rebuild", x.v, build(x.t), "built twice");
            for (auto& y : *W) {
                c.compared();
                if ((x.v == y.v) != (&x == &y)) { c.begin("compare " + str(x.t) + " and " + str(y.t)); c.fail("equality", "expressions of different structure are equal, or one is not equal to itself"); }
            }
            for (auto& y : *R)
                for (Op op : {Op::ADD, Op::MUL}) {
                    c.begin(str(mk(op, x.t, y.t)));
                    c.transitions(2);
                    const Var r = applyOp(op, x.v, y.v);
                    c.state(r);
                    same(c, "commute", r, applyOp(op, y.v, x.v), "both orders");
                }
        };
        e.add(sp);
    }
    { // all orders and associations of three and four operands
        auto three = share(distinct(deep ? cat({atoms, {"(* 2 a)", "(* a b)", "(* -1 b)", "(^ a -1)", "(^ b 2)", "3", "(sqrt 3)", "(/ 1 (sqrt 2))", "(* 2 pi)", "(sin b)", "(tan a)", "d", "(^ b a)", "(* a (sqrt 2))"}})
                                        : cat({atoms, {"(* 2 a)", "(* a b)", "(^ a -1)", "3", "(sqrt 3)", "(* 2 pi)", "(sin b)", "d", "(* a (sqrt 2))"}}), *S));
        Space sp;
        sp.name = "orders-of-three";
        sp.n = three->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (size_t j = 0; j <= i; ++j)
                for (size_t k = 0; k <= j; ++k) {
                    const State *x = &(*three)[i], *y = &(*three)[j], *z = &(*three)[k];
                    bool sum = false, num = false; // a constant is distributed over a sum only when both meet directly
                    for (auto* q : {x, y, z}) {
                        sum = sum || q->v.type() == Var::Type::SUM;
                        num = num || isConst(q->v);
                    }
                    for (Op op : {Op::ADD, Op::MUL}) {
                        if (op == Op::MUL && ((sum && num) || rootsMeet({x, y, z}))) continue;
                        c.begin(str(mk(op, mk(op, x->t, y->t), z->t)));
                        const Var r = applyOp(op, applyOp(op, x->v, y->v), z->v);
                        c.state(r);
                        c.transitions(24);
                        const State* p[3][3] = {{x, y, z}, {x, z, y}, {y, z, x}};
                        bool ok = true;
                        for (auto& q : p) {
                            const Var inner = applyOp(op, q[0]->v, q[1]->v), inner2 = applyOp(op, q[1]->v, q[0]->v);
                            ok = ok && same(c, "orders", r, applyOp(op, inner, q[2]->v), "other order");
                            ok = ok && same(c, "orders", r, applyOp(op, q[2]->v, inner), "other order");
                            ok = ok && same(c, "orders", r, applyOp(op, inner2, q[2]->v), "other order");
                            if (!ok) break;
                        }
                    }
                }
        };
        e.add(sp);
    }
    { // closure expressions with two further summands
        auto few = share(distinct({"a", "b", "-1", "1/2", "pi", "e", "(sqrt 2)", "(* 2 a)", "(sin a)", "(^ a 2)", "(neg b)", "(^ a b)", "(* -2 pi)", "(atan2 a c)", "(/ 1 (sqrt 2))"}, *S));
        Space sp;
        sp.name = "orders-of-summands";
        sp.n = all->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (size_t j = 0; j < few->size(); ++j)
                for (size_t k = 0; k <= j; ++k) {
                    const State &y = (*few)[j], &z = (*few)[k];
                    // multiples of sqrt(2) and 1/sqrt(2) are merged pairwise as they meet: not canonical by design
                    if (numericRoot(x.v) && numericRoot(y.v) && numericRoot(z.v)) continue;
                    c.begin("(+ " + str(x.t) + " " + str(y.t) + " " + str(z.t) + ")");
                    c.transitions(8);
                    const Var r = x.v + y.v + z.v;
                    c.state(r);
                    if (!same(c, "orders", r, x.v + z.v + y.v, "other order")) continue;
                    if (!same(c, "orders", r, x.v + (y.v + z.v), "other order")) continue;
                    if (!same(c, "orders", r, (z.v + y.v) + x.v, "other order")) continue;
                    if (minusOnePower(x.v) || numericRoot(x.v) || numericRoot(y.v) || numericRoot(z.v)) continue; // -1/sqrt(2) + sqrt(2) is kept
                    same(c, "orders", r - x.v - y.v, z.v, "difference");
                }
        };
        e.add(sp);
    }
    { // all orders of four operands
        auto ops4 = share(distinct({"a", "b", "2", "-2/3", "pi", "e", "(sqrt 2)", "(* 2 a)", "(sin a)", "(^ a 2)", "(log b)", "(^ a b)", "(atan2 a c)", "(/ 1 b)", "(sqrt 3)"}, *S));
        Space sp;
        sp.name = "orders-of-four";
        sp.n = ops4->size() * ops4->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const size_t m = ops4->size(), a = i / m, b = i % m;
            if (b > a) return;
            for (size_t d = 0; d <= b; ++d)
                for (size_t f = 0; f <= d; ++f)
                    for (Op op : {Op::ADD, Op::MUL}) {
                        std::vector<size_t> p{f, d, b, a};
                        const State *q[4] = {&(*ops4)[f], &(*ops4)[d], &(*ops4)[b], &(*ops4)[a]};
                        if (op == Op::MUL && rootsMeet({q[0], q[1], q[2], q[3]})) continue;
                        c.begin(std::string("(") + opName(op) + " " + str(q[0]->t) + " " + str(q[1]->t) + " " + str(q[2]->t) + " " + str(q[3]->t) + ")");
                        auto chain = [&](const std::vector<size_t>& o) {
                            Var r = (*ops4)[o[0]].v;
                            for (size_t k = 1; k < 4; ++k) r = applyOp(op, r, (*ops4)[o[k]].v);
                            return r;
                        };
                        const Var r = chain(p);
                        c.state(r);
                        bool ok = true;
                        do {
                            c.transitions(4);
                            ok = same(c, "orders", r, chain(p), "other order");
                            if (ok) ok = same(c, "orders", r, applyOp(op, applyOp(op, (*ops4)[p[0]].v, (*ops4)[p[1]].v), applyOp(op, (*ops4)[p[2]].v, (*ops4)[p[3]].v)), "other order");
                        } while (ok && std::next_permutation(p.begin(), p.end()));
                    }
        };
        e.add(sp);
    }
    { // long chains of operands: all permutations of up to six, and many orders and associations of up to 24
        auto n2s = [](size_t i) { return std::to_string(i); };
        std::vector<std::pair<std::string, std::function<std::string(size_t)>>> fam{
          {"symbols", [=](size_t i) { return "x" + n2s(i); }},
          {"powers", [=](size_t i) { return "(^ a " + n2s(i) + ")"; }},
          {"multiples", [=](size_t i) { return "(* " + n2s(i % 5 + 1) + " x" + n2s(i % 4) + ")"; }},
          {"functions", [=](size_t i) { return "(sin (* " + n2s(i) + " a))"; }},
          {"subscripts", [=](size_t i) { return "a_{" + n2s(100 - i) + "}"; }},
          {"mixed", [=](size_t i) {
               const Strs m{"a", "b", "(sin a)", "(log b)", "(^ a b)", "pi", "(atan2 a b)", "p", "a'", "(^ b 2)", "(cos b)", "(^ p c)", "c", "(tan c)", "(asin (/ a 3))", "d", "q", "e", "(^ d -1)", "(sin p)", "a_1", "a_1'", "(^ c 3)", "(acos (/ b 5))"};
               return m[i % m.size()]; }},
          {"nested", [=](size_t i) { std::string r = "a"; for (size_t k = 0; k < i % 12; ++k) r = "(sin " + r + ")"; return i < 12 ? r : "(+ 1 " + r + ")"; }},
          {"exponents", [=](size_t i) { return "(^ " + n2s(i + 2) + " a)"; }}};
        const size_t nMax = deep ? 44 : 28;
        Space sp;
        sp.name = "long-chains";
        sp.n = fam.size() * (nMax - 2);
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const auto& f = fam[i % fam.size()];
            const size_t n = i / fam.size() + 3;
            std::vector<Var> x;
            for (size_t k = 0; k < n; ++k) x.push_back(build(parseTerm(f.second(k + 1))));
            for (Op op : {Op::ADD, Op::MUL}) {
                c.begin(std::string(opName(op)) + " of " + n2s(n) + " " + f.first);
                if (op == Op::MUL && f.first == "nested" && n > 12) continue;
                auto chain = [&](const std::vector<size_t>& o) {
                    Var r = x[o[0]];
                    for (size_t k = 1; k < o.size(); ++k) r = applyOp(op, r, x[o[k]]);
                    return r;
                };
                std::function<Var(size_t, size_t, size_t)> tree = [&](size_t from, size_t to, size_t split) { // halves (2), thirds (3), right to left (1)
                    if (to - from == 1) return x[from];
                    const size_t m = split == 1 ? from + 1 : from + std::max<size_t>(1, (to - from) / split);
                    return applyOp(op, tree(from, m, split), tree(m, to, split));
                };
                std::vector<size_t> id(n);
                for (size_t k = 0; k < n; ++k) id[k] = k;
                const Var r = chain(id);
                c.state(r);
                bool ok = true;
                auto cmp = [&](const Var& v, const std::string& what) { c.transitions(n - 1); ok = ok && same(c, "orders", r, v, what); };
                if (n <= (deep ? 7 : 6)) {
                    auto p = id;
                    do cmp(chain(p), "other order"); while (ok && std::next_permutation(p.begin(), p.end()));
                }
                for (size_t split : {1, 2, 3}) cmp(tree(0, n, split), "other association");
                for (size_t k = 0; k < n && ok; ++k) {
                    auto p = id;
                    std::rotate(p.begin(), p.begin() + k, p.end());
                    cmp(chain(p), "rotated by " + n2s(k));
                    std::reverse(p.begin(), p.end());
                    cmp(chain(p), "reversed, rotated by " + n2s(k));
                    for (size_t l = 0; l < k && ok; ++l) { // every transposition
                        auto q = id;
                        std::swap(q[k], q[l]);
                        cmp(chain(q), "transposed " + n2s(k) + " and " + n2s(l));
                    }
                    if (op == Op::ADD) { // removing any summand gives the sum of the others
                        auto q = id;
                        q.erase(q.begin() + k);
                        c.compared();
                        if (ok && key(r - x[k]) != key(chain(q))) { c.fail("difference", "subtracting operand " + n2s(k) + " gives " + text(r - x[k])); ok = false; }
                    }
                }
                if (n <= 20) { // another expression for every operand that is another one
                    std::vector<Var> other{r};
                    for (size_t k = 0; k < n; ++k) {
                        auto y = x;
                        x[k] = op == Op::ADD ? 2 * x[k] : tsym::pow(x[k], Var(3));
                        other.push_back(chain(id));
                        x.swap(y);
                    }
                    c.transitions(n * n);
                    Strs keys;
                    for (auto& v : other) keys.push_back(key(v));
                    const size_t nFct = n <= 8 || f.first == "symbols" ? other.size() : 0; // the functions of them
                    for (size_t k = 0; k < other.size() && ok; ++k)
                        for (size_t l = 0; l < k && ok; ++l) {
                            c.compared(k < nFct ? 3 : 1);
                            if (other[k] == other[l] || !(other[k] != other[l]) || keys[k] == keys[l]
                              || (k < nFct && (tsym::sin(other[k]) == tsym::sin(other[l]) || tsym::atan2(other[k], Var("b")) == tsym::atan2(other[l], Var("b"))))) {
                                c.fail("variants", "changing operand " + n2s(k) + " or " + n2s(l) + " (0: none) makes no difference: " + text(other[k]) + " and " + text(other[l]));
                                ok = false;
                            }
                        }
                }
                for (size_t stride = 2; stride < n && ok; ++stride) {
                    if (std::gcd(stride, n) != 1) continue;
                    std::vector<size_t> p;
                    for (size_t k = 0; k < n; ++k) p.push_back(k * stride % n);
                    cmp(chain(p), "stride " + n2s(stride));
                }
            }
        };
        e.add(sp);
    }
    { // structural identities
        Space sp;
        sp.name = "identities";
        sp.n = all->size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            c.begin(str(x.t));
            c.transitions(12);
            const Var &v = x.v, zero(0), one(1);
            same(c, "identity", v + zero, v, "x + 0");
            same(c, "identity", zero + v, v, "0 + x");
            same(c, "identity", v - zero, v, "x - 0");
            same(c, "identity", v * one, v, "x*1");
            same(c, "identity", v / one, v, "x/1");
            same(c, "identity", tsym::pow(v, one), v, "x^1");
            if (!minusOnePower(v)) same(c, "identity", v - v, zero, "x - x");
            same(c, "identity", v * zero, zero, "x*0");
            if (!minusOnePower(v)) same(c, "identity", -(-v), v, "-(-x)");
            if (key(v) != "0" && contracts(v) && !coefficientAndSumPower(v)) same(c, "identity", v / v, one, "x/x");
            if (key(v) != "0") same(c, "identity", tsym::pow(v, zero), one, "x^0");
            same(c, "identity", v + v, 2 * v, "x + x");
            if (contracts(v)) same(c, "identity", v * v, tsym::pow(v, Var(2)), "x*x");
            Var w = v;
            w += one;
            same(c, "identity", w, v + one, "x += 1");
            w -= one;
            same(c, "identity", w, v + one - one, "x -= 1");
            same(c, "identity", +v, v, "+x");
        };
        e.add(sp);
    }
}
