// C07: substitution replaces exactly the occurrences of the given (sub)expression, and has() tells whether there are any.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C07";

// Reference: does the tree contain a subtree with this key?
static bool contains(const Var& v, const std::string& k)
{
    if (key(v) == k) return true;
    for (auto& o : tsym::operands(v)) if (contains(o, k)) return true;
    return false;
}
// Reference: value of the tree with every subtree of the given key having the given value.
static Val evalWith(const Var& v, const std::string& k, const Val& to, const Sample& s)
{
    if (key(v) == k) return to;
    const auto o = tsym::operands(v);
    if (o.empty()) return evalTree(v, s);
    std::vector<Val> x;
    for (auto& y : o) x.push_back(evalWith(y, k, to, s));
    switch (v.type()) {
        case Var::Type::SUM: {
            Val r = rat(0);
            for (auto& y : x) r = add(r, y);
            return r;
        }
        case Var::Type::PRODUCT: {
            Val r = rat(1);
            for (auto& y : x) r = mul(r, y);
            return r;
        }
        case Var::Type::POWER: return powv(x[0], x[1]);
        case Var::Type::FUNCTION: {
            const std::string n = tsym::name(v);
            for (Op op : {Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG})
                if (n == opName(op)) return refOp(op, x[0]);
            if (n == "atan2") return refOp(Op::ATAN2, x[0], x[1]);
            return indetVal();
        }
        default: return indetVal();
    }
}
// Reference: the replacement carried out step by step from the leaves by the public operations; Undefined if any step is.
static Var replaced(const Var& v, const std::string& k, const Var& to)
{
    if (key(v) == k) return to;
    const auto o = tsym::operands(v);
    if (o.empty()) return v;
    std::vector<Var> x;
    for (auto& y : o) {
        x.push_back(replaced(y, k, to));
        if (isUndef(x.back())) return x.back();
    }
    Var r = x[0];
    switch (v.type()) {
        case Var::Type::SUM:
            for (size_t i = 1; i < x.size(); ++i) r += x[i];
            return r;
        case Var::Type::PRODUCT:
            for (size_t i = 1; i < x.size(); ++i) r *= x[i];
            return r;
        case Var::Type::POWER: return tsym::pow(x[0], x[1]);
        default: break;
    }
    const std::string n = tsym::name(v);
    for (Op op : {Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG})
        if (n == opName(op)) return applyOp(op, x[0]);
    return n == "atan2" ? tsym::atan2(x[0], x[1]) : v;
}
static void substOnce(Ctx& c, const State& x, const State& from, const State& to, const Samples& S, bool symbol, long double tol = 0)
{
    const std::string kf = key(from.v);
    c.begin("(subst " + str(x.t) + " " + str(from.t) + " -> " + str(to.t) + ")");
    const bool present = contains(x.v, kf);
    const bool h = tsym::has(x.v, from.v);
    c.transitions(2);
    if (h != present) { c.fail("has", text(x.v) + (present ? " contains " : " doesn't contain ") + text(from.v) + " but has() says otherwise"); return; }
    Var r = tsym::subst(x.v, from.v, to.v);
    c.state(r);
    if (!present) {
        if (key(r) != key(x.v)) c.fail("unchanged", "substituting something absent turns " + text(x.v) + " into " + text(r), text(r));
        c.compared();
        return;
    }
    Vals want;
    size_t exact = 0;
    for (size_t k = 0; k < S.size(); ++k) {
        want.push_back(evalWith(x.v, kf, to.vals[k], S[k]));
        exact += want.back().num();
    }
    if (!exact && isUndef(r)) { c.skipped(); return; }
    if (!exact && isUndef(replaced(x.v, kf, to.v))) {
        c.compared();
        c.fail("undefined", "a part becomes Undefined by the replacement, the result is " + text(r), text(r));
        return;
    }
    if (!sameValue(c, "value", r, want, S, tol, true)) return;
    if (symbol && !contains(to.v, kf) && contains(r, kf)) c.fail("left-over", text(from.v) + " is still part of " + text(r));
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    Strs atoms{"a", "b", "p", "1", "-1", "2", "1/2", "(sqrt 2)", "(sin a)", "(sqrt a)", "(+ a b)", "(- a b)", "(log b)", "(^ a b)", "(atan2 a b)"};
    auto all = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *S));
    e.note("closure_states", std::to_string(all->size()));
    auto targets = share(mkStates(Strs{"0", "1", "-1", "2", "1/2", "-3/2", "b", "a", "(+ a b)", "(* 2 a)", "(/ 1 b)", "(sqrt 2)", "pi", "(- c)", "(^ b 2)", "(sin b)", "(/ 1 a)", "p", "(* -2 p)", "(sqrt b)"}, *S));
    auto syms = share(mkStates(Strs{"a", "b", "c"}, *S));
    { // a symbol by everything, in every expression of the closure
        Space sp;
        sp.name = "symbols";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (auto& f : *syms)
                for (auto& t : *targets) substOnce(c, (*all)[i], f, t, *S, true);
        };
        e.add(sp);
    }
    { // floating point numbers in expressions and replacements
        auto F = fpClosure(*S);
        auto to = share(mkStates(Strs{"D1.5123456", "D-0.3141592", "D0.123456789", "0", "2", "b", "(* D0.7071068 b)", "(+ b D1.23456789)", "(sqrt 2)"}, *S));
        auto from = share(mkStates(Strs{"a", "b", "D1.23456789", "(+ a b)", "(sin a)"}, *S));
        Space sp;
        sp.name = "floating-point";
        sp.n = F->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (size_t k = 0; k < from->size(); ++k)
                for (auto& t : *to) substOnce(c, (*F)[i], (*from)[k], t, *S, k < 2, fpTol);
        };
        e.add(sp);
    }
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(deep ? 2 : 1), *GS)), R = share(distinct(growthOperands(), *GS));
        auto to = share(mkStates(Strs{"0", "-1", "2", "b", "(/ 1 b)", "x2", "(+ x1 x2)", "(* a x3)"}, *GS));
        auto from = share(mkStates(Strs{"a", "x1", "x3", "b", "(sin a)", "(+ a 1)", "(^ a 3)", "(sqrt 2)"}, *GS));
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, [=](Ctx& c, const State& st) {
            for (size_t k = 0; k < from->size(); ++k)
                for (auto& t : *to) substOnce(c, st, (*from)[k], t, *GS, k < 4);
        }));
    }
    { // very many operands, very deep nestings
        auto GS = std::make_shared<Samples>(manySamples());
        auto W = share(mkStates(wide(), *GS));
        auto to = share(mkStates(Strs{"0", "b", "(+ y1 y2)"}, *GS)), from = share(mkStates(Strs{"a", "y1", "y9", "(sin a)"}, *GS));
        e.add(listSpace("wide", W, [=](Ctx& c, const State& st) {
            for (size_t k = 0; k < from->size(); ++k)
                for (auto& t : *to) substOnce(c, st, (*from)[k], t, *GS, k < 3);
        }, 1));
    }
    { // many terms
        auto GS = std::make_shared<Samples>(manySamples());
        auto L = share(mkStates(largeProducts(deep), *GS));
        auto to = share(mkStates(Strs{"0", "-1", "b", "(/ 1 b)", "(+ x1 x2)"}, *GS)), from = share(mkStates(Strs{"a", "x1", "x5"}, *GS));
        Space sp;
        sp.name = "large-products";
        sp.n = L->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            State x = (*L)[i], y = x;
            y.v = tsym::expand(x.v);
            for (auto& f : *from)
                for (auto& t : *to) {
                    substOnce(c, x, f, t, *GS, true);
                    if (tsym::operands(y.v).size() < 300) substOnce(c, y, f, t, *GS, true);
                }
        };
        e.add(sp);
    }
    { // one level deeper, fewer targets
        auto few = share(mkStates(deep ? Strs{"0", "1", "-1", "1/2", "b", "(+ a b)", "(/ 1 b)", "(^ b 2)"} : Strs{"0", "-1", "1/2", "b", "(/ 1 b)"}, *S));
        auto right = deep ? all : share(closure1({"a", "b", "2", "(sin a)", "(sqrt a)", "(+ a b)"}, {Op::ADD, Op::MUL, Op::POW}, *S));
        auto a = share(mkStates(Strs{"a"}, *S));
        e.add(universeSpace("deep-symbols", {all, right, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, S}, [=](Ctx& c, const State& st) {
            for (auto& t : *few) substOnce(c, st, (*a)[0], t, *S, true);
        }));
    }
    { // functions of the closure
        Space sp;
        sp.name = "functions";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (Op f : unaryFct) {
                State y{mk(f, x.t), applyOp(f, x.v), {}};
                if (isUndef(y.v)) continue;
                for (auto& t : *targets) substOnce(c, y, (*syms)[0], t, *S, true);
            }
        };
        e.add(sp);
    }
    { // the function of two arguments, none, one or both of which contain the symbol (replacements do not turn both into numbers)
        auto T = share(distinct(atan2Terms(deep), *S)), R = share(distinct({"0", "a", "(+ a b)", "(/ 1 b)", "(atan2 a b)", "(atan2 b a)"}, *S));
        auto to = share(mkStates(Strs{"b", "c", "(* 2 b)", "(+ a b)", "(* a b)", "(/ 1 c)", "p", "(sin c)", "(atan2 a b)"}, *S));
        auto from = share(mkStates(Strs{"a", "b", "p", "(+ a b)", "(atan2 a b)", "(* 2 a)"}, *S));
        e.add(universeSpace("atan2", {T, R, {Op::ADD, Op::MUL}, S}, [=](Ctx& c, const State& st) {
            for (size_t k = 0; k < from->size(); ++k)
                for (auto& t : *to) substOnce(c, st, (*from)[k], t, *S, k < 3);
        }));
    }
    { // subexpressions (every expression of the alphabet, whether present or not)
        auto from = share(distinct({"(^ a 2)", "(+ a b)", "(- a b)", "(sin a)", "(sqrt a)", "(sqrt 2)", "2", "1/2", "-1", "(* a b)", "(^ a b)", "(log b)", "(/ 1 a)", "(atan2 a b)", "pi", "p", "(+ 1 a)", "3"}, *S));
        auto to = share(mkStates(Strs{"0", "2", "b", "(+ a b)", "(/ 1 b)", "-1", "(^ a 2)", "c"}, *S));
        Space sp;
        sp.name = "subexpressions";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            for (auto& f : *from)
                for (auto& t : *to) substOnce(c, (*all)[i], f, t, *S, false);
        };
        e.add(sp);
    }
    { // symbols of the same name next to each other
        auto NS = std::make_shared<Samples>(namesakeSamples());
        auto N = share(closure1(namesakes(), {Op::ADD, Op::MUL, Op::DIV, Op::POW}, *NS));
        auto from = share(mkStates(Strs{"a", "a'", "a_1", "a_1'", "a_2", "sin", "(sin a)", "(sin a')"}, *NS));
        auto to = share(mkStates(Strs{"0", "2", "a", "a'", "a_1", "(* 2 a_1')", "(+ a a')", "b"}, *NS));
        Space sp;
        sp.name = "namesakes";
        sp.n = N->size();
        sp.chunk = 2;
        auto Y = share(distinct({"a", "a'", "a_1", "(^ a' a)", "(atan2 a a')"}, *NS));
        sp.run = [=](uint64_t i, Ctx& c) {
            for (auto& y : *Y)
                for (Op op : {Op::ADD, Op::MUL, Op::POW}) {
                    const State x{mk(op, (*N)[i].t, y.t), applyOp(op, (*N)[i].v, y.v), {}};
                    if (isUndef(x.v)) continue;
                    for (auto& f : *from)
                        for (auto& t : *to) substOnce(c, x, f, t, *NS, f.v.type() == Var::Type::SYMBOL);
                }
        };
        e.add(sp);
    }
    { // symbols that look alike are different symbols: names, subscripts, primes, positivity
        struct Sym { std::string desc; Var v; };
        std::vector<Sym> syms;
        for (auto& n : Strs{"a", "a_1", "a_b", "a_{10}", "ab", "b", "A", "alpha", "Alpha", "a_{1}"}) {
            syms.push_back({n, Var(n)});
            syms.push_back({n + "+", Var(n, Var::Sign::POSITIVE)});
        }
        Space sp;
        sp.name = "symbol-identity";
        sp.n = syms.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Var& x = syms[i].v;
            for (auto& y : syms) {
                c.begin("symbols " + syms[i].desc + " and " + y.desc);
                c.transitions(3);
                // a_1 and a_{1} are two spellings of the same name
                const std::string n1 = syms[i].desc == "a_{1}" ? "a_1" : syms[i].desc == "a_{1}+" ? "a_1+" : syms[i].desc;
                const std::string n2 = y.desc == "a_{1}" ? "a_1" : y.desc == "a_{1}+" ? "a_1+" : y.desc;
                const bool same = n1 == n2;
                if ((x == y.v) != same) { c.fail("identity", "equality of symbols is wrong"); continue; }
                const Var ex = 2 * x + tsym::pow(x, Var(3));
                if (tsym::has(ex, y.v) != same) { c.fail("identity", "has() confuses symbols"); continue; }
                const Var r = tsym::subst(ex, y.v, Var(5));
                if ((key(r) == "135") != same) c.fail("identity", "subst gives " + text(r));
                if (!same && key(r) != key(ex)) c.fail("identity", "subst of another symbol changes the expression to " + text(r));
                c.compared(3);
            }
        };
        e.add(sp);
    }
}
