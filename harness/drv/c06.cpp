// C06: derivatives are right; reference: forward-mode automatic differentiation of the written operations.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C06";

struct Dual { Val v, d; };
static Val one() { return rat(1); }
static Dual dual(const T& t, const Sample& s, const std::string& sym)
{
    if (t->op == Op::LEAF) return {evalTerm(t, s), rat(t->leaf == sym ? 1 : 0)};
    const Dual x = dual(t->x, s, sym);
    if (t->y) {
        const Dual y = dual(t->y, s, sym);
        switch (t->op) {
            case Op::ADD: return {add(x.v, y.v), add(x.d, y.d)};
            case Op::SUB: return {sub(x.v, y.v), sub(x.d, y.d)};
            case Op::MUL: return {mul(x.v, y.v), add(mul(x.d, y.v), mul(x.v, y.d))};
            case Op::DIV: return {div(x.v, y.v), div(sub(mul(x.d, y.v), mul(x.v, y.d)), mul(y.v, y.v))};
            case Op::POW: {
                const Val v = powv(x.v, y.v);
                if (y.d.exactZero()) {
                    if (x.d.exactZero()) return {v, v.num() ? rat(0) : v};
                    if (!v.num()) return {v, v};
                    return {v, mul(mul(y.v, powv(x.v, sub(y.v, one()))), x.d)};
                }
                return {v, mul(v, add(mul(y.d, logv(x.v)), div(mul(y.v, x.d), x.v)))};
            }
            case Op::ATAN2: return {atan2v(x.v, y.v), div(sub(mul(x.d, y.v), mul(y.d, x.v)), add(mul(x.v, x.v), mul(y.v, y.v)))};
            default: return {indetVal(), indetVal()};
        }
    }
    const Val v = refOp(t->op, x.v);
    auto d = [&](const Val& f) { return Dual{v, !v.num() ? v : x.d.exactZero() ? rat(0) : mul(f, x.d)}; };
    switch (t->op) {
        case Op::NEG: return d(rat(-1));
        case Op::SQRT: return d(div(rat(1, 2), v));
        case Op::LOG: return d(inv(x.v));
        case Op::SIN: return d(cosv(x.v));
        case Op::COS: return d(neg(sinv(x.v)));
        case Op::TAN: return d(add(one(), mul(v, v)));
        case Op::ASIN: return d(powv(sub(one(), mul(x.v, x.v)), rat(-1, 2)));
        case Op::ACOS: return d(neg(powv(sub(one(), mul(x.v, x.v)), rat(-1, 2))));
        case Op::ATAN: return d(inv(add(one(), mul(x.v, x.v))));
        default: return {indetVal(), indetVal()};
    }
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    auto S0 = std::make_shared<Samples>(); // operands need no values here
    auto chkWith = [](Ctx& c, const T& t, const Var& v, const std::string& sym, const Samples& S, long double tol = 0) {
        c.begin("d/d" + sym + " " + str(t));
        Var r = tsym::diff(v, leafVar(sym));
        c.transitions();
        c.state(r);
        Vals want;
        for (auto& s : S) {
            Dual d = dual(t, s, sym);
            want.push_back(d.v.num() ? d.d : indetVal());
        }
        sameValue(c, "derivative", r, want, S, tol, true);
    };
    auto chk1 = [S, chkWith](Ctx& c, const T& t, const Var& v, const std::string& sym) { chkWith(c, t, v, sym, *S); };
    auto chk = [chk1](Ctx& c, const State& st) {
        for (const char* sym : {"a", "p"}) chk1(c, st.t, st.v, sym);
    };
    {
        Strs atoms{"a", "b", "p", "2", "-1", "1/2", "(sqrt 2)", "pi", "(sin a)", "(sqrt a)", "(+ a b)", "(- a 1)", "(log a)", "3", "(cos 2)"};
        if (deep) atoms = cat({atoms, {"(^ 2 a)", "(atan a)", "e", "(* a b)", "-2/3", "(tan a)"}});
        auto all = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *S0));
        auto small = share(closure1(deep ? Strs{"a", "b", "2", "(sin a)", "(sqrt p)", "-1", "(sqrt 2)", "(+ a 1)", "(log p)"} : Strs{"a", "b", "2", "(sin a)", "(sqrt p)", "-1"}, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, *S0));
        e.note("closure_states", std::to_string(all->size()) + " x " + std::to_string(small->size()));
        e.add(listSpace("closure1", all, chk));
        // closure() kept no values: the terms carry everything
        Space sp;
        sp.name = "closure2";
        sp.n = all->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (auto& y : *small)
                for (Op op : {Op::ADD, Op::MUL, Op::DIV, Op::POW}) {
                    if (op == Op::POW && isNumber(y.v) && std::fabs((double)y.v) > 400) continue;
                    Var v = applyOp(op, x.v, y.v);
                    if (isUndef(v)) continue;
                    T t = mk(op, x.t, y.t);
                    chk1(c, t, v, "a");
                    if (op != Op::ADD) chk1(c, t, v, "p");
                }
        };
        e.add(sp);
    }
    { // floating point coefficients
        auto F = fpClosure(*S), G = share(distinct(fpAtoms(), *S));
        e.add(universeSpace("floating-point", {F, deep ? F : G, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, S}, [S, chkWith](Ctx& c, const State& st) { for (auto s : {"a", "b", "p"}) chkWith(c, st.t, st.v, s, *S, fpTol); }));
    }
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(deep ? 2 : 1), *GS)), R = share(distinct(growthOperands(), *GS));
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, GS}, [GS, chkWith](Ctx& c, const State& st) { for (auto s : {"a", "b", "x1", "x3"}) chkWith(c, st.t, st.v, s, *GS); }));
    }
    { // very many operands, very deep nestings
        auto GS = std::make_shared<Samples>(manySamples());
        auto W = share(mkStates(wide(), *GS)), R = share(mkStates(wideOperands(), *GS));
        e.add(universeSpace("wide", {W, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, [GS, chkWith](Ctx& c, const State& st) { for (auto s : {"a", "b", "y1", "y9", "y17"}) chkWith(c, st.t, st.v, s, *GS); }));
    }
    { // many terms: products, powers, and the same expanded
        auto GS = std::make_shared<Samples>(manySamples());
        auto L = share(mkStates(largeProducts(deep), *GS));
        Space sp;
        sp.name = "large-products";
        sp.n = L->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*L)[i];
            for (auto s : {"a", "b", "x1", "x4", "p"}) {
                chkWith(c, x.t, x.v, s, *GS);
                if (s[0] != 'p') chkWith(c, x.t, tsym::expand(x.v), s, *GS);
            }
        };
        e.add(sp);
    }
    { // symbols of the same name
        auto NS = std::make_shared<Samples>(namesakeSamples());
        auto N = share(closure1(namesakes(), {Op::ADD, Op::MUL, Op::DIV, Op::POW}, *S0));
        auto M = share(distinct({"a", "a'", "a_1", "a_1'", "2", "(log a')", "(^ a 2)", "(atan2 a a')"}, *S0));
        Space sp;
        sp.name = "namesakes";
        sp.n = N->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*N)[i];
            for (auto& y : *M)
                for (Op op : {Op::ADD, Op::MUL, Op::DIV, Op::POW, Op::ATAN2}) {
                    const Var v = applyOp(op, x.v, y.v);
                    if (isUndef(v)) continue;
                    for (auto s : {"a", "a'", "a_1", "a_1'", "sin"}) chkWith(c, mk(op, x.t, y.t), v, s, *NS);
                }
        };
        e.add(sp);
    }
    { // functions of everything, nested, and second derivatives (also mixed: symmetric)
        Strs args{"a", "b", "p", "(* 2 a)", "(neg a)", "(+ a b)", "(- 1 a)", "(* a b)", "(^ a 2)", "(^ a 3)", "(/ 1 a)", "(/ a b)", "(sqrt a)", "(sqrt p)", "(/ a 3)", "(+ a (sqrt 2))", "(^ a b)", "(^ 2 a)", "(* pi a)", "(+ (^ a 2) (^ b 2))", "2", "-3", "1/2", "(sin b)", "(* a p)", "(/ p a)", "(- p a)"};
        auto A = share(distinct(args, *S0));
        Space sp;
        sp.name = "functions";
        sp.n = A->size();
        sp.chunk = 1;
        const std::vector<Op> F{Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG, Op::SQRT};
        auto B = share(distinct({"a", "(+ a 1)", "(/ 1 b)", "(^ a 2)", "p"}, *S0));
        auto X = share(distinct({"2", "-1", "1/2", "a", "3"}, *S0));
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*A)[i];
            for (Op f : F) {
                Var v = applyOp(f, x.v);
                T t = mk(f, x.t);
                if (isUndef(v)) continue;
                for (const char* s : {"a", "b", "p"}) chk1(c, t, v, s);
                for (Op g : F) {
                    Var w = applyOp(g, v);
                    if (isUndef(w)) continue;
                    for (const char* s : {"a", "p"}) chk1(c, mk(g, t), w, s);
                }
                for (auto& b : *B) {
                    chk1(c, mk(Op::MUL, t, b.t), v * b.v, "a");
                    chk1(c, mk(Op::DIV, b.t, t), b.v / v, "a");
                }
                for (auto& b : *X) {
                    Var w = tsym::pow(v, b.v);
                    if (!isUndef(w)) chk1(c, mk(Op::POW, t, b.t), w, "a");
                }
            }
            for (auto& y : *A) {
                if (isConst(x.v) && isConst(y.v)) continue;
                Var v = tsym::atan2(x.v, y.v);
                if (isUndef(v)) continue;
                for (const char* s : {"a", "b", "p"}) chk1(c, mk(Op::ATAN2, x.t, y.t), v, s);
            }
        };
        e.add(sp);
        // second derivatives: mixed derivatives agree in value
        Strs two;
        for (auto& x : args)
            for (const char* f : {"sin", "cos", "tan", "atan", "log", "sqrt"}) {
                two.push_back(std::string("(* (") + f + " " + x + ") (^ b 2))");
                two.push_back(std::string("(^ (+ (") + f + " " + x + ") b) 3)");
                two.push_back(std::string("(/ (* a b) (+ 2 (") + f + " " + x + ")))");
            }
        for (auto& x : args)
            for (auto& y : args) two.push_back("(* " + x + " (^ " + y + " 2))");
        auto W = share(distinct(two, *S0));
        e.add(listSpace("mixed-second", W, [S](Ctx& c, const State& st) {
            c.begin("d2/dadb " + str(st.t));
            Var a = leafVar("a"), b = leafVar("b");
            Var ab = tsym::diff(tsym::diff(st.v, a), b), ba = tsym::diff(tsym::diff(st.v, b), a);
            c.transitions(4);
            c.state(ab);
            c.state(ba);
            if (isUndef(ab) != isUndef(ba)) c.fail("mixed", "mixed derivatives " + text(ab) + " and " + text(ba));
            for (auto& s : *S) {
                const Val x = evalTree(ab, s), y = evalTree(ba, s);
                if (!x.num() || !y.num()) { c.skipped(); continue; }
                const Cmp r = compare(x, y);
                if (r == Cmp::UNKNOWN) c.skipped(); else c.compared();
                if (r == Cmp::DIFFERENT) { c.fail("mixed", "mixed derivatives " + text(ab) + " = " + str(x) + " and " + text(ba) + " = " + str(y)); return; }
            }
        }, 4));
        // only symbols are admissible; derivatives with respect to absent symbols vanish
        auto Y = share(distinct(cat({args, {"(+ a 1)", "pi", "e", "(sin 1)", "(log 2)", "(sqrt 2)"}}), *S0));
        e.add(listSpace("admissible", Y, [](Ctx& c, const State& st) {
            c.begin("d/d(" + str(st.t) + ")");
            Var target = leafVar("a") * leafVar("b") + tsym::sin(st.v);
            Var r = tsym::diff(target, st.v);
            c.transitions();
            if ((st.v.type() == Var::Type::SYMBOL) == isUndef(r)) c.fail("admissible", "derivative with respect to " + text(st.v) + " is " + text(r));
            Var z = tsym::diff(st.v, leafVar("zz"));
            c.transitions();
            if (key(z) != "0") c.fail("constant", "derivative of " + text(st.v) + " with respect to an absent symbol is " + text(z), text(z));
            c.compared(2);
            c.state(r);
        }));
    }
}
