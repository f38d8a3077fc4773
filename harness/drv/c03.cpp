// C03: expansion keeps the value, multiplies out completely and is idempotent.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C03";

static bool symbolicSum(const Var& v) { return v.type() == Var::Type::SUM && !isConst(v); }
// Is a product of symbolic sums or a natural power of one left at the top of the expanded expression?
static bool leftOver(const Var& v, bool top = true)
{
    if (v.type() == Var::Type::SUM) {
        for (auto& o : tsym::operands(v)) if (leftOver(o, false)) return true;
        return false;
    }
    if (v.type() == Var::Type::PRODUCT) {
        for (auto& o : tsym::operands(v)) if (symbolicSum(o) || leftOver(o, false)) return true;
        return false;
    }
    if (v.type() == Var::Type::POWER) {
        const auto ops = tsym::operands(v);
        if (!symbolicSum(ops[0]) || ops[1].type() != Var::Type::INT) return false;
        return static_cast<int>(ops[1]) > 0;
    }
    return false;
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    auto chkWith = [](Ctx& c, const State& st, const Samples& S, long double tol = 0) {
        c.begin("(expand " + str(st.t) + ")");
        Var r = tsym::expand(st.v);
        c.transitions();
        c.state(r);
        if (!sameValue(c, "value", r, st.vals, S, tol)) return;
        if (leftOver(r)) { c.fail("not-expanded", "expansion of " + text(st.v) + " gives " + text(r), text(r)); return; }
        Var r2 = tsym::expand(r);
        c.transitions();
        if (key(r2) != key(r)) c.fail("not-idempotent", "expand gives " + text(r) + ", expanding again gives " + text(r2), text(r2));
    };
    auto chk = [S, chkWith](Ctx& c, const State& st) { chkWith(c, st, *S); };

    {
        Strs atoms{"a", "b", "p", "1", "-1", "2", "1/2", "(sqrt 2)", "(sin a)", "(sqrt a)", "3", "(+ a b)", "(- a 1)", "(+ 1 (sqrt 2))"};
        if (deep) atoms = cat({atoms, {"c", "pi", "-2/3", "(sqrt (+ a b))", "(log b)", "(+ a b 1)"}});
        auto all = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *S));
        e.note("closure_states", std::to_string(all->size()));
        e.add(universeSpace("closure", {all, all, {Op::ADD, Op::MUL, Op::DIV}, S}, chk));
        auto ex = share(mkStates(Strs{"2", "3", "4", "5", "-1", "-2", "-3", "1/2", "3/2"}, *S));
        e.add(universeSpace("powers", {all, ex, {Op::POW}, S}, chk));
    }
    { // floating point coefficients
        auto F = fpClosure(*S), G = share(distinct(fpAtoms(), *S)), X = share(mkStates(Strs{"2", "3", "-2"}, *S));
        auto fp = [S, chkWith](Ctx& c, const State& st) { chkWith(c, st, *S, fpTol); };
        e.add(universeSpace("floating-point", {F, deep ? F : G, {Op::ADD, Op::MUL, Op::DIV}, S}, fp));
        e.add(universeSpace("floating-point-powers", {F, X, {Op::POW}, S}, fp));
    }
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(2), *GS)), R = share(distinct(growthOperands(), *GS));
        auto f = [GS, chkWith](Ctx& c, const State& st) { chkWith(c, st, *GS); };
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, f));
        auto H = share(distinct(growth(deep ? 1 : 0), *GS));
        e.add(universeSpace("growth-pairs", {H, H, {Op::ADD, Op::MUL, Op::DIV}, GS}, f));
        e.add(universeSpace("growth-powers", {H, share(mkStates(Strs{"2", "3", "-2"}, *GS)), {Op::POW}, GS}, f));
    }
    { // very many operands, very deep nestings
        auto GS = std::make_shared<Samples>(manySamples());
        auto W = share(mkStates(wide(), *GS)), R = share(mkStates(wideOperands(), *GS));
        e.add(universeSpace("wide", {W, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, [GS, chkWith](Ctx& c, const State& st) { chkWith(c, st, *GS); }));
    }
    { // hundreds of terms
        auto GS = std::make_shared<Samples>(manySamples());
        auto L = share(mkStates(largeProducts(deep), *GS));
        Space sp;
        sp.name = "large-products";
        sp.n = L->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) { chkWith(c, (*L)[i], *GS); };
        e.add(sp);
    }
    { // products and powers of sums of three terms
        Strs sums;
        const Strs m{"a", "b", "1", "(* a b)", "(^ a 2)", "(sqrt 2)", "(sin a)", "(/ 1 a)", "(sqrt p)", "(* -2 c)", "1/2", "(^ a b)"};
        for (size_t i = 0; i < m.size(); ++i)
            for (size_t j = i + 1; j < m.size(); ++j) {
                sums.push_back("(+ " + m[i] + " " + m[j] + ")");
                sums.push_back("(- " + m[i] + " " + m[j] + ")");
                for (size_t k = j + 1; k < m.size(); ++k)
                    if (deep || (i + j + k) % 2 == 0) sums.push_back("(+ " + m[i] + " (- " + m[j] + " " + m[k] + "))");
            }
        auto A = share(distinct(sums, *S));
        e.note("sums", std::to_string(A->size()));
        e.add(universeSpace("sum-times-sum", {A, A, {Op::MUL}, S}, chk));
        auto ex = share(mkStates(Strs{"2", "3", "4", "6", "-2"}, *S));
        e.add(universeSpace("sum-powers", {A, ex, {Op::POW}, S}, chk));
        Strs few(sums.begin(), sums.begin() + (deep ? 60 : 30));
        auto B = share(distinct(few, *S));
        Space sp;
        sp.name = "three-factors";
        sp.n = B->size() * B->size();
        sp.chunk = 8;
        auto E2 = share(mkStates(Strs{"1", "2", "3"}, *S));
        auto F = share(mkStates(Strs{"a", "(* 2 b)", "(/ 1 (+ a b))", "(^ (+ a 1) -2)", "(sqrt (+ a b))", "(+ p q)", "(- a (^ b 2))"}, *S));
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*B)[i / B->size()], &y = (*B)[i % B->size()];
            for (auto& n : *E2) {
                Var v = x.v * tsym::pow(y.v, n.v);
                Vals vals;
                for (size_t k = 0; k < S->size(); ++k) vals.push_back(mul(x.vals[k], powv(y.vals[k], n.vals[k])));
                T t = mk(Op::MUL, x.t, mk(Op::POW, y.t, n.t));
                for (auto& f : *F) {
                    State st{mk(Op::MUL, t, f.t), v * f.v, {}};
                    for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(mul(vals[k], f.vals[k]));
                    chk(c, st);
                }
            }
        };
        e.add(sp);
    }
    { // high powers of sums, alone and as a part of something
        auto B = share(distinct({"(+ a b)", "(- a 1)", "(+ a b c)", "(+ p 1)", "(- (* 2 a) (* b c))", "(+ (sqrt 2) a)", "(+ a (sin b))", "(+ 1 (sqrt 2))", "(+ a b p 1)", "(+ (/ 1 a) b)", "(- (sqrt p) q)", "(+ (^ a 2) b)"}, *S));
        Strs ex;
        for (int n = -(deep ? 16 : 9); n <= (deep ? 20 : 12); ++n) if (n < -1 || n > 1) ex.push_back(std::to_string(n));
        auto X = share(mkStates(ex, *S));
        auto F = share(distinct({"a", "(+ a 1)", "2", "(/ 1 (+ a b))", "(^ (+ b 1) 2)"}, *S));
        e.add(universeSpace("high-powers", {B, X, {Op::POW}, S}, [=](Ctx& c, const State& x) {
            if (tsym::operands(x.v).size() == 2 && x.v.type() == Var::Type::POWER) {
                const auto n = tsym::operands(x.v)[1], b = tsym::operands(x.v)[0];
                if (!deep && tsym::operands(b).size() == 4 && std::abs(int(n)) > 7) return;
                if (tsym::operands(b).size() == 4 && std::abs(int(n)) > 10) return;
            }
            chk(c, x);
            for (auto& f : *F)
                for (Op o : {Op::MUL, Op::ADD, Op::DIV}) {
                    State st{mk(o, x.t, f.t), applyOp(o, x.v, f.v), {}};
                    for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(refOp(o, x.vals[k], f.vals[k]));
                    chk(c, st);
                }
        }));
        auto NS = std::make_shared<Samples>(namesakeSamples());
        auto N = share(closure1(namesakes(), {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, *NS));
        e.add(universeSpace("namesakes", {N, N, {Op::MUL, Op::DIV}, NS}, [=](Ctx& c, const State& x) { chkWith(c, x, *NS); }));
    }
    { // products of two sums that are a single term, together with further sums on either side of them
        Strs us{"a", "b", "p", "q", "(log 2)", "pi", "(* 2 p)", "(sin a)", "(* a p)", "(sqrt p)", "(^ q 2)", "(/ 1 p)"};
        auto F = share(mkStates(Strs{"1", "(+ a b)", "(+ p q)", "(+ q (^ q 2))", "(- d c)", "(+ 1 (sqrt 2))", "(^ (+ b q) 2)", "(/ 1 (+ a q))", "(* (+ a 1) (+ q d))", "(+ (log 3) (sin 3))", "(sqrt (+ p 1))", "d"}, *S));
        Space sp;
        sp.name = "conjugates";
        sp.n = us.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const std::string& u = us[i];
            for (auto& k : Strs{"1", "2", "p", "(* p q)"}) {
                const std::string r = "(sqrt (+ (^ " + u + " 2) " + k + "))";
                for (auto& t : Strs{"(* (+ " + u + " " + r + ") (- " + r + " " + u + "))", "(* (- " + u + " " + r + ") (+ " + r + " " + u + "))",
                       "(* (^ (+ " + u + " " + r + ") 2) (- " + r + " " + u + "))", "(* (+ " + u + " " + r + ") (^ (- " + r + " " + u + ") 2))", "(^ (+ " + u + " " + r + ") 3)"}) {
                    State x = mkState(parseTerm(t), *S);
                    for (auto& f : *F)
                        for (Op o : {Op::MUL, Op::ADD, Op::DIV}) {
                            State st{mk(o, x.t, f.t), applyOp(o, x.v, f.v), {}};
                            for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(refOp(o, x.vals[k], f.vals[k]));
                            chk(c, st);
                        }
                }
            }
        };
        e.add(sp);
    }
}
