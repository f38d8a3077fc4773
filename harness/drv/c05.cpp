// C05: simplify keeps the value and does not return anything more complex than the plain expansion.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C05";

static bool rationalFct(const Var& v)
{
    if (v.type() == Var::Type::INT || v.type() == Var::Type::FRACTION || v.type() == Var::Type::SYMBOL) return true;
    if (v.type() == Var::Type::SUM || v.type() == Var::Type::PRODUCT) {
        for (auto& o : tsym::operands(v)) if (!rationalFct(o)) return false;
        return true;
    }
    if (v.type() == Var::Type::POWER) {
        const auto o = tsym::operands(v);
        return rationalFct(o[0]) && o[1].type() == Var::Type::INT;
    }
    return false;
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    auto chkTol = [](Ctx& c, const State& st, const Samples& S, long double tol) {
        c.begin("(simplify " + str(st.t) + ")");
        Var r = tsym::simplify(st.v);
        c.transitions();
        c.state(r);
        const bool rational = rationalFct(st.v);
        if (!sameValue(c, "value", r, st.vals, S, tol, !rational)) return;
        Var x = tsym::expand(st.v);
        c.transitions();
        const unsigned cr = tsym::complexity(r);
        if (cr > tsym::complexity(x)) { c.fail("complexity", "simplify gives " + text(r) + ", more complex than the expansion " + text(x)); return; }
        size_t zeros = 0, def = 0;
        for (auto& v : st.vals) if (v.num() && v.ex) { ++def; zeros += v.n == 0; }
        if (rational && def >= 8 && zeros == def && key(r) != "0") c.fail("zero", text(st.v) + " is identically zero but simplified to " + text(r));
    };
    auto chk = [chkTol, S](Ctx& c, const State& st) { chkTol(c, st, *S, 0); };
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(deep ? 1 : 0, false), *GS)), R = share(distinct(growthOperands(), *GS));
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::MUL, Op::DIV}, GS}, [GS, chkTol](Ctx& c, const State& st) { chkTol(c, st, *GS, 0); }));
    }
    { // floating point coefficients
        auto F = fpClosure(*S), G = share(distinct(fpAtoms(), *S));
        e.add(universeSpace("floating-point", {F, deep ? F : G, {Op::ADD, Op::MUL, Op::DIV}, S}, [chkTol, S](Ctx& c, const State& st) { chkTol(c, st, *S, fpTol); }));
    }
    {
        Strs atoms{"a", "b", "p", "1", "-1", "2", "1/2", "(sqrt 2)", "(sin a)", "(sqrt a)", "(+ a b)", "(- a b)", "(+ 1 (sqrt 2))"};
        if (deep) atoms = cat({atoms, {"c", "pi", "-2/3", "(sqrt (+ a b))", "(log b)", "(^ 2 a)", "(^ a b)", "(+ a b 1)", "(cos b)"}});
        auto all = share(closure1(atoms, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *S));
        e.note("closure_states", std::to_string(all->size()));
        auto some = share(closure1({"a", "b", "2", "(sqrt 2)", "(+ a b)", "(sin a)", "(- a 1)"}, {Op::ADD, Op::MUL, Op::DIV}, *S));
        e.note("right_states", std::to_string(some->size()));
        e.add(universeSpace("closure", {all, deep ? all : some, {Op::ADD, Op::MUL, Op::DIV}, S}, chk));
        auto ex = share(mkStates(Strs{"2", "3", "-1", "-2", "1/2", "-1/2"}, *S));
        e.add(universeSpace("powers", {all, ex, {Op::POW}, S}, chk));
    }
    { // high degrees and many terms
        auto GS = std::make_shared<Samples>(manySamples());
        auto L = share(mkStates(largeRationals(deep), *GS));
        Space sp;
        sp.name = "high-degree";
        sp.n = L->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) { chkTol(c, (*L)[i], *GS, 0); };
        e.add(sp);
    }
    { // the function of two arguments
        auto T = share(distinct(atan2Terms(deep), *S)), R = share(distinct({"a", "(+ a b)", "(/ 1 b)", "2", "(atan2 a b)", "(/ 1 (+ 1 (atan2 (+ a b) a)))"}, *S));
        e.add(universeSpace("atan2", {T, R, {Op::ADD, Op::MUL, Op::DIV}, S}, chk));
    }
    { // functions with arguments that simplify
        Strs args;
        for (auto& x : Strs{"a", "b", "(+ a b)", "(- a 1)", "2", "(* a b)", "(sqrt 2)"})
            for (auto& y : Strs{"a", "b", "(+ a b)", "(- a 1)", "(^ a 2)"}) {
                args.push_back("(/ (* " + x + " " + y + ") " + y + ")");
                args.push_back("(- (* " + x + " (+ " + y + " 1)) (* " + x + " " + y + "))");
                args.push_back("(/ (- (^ " + x + " 2) (^ " + y + " 2)) (+ " + x + " " + y + "))");
            }
        auto A = share(distinct(args, *S));
        e.note("arguments", std::to_string(A->size()));
        auto R = share(distinct({"a", "(+ a b)", "(sin b)", "(/ 1 a)", "2"}, *S));
        Space sp;
        sp.name = "functions";
        sp.n = A->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*A)[i];
            for (Op f : {Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG, Op::SQRT}) {
                State y{mk(f, x.t), applyOp(f, x.v), {}};
                if (isUndef(y.v)) continue;
                for (size_t k = 0; k < S->size(); ++k) y.vals.push_back(refOp(f, x.vals[k]));
                chk(c, y);
                for (auto& r : *R)
                    for (Op o : {Op::ADD, Op::MUL, Op::DIV}) {
                        State z{mk(o, y.t, r.t), applyOp(o, y.v, r.v), {}};
                        for (size_t k = 0; k < S->size(); ++k) z.vals.push_back(refOp(o, y.vals[k], r.vals[k]));
                        chk(c, z);
                    }
            }
        };
        e.add(sp);
    }
}
