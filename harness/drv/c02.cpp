// C02: trigonometric functions, their inverses, atan2 and the logarithm keep their value when constructed.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C02";

static Space unarySpace(const std::string& name, std::shared_ptr<std::vector<State>> xs, std::vector<Op> ops, std::shared_ptr<Samples> s, long double tol = 0)
{
    Space sp;
    sp.name = name;
    sp.n = xs->size();
    sp.chunk = 8;
    sp.run = [=](uint64_t i, Ctx& c) {
        for (Op op : ops) {
            Var r = step(c, op, (*xs)[i], nullptr, *s, "value", tol);
            c.state(r);
            if (i % 61 == 3) c.sample(str(mk(op, (*xs)[i].t)) + " -> " + text(r));
        }
    };
    return sp;
}

// True for angles that are multiples of pi/12 or pi/8, which have to be found exactly.
static bool resolvable(const Val& y, const Val& x)
{
    const Val a = atan2v(y, x);
    if (!a.num()) return true;
    const long double k = a.m * 24 / piv().m, n = std::round(k);
    return std::fabs(k - n) < 1e-12L && ((long)n % 2 == 0 || (long)n % 3 == 0);
}
static void angleCheck(Ctx& c, const Var& r, const Val& y, const Val& x, bool modulo, const Sample& s)
{
    const Val want = atan2v(y, x), got = evalTree(r, s);
    c.state(r);
    if (want.undef()) { if (!isUndef(r)) c.fail("value", "expected Undefined, got " + text(r), text(r)); return; }
    bool bad = !got.num();
    if (!bad) {
        long double d = want.m - got.m;
        if (modulo) d -= std::round(d / (2 * piv().m)) * 2 * piv().m;
        bad = std::fabs(d) > 1e-10L;
    }
    c.compared();
    if (bad) c.fail("value", "result " + text(r) + " has value " + str(got) + ", expected the angle " + str(want), text(r));
}

void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(stdSamples());
    auto SC = std::make_shared<Samples>(Samples{signSamples()[0]});
    const std::vector<Op> U{Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG, Op::SQRT};
    const std::vector<Op> TRIG{Op::SIN, Op::COS, Op::TAN};
    const std::vector<Op> ATRIG{Op::ASIN, Op::ACOS, Op::ATAN};

    Strs angles;
    { // all multiples of pi with small denominators, over many turns, and shifted ones
        const int turns = deep ? 24 : 7;
        for (int d : {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 24, 60})
            for (int n = -turns * d; n <= turns * d; ++n)
                if (gcdU(std::abs(n), d) == 1 || (n == 0 && d == 1))
                    angles.push_back("(* " + std::to_string(n) + (d > 1 ? "/" + std::to_string(d) : std::string()) + " pi)");
        for (const char* x : {"(* 100 pi)", "(* 1001/2 pi)", "(* -333/4 pi)", "(* 10000001/12 pi)", "(* 1/1000 pi)", "(+ 1 pi)", "(+ -1 (* 2 pi))", "(+ (sqrt 2) (/ pi 2))", "(* pi (sqrt 2))",
               "(^ pi 2)", "(/ 1 pi)", "1", "-1", "2", "-3", "1/2", "-7/3", "10", "(sqrt 2)", "(sqrt 3)", "(log 2)", "e", "(* e pi)", "D0.3", "D-1.7", "D3.5", "D6.1"})
            angles.push_back(x);
        auto A = share(distinct(angles, *SC));
        auto sp = unarySpace("trig-of-angle", A, TRIG, SC, 1e-12L);
        e.add(sp);
        // inverse functions of every trigonometric value of an angle
        Space inv;
        inv.name = "inverse-of-trig-of-angle";
        inv.n = A->size();
        inv.chunk = 8;
        inv.run = [=](uint64_t i, Ctx& c) {
            for (Op f : TRIG) {
                State x{mk(f, (*A)[i].t), applyOp(f, (*A)[i].v), {refOp(f, (*A)[i].vals[0])}};
                if (isUndef(x.v)) continue;
                for (Op g : ATRIG) {
                    // asin and acos are not differentiable at +-1: take the exact value there
                    State y = x;
                    if (isNumber(x.v) && !hasDouble(x.v)) y.vals = {numberValue(x.v)};
                    Var r = step(c, g, y, nullptr, *SC, "value", 1e-9L);
                    c.state(r);
                    State z{mk(g, y.t), r, {refOp(g, y.vals[0])}};
                    if (isUndef(r)) continue;
                    for (Op h : TRIG) c.state(step(c, h, z, nullptr, *SC, "value", 1e-9L));
                }
            }
        };
        e.add(inv);
    }
    { // arguments just beside those with a known value
        Strs at, vt;
        const int last = deep ? 10 : 8;
        for (int m = 3; m <= last; ++m)
            for (const char* sg : {"", "-"}) {
                const std::string off = std::string(sg) + "1/1" + std::string(m, '0');
                for (int d : {12, 8})
                    for (int n = -2 * d; n <= 2 * d; ++n)
                        if (m <= 6 || n % 4 <= 1) at.push_back("(+ " + off + " (* " + std::to_string(n) + "/" + std::to_string(d) + " pi))");
                for (int n : {0, 1, 2, 3, 4, 6}) at.push_back("(* pi (+ " + off + " " + std::to_string(n) + "/12))");
                for (const char* v : {"0", "1", "-1", "1/2", "-1/2", "(/ (sqrt 2) 2)", "(/ (sqrt 2) -2)", "(/ (sqrt 3) 2)", "(/ (sqrt 3) -2)", "(sqrt 3)", "(neg (sqrt 3))", "(/ (sqrt 3) 3)", "(/ (sqrt 3) -3)",
                       "(- 2 (sqrt 3))", "(+ 2 (sqrt 3))", "(- (sqrt 3) 2)", "(/ (- (sqrt 6) (sqrt 2)) 4)", "(/ (+ (sqrt 6) (sqrt 2)) 4)", "(- (sqrt 2) 1)", "(+ (sqrt 2) 1)", "(sqrt (- 1/2 (/ (sqrt 2) 4)))", "(sqrt (+ 1/2 (/ (sqrt 2) 4)))"})
                    vt.push_back("(+ " + off + " " + std::string(v) + ")");
            }
        e.add(unarySpace("beside-tabulated-angle", share(distinct(at, *SC)), TRIG, SC, 1e-12L));
        e.add(unarySpace("beside-tabulated-value", share(distinct(vt, *SC)), ATRIG, SC, 1e-12L));
        // the same next to the arguments of the logarithm, which are exact powers of e or of the bases of its results
        Strs lt;
        for (int m = 3; m <= last; ++m)
            for (const char* sg : {"", "-"})
                for (const char* v : {"1", "2", "4", "1/2", "e", "(^ e 2)", "(/ 1 e)", "(sqrt e)", "(sqrt 2)", "9", "100"})
                    lt.push_back("(+ " + std::string(sg) + "1/1" + std::string(m, '0') + " " + v + ")");
        e.add(unarySpace("beside-logarithm-argument", share(distinct(lt, *SC)), {Op::LOG}, SC, 1e-12L));
    }
    { // huge multiples of pi/12 and pi/8 are the angle left after removing whole turns
        Space sp;
        sp.name = "many-turns";
        const int maxExp = deep ? 120 : 40;
        sp.n = maxExp * 2;
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int den = i % 2 ? 8 : 12, ex = 1 + int(i / 2);
            const unsigned turn = 2 * den;
            for (int sign : {1, -1})
                for (int lead : {1, 7})
                    for (int off = 0; off < int(turn); ++off) {
                        unsigned m = lead;
                        std::string t = std::to_string(lead);
                        for (int k = 0; k < ex; ++k) m = m * 10 % turn;
                        const int rest = int((m + off) % turn) * sign;
                        const std::string n = "(* " + std::to_string(sign) + "/" + std::to_string(den) + " (+ " + std::to_string(off) + " (* " + t + " (^ 10 " + std::to_string(ex) + "))))";
                        for (Op f : TRIG) {
                            const T big = mk(f, parseTerm("(* pi " + n + ")")), small = mk(f, parseTerm("(* pi " + std::to_string(rest) + "/" + std::to_string(den) + ")"));
                            c.begin(str(big));
                            const Var r = build(big);
                            const Val want = evalTerm(small, (*SC)[0]), got = evalTree(r, (*SC)[0]);
                            c.transitions();
                            c.state(r);
                            c.compared();
                            const bool pole = f == Op::TAN && rest % den && 2 * rest % den == 0;
                            if (pole ? !isUndef(r) : !(got.num() && want.num() && std::fabs(got.m - want.m) < 1e-12L))
                                c.fail("value", "gives " + text(r) + ", expected " + (pole ? "Undefined" : str(want)), text(r));
                        }
                    }
        };
        e.add(sp);
    }
    Strs nums;
    { // inverse functions and logarithms of numeric arguments
        const Strs base{"0", "1", "1/2", "(/ (sqrt 2) 2)", "(/ (sqrt 3) 2)", "(sqrt 3)", "(/ (sqrt 3) 3)", "(- 2 (sqrt 3))", "(+ 2 (sqrt 3))", "(/ (- (sqrt 6) (sqrt 2)) 4)",
          "(/ (+ (sqrt 6) (sqrt 2)) 4)", "(/ 1 (sqrt 2))", "(/ (- (sqrt 3) 1) (* 2 (sqrt 2)))", "(/ (- (sqrt 5) 1) 4)", "(/ (+ 1 (sqrt 5)) 4)", "(- (sqrt 2) 1)", "(+ (sqrt 2) 1)",
          "(sqrt (+ 1/2 (/ (sqrt 2) 4)))", "(sqrt (- 1/2 (/ (sqrt 2) 4)))", "(/ (sqrt (- 2 (sqrt 2))) 2)", "(/ (sqrt (+ 2 (sqrt 2))) 2)", "(sqrt (- 5 (* 2 (sqrt 5))))", "(sqrt (+ 5 (* 2 (sqrt 5))))",
          "(/ (sqrt 5) 5)", "(sqrt (+ 1 (/ 2 (sqrt 5))))", "(sqrt (- 1 (/ 2 (sqrt 5))))", "(sqrt (- 5/8 (/ (sqrt 5) 8)))", "(sqrt (+ 5/8 (/ (sqrt 5) 8)))", "(- 1 (/ 2 (sqrt 5)))",
          "2", "1/3", "3/4", "9/10", "3", "(sqrt 2)", "(log 2)", "(/ pi 4)", "(/ 1 pi)", "D0.25", "D0.7071", "10", "7/5", "(/ 1 e)", "(sin 1)", "(cos 1)", "(tan 1)", "(asin 1/3)", "(acos 1/3)", "(atan 2)",
          "e", "pi", "(^ e 2)", "(sqrt e)", "(/ 1 (^ e 3))", "4", "8", "9", "16", "1/4", "1/8", "100", "(sqrt 8)", "(^ 2 1/3)", "(^ 2 2/3)", "(* 2 (sqrt 2))", "(* 3 e)", "(^ e (sqrt 2))", "(^ e pi)", "(^ 2 pi)", "(^ pi 2)", "(+ 1 e)"};
        for (auto& b : base) {
            nums.push_back(b);
            nums.push_back("(neg " + b + ")");
        }
        auto N = share(distinct(nums, *SC));
        auto U2 = U;
        U2.pop_back();
        e.add(unarySpace("function-of-number", N, U2, SC, 1e-10L));
        Space two;
        two.name = "function-of-function-of-number";
        two.n = N->size();
        two.chunk = 4;
        two.run = [=](uint64_t i, Ctx& c) {
            for (Op f : U2) {
                const State& x = (*N)[i];
                State y{mk(f, x.t), applyOp(f, x.v), {refOp(f, x.vals[0])}};
                if (isUndef(y.v)) continue;
                for (Op g : U2) {
                    Var r = step(c, g, y, nullptr, *SC, "value", 1e-9L);
                    c.state(r);
                    State z{mk(g, y.t), r, {refOp(g, y.vals[0])}};
                    if (!isUndef(r) && deep)
                        for (Op h : U2) c.state(step(c, h, z, nullptr, *SC, "value", 1e-9L));
                }
                c.state(step(c, Op::MUL, y, &x, *SC, "value", 1e-9L));
                c.state(step(c, Op::ADD, y, &x, *SC, "value", 1e-9L));
            }
        };
        e.add(two);
        // atan2 of numeric pairs
        Strs at{"0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "(sqrt 3)", "(neg (sqrt 3))", "(sqrt 2)", "(neg (sqrt 2))", "(/ (sqrt 3) 3)", "(neg (/ (sqrt 3) 3))", "(- 2 (sqrt 3))", "(- (sqrt 3) 2)", "(+ 2 (sqrt 3))",
          "(/ (sqrt 3) 2)", "(/ (sqrt 3) -2)", "5", "-2/3", "pi", "(- 1 (sqrt 2))", "(- (sqrt 2) 1)", "(+ 1 (sqrt 2))", "(log 2)", "(neg pi)",
          "(tan 1)", "(tan 3)", "(neg (tan 4))", "(tan 10)", "(sin 2)", "(cos 2)", "(sin 4)", "(cos 4)", "(neg (sin 6))", "(cos 6)", "(sin 11)", "(neg (cos 11))", "(* 2 (sin 9))", "(* 2 (cos 9))"};
        if (deep) at = cat({at, {"7", "-5", "(* 2 (sqrt 3))", "(* -3 (sqrt 3))", "(sqrt 6)", "e", "(neg e)", "(/ 1 (sqrt 3))", "(+ 1 pi)", "(- 3 pi)", "4/5", "(sqrt 5)", "(neg (sqrt 5))"}});
        auto A2 = share(distinct(at, *SC));
        Space sp;
        sp.name = "atan2-of-numbers";
        sp.n = A2->size() * A2->size();
        sp.chunk = 16;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &y = (*A2)[i / A2->size()], &x = (*A2)[i % A2->size()];
            const Var q = y.v / x.v;
            const bool res = resolvable(y.vals[0], x.vals[0]) || tsym::name(q) == "tan";
            if (!res && x.vals[0].surelyNeg()) return; // atan2-unresolvable
            c.begin(str(mk(Op::ATAN2, y.t, x.t)));
            c.transitions();
            angleCheck(c, tsym::atan2(y.v, x.v), y.vals[0], x.vals[0], !res, (*SC)[0]);
        };
        e.add(sp);
        auto UN = share(distinct({"1", "-2", "2", "-1", "-3", "(neg (sqrt 2))", "3"}, *SC));
        Space un;
        un.name = "atan2-unresolvable";
        un.n = UN->size() * UN->size();
        un.run = [=](uint64_t i, Ctx& c) {
            const State &y = (*UN)[i / UN->size()], &x = (*UN)[i % UN->size()];
            if (!x.vals[0].surelyNeg() || resolvable(y.vals[0], x.vals[0])) return;
            c.begin(str(mk(Op::ATAN2, y.t, x.t)));
            c.transitions();
            angleCheck(c, tsym::atan2(y.v, x.v), y.vals[0], x.vals[0], true, (*SC)[0]);
        };
        e.add(un);
        // floating point pairs
        Strs dd;
        for (const char* x : {"0.25", "1.7", "3.3333", "0.001", "123.456"}) { dd.push_back(std::string("D") + x); dd.push_back(std::string("D-") + x); }
        auto D2 = share(distinct(dd, *SC));
        Space ds;
        ds.name = "atan2-floating-point";
        ds.n = D2->size() * D2->size();
        ds.run = [=](uint64_t i, Ctx& c) {
            const State &y = (*D2)[i / D2->size()], &x = (*D2)[i % D2->size()];
            c.begin(str(mk(Op::ATAN2, y.t, x.t)));
            c.transitions();
            Var q = y.v / x.v;
            if (q.type() != Var::Type::DOUBLE && x.vals[0].surelyNeg() && !resolvable(y.vals[0], x.vals[0])) return; // atan2-unresolvable
            angleCheck(c, tsym::atan2(y.v, x.v), y.vals[0], x.vals[0], true, (*SC)[0]);
        };
        e.add(ds);
    }
    { // symbolic arguments: every function of every function of the closure of atoms
        Strs atoms{"a", "b", "p", "q", "0", "1", "-1", "2", "-2", "1/2", "(sqrt 2)", "pi", "e", "3"};
        if (deep) atoms = cat({atoms, {"c", "(sqrt 3)", "-1/3", "4"}});
        auto A0 = mkStates(atoms, *S);
        std::set<std::string> known;
        for (auto& s : A0) known.insert(key(s.v));
        auto A1 = closure(A0, A0, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *S, known);
        std::vector<State> ok;
        for (auto& s : catS({A0, A1}))
            ok.push_back(s);
        auto all = share(ok);
        e.note("argument_states", std::to_string(all->size()));
        Space sp;
        sp.name = "functions-of-closure";
        sp.n = all->size();
        sp.chunk = 2;
        const std::vector<Op> V{Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::LOG};
        const Strs fs{"1", "-1", "2", "-3", "1/2", "b", "-1/2"};
        auto F = share(mkStates(fs, *S));
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (Op f : V) {
                State y{mk(f, x.t), step(c, f, x, nullptr, *S, "value", 1e-9L), {}};
                c.state(y.v);
                if (isUndef(y.v)) continue;
                if (f == Op::LOG) y.vals = evalTree(y.v, *S); // log(x^2) = 2*log(x) may be undefined where log(x^2) isn't
                else
                    for (size_t k = 0; k < S->size(); ++k) y.vals.push_back(refOp(f, x.vals[k]));
                for (Op g : V) {
                    Var r = step(c, g, y, nullptr, *S, "value", 1e-9L);
                    c.state(r);
                    if (i % 37 == 3 && f == g) c.sample(str(mk(g, y.t)) + " -> " + text(r));
                }
                // multiples, powers and shifts inside and outside
                for (auto& z : *F) {
                    c.state(step(c, Op::MUL, z, &y, *S, "value", 1e-9L));
                    State pw{mk(Op::POW, y.t, z.t), step(c, Op::POW, y, &z, *S, "value", 1e-9L), {}};
                    c.state(pw.v);
                    if (f == Op::LOG || isUndef(pw.v)) continue;
                    for (size_t k = 0; k < S->size(); ++k) pw.vals.push_back(refOp(Op::POW, y.vals[k], z.vals[k]));
                    c.state(step(c, Op::LOG, pw, nullptr, *S, "value", 1e-9L));
                }
            }
        };
        e.add(sp);
    }
    { // products of powers of sin, cos, tan of equal and different arguments contract to the right thing
        Strs f;
        const Strs args{"a", "(* 2 a)", "b", "(+ a b)", "1", "p"};
        for (auto& x : args)
            for (const char* n : {"sin", "cos", "tan"}) {
                for (const char* ex : {"1", "-1", "2", "-2", "1/2", "-1/2", "3", "b", "(neg b)", "-3/2"})
                    f.push_back(std::string("(^ (") + n + " " + x + ") " + ex + ")");
            }
        f = cat({f, {"2", "a", "(sqrt 2)", "(sqrt a)", "(asin a)", "(log a)"}});
        auto F = share(distinct(f, *S));
        e.add(pairSpace("trig-products", F, F, {Op::MUL, Op::DIV, Op::ADD}, S, 1e-9L));
        Strs g;
        for (auto& x : Strs{"a", "b"})
            for (const char* n : {"sin", "cos", "tan"})
                for (const std::string& ex : deep ? Strs{"1", "-1", "2", "-2", "1/2", "-3", "b", "-1/2"} : Strs{"1", "-1", "2", "-2", "1/2", "-3", "b"})
                    g.push_back(std::string("(^ (") + n + " " + x + ") " + ex + ")");
        auto G = share(distinct(g, *S));
        Space sp;
        sp.name = "trig-product-chains";
        sp.n = G->size() * G->size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*G)[i / G->size()], &y = (*G)[i % G->size()];
            State xy{mk(Op::MUL, x.t, y.t), applyOp(Op::MUL, x.v, y.v), {}};
            for (size_t k = 0; k < S->size(); ++k) xy.vals.push_back(mul(x.vals[k], y.vals[k]));
            for (auto& z : *G) c.state(step(c, Op::MUL, xy, &z, *S, "value", 1e-9L));
        };
        e.add(sp);
    }
    { // atan2 of symbolic pairs
        auto A = share(distinct({"a", "b", "p", "q", "(neg p)", "(neg q)", "(+ a b)", "(* 2 a)", "(* 2 p)", "(* 3 p)", "(^ a 2)", "(sin a)", "(cos a)", "0", "1", "-1", "(sqrt 3)", "(* p q)", "(sqrt p)", "(/ 1 p)", "(neg a)", "(* p (sqrt 3))", "(+ p q)", "(sqrt 2)", "pi"}, *S));
        Space sp;
        sp.name = "atan2-symbolic";
        sp.n = A->size() * A->size();
        sp.chunk = 16;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*A)[i / A->size()], &y = (*A)[i % A->size()];
            if (isConst(x.v) && isConst(y.v)) return; // atan2-of-numbers
            Var r = step(c, Op::ATAN2, x, &y, *S, "value", 1e-9L);
            c.state(r);
            State st{mk(Op::ATAN2, x.t, y.t), r, {}};
            for (size_t k = 0; k < S->size(); ++k) st.vals.push_back(atan2v(x.vals[k], y.vals[k]));
            if (!isUndef(r))
                for (Op f : {Op::SIN, Op::COS, Op::TAN}) c.state(step(c, f, st, nullptr, *S, "value", 1e-9L));
        };
        e.add(sp);
    }
}
