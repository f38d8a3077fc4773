// C13: isPositive / isNegative only claim signs that hold at every admissible assignment, and decide numbers completely.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C13";

namespace {
Samples gridSamples(bool deep)
{
    Samples out;
    const std::vector<Val> pos{rat(1, 50), rat(1, 2), rat(1), rat(7, 5), rat(3), rat(40)};
    const std::vector<Val> any{rat(-30), rat(-8, 5), rat(-1), rat(-1, 9), rat(1, 20), rat(5, 6), rat(1), rat(9, 4), rat(25)};
    size_t k = 0;
    for (auto& p : pos)
        for (auto& q : pos)
            for (auto& a : any)
                for (auto& b : any) {
                    // all pairs (p,q), (a,b); quick: every combination of (p,q) with a third of the (a,b)
                    if ((k++ % 7) > 1 && !deep) continue;
                    Sample s;
                    s.v = {{"p", p}, {"q", q}, {"a", a}, {"b", b}, {"c", rat(-2, 7)}, {"d", rat(13, 3)}, {"r", rat(2, 9)}, {"a'", (k & 1) ? rat(1, 30) : rat(50)}};
                    s.generic = false;
                    out.push_back(std::move(s));
                }
    Sample z;
    z.v = {{"p", rat(2)}, {"q", rat(1, 3)}, {"a", rat(0)}, {"b", rat(0)}, {"c", rat(0)}, {"d", rat(0)}, {"r", rat(1)}, {"a'", rat(1, 2)}};
    z.generic = false;
    out.push_back(z);
    return out;
}
// A claimed sign must not be contradicted by any assignment.
void sound(Ctx& c, const Var& v, const Samples& S)
{
    const bool pos = tsym::isPositive(v), neg = tsym::isNegative(v);
    c.transitions(2);
    c.state(v);
    if (pos && neg) { c.fail("both", text(v) + " is claimed to be both positive and negative"); return; }
    if (isConst(v)) {
        const Val x = evalTree(v, S[0]);
        if (x.num() && x.r < 1e-12L * std::fmax(1.0L, std::fabs(x.m))) {
            const bool p = x.ex ? x.n > 0 : x.m > 1e-9L, n = x.ex ? x.n < 0 : x.m < -1e-9L, zero = x.ex && x.n == 0;
            c.compared();
            if ((p && !pos) || (n && !neg) || (p && neg) || (n && pos) || (zero && (pos || neg))) {
                c.fail("number", text(v) + " = " + str(x) + " isPositive: " + (pos ? "yes" : "no") + ", isNegative: " + (neg ? "yes" : "no"), pos ? "+" : neg ? "-" : "?");
                return;
            }
        } else c.skipped();
    }
    if (!pos && !neg) return;
    const bool constant = isConst(v);
    for (auto& s : S) {
        if (constant && &s != &S[0]) break;
        const Val x = evalTree(v, s);
        if (!x.num()) { c.skipped(); continue; }
        c.compared();
        if (pos ? x.surelyNeg() : x.surelyPos()) {
            std::string m = text(v) + (pos ? " is claimed to be positive" : " is claimed to be negative") + " but has value " + str(x) + " at";
            for (const auto& kv : s.v) m += " " + kv.first + "=" + str(kv.second);
            c.fail("claim", m, pos ? "+" : "-");
            return;
        }
    }
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(gridSamples(deep));
    Samples none;
    auto N = std::make_shared<Samples>();
    e.note("assignments", std::to_string(S->size()));
    const std::vector<Op> ops{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW};
    const Strs atoms{"a", "b", "p", "q", "-1", "2", "1/2", "-2/3", "(sqrt 2)", "pi", "e", "(+ a b)", "(+ p q)", "(- p q)", "(sin a)", "(^ a 2)", "(log p)", "(atan p)", "(^ a b)", "(neg p)", "(sqrt a)", "3", "a'"};
    auto all = share(closure1(atoms, ops, none));
    auto few = share(distinct({"a", "p", "q", "-1", "2", "1/2", "-3/2", "(sqrt 2)", "(* -1 p)", "(^ a 2)", "(- p 1)", "pi", "-4", "(+ p q)", "(* a p)", "(neg (^ b 2))", "(log 2)", "(log 1/2)"}, none));
    e.note("closure_states", std::to_string(all->size()));
    { // every closure expression combined with a further operand
        Space sp;
        sp.name = "claims";
        sp.n = all->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            c.begin(str(x.t));
            sound(c, x.v, *S);
            for (auto& y : *few)
                for (Op op : ops)
                    for (bool swap : {false, true}) {
                        if ((op == Op::ADD || op == Op::MUL) && swap) continue;
                        if (op == Op::POW && (treeSize(x.v) > 12 && swap)) continue;
                        const State &l = swap ? y : x, &r = swap ? x : y;
                        c.begin(str(mk(op, l.t, r.t)));
                        const Var v = applyOp(op, l.v, r.v);
                        if (isUndef(v)) continue;
                        sound(c, v, *S);
                    }
        };
        e.add(sp);
    }
    { // functions of the closure
        Space sp;
        sp.name = "function-claims";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (Op f : {Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::SQRT, Op::EXPAND, Op::NORMAL}) {
                c.begin(str(mk(f, x.t)));
                const Var v = applyOp(f, x.v);
                if (isUndef(v)) continue;
                sound(c, v, *S);
                if (f == Op::EXPAND || f == Op::NORMAL) continue;
                for (auto y : {"p", "-1", "2"}) {
                    c.begin("(+ " + str(mk(f, x.t)) + " " + y + ")");
                    sound(c, v + leafVar(y), *S);
                    c.begin("(* " + str(mk(f, x.t)) + " " + y + ")");
                    sound(c, v * leafVar(y), *S);
                }
            }
        };
        e.add(sp);
    }
    { // growing expressions; positive symbols in all places, in some, in none
        Strs g;
        for (auto& t : growth(deep ? 2 : 1))
            for (int variant = 0; variant < 3; ++variant) {
                std::string r;
                for (size_t k = 0; k < t.size(); ++k) {
                    if (t[k] == 'x' && isdigit(t[k + 1])) {
                        const int n = t[++k] - '0';
                        r += variant == 0 ? (n % 3 == 0 ? "p" : n % 3 == 1 ? "q" : "r") : variant == 1 ? (n % 2 ? "p" : "a") : (n % 2 ? "a" : "b");
                    } else if ((t[k] == 'a' || t[k] == 'b') && k && t[k - 1] == ' ' && (t[k + 1] == ' ' || t[k + 1] == ')'))
                        r += variant == 0 ? (t[k] == 'a' ? "p" : "q") : variant == 1 ? (t[k] == 'a' ? "p" : "b") : std::string(1, t[k]);
                    else r += t[k];
                }
                g.push_back(r);
            }
        auto G = share(distinct(g, none));
        e.note("growing_expressions", std::to_string(G->size()));
        Space sp;
        sp.name = "growth";
        sp.n = G->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*G)[i];
            c.begin(str(x.t));
            sound(c, x.v, *S);
            for (auto& y : *few)
                for (Op op : {Op::ADD, Op::SUB, Op::MUL, Op::DIV}) {
                    c.begin(str(mk(op, x.t, y.t)));
                    const Var v = applyOp(op, x.v, y.v);
                    if (!isUndef(v)) sound(c, v, *S);
                }
        };
        e.add(sp);
    }
    { // long sums and products: one operand of another sign, or of an unknown one, at every position
        Space sp;
        sp.name = "wide";
        const Strs odd{"q", "(neg q)", "a", "(* -2 (^ a 3))", "(log q)", "-3", "(- 1 q)", "1/1000"};
        sp.n = 15 * odd.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const int n = 6 + 2 * int(i / odd.size());
            const std::string& o = odd[i % odd.size()];
            for (bool product : {false, true})
                for (bool neg : {false, true})
                    for (int pos = 0; pos < n; pos += pos == 0 || pos == n - 2 ? 1 : 3) {
                        std::string t = product ? "(*" : "(+";
                        for (int k = 0; k < n; ++k) {
                            const std::string m = product ? "(+ p " + std::to_string(k + 1) + ")" : "(^ p " + std::to_string(k + 1) + ")";
                            t += " " + (k == pos ? o : neg ? "(neg " + m + ")" : m);
                        }
                        t += ")";
                        c.begin(t);
                        c.transitions();
                        const Var v = build(parseTerm(t));
                        if (!isUndef(v)) sound(c, v, *S);
                    }
        };
        e.add(sp);
    }
    { // constants: the sign of every number is decided
        Strs nums{"0", "1", "-1", "2", "-3", "1/2", "-2/3", "(sqrt 2)", "(neg (sqrt 3))", "pi", "e", "(^ 2 1/3)", "(log 2)", "(log 1/3)", "(sin 1)", "(cos 2)", "(tan 2)", "(asin 1/3)", "(acos -1/3)", "(atan 5)", "(neg pi)", "D0.123456789", "D-2.3456789", "(atan2 1 -2)", "22/7", "-99/70", "1000003", "1/1000", "(sin 4)", "(neg e)", "(sqrt (+ 1 (sqrt 2)))"};
        auto A = share(catS({closure1(nums, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, none), closure1({"2", "-3", "1/2", "-2/3", "(sqrt 2)", "pi", "(^ 2 1/3)", "(log 1/3)", "(cos 2)", "D0.123456789", "(sqrt 3)"}, {Op::POW}, none)}));
        auto B = share(distinct(nums, none));
        Space sp;
        sp.name = "numbers";
        sp.n = A->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*A)[i];
            c.begin(str(x.t));
            sound(c, x.v, *S);
            for (auto& y : *B)
                for (Op op : {Op::ADD, Op::SUB, Op::MUL, Op::DIV}) {
                    c.begin(str(mk(op, x.t, y.t)));
                    const Var v = applyOp(op, x.v, y.v);
                    if (!isUndef(v)) sound(c, v, *S);
                }
        };
        e.add(sp);
    }
    { // signs that follow from the parts are found: sums, products, quotients and powers of expressions with known sign
        auto signedOnes = share(distinct({"p", "q", "2", "1/3", "-1", "-5/2", "(neg p)", "(* 2 p q)", "(* -3 q)", "(+ p q)", "(+ p 1)", "(neg (+ p q))", "pi", "(neg pi)", "(sqrt 2)", "(sqrt p)", "(^ p 2)", "(/ 1 q)", "(neg (/ p q))", "(^ p q)", "(^ 2 p)", "e", "(neg (sqrt q))", "(^ p -1/2)", "(log 2)", "(log 1/2)", "(atan p)", "(neg (atan q))", "(log (+ 1 p))"}, none));
        Space sp;
        sp.name = "known-signs";
        sp.n = signedOnes->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            auto sg = [](const Var& v) { return tsym::isPositive(v) ? 1 : tsym::isNegative(v) ? -1 : 0; };
            const State& x = (*signedOnes)[i];
            c.begin(str(x.t));
            const int sx = sg(x.v);
            c.compared();
            if (sx == 0) { c.fail("unknown", "the sign of " + text(x.v) + " isn't found"); return; }
            for (auto& y : *signedOnes) {
                const int sy = sg(y.v);
                auto want = [&](Op op, const Var& v, int s) {
                    c.begin(str(mk(op, x.t, y.t)));
                    c.transitions();
                    c.compared();
                    c.state(v);
                    if (sg(v) != s) c.fail("unknown", text(v) + ": sign should be found to be " + std::to_string(s) + " but is " + std::to_string(sg(v)), std::to_string(sg(v)));
                };
                if (sx == sy) want(Op::ADD, x.v + y.v, sx);
                if (sx == -sy) want(Op::SUB, x.v - y.v, sx);
                want(Op::MUL, x.v * y.v, sx * sy);
                want(Op::DIV, x.v / y.v, sx * sy);
                if (sx == 1) want(Op::POW, tsym::pow(x.v, y.v), 1);
                c.begin("two operands " + str(x.t) + " " + str(y.t));
                for (auto& z : *signedOnes) {
                    const int sz = sg(z.v);
                    if (sx == sy && sy == sz && sg(x.v + y.v + z.v) != sx) c.fail("unknown", text(x.v + y.v + z.v) + ": sign isn't found", "sum " + str(z.t));
                    if (sg(x.v * y.v * z.v) != sx * sy * sz) c.fail("unknown", text(x.v * y.v * z.v) + ": sign isn't found", "product " + str(z.t));
                    c.transitions(2);
                    c.compared(2);
                }
            }
        };
        e.add(sp);
    }
}
