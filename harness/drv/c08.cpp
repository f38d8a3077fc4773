// C08: solve, invert and determinant agree with linear algebra on the values, whatever the matrix, pivot strategy, container and skip field.
#include "common.h"
#include <array>
#include <algorithm>
#include <stdexcept>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C08";
using Mat = std::vector<State>; // row-major
using VV = std::vector<std::vector<Var>>;

static Val detRef(std::vector<Val> m, size_t n)
{ // Leibniz: no division
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    Val d = rat(0);
    do {
        int inv = 0;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) inv += p[i] > p[j];
        Val t = rat(inv % 2 ? -1 : 1);
        for (size_t i = 0; i < n; ++i) t = mul(t, m[i * n + p[i]]);
        d = add(d, t);
    } while (std::next_permutation(p.begin(), p.end()));
    return d;
}
enum class Sing { NO, YES, UNKNOWN };
struct Problem {
    size_t n;
    std::vector<const State*> m; // n*n
    std::vector<const State*> b; // n
    std::string id;
};
static void check(Ctx& c, const Problem& p, const Samples& S, bool inv, long double tol = 0)
{
    const size_t n = p.n;
    std::vector<Val> dets;
    size_t zero = 0, def = 0;
    for (size_t k = 0; k < S.size(); ++k) {
        std::vector<Val> m;
        for (auto* s : p.m) m.push_back(s->vals[k]);
        dets.push_back(detRef(m, n));
        if (dets.back().num() && dets.back().ex) { ++def; zero += dets.back().n == 0; }
    }
    // exactly zero at all sign patterns: singular; exactly non-zero at one: regular; irrational entries: decided by clear distance from zero
    Sing sing = Sing::UNKNOWN;
    if (def == S.size()) sing = zero == def ? Sing::YES : Sing::NO;
    else
        for (auto& d : dets) if (d.num() && std::fabs(d.m) > 1e-6) sing = Sing::NO;
    for (tsym::Algo algo : {tsym::Algo::Gauss, tsym::Algo::GaussLCPivot}) {
        const std::string al = algo == tsym::Algo::Gauss ? "Gauss" : "GaussLCPivot";
        std::vector<Var> A;
        for (auto* s : p.m) A.push_back(s->v);
        std::vector<Var> B, X(n, Var("untouched"));
        for (auto* s : p.b) B.push_back(s->v);
        auto acc = [&A, n](size_t i, size_t j) -> Var& { return A[i * n + j]; };
        const std::vector<Var> A0 = A, B0 = B;
        // determinant
        c.begin("det " + al + " " + p.id);
        c.transitions();
        try {
            const Var d = tsym::determinant(acc, n, algo);
            c.state(d);
            if (isUndef(d)) { c.fail("determinant", "determinant is Undefined", "Undefined"); return; }
            if (!sameValue(c, "determinant", d, dets, S, tol)) return;
            if (sing == Sing::YES && key(d) != "0" && !hasDouble(d)) { c.fail("determinant", "determinant of a singular matrix is " + text(d), text(d)); return; }
        } catch (const std::invalid_argument&) {
            if (sing == Sing::NO) { c.fail("determinant", "regular matrix rejected as singular", "throw"); return; }
        }
        // solve
        c.begin("solve " + al + " " + p.id);
        c.transitions();
        bool threw = false;
        try {
            tsym::solve(acc, B, X, n, algo);
        } catch (const std::invalid_argument&) { threw = true; }
        if (threw && sing == Sing::NO) { c.fail("solve", "regular matrix rejected as singular", "throw"); return; }
        if (!threw && sing == Sing::YES) { c.fail("solve", "singular matrix not rejected", "no throw"); return; }
        for (size_t i = 0; i < A.size(); ++i) if (key(A[i]) != key(A0[i])) { c.fail("input", "solve changed the coefficient matrix"); return; }
        for (size_t i = 0; i < n; ++i) if (key(B[i]) != key(B0[i])) { c.fail("input", "solve changed the right hand side"); return; }
        if (!threw && sing != Sing::UNKNOWN) {
            for (auto& x : X) {
                c.state(x);
                if (isUndef(x)) { c.fail("solve", "solution is Undefined", "Undefined"); return; }
            }
            for (size_t k = 0; k < S.size(); ++k) {
                if (!dets[k].num() || std::fabs(dets[k].m) < 1e-9L) { c.skipped(); continue; }
                std::vector<Val> xv;
                for (auto& x : X) xv.push_back(evalTree(x, S[k]));
                for (size_t i = 0; i < n; ++i) {
                    Val lhs = rat(0);
                    for (size_t j = 0; j < n; ++j) lhs = add(lhs, mul(p.m[i * n + j]->vals[k], xv[j]));
                    const Val rhs = p.b[i]->vals[k];
                    if (!lhs.num() || !rhs.num()) { c.skipped(); continue; }
                    const bool bad = tol > 0 ? std::fabs(lhs.m - rhs.m) > tol * (1 + std::fabs(rhs.m)) : compare(lhs, rhs) == Cmp::DIFFERENT;
                    if (bad) {
                        std::string xs;
                        for (auto& x : X) xs += " " + text(x);
                        c.fail("solve", "solution" + xs + " leaves row " + std::to_string(i) + ": " + str(lhs) + " instead of " + str(rhs), xs);
                        return;
                    }
                    c.compared();
                }
            }
        }
        if (!inv) continue;
        c.begin("invert " + al + " " + p.id);
        c.transitions();
        threw = false;
        try {
            tsym::invert(acc, n, algo);
        } catch (const std::invalid_argument&) { threw = true; }
        if (threw && sing == Sing::NO) { c.fail("invert", "regular matrix rejected as singular", "throw"); return; }
        if (!threw && sing == Sing::YES) { c.fail("invert", "singular matrix not rejected", "no throw"); return; }
        if (!threw && sing != Sing::UNKNOWN)
            for (size_t k = 0; k < S.size(); ++k) {
                if (!dets[k].num() || std::fabs(dets[k].m) < 1e-9L) { c.skipped(); continue; }
                std::vector<Val> v;
                for (auto& x : A) v.push_back(evalTree(x, S[k]));
                for (size_t i = 0; i < n; ++i)
                    for (size_t j = 0; j < n; ++j) {
                        Val s = rat(0);
                        for (size_t l = 0; l < n; ++l) s = add(s, mul(p.m[i * n + l]->vals[k], v[l * n + j]));
                        const Val e = rat(i == j);
                        if (s.undef()) { c.fail("invert", "inverse is undefined at an assignment with regular matrix"); return; }
                        const bool bad = tol > 0 ? std::fabs(s.m - e.m) > tol : compare(s, e) == Cmp::DIFFERENT;
                        if (bad) { c.fail("invert", "matrix times inverse has entry " + str(s) + " at " + std::to_string(i) + "," + std::to_string(j)); return; }
                        c.compared();
                    }
            }
    }
}
static Space grid(const std::string& name, size_t n, std::shared_ptr<Mat> E, std::shared_ptr<Mat> rhs, std::shared_ptr<Samples> S, bool inv, long double tol = 0, uint64_t chunk = 16)
{
    Space sp;
    sp.name = name;
    sp.n = 1;
    for (size_t i = 0; i < n * n; ++i) sp.n *= E->size();
    sp.chunk = chunk;
    sp.run = [=](uint64_t i, Ctx& c) {
        Problem p;
        p.n = n;
        uint64_t r = i;
        p.id = "[";
        for (size_t k = 0; k < n * n; ++k, r /= E->size()) {
            p.m.push_back(&(*E)[r % E->size()]);
            p.id += (k ? k % n ? " " : "; " : "") + str(p.m.back()->t);
        }
        p.id += "] rhs";
        for (size_t k = 0; k < n; ++k) {
            p.b.push_back(&(*rhs)[(i + k * k + k) % rhs->size()]);
            p.id += " " + str(p.b.back()->t);
        }
        check(c, p, *S, inv, tol);
    };
    return sp;
}
// Containers offering both kinds of access
struct CallVec {
    std::vector<Var> d;
    Var& operator()(size_t i) { return d[i]; }
    const Var& operator()(size_t i) const { return d[i]; }
};
struct CallMat {
    size_t n;
    std::vector<Var> d;
    Var& operator()(size_t i, size_t j) { return d[i * n + j]; }
    const Var& operator()(size_t i, size_t j) const { return d[i * n + j]; }
};

void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    auto small = std::make_shared<Samples>(S->begin(), S->begin() + 4);
    auto rhs = share(mkStates(Strs{"1", "a", "0", "(+ a b)", "-2", "(/ 1 b)", "(sqrt 2)"}, *S));
    auto st = [&](const Strs& s, const Samples& x) { return share(mkStates(s, x)); };
    e.add(grid("dim1", 1, st({"0", "1", "-2", "a", "(+ a b)", "(/ 1 a)", "(sqrt 2)", "(- (^ (+ a b) 2) (+ (^ a 2) (^ b 2) (* 2 (* a b))))", "(sin a)", "(- (sqrt 2) 2)"}, *S), rhs, S, true));
    Strs e2{"0", "1", "-1", "1/2", "a", "b", "(+ a b)", "(/ a b)", "(sqrt 2)", "(- 1 a)"};
    if (deep) e2 = cat({e2, {"2", "(* a b)", "(sin a)", "-3", "(^ a 2)", "(log 2)", "(sqrt a)", "p"}});
    e.add(grid("dim2", 2, st(e2, *S), rhs, S, true));
    // entries that are zero, but not recognised as such by automatic simplification
    e.add(grid("dim2-hidden-zeros", 2, st({"0", "1", "a", "(- (^ (+ a b) 2) (+ (^ a 2) (^ b 2) (* 2 (* a b))))", "(- (/ (- (^ a 2) 1) (- a 1)) (+ a 1))", "(+ a (- (* a (+ b 1)) (* a b)))", "b"}, *S), rhs, S, true));
    { // the same in all positions of the first two columns of a 3x3 matrix
        auto H = st({"0", "1", "a", "(- (/ (- (^ a 2) 1) (- a 1)) (+ a 1))"}, *small);
        auto L = st({"1", "b", "(+ a 1)", "0", "-1", "(- (^ (+ a b) 2) (+ (^ a 2) (^ b 2) (* 2 (* a b))))"}, *small);
        Space sp;
        sp.name = "dim3-hidden-zeros";
        sp.n = 4096 * 2;
        sp.chunk = 16;
        sp.run = [=](uint64_t i, Ctx& c) {
            Problem p;
            p.n = 3;
            p.m.resize(9);
            uint64_t r = i;
            for (size_t k = 0; k < 6; ++k, r /= 4) p.m[k % 3 * 3 + k / 3] = &(*H)[r % 4];
            for (size_t k = 0; k < 3; ++k) p.m[3 * k + 2] = &(*L)[k + 3 * r];
            p.id = "[";
            for (size_t k = 0; k < 9; ++k) p.id += (k ? k % 3 ? " " : "; " : "") + str(p.m[k]->t);
            p.id += "]";
            for (size_t k = 0; k < 3; ++k) p.b.push_back(&(*rhs)[k]);
            check(c, p, *small, deep || i % 4 == 1);
        };
        e.add(sp);
    }
    e.add(grid("dim3-sparse", 3, st({"0", "1", "a"}, *S), rhs, S, deep));
    e.add(grid("dim3-numeric", 3, st(deep ? Strs{"0", "1", "-2", "1/3"} : Strs{"0", "1", "-2"}, *small), share(mkStates(Strs{"1", "0", "-3", "1/2"}, *small)), small, true));
    if (deep) e.add(grid("dim3-symbolic", 3, st({"0", "1", "a", "b"}, *small), rhs, small, false));
    e.add(grid("dim2-floating-point", 2, st({"0", "1", "D0.5", "D-1.25", "3", "1/3", "D1e-3"}, *small), share(mkStates(Strs{"1", "D0.1", "-3", "1/2"}, *small)), small, true, 1e-9L));
    { // all zero patterns of a 4x4 matrix, two fillings
        auto E4 = st({"2", "3", "5", "7", "11", "13", "17", "19", "23", "29", "31", "37", "41", "43", "47", "53"}, *small);
        auto Y4 = st({"a", "2", "1", "3", "3", "-1", "b", "-1", "1", "5", "2", "1", "1", "1", "-2", "7"}, *small);
        auto zero = st({"0"}, *small);
        auto r4 = share(mkStates(Strs{"1", "a", "0", "-2"}, *small));
        for (int sym = 0; sym < 2; ++sym) {
            Space sp;
            sp.name = sym ? "dim4-patterns-symbolic" : "dim4-patterns";
            sp.n = sym && !deep ? 4096 : 65536;
            sp.chunk = 16;
            sp.run = [=](uint64_t i, Ctx& c) {
                Problem p;
                p.n = 4;
                // symbolic quick: all patterns of the first three rows, fourth row full
                const uint64_t mask = sym && !deep ? i | 0xF000 : i;
                p.id = "pattern " + std::to_string(mask) + (sym ? " symbolic" : " numeric");
                for (size_t k = 0; k < 16; ++k) p.m.push_back((mask >> k) & 1 ? &(*(sym ? Y4 : E4))[k] : &(*zero)[0]);
                for (size_t k = 0; k < 4; ++k) p.b.push_back(&(*r4)[k]);
                check(c, p, *small, !sym && (deep || i % 16 == 15));
            };
            e.add(sp);
        }
    }
    { // 4x4 matrices where entries cancel in the course of two elimination steps: [1 0 x 0; 0 1 y u; m n z 1; k l 1 w]
        auto M = st({"0", "1", "a"}, *small);
        auto F = st(deep ? Strs{"1", "(/ a (+ 1 a))", "(/ 1 (+ 1 a))", "a", "(- a 1)", "0"} : Strs{"1", "(/ a (+ 1 a))", "(/ 1 (+ 1 a))", "(- a 1)"}, *small);
        auto Z = st({"1", "0", "(+ a 1)"}, *small);
        auto B = st({"0", "1"}, *small);
        auto r4 = share(mkStates(Strs{"1", "a", "0", "-2"}, *small));
        Space sp;
        sp.name = "dim4-cancellation";
        sp.n = M->size() * M->size() * 2 * 2 * F->size() * F->size() * Z->size() * 4;
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            auto take = [&i](Mat& v) { const State* s = &v[i % v.size()]; i /= v.size(); return s; };
            const State *m = take(*M), *n = take(*M), *k = take(*B), *l = take(*B), *x = take(*F), *y = take(*F), *z = take(*Z), *u = take(*B), *w = take(*B), *o = &(*B)[1], *e0 = &(*B)[0];
            Problem p;
            p.n = 4;
            p.m = {o, e0, x, e0, e0, o, y, u, m, n, z, o, k, l, o, w};
            p.id = "[";
            for (size_t q = 0; q < 16; ++q) p.id += (q ? q % 4 ? " " : "; " : "") + str(p.m[q]->t);
            p.id += "]";
            for (size_t q = 0; q < 4; ++q) p.b.push_back(&(*r4)[q]);
            check(c, p, *small, deep);
        };
        e.add(sp);
    }
    { // dimensions five and six: every row permutation of a triangular or dense matrix, with one further entry anywhere, or with a repeated row
        auto V = st({"0", "1", "2", "-1", "3", "1/2", "a", "(+ a 1)"}, *small);
        auto r6 = share(mkStates(Strs{"1", "a", "0", "-2", "3", "1/3"}, *small));
        for (size_t n : {5, 6}) {
            std::vector<std::vector<size_t>> perms;
            std::vector<size_t> q(n);
            for (size_t k = 0; k < n; ++k) q[k] = k;
            do perms.push_back(q); while (std::next_permutation(q.begin(), q.end()));
            const size_t kinds = n == 5 ? 4 : 3;
            Space sp;
            sp.name = n == 5 ? "dim5-permutations" : "dim6-permutations";
            sp.n = perms.size() * kinds;
            sp.chunk = 2;
            sp.run = [=](uint64_t i, Ctx& c) {
                const auto& pm = perms[i / kinds];
                const size_t kind = i % kinds;
                for (size_t pos = 0; pos < n * n; ++pos) {
                    if (n == 6 && pos % (deep ? 1 : 12) != i / kinds % (deep ? 1 : 12)) continue;
                    if (kind == 3 && pos % (deep ? 1 : 5) != i / kinds % (deep ? 1 : 5)) continue;
                    std::vector<size_t> m(n * n, 0);
                    for (size_t r = 0; r < n; ++r)
                        for (size_t k = 0; k < n; ++k) {
                            if (kind == 0) m[r * n + k] = r == k ? 1 + (r + k) % 5 : 0; // diagonal
                            else if (kind == 1) m[r * n + k] = r == k ? 1 + r % 5 : k == r + 1 ? 3 : r == n - 1 && k == 0 ? 2 : 0; // cyclic band
                            else if (kind == 2) m[r * n + k] = (r * r + 3 * k + r * k * k) % 6; // dense numeric
                            else m[r * n + k] = r == k ? 6 : k == r + 1 || r == k + 1 ? 1 : 0; // tridiagonal with symbols
                        }
                    if (kind == 2 && pos % 3 == 0) for (size_t k = 0; k < n; ++k) m[pos / n * n + k] = m[(pos / n + 1) % n * n + k]; // singular
                    else m[pos] = kind == 2 ? 5 : kind == 0 ? 7 : 4;
                    Problem p;
                    p.n = n;
                    p.id = "[";
                    for (size_t r = 0; r < n; ++r)
                        for (size_t k = 0; k < n; ++k) {
                            p.m.push_back(&(*V)[m[pm[r] * n + k]]);
                            p.id += (k ? " " : r ? "; " : "") + str(p.m.back()->t);
                        }
                    p.id += "]";
                    for (size_t k = 0; k < n; ++k) p.b.push_back(&(*r6)[k]);
                    check(c, p, *small, kind < 3 && (deep || pos % 4 == 1));
                }
            };
            e.add(sp);
        }
    }
    { // dimensions seven to twelve: every cyclic shift, reversal and transposition of rows of a sparse matrix, with a further entry, or singular
        auto V = st({"0", "1", "2", "-1", "3", "1/2", "a", "(+ a 1)"}, *small);
        auto r12 = share(mkStates(Strs{"1", "a", "0", "-2", "3", "1/3", "1", "0", "2", "-1", "a", "4"}, *small));
        struct Shape {
            size_t n, kind, p;
        };
        std::vector<Shape> shapes;
        for (size_t n : deep ? std::vector<size_t>{7, 8, 9, 10, 11, 12} : std::vector<size_t>{7, 10})
            for (size_t kind = 0; kind < 5; ++kind)
                for (size_t p = 0; p < 2 * n + n * (n - 1) / 2; ++p)
                    if (deep || n < 10 || p % 8 == kind % 8) shapes.push_back({n, kind, p});
        Space sp;
        sp.name = "dim7-and-more";
        sp.n = shapes.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const auto [n, kind, pi] = shapes[i];
            std::vector<size_t> pm(n);
            for (size_t k = 0; k < n; ++k) pm[k] = pi < n ? (k + pi) % n : pi < 2 * n ? (2 * n - k - 1 + pi) % n : k;
            if (pi >= 2 * n) {
                size_t t = pi - 2 * n, r = 0;
                while (t >= n - 1 - r) t -= n - 1 - r++;
                std::swap(pm[r], pm[r + 1 + t]);
            }
            std::vector<size_t> m(n * n, 0);
            for (size_t r = 0; r < n; ++r)
                for (size_t k = 0; k < n; ++k) {
                    if (kind == 0) m[r * n + k] = r == k ? 1 + r % 5 : 0; // diagonal
                    else if (kind == 1) m[r * n + k] = r == k ? 1 + r % 5 : k == r + 1 ? 3 : r == n - 1 && k == 0 ? 2 : 0; // cyclic band
                    else if (kind == 2) m[r * n + k] = r == k ? 6 : k == r + 1 ? 1 : 0; // bidiagonal with symbols
                    else if (kind == 3) m[r * n + k] = k >= r ? 1 + (r + 2 * k) % 5 : 0; // upper triangle
                    else m[r * n + k] = r == k || k == 0 || r == 0 ? 1 + (r + k) % 2 : 0; // arrow
                }
            m[(i * 5 + 3) % n * n + i % n] = kind == 2 ? 0 : 4;
            Problem p;
            p.n = n;
            p.id = "[";
            for (size_t r = 0; r < n; ++r)
                for (size_t k = 0; k < n; ++k) {
                    p.m.push_back(&(*V)[m[pm[r] * n + k]]);
                    p.id += (k ? " " : r ? "; " : "") + str(p.m.back()->t);
                }
            p.id += "]";
            for (size_t k = 0; k < n; ++k) p.b.push_back(&(*r12)[k]);
            check(c, p, *small, deep || i % 3 == 0);
        };
        e.add(sp);
    }
    { // every skip mask of a 6x6 problem: the same as the reduced problem, and nothing else is touched
        auto Y = st({"a", "2", "0", "1", "0", "1", "3", "1", "0", "-1", "1", "0", "1", "0", "2", "b", "0", "1", "0", "1", "-2", "1", "1", "0", "1", "0", "0", "2", "3", "1", "0", "1", "1", "0", "-1", "a"}, *small);
        auto r6 = share(mkStates(Strs{"1", "a", "b", "-2", "0", "3"}, *small));
        Space sp;
        sp.name = "skip-fields-6";
        sp.n = 64 * 2;
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const unsigned mask = i / 2;
            const tsym::Algo algo = i % 2 ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
            const size_t n = 6;
            std::vector<bool> skip(n);
            std::vector<size_t> keep;
            for (size_t k = 0; k < n; ++k) {
                skip[k] = (mask >> k) & 1;
                if (!skip[k]) keep.push_back(k);
            }
            VV A(n, std::vector<Var>(n));
            const Var mark("untouched");
            std::vector<Var> B(n), X(n, mark);
            for (size_t r = 0; r < n; ++r) {
                B[r] = (*r6)[r].v;
                for (size_t k = 0; k < n; ++k) A[r][k] = (*Y)[r * n + k].v;
            }
            VV I = A;
            c.begin("skip mask " + std::to_string(mask) + " of six" + (i % 2 ? " Gauss" : ""));
            c.transitions(3);
            bool threw = false;
            const Var det = tsym::determinant(A, skip, n, algo);
            try {
                tsym::solve(A, B, X, skip, n, algo);
                tsym::invert(I, skip, n, algo);
            } catch (const std::invalid_argument&) { threw = true; }
            bool regular = false;
            for (size_t s = 0; s < small->size(); ++s) {
                std::vector<Val> m;
                for (size_t r : keep) for (size_t k : keep) m.push_back((*Y)[r * n + k].vals[s]);
                const Val d = detRef(m, keep.size());
                if (compare(evalTree(det, (*small)[s]), d) == Cmp::DIFFERENT) { c.fail("skip", "determinant of the subproblem is " + text(det) + ", expected value " + str(d)); return; }
                c.compared();
                if (!d.num() || std::fabs(d.m) < 1e-9L) continue;
                regular = true;
                if (threw) { c.fail("skip", "regular subproblem rejected"); return; }
                for (size_t r : keep) {
                    Val lhs = rat(0);
                    for (size_t k : keep) lhs = add(lhs, mul((*Y)[r * n + k].vals[s], evalTree(X[k], (*small)[s])));
                    if (lhs.undef() || compare(lhs, (*r6)[r].vals[s]) == Cmp::DIFFERENT) { c.fail("skip", "solution of the subproblem is wrong"); return; }
                    for (size_t k : keep) {
                        Val p = rat(0);
                        for (size_t l : keep) p = add(p, mul((*Y)[r * n + l].vals[s], evalTree(I[l][k], (*small)[s])));
                        if (p.undef() || compare(p, rat(r == k)) == Cmp::DIFFERENT) { c.fail("skip", "inverse of the subproblem is wrong"); return; }
                    }
                    c.compared(1 + keep.size());
                }
            }
            if (!regular) return;
            for (size_t r = 0; r < n; ++r) {
                if (skip[r] && key(X[r]) != key(mark)) { c.fail("skip", "solution component " + std::to_string(r) + " was written although skipped"); return; }
                for (size_t k = 0; k < n; ++k)
                    if ((skip[r] || skip[k]) && key(I[r][k]) != key(A[r][k])) { c.fail("skip", "invert changed a skipped entry"); return; }
            }
        };
        e.add(sp);
    }
    { // skip fields and containers: every mask of a 4x4 problem, every container kind
        auto Y4 = st({"a", "2", "0", "1", "3", "1", "0", "-1", "1", "0", "2", "b", "0", "1", "-2", "1"}, *small);
        auto r4 = share(mkStates(Strs{"1", "a", "b", "-2"}, *small));
        Space sp;
        sp.name = "skip-fields";
        sp.n = 16 * 6;
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const unsigned mask = i % 16, kind = i / 16;
            const size_t n = 4;
            std::vector<size_t> keep;
            for (size_t k = 0; k < n; ++k) if (!((mask >> k) & 1)) keep.push_back(k);
            if (keep.empty() && kind != 99) { /* still a legal call: nothing to do */ }
            VV A(n, std::vector<Var>(n));
            std::vector<Var> B(n);
            for (size_t r = 0; r < n; ++r) {
                B[r] = (*r4)[r].v;
                for (size_t k = 0; k < n; ++k) A[r][k] = (*Y4)[r * n + k].v;
            }
            const Var mark("untouched");
            std::vector<Var> X(n, mark);
            VV I = A;
            Var det;
            c.begin("skip mask " + std::to_string(mask) + " container " + std::to_string(kind));
            c.transitions(3);
            if (kind == 0) {
                std::vector<bool> skip;
                for (size_t k = 0; k < n; ++k) skip.push_back((mask >> k) & 1);
                det = tsym::determinant(A, skip, n);
                tsym::solve(A, B, X, skip, n);
                tsym::invert(I, skip, n);
            } else if (kind == 1) {
                std::vector<bool> skip;
                for (size_t k = 0; k < n; ++k) skip.push_back((mask >> k) & 1);
                det = tsym::determinant(A, skip, static_cast<int>(n));
                tsym::solve(A, B, X, skip, static_cast<int>(n), tsym::Algo::Gauss);
                tsym::invert(I, skip, static_cast<int>(n), tsym::Algo::Gauss);
            } else if (kind == 2) { // call operators everywhere
                CallMat m{n, {}}, inv{n, {}};
                for (auto& r : A) for (auto& x : r) { m.d.push_back(x); inv.d.push_back(x); }
                CallVec b{B}, x{X};
                auto skip = [mask](size_t k) { return ((mask >> k) & 1) != 0; };
                det = tsym::determinant(m, skip, n);
                tsym::solve(m, b, x, skip, n);
                tsym::invert(inv, skip, n);
                X = x.d;
                for (size_t r = 0; r < n; ++r) for (size_t k = 0; k < n; ++k) I[r][k] = inv(r, k);
            } else if (kind == 3) { // plain arrays
                Var m[4][4], inv[4][4], b[4], x[4];
                bool skip[4];
                for (size_t r = 0; r < n; ++r) {
                    b[r] = B[r];
                    x[r] = mark;
                    skip[r] = (mask >> r) & 1;
                    for (size_t k = 0; k < n; ++k) m[r][k] = inv[r][k] = A[r][k];
                }
                det = tsym::determinant(m, skip, n);
                tsym::solve(m, b, x, skip, n);
                tsym::invert(inv, skip, n);
                for (size_t r = 0; r < n; ++r) {
                    X[r] = x[r];
                    for (size_t k = 0; k < n; ++k) I[r][k] = inv[r][k];
                }
            } else if (kind == 4) { // std::array, int skip field, unsigned dimension
                std::array<std::array<Var, 4>, 4> m, inv;
                std::array<Var, 4> b, x;
                std::array<int, 4> skip;
                for (size_t r = 0; r < n; ++r) {
                    b[r] = B[r];
                    x[r] = mark;
                    skip[r] = (mask >> r) & 1;
                    for (size_t k = 0; k < n; ++k) m[r][k] = inv[r][k] = A[r][k];
                }
                det = tsym::determinant(m, skip, 4u);
                tsym::solve(m, b, x, skip, 4u);
                tsym::invert(inv, skip, 4u);
                for (size_t r = 0; r < n; ++r) {
                    X[r] = x[r];
                    for (size_t k = 0; k < n; ++k) I[r][k] = inv[r][k];
                }
            } else { // no skip field at all: the reduced problem passed explicitly
                VV R(keep.size(), std::vector<Var>(keep.size())), RI;
                std::vector<Var> b, x(keep.size());
                for (size_t r = 0; r < keep.size(); ++r) {
                    b.push_back(B[keep[r]]);
                    for (size_t k = 0; k < keep.size(); ++k) R[r][k] = A[keep[r]][keep[k]];
                }
                RI = R;
                det = tsym::determinant(R, keep.size());
                tsym::solve(R, b, x, keep.size());
                tsym::invert(RI, keep.size());
                for (size_t r = 0; r < keep.size(); ++r) {
                    X[keep[r]] = x[r];
                    for (size_t k = 0; k < keep.size(); ++k) I[keep[r]][keep[k]] = RI[r][k];
                }
            }
            for (size_t r = 0; r < n; ++r) {
                if (((mask >> r) & 1) && key(X[r]) != key(mark)) { c.fail("skip", "solution component " + std::to_string(r) + " was written although skipped"); return; }
                for (size_t k = 0; k < n; ++k)
                    if ((((mask >> r) | (mask >> k)) & 1) && key(I[r][k]) != key(A[r][k])) { c.fail("skip", "invert changed a skipped entry"); return; }
            }
            for (size_t s = 0; s < small->size(); ++s) {
                std::vector<Val> m;
                for (size_t r : keep) for (size_t k : keep) m.push_back((*Y4)[r * n + k].vals[s]);
                const Val d = detRef(m, keep.size());
                if (compare(evalTree(det, (*small)[s]), d) == Cmp::DIFFERENT) { c.fail("skip", "determinant of the subproblem is " + text(det) + ", expected value " + str(d)); return; }
                if (!d.num() || std::fabs(d.m) < 1e-9L) continue;
                for (size_t r : keep) {
                    Val lhs = rat(0);
                    for (size_t k : keep) lhs = add(lhs, mul((*Y4)[r * n + k].vals[s], evalTree(X[k], (*small)[s])));
                    if (lhs.undef() || compare(lhs, (*r4)[r].vals[s]) == Cmp::DIFFERENT) { c.fail("skip", "solution of the subproblem is wrong"); return; }
                    for (size_t k : keep) {
                        Val p = rat(0);
                        for (size_t l : keep) p = add(p, mul((*Y4)[r * n + l].vals[s], evalTree(I[l][k], (*small)[s])));
                        if (p.undef() || compare(p, rat(r == k)) == Cmp::DIFFERENT) { c.fail("skip", "inverse of the subproblem is wrong"); return; }
                    }
                    c.compared(1 + keep.size());
                }
            }
        };
        e.add(sp);
    }
}
