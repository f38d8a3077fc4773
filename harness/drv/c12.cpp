// C12: the result of an operation does not depend on what was computed before, and expressions never change.
// Every history runs in a process forked from a parent that has not computed anything yet.
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C12";

namespace {
struct Operation {
    std::string name;
    std::function<std::string()> run; // observation
};
// World: which symbols are declared positive.
Var buildW(const T& t, bool positive)
{
    if (t->op == Op::LEAF) return positive && t->leaf.size() == 1 && t->leaf >= "a" && t->leaf <= "d" ? Var(t->leaf, Var::Sign::POSITIVE) : leafVar(t->leaf);
    return t->y ? applyOp(t->op, buildW(t->x, positive), buildW(t->y, positive)) : applyOp(t->op, buildW(t->x, positive));
}
std::string observe(const Var& v)
{
    std::string s = key(v) + " " + text(v);
    if (!isUndef(v)) {
        s += " c" + std::to_string(tsym::complexity(v));
        s += tsym::isPositive(v) ? "+" : tsym::isNegative(v) ? "-" : "?";
        for (auto& x : tsym::collectSymbols(v)) s += " " + tsym::name(x);
    }
    return s;
}
std::vector<Operation> operations(bool deep)
{
    std::vector<Operation> out;
    auto term = [&](const std::string& t, bool pos) {
        out.push_back({(pos ? "pos:" : "") + t, [t, pos] { return observe(buildW(parseTerm(t), pos)); }});
    };
    const Strs forms{
      "(* a (+ a b))", "(^ (+ a b) 2)", "(^ (+ a b) 3)", "(* (+ a b) (- a b))", "(/ (- (^ a 2) (^ b 2)) (+ a b))", "(/ (+ a b) (- (^ a 2) (^ b 2)))",
      "(+ (/ a b) (/ b a))", "(+ (/ 1 a) (/ 1 b))", "(/ (+ (* a b) a) (+ (* b b) b))", "(sqrt (* a b))", "(sqrt (^ a 2))", "(* (sqrt a) (sqrt b))", "(^ (* a b) 1/3)",
      "(^ (^ a 2) 1/2)", "(log (* a b))", "(log (^ a 2))", "(sqrt (+ (* a b) (* a c)))", "(/ (+ (sin a) (log b)) (- (log b) (sin a)))", "(/ (- (log a) (log b)) (- (sqrt a) (sqrt b)))",
      "(/ (- (^ (log a) 2) (^ (log b) 2)) (- (log a) (log b)))", "(/ (* a (sin b)) (* (sin b) (cos c)))", "(+ (* a (^ b -1)) (* b (^ a -1)) (log c))",
      "(/ (- (^ a 3) (^ b 3)) (- a b))", "(/ (- (^ a 2) 1) (+ a 1))", "(* (+ a 1) (+ b 1) (+ c 1))", "(atan2 a b)", "(atan2 (* a b) (* b b))", "(sin (+ a pi))",
      "(/ 1 (+ 1 (/ 1 a)))", "(^ (/ a b) c)", "(* (^ a b) (^ a c))", "(+ (* 2 (sqrt 2)) (* a (sqrt 8)))", "(/ (+ (sqrt 2) a) (+ (sqrt 3) a))", "(* 2 (^ 12 1/2) (^ 18 1/3))",
      "(+ (* D1.23456789 a) b)", "(/ a (+ pi e))", "(- (/ (sin a) (cos a)) (tan a))", "(log (/ (+ a b) (+ (* a c) (* b c))))", "(+ a b c d)", "(* a b c d)"};
    const Strs ops{"expand", "normal", "simplify", "numerator", "denominator"};
    for (auto& f : forms)
        for (bool pos : {false, true}) {
            term(f, pos);
            for (auto& o : ops)
                if (deep || o == "expand" || o == "normal" || (o == "simplify" && !pos) || (o == "denominator" && pos)) term("(" + o + " " + f + ")", pos);
            if (deep || !pos) out.push_back({"diff " + f + (pos ? " pos" : ""), [f, pos] { return observe(tsym::diff(buildW(parseTerm(f), pos), buildW(leaf("a"), pos))); }});
            if (deep || pos) out.push_back({"diff " + f + " by b" + (pos ? " pos" : ""), [f, pos] { return observe(tsym::diff(buildW(parseTerm(f), pos), buildW(leaf("b"), pos))); }});
            if (deep || pos) out.push_back({"subst a=b+1 " + f + (pos ? " pos" : ""), [f, pos] { return observe(tsym::subst(buildW(parseTerm(f), pos), buildW(leaf("a"), pos), buildW(parseTerm("(+ b 1)"), pos))); }});
        }
    // symbols of the same name, one of them positive, in one expression
    for (auto f : {"(+ (^ a 2) a')", "(* a a')", "(^ (+ a a') 2)", "(/ (+ a a') (+ (^ a 2) (* a a')))", "(^ a' a)", "(sin (+ a a'))", "(sqrt (* a a'))", "(atan2 a a')", "(log (* a a' a_1'))", "(+ (* a_1 a') (* a_1' a))"}) {
        const std::string t = f;
        term(t, false);
        for (auto o : {"expand", "normal", "simplify"}) term("(" + std::string(o) + " " + t + ")", false);
        for (auto s : {"a", "a'", "a_1'"}) {
            const std::string sym = s;
            out.push_back({"diff " + t + " by " + sym, [t, sym] { return observe(tsym::diff(build(parseTerm(t)), leafVar(sym))); }});
            out.push_back({"subst " + t + " " + sym + "=2", [t, sym] { return observe(tsym::subst(build(parseTerm(t)), leafVar(sym), Var(2))); }});
        }
    }
    const Strs others{"(- a b)", "(- b a)", "(/ a b)", "(/ b a)", "(* a b)", "(+ a b)", "(* -1 a)", "(^ a -1)", "(^ 2 1/2)", "(^ 1/2 1/2)", "(^ 8 2/3)", "(^ 30 1/2)", "1000000007", "1/3", "(^ 2 100)", "(sin (/ pi 12))",
      "(cos (/ pi 12))", "(tan (/ pi 8))", "(acos 1/2)", "(asin (/ (sqrt 2) 2))", "(log 8)", "(/ 1 0)", "(log -1)", "(^ 0 0)", "(* a_1 a_2)", "(* aa a)", "(* D0.5 a)", "(+ D1.1 D2.2)", "(* D3.33333333333333 a)", "(* D3.33333333333334 a)"};
    for (auto& f : others) term(f, false);
    for (auto s : {"a*b^2 - 3", "2*(a + b", "sin(a)/cos(a)", "a/b/c", "1.5e3", "a b", "sqrt(2)*pi", "", "-a^2"})
        out.push_back({std::string("parse ") + s, [s] { auto r = tsym::parse(s); return r ? observe(*r) : std::string("no result"); }});
    for (auto s : {"a", "alpha_{12}", "a_b", "7", "12345678901234567890", "a+b", "_x"})
        out.push_back({std::string("name ") + s, [s] { return observe(Var(s)); }});
    for (auto s : {"(* alpha (^ beta -1))", "(/ (+ a 1) (sqrt b))", "(* D1.5 a)", "(neg (^ a 1/3))"})
        out.push_back({std::string("unicode ") + s, [s] {
            std::ostringstream os;
            tsym::PlaintextPrintEngine eng(os, tsym::PlaintextPrintEngine::CharSet::UNICODE);
            tsym::print(eng, build(parseTerm(s)));
            return os.str();
        }});
    out.push_back({"int of a", [] { try { return std::to_string(int(Var("a"))); } catch (const std::domain_error&) { return std::string("domain"); } }});
    out.push_back({"int of big", [] { try { return std::to_string(int(Var("123456789012"))); } catch (const std::overflow_error&) { return std::string("overflow"); } }});
    out.push_back({"int of 42", [] { return std::to_string(int(Var(42))); }});
    out.push_back({"double of 1/3", [] { return std::to_string(double(Var(1, 3))); }});
    out.push_back({"print precision", [] { std::ostringstream os; os.precision(3); os << Var(3.14159265) << ' ' << 2.718281828; return os.str(); }});
    auto M = [](const Strs& e, bool inverse) {
        std::vector<std::vector<Var>> A(2);
        for (int i = 0; i < 4; ++i) A[i / 2].push_back(build(parseTerm(e[i])));
        std::string s;
        try {
            if (inverse) {
                tsym::invert(A, 2);
                for (auto& r : A) for (auto& x : r) s += observe(x) + ";";
            } else {
                std::vector<Var> b{Var("c"), Var(1)}, x(2);
                tsym::solve(A, b, x, 2);
                for (auto& y : x) s += observe(y) + ";";
            }
            s += observe(tsym::determinant(A, 2));
        } catch (const std::exception& ex) { s += std::string("exception ") + ex.what(); }
        return s;
    };
    for (auto& e : std::vector<Strs>{{"a", "b", "c", "d"}, {"1", "2", "3", "4"}, {"a", "1", "(* 2 a)", "2"}, {"0", "a", "b", "0"}, {"(sqrt 2)", "a", "1", "(sqrt 3)"}})
        for (bool inv : {false, true}) out.push_back({std::string(inv ? "invert " : "solve ") + e[0] + " " + e[1] + " " + e[2] + " " + e[3], [=] { return M(e, inv); }});
    return out;
}
constexpr size_t BUF = 1 << 16;
std::string guarded(const Operation& o)
{
    try { return o.run(); }
    catch (const std::exception& e) { return std::string("exception ") + e.what(); }
}
// Runs f in a forked process and returns what it wrote.
template <class F> std::string forked(char* buf, F&& f)
{
    buf[0] = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("harness: fork failed");
    if (pid == 0) {
        const std::string s = f();
        const size_t n = std::min(s.size(), BUF - 1);
        std::memcpy(buf, s.data(), n);
        buf[n] = 0;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) return std::string("terminated by signal ") + strsignal(WTERMSIG(st));
    return buf;
}
char* shm()
{
    void* p = mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return static_cast<char*>(p);
}
bool expect(Ctx& c, const std::string& history, const Operation& o, const std::string& got, const std::string& want)
{
    c.compared();
    c.transitions();
    c.outcome(got);
    if (got == want) return true;
    c.begin(o.name + " after " + history);
    c.fail("history", "gives " + got.substr(0, 1000) + ", in a fresh process " + want.substr(0, 1000), got.substr(0, 200));
    return false;
}
}

void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto ops = std::make_shared<std::vector<Operation>>(operations(deep));
    auto fresh = std::make_shared<std::vector<std::string>>();
    {
        char* buf = shm();
        for (auto& o : *ops) fresh->push_back(forked(buf, [&] { return guarded(o); }));
        munmap(buf, BUF);
    }
    e.note("operations", std::to_string(ops->size()));
    { // every operation after every other one (and after itself)
        Space sp;
        sp.name = "pairs";
        sp.n = ops->size();
        sp.chunk = 1;
        sp.caseLimit = 120;
        sp.run = [=](uint64_t i, Ctx& c) {
            c.begin("after " + (*ops)[i].name);
            char* buf = shm();
            const std::string first = guarded((*ops)[i]); // case process: forked from the pristine parent
            expect(c, "nothing", (*ops)[i], first, (*fresh)[i]);
            for (size_t j = 0; j < ops->size(); ++j) {
                expect(c, (*ops)[i].name, (*ops)[j], forked(buf, [&] { return guarded((*ops)[j]); }), (*fresh)[j]);
                c.state((*ops)[i].name + ";" + (*ops)[j].name);
            }
            munmap(buf, BUF);
        };
        e.add(sp);
    }
    { // all histories of three operations over a part of the alphabet
        auto sel = std::make_shared<std::vector<size_t>>();
        const size_t want = deep ? 64 : 34;
        for (size_t k = 0; k < want; ++k) sel->push_back(k * ops->size() / want);
        Space sp;
        sp.name = "triples";
        sp.n = sel->size() * sel->size();
        sp.chunk = 1;
        sp.caseLimit = 120;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Operation &o1 = (*ops)[(*sel)[i / sel->size()]], &o2 = (*ops)[(*sel)[i % sel->size()]];
            c.begin("after " + o1.name + ", " + o2.name);
            char* buf = shm();
            guarded(o1);
            guarded(o2);
            for (size_t k : *sel) {
                expect(c, o1.name + ", " + o2.name, (*ops)[k], forked(buf, [&] { return guarded((*ops)[k]); }), (*fresh)[k]);
                c.state(o1.name + ";" + o2.name + ";" + (*ops)[k].name);
            }
            munmap(buf, BUF);
        };
        e.add(sp);
    }
    { // long histories: the whole alphabet from every starting point, in both directions, everything kept alive by the caches
        Space sp;
        sp.name = "long-histories";
        sp.n = ops->size() * 2;
        sp.chunk = 1;
        sp.caseLimit = 120;
        sp.run = [=](uint64_t i, Ctx& c) {
            const size_t n = ops->size(), start = i / 2;
            c.begin("all operations from " + (*ops)[start].name);
            for (size_t k = 0; k < n; ++k) {
                const size_t j = i % 2 ? (start + n - k) % n : (start + k) % n;
                if (!expect(c, std::string(i % 2 ? "going backwards from " : "going forward from ") + (*ops)[start].name, (*ops)[j], guarded((*ops)[j]), (*fresh)[j])) break;
            }
        };
        e.add(sp);
    }
    { // histories of growing length: k different expressions normalised (expanded, differentiated) before
        Space sp;
        sp.name = "growing-histories";
        const unsigned K = deep ? 120 : 40;
        sp.n = K * 3;
        sp.chunk = 1;
        sp.caseLimit = 120;
        sp.run = [=](uint64_t i, Ctx& c) {
            const unsigned k = i % K, kind = i / K;
            static const char* const kinds[] = {"normalised", "powers simplified", "expanded"};
            const std::string what = std::to_string(k) + " expressions " + kinds[kind];
            c.begin("after " + what);
            for (unsigned j = 0; j < k; ++j) {
                const std::string x = "x" + std::to_string(j);
                if (kind == 0) tsym::normal(build(parseTerm("(/ (+ (sin " + x + ") (log a)) (+ (log a) " + std::to_string(j + 2) + "))")));
                else if (kind == 1) build(parseTerm("(* (^ (* 3 (sqrt " + std::to_string(2 * j + 3) + ") " + x + " pi) 1/3) (^ (+ a " + x + ") b))"));
                else tsym::expand(build(parseTerm("(* (+ a " + x + ") (^ (+ b (sin " + x + ")) 2))")));
            }
            char* buf = shm();
            for (size_t j = 0; j < ops->size(); ++j) expect(c, what, (*ops)[j], forked(buf, [&] { return guarded((*ops)[j]); }), (*fresh)[j]);
            c.state(what);
            munmap(buf, BUF);
        };
        e.add(sp);
    }
    { // expressions are immutable values
        auto S = std::make_shared<Samples>();
        Space sp;
        sp.name = "immutable-operands";
        const Strs atoms{"a", "b", "p", "2", "-1/2", "(sqrt 2)", "(+ a b)", "(* 2 a)", "pi", "(sin a)", "(log p)", "(^ a b)", "D1.2345678", "(- a 1)", "(/ 1 b)"};
        // closure as terms only: nothing is computed in the parent
        auto terms = std::make_shared<std::vector<T>>();
        for (auto& x : atoms) terms->push_back(parseTerm(x));
        for (auto& x : atoms) for (auto& y : atoms) for (auto o : {"+", "*", "/", "^"}) terms->push_back(parseTerm("(" + std::string(o) + " " + x + " " + y + ")"));
        sp.n = terms->size();
        sp.chunk = 16;
        sp.run = [=](uint64_t i, Ctx& c) {
            const T t = (*terms)[i];
            c.begin(str(t));
            const Var x = build(t), y = build(parseTerm("(+ (* 2 a) (sqrt b))")), z = build(t);
            const std::string kx = observe(x), ky = observe(y);
            if (isUndef(x)) return;
            c.state(kx);
            const auto parts = tsym::operands(x);
            Strs kp;
            for (auto& o : parts) kp.push_back(observe(o));
            const size_t h = std::hash<Var>{}(x);
            auto unchanged = [&](const std::string& what) {
                c.transitions();
                c.compared(2);
                bool ok = observe(x) == kx && observe(y) == ky && std::hash<Var>{}(x) == h && x == z;
                for (size_t k = 0; k < parts.size(); ++k) ok = ok && observe(parts[k]) == kp[k];
                if (!ok) c.fail("mutated", what + " changed one of its operands: " + text(x) + ", " + text(y));
            };
            for (Op op : {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW, Op::ATAN2}) {
                applyOp(op, x, y);
                unchanged(opName(op));
                applyOp(op, y, x);
                unchanged(opName(op));
            }
            for (Op op : {Op::NEG, Op::SQRT, Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::EXPAND, Op::NORMAL, Op::SIMPLIFY, Op::NUMER, Op::DENOM}) {
                applyOp(op, x);
                unchanged(opName(op));
            }
            tsym::diff(x, Var("a"));
            unchanged("diff");
            tsym::subst(x, Var("a"), y);
            unchanged("subst");
            (void)(x == y);
            // in-place operators: same result as the binary ones, copies keep their value, also when both sides are the same object
            struct InPlace { const char* n; Var (*bin)(Var, const Var&); Var& (Var::*in)(const Var&); };
            const InPlace in[] = {{"+=", tsym::operator+, &Var::operator+=}, {"-=", tsym::operator-, &Var::operator-=}, {"*=", tsym::operator*, &Var::operator*=}, {"/=", tsym::operator/, &Var::operator/=}};
            for (auto& p : in) {
                Var w = x, copy = w;
                Var& ref = (w.*p.in)(y);
                if (&ref != &w || key(w) != key(p.bin(x, y)) || key(copy) != key(x)) c.fail("in-place", std::string(p.n) + " differs from the binary operator or changes a copy: " + text(w) + ", copy " + text(copy), text(w));
                unchanged(p.n);
                Var s = x;
                (s.*p.in)(s);
                if (key(s) != key(p.bin(x, x))) c.fail("in-place", std::string("x ") + p.n + " x gives " + text(s) + ", expected " + text(p.bin(x, x)), text(s));
                unchanged(std::string(p.n) + " with itself");
            }
            Var v = x;
            v = *&v;
            std::swap(v, *std::make_unique<Var>(y));
            if (key(v) != key(y)) c.fail("in-place", "swap of two variables lost a value");
            v = x;
            Var moved = std::move(v);
            v = y;
            if (key(moved) != key(x) || key(v) != key(y)) c.fail("in-place", "moving or assigning lost a value");
            unchanged("assignment");
            Var neg = -x, pos = +x;
            if (key(pos) != kx.substr(0, kx.find(' '))) c.fail("in-place", "+x differs from x");
            unchanged("sign");
        };
        e.add(sp);
    }
}
