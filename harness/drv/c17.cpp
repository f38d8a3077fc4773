// C17: a failing operation leaves no trace. Fault enumeration: every allocation, every log message and every call of a
// user's print engine made during an operation is made to fail in turn, each in a process of its own; afterwards the
// operation is repeated, all existing expressions are looked at again and a set of probes is run.
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <new>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C17";

namespace {
long failAt = 0;        // 0: off, n: the n-th allocation from now on fails
bool persistent = false; // all further ones fail too
long allocations = 0;   // counted while the window is open
bool window = false;
bool fault()
{
    if (!window) return false;
    ++allocations;
    return failAt && (persistent ? allocations >= failAt : allocations == failAt);
}
}
__attribute__((noinline)) void* operator new(std::size_t n)
{
    if (fault()) throw std::bad_alloc();
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
__attribute__((noinline)) void* operator new[](std::size_t n) { return operator new(n); }
__attribute__((noinline)) void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fault() ? nullptr : std::malloc(n ? n : 1); }
__attribute__((noinline)) void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fault() ? nullptr : std::malloc(n ? n : 1); }
__attribute__((noinline)) void operator delete(void* p) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete(void* p, std::size_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace {
struct Injected : std::exception {
    const char* what() const noexcept override { return "injected"; }
};
long logFailAt = 0, messages = 0;
class FaultyLogger : public tsym::Logger {
    void count() const
    {
        if (window && ++messages == logFailAt) throw Injected();
    }
    void debug(const Message&) const override { count(); }
    void info(const Message&) const override { count(); }
    void warning(const Message&) const override { count(); }
    void error(const Message&) const override { count(); }
    void critical(const Message&) const override { count(); }
};
// Print engine without allocations of its own.
struct CountingEngine : tsym::PrintEngine {
    uint64_t h = 1469598103934665603ull;
    long calls = 0, failAtCall = 0;
    PrintEngine& note(const char* k, std::string_view s = {})
    {
        if (++calls == failAtCall) throw Injected();
        for (const char* p = k; *p; ++p) h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
        for (char x : s) h = (h ^ static_cast<unsigned char>(x)) * 1099511628211ull;
        return *this;
    }
    PrintEngine& symbol(std::string_view n, std::string_view s, std::string_view u) override { note("s", n); note("_", s); return note("^", u); }
    PrintEngine& positiveSymbol(std::string_view n, std::string_view s, std::string_view u) override { note("p", n); note("_", s); return note("^", u); }
    PrintEngine& functionName(std::string_view n) override { return note("f", n); }
    PrintEngine& floatingPoint(double d) override { char b[40]; snprintf(b, sizeof b, "%.15g", d); return note("d", b); }
    PrintEngine& integer(long long n) override { char b[40]; snprintf(b, sizeof b, "%lld", n); return note("i", b); }
    PrintEngine& integer(std::string_view n) override { return note("i", n); }
    PrintEngine& undefined() override { return note("U"); }
    PrintEngine& plusSign() override { return note("+"); }
    PrintEngine& minusSign() override { return note("-"); }
    PrintEngine& unaryMinusSign() override { return note("~"); }
    PrintEngine& timesSign() override { return note("*"); }
    PrintEngine& divisionSign() override { return note("/"); }
    PrintEngine& comma() override { return note(","); }
    PrintEngine& openNumerator(bool b) override { return note(b ? "N1" : "N0"); }
    PrintEngine& closeNumerator(bool b) override { return note(b ? "n1" : "n0"); }
    PrintEngine& openDenominator(bool b) override { return note(b ? "D1" : "D0"); }
    PrintEngine& closeDenominator(bool b) override { return note(b ? "d1" : "d0"); }
    PrintEngine& openScalarExponent() override { return note("E"); }
    PrintEngine& closeScalarExponent() override { return note("e"); }
    PrintEngine& openCompositeExponent() override { return note("X"); }
    PrintEngine& closeCompositeExponent() override { return note("x"); }
    PrintEngine& openSquareRoot() override { return note("Q"); }
    PrintEngine& closeSquareRoot() override { return note("q"); }
    PrintEngine& openParentheses() override { return note("("); }
    PrintEngine& closeParentheses() override { return note(")"); }
};

using Vars = std::vector<Var>;
// An operation: operands (built before the fault window, or within it for cold histories), the call, in the window.
struct Operation {
    std::string name;
    std::vector<T> operands;
    std::function<void(const Vars& in, Vars& out)> call;
};
std::string observe(const Var& v)
{
    std::string s = key(v) + " " + text(v);
    if (!isUndef(v)) {
        s += " c" + std::to_string(tsym::complexity(v)) + " h" + std::to_string(std::hash<Var>{}(v));
        s += tsym::isPositive(v) ? "+" : tsym::isNegative(v) ? "-" : "?";
    }
    return s;
}
std::string observe(const Vars& v)
{
    std::string s;
    for (auto& x : v) s += observe(x) + ";";
    return s;
}
Operation term(const T& t)
{
    if (t->op == Op::LEAF) return {str(t), {}, [t](const Vars&, Vars& out) { out.push_back(leafVar(t->leaf)); }};
    const Op op = t->op;
    if (t->y) return {str(t), {t->x, t->y}, [op](const Vars& in, Vars& out) { out.push_back(applyOp(op, in[0], in[1])); }};
    return {str(t), {t->x}, [op](const Vars& in, Vars& out) { out.push_back(applyOp(op, in[0])); }};
}
std::vector<T> terms(const Strs& s)
{
    std::vector<T> r;
    for (auto& x : s) r.push_back(parseTerm(x));
    return r;
}
std::vector<Operation> operations(bool deep)
{
    std::vector<Operation> out;
    const Strs small = deep ? Strs{"a", "p", "2", "-2/3", "(sqrt 2)", "pi", "(+ a b)", "(* 2 a)", "(^ a b)", "(sin a)", "(log p)", "(^ 12 1/3)", "D1.23456789", "(/ 1 b)"}
                            : Strs{"a", "2", "-2/3", "(sqrt 2)", "(+ a b)", "(^ a b)", "(sin a)", "(/ 1 p)"};
    for (auto& x : small)
        for (auto& y : small)
            for (auto o : {"+", "*", "/", "^"}) out.push_back(term(parseTerm("(" + std::string(o) + " " + x + " " + y + ")")));
    const Strs forms{"(* (+ a b) (- a b))", "(^ (+ a b) 3)", "(/ (- (^ a 2) (^ b 2)) (+ a b))", "(+ (/ a b) (/ b a))", "(/ (+ (sin a) (log b)) (- (log b) (sin a)))", "(sqrt (+ (* a b) (* a c)))",
      "(/ (- (^ (log a) 2) (^ (log b) 2)) (- (log a) (log b)))", "(^ (/ a b) c)", "(* 2 (^ 12 1/2) (^ 18 1/3))", "(+ (* D1.23456789 a) b)", "(/ 1 (+ 1 (/ 1 a)))", "(* (^ p b) (^ p c))", "(atan2 (* a b) (* b b))",
      "(tan (* 2 (+ a 1)))", "(^ (+ 1 (sqrt 2)) 4)", "(* (+ a 1) (+ b 1) (+ c 1))", "(sqrt (^ (* a b) 2))", "(/ (* a (sin b)) (* (sin b) (cos c)))"};
    for (auto& f : forms) {
        for (auto o : {"expand", "normal", "simplify", "numerator", "denominator", "sin", "log", "sqrt", "neg"}) out.push_back(term(parseTerm("(" + std::string(o) + " " + f + ")")));
        out.push_back({"diff " + f, terms({f, "a"}), [](const Vars& in, Vars& o) { o.push_back(tsym::diff(in[0], in[1])); }});
        out.push_back({"subst " + f, terms({f, "a", "(+ b 1)"}), [](const Vars& in, Vars& o) { o.push_back(tsym::subst(in[0], in[1], in[2])); }});
        out.push_back({"queries " + f, terms({f, "a"}), [](const Vars& in, Vars& o) {
            o.push_back(Var(tsym::has(in[0], in[1]) + 2 * tsym::isPositive(in[0]) + 4 * tsym::isNegative(in[0])));
            o.push_back(Var(int(tsym::complexity(in[0]))));
            for (auto& x : tsym::operands(in[0])) o.push_back(x);
            for (auto& x : tsym::collectSymbols(in[0])) o.push_back(x);
            o.push_back(Var(int(tsym::name(in[0]).size())));
            o.push_back(Var(int(std::hash<Var>{}(in[0]) % 1000)));
        }});
        out.push_back({"print " + f, terms({f}), [](const Vars& in, Vars& o) {
            CountingEngine e;
            tsym::print(e, in[0]);
            o.push_back(Var(int(e.h % 1000000007)));
        }});
    }
    for (auto f : {"(sin (/ pi 12))", "(cos (/ pi 8))", "(tan (* 5/12 pi))", "(asin (/ (sqrt 2) 2))", "(acos -1/2)", "(atan (sqrt 3))", "(atan2 1 -1)", "(log (^ e 3))", "(/ 1 0)", "(log -1)", "(sqrt -2)", "(tan (/ pi 2))", "(asin 2)", "(sin (asin a))", "(cos (atan a))", "(^ 0 -1)", "(+ (^ (sin a) 2) (^ (cos a) 2))", "(* (sin a) (^ (cos a) -1))", "(+ 1000000007 1/998244353)", "(^ 7/3 40)"})
        out.push_back(term(parseTerm(f)));
    // operations that report something on the way
    for (auto f : {"(normal (/ 1 (- (^ (+ a b) 2) (+ (^ a 2) (* 2 a b) (^ b 2)))))", "(simplify (/ a (- (* a (+ b 1)) (* a b) a)))", "(log (- 1 (sqrt 2)))", "(sqrt (log 1/2))", "(atan2 0 (- a a))", "(normal (log (/ (+ a b) (- a a))))", "(^ (- a a) -2)",
           "(simplify (+ (* a b) (* 2 a b) (/ a b)))", "(/ (sin a) (- (sin pi) 0))", "(+ (/ 1 0) a)", "(normal (/ (+ a D1.23456789) (+ b D2.3456789)))", "(tan (asin 1))", "(expand (* (+ a (log -1)) b))"})
        out.push_back(term(parseTerm(f)));
    out.push_back({"diff by 2", terms({"(+ a b)", "2"}), [](const Vars& in, Vars& o) { o.push_back(tsym::diff(in[0], in[1])); }});
    out.push_back({"diff by sum", terms({"(+ a b)", "(+ a b)"}), [](const Vars& in, Vars& o) { o.push_back(tsym::diff(in[0], in[1])); }});
    out.push_back({"subst into denominator", terms({"(/ (sin b) (* a (+ b 1)))", "a", "0"}), [](const Vars& in, Vars& o) { o.push_back(tsym::subst(in[0], in[1], in[2])); }});
    out.push_back({"Var(1, 0)", {}, [](const Vars&, Vars& o) { o.push_back(Var(1, 0)); }});
    for (auto s : {"a*b^2 - 3", "2*(a + b", "sin(a)/cos(a)", "atan2(a, -b)*1.5e3", "sqrt(2)*pi^12345678901234567890123", "a_{xyz}", "?"})
        out.push_back({std::string("parse ") + s, {}, [s](const Vars&, Vars& o) { if (auto r = tsym::parse(s)) o.push_back(*r); }});
    for (auto s : {"a", "alpha_{12}", "new_b", "12345678901234567890", "a+b", "_x"}) {
        out.push_back({std::string("name ") + s, {}, [s](const Vars&, Vars& o) { o.push_back(Var(s)); }});
        out.push_back({std::string("positive name ") + s, {}, [s](const Vars&, Vars& o) { o.push_back(Var(s, Var::Sign::POSITIVE)); }});
    }
    out.push_back({"constants", {}, [](const Vars&, Vars& o) { o.push_back(Var()); o.push_back(tsym::pi()); o.push_back(tsym::euler()); o.push_back(Var(0.25)); o.push_back(Var(1e300)); o.push_back(Var(6, -4)); }});
    // in-place operators; the target is also observed after a failure
    for (auto& p : {std::make_pair("(+ a b)", "(- a b)"), std::make_pair("(sqrt 2)", "(sqrt 8)"), std::make_pair("(* 2 a)", "(/ b a)")}) {
        out.push_back({std::string("+= ") + p.first, terms({p.first, p.second}), [](const Vars& in, Vars& o) { o.push_back(in[0]); o.back() += in[1]; }});
        out.push_back({std::string("*= ") + p.first, terms({p.first, p.second}), [](const Vars& in, Vars& o) { o.push_back(in[0]); o.back() *= in[1]; }});
        out.push_back({std::string("-= ") + p.first, terms({p.first, p.second}), [](const Vars& in, Vars& o) { o.push_back(in[0]); o.back() -= in[1]; }});
        out.push_back({std::string("/= ") + p.first, terms({p.first, p.second}), [](const Vars& in, Vars& o) { o.push_back(in[0]); o.back() /= in[1]; }});
    }
    auto matrix = [](const Vars& in) { std::vector<Vars> A(2); for (int i = 0; i < 4; ++i) A[i / 2].push_back(in[i]); return A; };
    for (auto& m : std::vector<Strs>{{"a", "b", "c", "d"}, {"0", "a", "b", "0"}, {"a", "1", "(* 2 a)", "2"}, {"(sqrt 2)", "a", "1", "3"}}) {
        const std::string n = m[0] + " " + m[1] + " " + m[2] + " " + m[3];
        out.push_back({"solve " + n, terms(m), [matrix](const Vars& in, Vars& o) {
            auto A = matrix(in);
            Vars b{in[0], in[3]}, x(2);
            try { tsym::solve(A, b, x, 2); } catch (const std::invalid_argument&) { o.push_back(Var(-1)); return; }
            o = x;
        }});
        out.push_back({"invert " + n, terms(m), [matrix](const Vars& in, Vars& o) {
            auto A = matrix(in);
            try { tsym::invert(A, 2); } catch (const std::invalid_argument&) { o.push_back(Var(-1)); return; }
            for (auto& r : A) for (auto& x : r) o.push_back(x);
        }});
        out.push_back({"determinant " + n, terms(m), [matrix](const Vars& in, Vars& o) { o.push_back(tsym::determinant(matrix(in), 2)); }});
    }
    if (deep)
        for (auto& f : forms)
            for (auto& g : forms)
                for (auto o : {"+", "*", "/"}) out.push_back(term(parseTerm("(normal (" + std::string(o) + " " + f + " " + g + "))")));
    return out;
}
constexpr size_t BUF = 1 << 17;
char* shm() { return static_cast<char*>(mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
template <class F> std::string forked(char* buf, F&& f)
{
    buf[0] = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("harness: fork failed");
    if (pid == 0) {
        alarm(40);
        const std::string s = f();
        const size_t n = std::min(s.size(), BUF - 1);
        std::memcpy(buf, s.data(), n);
        buf[n] = 0;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) return std::string("!terminated by signal ") + strsignal(WTERMSIG(st));
    if (WEXITSTATUS(st)) return "!process exited";
    return buf;
}
Vars buildAll(const Operation& o)
{
    Vars in;
    for (auto& t : o.operands) in.push_back(build(t));
    return in;
}
// Probes: a mix of operations that use the library's caches, pools and function-local statics.
std::string probes()
{
    std::string s;
    static const std::vector<T> ts = terms({"(normal (/ (+ (sin a) (log b)) (- (log b) (sin a))))", "(expand (* (+ a b) (^ (- a c) 2)))", "(* (^ 12 1/2) (^ 18 1/3))", "(simplify (/ (- (^ a 2) (^ b 2)) (+ a b)))",
      "(* (sin a) (^ (cos a) -1))", "(sin (/ pi 12))", "(^ (* p q) 1/2)", "(/ 1 0)"});
    for (auto& t : ts) s += observe(build(t)) + "|";
    s += observe(tsym::diff(build(parseTerm("(/ (sin (* a b)) (+ a 1))")), Var("a")));
    if (auto r = tsym::parse("a*b^2 - 3/alpha_1")) s += observe(*r);
    return s;
}
struct Reference {
    std::string result, operands, probe;
    long allocs = 0, cold = 0, msgs = 0;
};
const Strs witnesses{"(+ a (* 2 b))", "(^ (* a b) 1/3)", "(sin (+ a b))", "(* 3 (sqrt 2) p)", "(/ (+ a 1) (- b c))"};
}

void driver(Engine& e)
{
    const bool deep = e.thorough();
    tsym::Logger::setInstance(std::make_unique<const FaultyLogger>());
    auto ops = std::make_shared<std::vector<Operation>>(operations(deep));
    e.note("operations", std::to_string(ops->size()));
    const std::vector<T> wit = terms(witnesses);
    // The run of one history. mode 0: allocation fails during the call; 1: also while the operands are built, nothing computed before;
    // 2: the n-th log message fails; 3: all allocations from the n-th on fail during the call.
    enum Mode { CALL, COLD, LOG, OUT_OF_MEMORY };
    auto reference = [=](const Operation& o, char* buf) {
        Reference r;
        auto split = [&](const std::string& s, std::vector<long*> nums, std::vector<std::string*> strs) {
            std::istringstream is(s);
            std::string l;
            for (auto* n : nums) { std::getline(is, l); *n = std::atol(l.c_str()); }
            for (auto* x : strs) std::getline(is, *x);
        };
        split(forked(buf, [&] {
            window = true;
            allocations = 0;
            Vars in = buildAll(o), out;
            out.reserve(16);
            o.call(in, out);
            window = false;
            return std::to_string(allocations);
        }), {&r.cold}, {});
        split(forked(buf, [&] {
            const Vars in = buildAll(o);
            Vars out;
            out.reserve(16);
            window = true;
            allocations = messages = 0;
            o.call(in, out);
            window = false;
            const long a = allocations, m = messages;
            return std::to_string(a) + "\n" + std::to_string(m) + "\n" + observe(out) + "\n" + observe(in) + "\n" + probes();
        }), {&r.allocs, &r.msgs}, {&r.result, &r.operands, &r.probe});
        return r;
    };
    auto history = [=](const Operation& o, Mode mode, long n, bool probing) -> std::string {
        Vars w, in, out;
        out.reserve(16);
        if (mode != COLD) {
            for (auto& t : wit) w.push_back(build(t));
            in = buildAll(o);
        }
        const std::string before = observe(w);
        std::string outcome;
        failAt = mode == LOG ? 0 : n;
        logFailAt = mode == LOG ? n : 0;
        persistent = mode == OUT_OF_MEMORY;
        allocations = messages = 0;
        bool done = false;
        try {
            window = true;
            if (mode == COLD) in = buildAll(o);
            o.call(in, out);
            window = false;
            done = true;
        } catch (const std::bad_alloc&) {
            window = false;
            outcome = "bad_alloc";
        } catch (const Injected&) {
            window = false;
            outcome = "injected";
        } catch (const std::exception& ex) {
            window = false;
            outcome = std::string("!exception ") + ex.what();
        }
        failAt = logFailAt = 0;
        const bool fired = mode == LOG ? messages >= n : allocations >= n;
        if (done) outcome = "completed " + observe(out);
        else if (!out.empty() && o.name.find("= ") == 1) outcome += " target " + observe(out); // in-place operators: strong guarantee
        const std::string after = observe(w);
        if (before != after) return "!changed existing expressions: " + before + " -> " + after;
        if (mode == COLD) in = buildAll(o);
        Vars again;
        o.call(in, again);
        return std::string(fired ? "fired" : "not reached") + "\n" + outcome + "\n" + observe(again) + "\n" + observe(in) + "\n" + (probing ? probes() : std::string());
    };
    auto check = [=](Ctx& c, const Operation& o, const Reference& r, Mode mode, long n, char* buf, bool probing = true) {
        static const char* const what[] = {"allocation", "allocation (operands included)", "log message", "every allocation from"};
        c.begin(o.name + ", failing " + what[mode] + " " + std::to_string(n));
        const std::string s = forked(buf, [&] { return history(o, mode, n, probing); });
        c.transitions();
        if (s.empty() || s[0] == '!') return c.fail("fault", s.empty() ? "process ended" : s.substr(1), s.substr(0, 200));
        std::istringstream is(s);
        std::string fired, outcome, again, in, probe;
        std::getline(is, fired);
        std::getline(is, outcome);
        std::getline(is, again);
        std::getline(is, in);
        std::getline(is, probe);
        c.compared(4);
        c.outcome(fired + outcome.substr(0, 20));
        c.state(o.name + ":" + std::to_string(mode) + ":" + std::to_string(n));
        if (outcome[0] == '!') c.fail("exception", "another exception reaches the caller: " + outcome.substr(1), outcome);
        else if (outcome.compare(0, 10, "completed ") == 0) {
            if (outcome.substr(10) != r.result) c.fail("silent", "the failure is hidden and the result is " + outcome.substr(10) + " instead of " + r.result, outcome.substr(0, 200));
        } else if (auto p = outcome.find(" target "); p != std::string::npos) {
            if (outcome.substr(p + 8) != r.operands.substr(0, r.operands.find(';') + 1)) c.fail("target", "the target of a failed in-place operation holds " + outcome.substr(p + 8), outcome.substr(0, 200));
        }
        if (again != r.result) c.fail("trace", "repeating the operation gives " + again + " instead of " + r.result, again.substr(0, 200));
        if (in != r.operands) c.fail("trace", "the operands are " + in + " instead of " + r.operands, in.substr(0, 200));
        if (probing && probe != r.probe) c.fail("trace", "later operations give " + probe.substr(0, 1500) + " instead of " + r.probe.substr(0, 1500), probe.substr(0, 200));
        if (n % 37 == 3 && mode != LOG) c.sample(o.name + ", failing " + what[mode] + " " + std::to_string(n) + ": " + outcome.substr(0, 60));
    };
    auto refs = std::make_shared<std::vector<Reference>>();
    {
        char* buf = shm();
        for (auto& o : *ops) refs->push_back(reference(o, buf));
        munmap(buf, BUF);
    }
    // Operations with more points of failure than this are left out of a space.
    unsigned left = 0;
    auto space = [&](const std::string& name, Mode mode, long limit, long above = 0, bool probing = true) {
        struct Block { size_t op; long from, to; };
        auto blocks = std::make_shared<std::vector<Block>>();
        for (size_t i = 0; i < ops->size(); ++i) {
            const Reference& r = (*refs)[i];
            const Operation& o = (*ops)[i];
            const long N = mode == LOG ? r.msgs : mode == COLD ? r.cold : r.allocs;
            if (N <= above) continue;
            if (N > limit) { ++left; continue; }
            if (above && (o.name.find("numerator") < 2 || o.name.find("denominator") < 2)) continue; // the same computation as normal
            blocks->push_back({i, 1, std::min(N, 64l)});
            for (long n = 65; n <= N; n += 64) blocks->push_back({i, n, std::min(N, n + 63)});
        }
        Space sp;
        sp.name = name;
        sp.n = blocks->size();
        sp.chunk = 1;
        sp.caseLimit = 120;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Block& b = (*blocks)[i];
            const Operation& o = (*ops)[b.op];
            const Reference& r = (*refs)[b.op];
            c.begin(o.name + ", no fault");
            char* buf = shm();
            if (r.result.empty() && o.name.compare(0, 5, "parse") != 0) c.fail("fault", "no result without any fault");
            for (long n = b.from; n <= b.to; ++n) check(c, o, r, mode, n, buf, probing);
            munmap(buf, BUF);
        };
        e.add(sp);
    };
    space("allocation-failures", CALL, deep ? 20000 : 1500);
    // long operations: the result of a repetition, without other operations afterwards
    if (!deep) space("long-operations", CALL, 7000, 1500, false);
    space("cold-allocation-failures", COLD, deep ? 20000 : 1000);
    space("throwing-logger", LOG, 20000);
    if (deep) space("out-of-memory", OUT_OF_MEMORY, 20000);
    e.note("operations left out in a space for their number of allocations", std::to_string(left));
    { // every call of a user's print engine throws in turn
        Space sp;
        sp.name = "throwing-print-engine";
        auto ts = std::make_shared<std::vector<T>>(terms({"(/ (+ a 1) (sqrt b))", "(^ (/ a b) c)", "(* -2 (^ a -1) p)", "(atan2 a (* 2 b))", "(+ a -3/4 (neg (sin b)))", "(* D1.5 a_1)", "(/ 1 0)", "(/ (* 2 a) (* 3 b c))"}));
        sp.n = ts->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            c.begin("print " + str((*ts)[i]));
            const Var v = build((*ts)[i]);
            CountingEngine ref;
            tsym::print(ref, v);
            for (long n = 1; n <= ref.calls; ++n) {
                c.begin("print " + str((*ts)[i]) + ", failing call " + std::to_string(n));
                CountingEngine f;
                f.failAtCall = n;
                bool thrown = false;
                try { tsym::print(f, v); } catch (const Injected&) { thrown = true; }
                CountingEngine again;
                tsym::print(again, v);
                c.transitions();
                c.compared(3);
                c.state(str((*ts)[i]) + std::to_string(n));
                if (!thrown || f.calls != n) c.fail("exception", "the engine's exception does not end printing");
                if (again.h != ref.h || again.calls != ref.calls) c.fail("trace", "printing again differs");
            }
        };
        e.add(sp);
    }
}
