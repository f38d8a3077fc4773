// C18: messages reach exactly the installed logger. All sequences of installing loggers and running operations, against a
// model that knows only which logger is current; all operations of an alphabet under recording and default loggers.
#include "common.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C18";

namespace {
struct Rec {
    char level;
    std::string ident, file, payload;
    int line;
};
std::vector<std::pair<char, Rec>>* sink = nullptr; // receiver, message
int alive[4] = {0, 0, 0, 0};
class Recorder : public tsym::Logger {
  public:
    explicit Recorder(char id) : id(id) { ++alive[id - 'A']; }
    ~Recorder() override { --alive[id - 'A']; }
    char id;

  private:
    void put(char level, const Message& m) const
    {
        if (sink) sink->push_back({id, Rec{level, m.ident, m.file, m.payload, m.line}});
    }
    void debug(const Message& m) const override { put('d', m); }
    void info(const Message& m) const override { put('i', m); }
    void warning(const Message& m) const override { put('w', m); }
    void error(const Message& m) const override { put('e', m); }
    void critical(const Message& m) const override { put('c', m); }
};
// Only some levels overridden: the others keep the default behaviour.
class Partial : public tsym::Logger {
  public:
    Partial() { ++alive[2]; }
    ~Partial() override { --alive[2]; }

  private:
    void error(const Message& m) const override
    {
        if (sink) sink->push_back({'C', Rec{'e', m.ident, m.file, m.payload, m.line}});
    }
};
// The default error() and critical() forward to the overridden warning().
class OnlyWarning : public tsym::Logger {
  public:
    OnlyWarning() { ++alive[3]; }
    ~OnlyWarning() override { --alive[3]; }

  private:
    void warning(const Message& m) const override
    {
        if (sink) sink->push_back({'D', Rec{'w', m.ident, m.file, m.payload, m.line}});
    }
};
struct Operation {
    std::string name;
    std::function<std::string()> run;
};
std::string observe(const Var& v) { return key(v); }
Operation term(const std::string& s)
{
    return {s, [s] { return observe(build(parseTerm(s))); }};
}
// Everything written to the standard streams while f runs.
template <class F> std::string captured(F&& f)
{
    std::cout.flush();
    std::cerr.flush();
    fflush(nullptr);
    static const int mem = memfd_create("out", 0), save1 = dup(1), save2 = dup(2);
    if (ftruncate(mem, 0)) throw std::runtime_error("harness: ftruncate");
    lseek(mem, 0, SEEK_SET);
    dup2(mem, 1);
    dup2(mem, 2);
    try { f(); } catch (...) {
        std::cout.flush();
        dup2(save1, 1);
        dup2(save2, 2);
        throw;
    }
    std::cout.flush();
    std::clog.flush();
    fflush(nullptr);
    dup2(save1, 1);
    dup2(save2, 2);
    std::string s(static_cast<size_t>(lseek(mem, 0, SEEK_END)), 0);
    if (pread(mem, s.data(), s.size(), 0) != static_cast<ssize_t>(s.size())) throw std::runtime_error("harness: pread");
    return s;
}
// Timings are part of debug messages; file and line are not compared.
std::string messageKey(const Rec& r) { return std::string(1, r.level) + (r.level == 'd' ? std::string() : ":" + r.payload); }
struct Expected {
    std::string result;
    std::vector<Rec> msgs;
};
Expected record(const Operation& o)
{
    Expected x;
    std::vector<std::pair<char, Rec>> got;
    sink = &got;
    x.result = o.run();
    sink = nullptr;
    for (auto& g : got) x.msgs.push_back(g.second);
    return x;
}
// A logger that computes while it handles a message.
std::string reentrantWork()
{
    return observe(build(parseTerm("(normal (/ (- (^ (sin a) 2) (^ b 2)) (+ (sin a) b)))"))) + observe(build(parseTerm("(* (^ 12 1/2) (^ 18 1/3))"))) + observe(tsym::diff(build(parseTerm("(/ (log p) (+ a b))")), Var("a")))
      + text(build(parseTerm("(expand (^ (+ a b) 3))")));
}
std::vector<std::string> reentrantResults;
class Reentrant : public tsym::Logger {
    mutable bool busy = false;
    void work() const
    {
        if (busy) return;
        busy = true;
        reentrantResults.push_back(reentrantWork());
        busy = false;
    }
    void debug(const Message&) const override { work(); }
    void info(const Message&) const override { work(); }
    void warning(const Message&) const override { work(); }
    void error(const Message&) const override { work(); }
    void critical(const Message&) const override { work(); }
};
// Result of an operation in a process of its own.
std::string forkedResult(const Operation& o)
{
    static char* buf = static_cast<char*>(mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    buf[0] = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("harness: fork failed");
    if (pid == 0) {
        const std::string s = o.run();
        std::memcpy(buf, s.c_str(), std::min<size_t>(s.size() + 1, (1 << 16) - 1));
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return WIFSIGNALED(st) ? "terminated by a signal" : buf;
}
bool severe(char level) { return level == 'w' || level == 'e' || level == 'c'; }
std::string show(const std::vector<std::pair<char, Rec>>& v)
{
    std::string s;
    for (auto& x : v) s += std::string(1, x.first) + ":" + messageKey(x.second) + " | ";
    return s.empty() ? "nothing" : s;
}
}

void driver(Engine& e)
{
    const bool deep = e.thorough();
    const std::vector<Operation> triggers{term("(/ 1 0)"), term("(log -1)"), {"undefined name", [] { return observe(Var("a+b")); }}, term("(simplify (+ (* a b) (* 2 a b)))"), term("(+ a b)"),
      {"one message of each level", [] {
           const tsym::Logger& l = tsym::Logger::getInstance();
           l.debug({"user", "file", 1, "debug message"});
           l.info({"user", "file", 2, "info message"});
           l.warning({"user", "file", 3, "warning message"});
           l.error({"user", "file", 4, "error message"});
           l.critical({"user", "file", 5, "critical message"});
           return std::string();
       }}};
    { // routing
        const size_t E = 5 + triggers.size(), L = deep ? 6 : 5;
        Space sp;
        sp.name = "routing";
        sp.n = 1;
        for (size_t i = 0; i < L; ++i) sp.n *= E;
        sp.chunk = 512;
        sp.run = [=](uint64_t i, Ctx& c) {
            std::vector<unsigned> ev;
            for (size_t k = 0; k < L; ++k) { ev.push_back(i % E); i /= E; }
            static const char* const names[] = {"install A", "install B", "install partial", "install warning only", "install default"};
            std::string h;
            for (auto x : ev) h += std::string(h.empty() ? "" : "; ") + (x < 5 ? names[x] : triggers[x - 5].name);
            c.begin(h);
            tsym::Logger::setInstance(std::make_unique<const Recorder>('A')); // common start; its messages are checked like all others
            char cur = 'A';
            std::vector<Expected> ref;
            for (auto& t : triggers) ref.push_back(record(t));
            std::vector<std::pair<char, Rec>> got, want;
            std::string wantOut, out;
            bool ok = true;
            sink = &got;
            for (auto x : ev) {
                c.transitions();
                if (x < 5) {
                    std::unique_ptr<const tsym::Logger> l;
                    if (x < 2) l = std::make_unique<const Recorder>(char('A' + x));
                    else if (x == 2) l = std::make_unique<const Partial>();
                    else if (x == 3) l = std::make_unique<const OnlyWarning>();
                    else l = std::make_unique<const tsym::Logger>();
                    const tsym::Logger* raw = l.get();
                    tsym::Logger::setInstance(std::move(l));
                    cur = "ABCDE"[x];
                    c.compared(2);
                    if (&tsym::Logger::getInstance() != raw) { c.fail("routing", "getInstance() isn't the logger just installed"); ok = false; }
                    for (int k = 0; k < 4; ++k)
                        if (alive[k] != (cur == 'A' + k)) { c.fail("lifetime", std::string("logger ") + char('A' + k) + " exists " + std::to_string(alive[k]) + " times"); ok = false; }
                } else {
                    const Expected& r = ref[x - 5];
                    std::string res;
                    out += captured([&] { res = triggers[x - 5].run(); });
                    if (res != r.result) { c.fail("result", triggers[x - 5].name + " gives " + res + " instead of " + r.result); ok = false; }
                    for (auto& m : r.msgs) {
                        if (cur == 'A' || cur == 'B') want.push_back({cur, m});
                        else if (cur == 'C' && m.level == 'e') want.push_back({'C', m});
                        else if (cur == 'D') {
                            if (severe(m.level)) { want.push_back({'D', m}); want.back().second.level = 'w'; }
                        }
                        else if (severe(m.level)) wantOut += m.payload + "\n";
                    }
                }
                if (!ok) break;
            }
            sink = nullptr;
            c.compared(2);
            bool same = got.size() == want.size();
            for (size_t k = 0; same && k < got.size(); ++k) same = got[k].first == want[k].first && messageKey(got[k].second) == messageKey(want[k].second);
            if (ok && !same) c.fail("routing", "messages " + show(got) + ", expected " + show(want), show(got).substr(0, 200));
            if (ok && out != wantOut) c.fail("output", "standard output is '" + out + "', expected '" + wantOut + "'", out.substr(0, 200));
            c.state(std::string(1, cur) + show(got) + out);
            c.outcome(std::string(1, cur) + std::to_string(got.size()) + " " + std::to_string(out.size()));
        };
        e.add(sp);
    }
    // operations of an alphabet
    auto ops = std::make_shared<std::vector<Operation>>();
    const Strs atoms{"0", "1", "-1", "2", "1/2", "-3", "a", "b", "p", "pi", "e", "(sqrt 2)", "(+ a b)", "(* 2 a)", "(^ a -1)", "(^ a b)", "(sin a)", "(log p)", "D1.23456789", "(- (sqrt 2) 2)", "(/ 1 0)", "(- a a)", "(atan2 a b)", "(/ pi 2)", "(- 1 (sqrt 2))"};
    for (auto& x : atoms)
        for (auto& y : atoms)
            for (auto o : {"+", "-", "*", "/", "^", "atan2"}) {
                const std::string t = "(" + std::string(o) + " " + x + " " + y + ")";
                ops->push_back(term(t));
                for (auto f : {"sqrt", "log", "tan", "asin", "normal", "simplify", "expand", "denominator"}) ops->push_back(term("(" + std::string(f) + " " + t + ")"));
                if (deep) for (auto f : {"sin", "cos", "acos", "atan", "numerator", "neg"}) ops->push_back(term("(" + std::string(f) + " " + t + ")"));
                ops->push_back({"diff " + t, [t] { return observe(tsym::diff(build(parseTerm(t)), Var("a"))); }});
                ops->push_back({"subst " + t, [t] { return observe(tsym::subst(build(parseTerm(t)), Var("a"), Var(0))); }});
            }
    for (auto s : {"a*b", "2*(a + b", "", "sin(a, b)", "1/0", "a^^b", "log(0)", "\xc3\xa4", "a_{", "tan(pi/2)"})
        ops->push_back({std::string("parse ") + s, [s] { auto r = tsym::parse(s); return r ? observe(*r) : std::string("none"); }});
    for (auto s : {"a", "a_1", "1.5", "", "+", "a b", "-7", "tsym#0"}) {
        ops->push_back({std::string("Var ") + s, [s] { return observe(Var(s)); }});
        ops->push_back({std::string("positive Var ") + s, [s] { return observe(Var(s, Var::Sign::POSITIVE)); }});
    }
    ops->push_back({"diff by number", [] { return observe(tsym::diff(Var("a"), Var(2))); }});
    ops->push_back({"Var(1, 0)", [] { return observe(Var(1, 0)); }});
    for (auto& m : std::vector<Strs>{{"a", "b", "c", "d"}, {"a", "1", "(* 2 a)", "2"}, {"0", "0", "0", "0"}, {"(/ 1 0)", "a", "1", "3"}})
        ops->push_back({"solve " + m[0] + " " + m[1] + " " + m[2] + " " + m[3], [m] {
            std::vector<std::vector<Var>> A(2);
            for (int i = 0; i < 4; ++i) A[i / 2].push_back(build(parseTerm(m[i])));
            std::vector<Var> b{Var(1), Var("a")}, x(2);
            try { tsym::solve(A, b, x, 2); } catch (const std::exception&) { return std::string("refused"); }
            return observe(x[0]) + observe(x[1]);
        }});
    e.note("operations", std::to_string(ops->size()));
    {
        Space sp;
        sp.name = "operations";
        sp.n = ops->size();
        sp.chunk = 64;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Operation& o = (*ops)[i];
            c.begin(o.name);
            tsym::Logger::setInstance(std::make_unique<const Recorder>('A'));
            Expected r;
            const std::string quiet = captured([&] { r = record(o); });
            c.transitions(2);
            c.compared(4);
            if (!quiet.empty()) c.fail("output", "with a logger installed, '" + quiet + "' is written to the standard streams", quiet);
            std::string lines;
            for (auto& m : r.msgs) {
                if (m.ident != "tsym" || m.file.empty() || m.file.find('/') != std::string::npos || m.line <= 0 || m.payload.empty())
                    c.fail("message", "malformed message: ident '" + m.ident + "' file '" + m.file + "' line " + std::to_string(m.line) + " payload '" + m.payload + "'");
                if (severe(m.level)) lines += m.payload + "\n";
            }
            // the results and messages of a repetition may differ from the first run by cached results only in number
            tsym::Logger::setInstance(std::make_unique<const tsym::Logger>());
            std::string res;
            const std::string out = captured([&] { res = o.run(); });
            if (res != r.result) c.fail("result", "gives " + res + " with the default logger, " + r.result + " with another one");
            for (std::istringstream is(out); is;) {
                std::string l;
                if (!std::getline(is, l)) break;
                if (("\n" + lines).find("\n" + l + "\n") == std::string::npos) c.fail("output", "the default logger writes '" + l + "', the messages are '" + lines + "'", l);
            }
            c.state(o.name);
            c.outcome(lines.empty() ? "silent" : lines.substr(0, 12));
            if (i % 997 == 5) c.sample(o.name + ": " + (lines.empty() ? "silent" : lines));
            installSilentLogger();
        };
        e.add(sp);
    }
    { // a logger that itself uses the library
        Space sp;
        sp.name = "reentrant";
        sp.n = ops->size();
        sp.chunk = 64;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Operation& o = (*ops)[i];
            c.begin(o.name);
            tsym::Logger::setInstance(std::make_unique<const Recorder>('A'));
            const std::string plain = forkedResult(o), inner = forkedResult({"", reentrantWork});
            tsym::Logger::setInstance(std::make_unique<const Reentrant>());
            reentrantResults.clear();
            const std::string res = o.run();
            c.transitions();
            c.compared(1 + reentrantResults.size());
            c.state(o.name);
            if (res != plain) c.fail("result", "gives " + res + " with a logger that uses the library, " + plain + " otherwise");
            for (auto& x : reentrantResults)
                if (x != inner) c.fail("result", "an operation inside of the logger gives " + x + " instead of " + inner);
            c.outcome(std::to_string(reentrantResults.size()));
            installSilentLogger();
        };
        e.add(sp);
    }
}
