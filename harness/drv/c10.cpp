// C10: the printed text of an expression denotes that expression, in every print engine.
#include "common.h"
#include "refparse.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C10";

namespace {
// A user-defined engine that writes fully bracketed text from the structural calls, and checks that they are balanced.
class Structured : public tsym::PrintEngine {
  public:
    std::string out, stack, error;
    Structured& put(const std::string& s) { out += s; return *this; }
    Structured& open(char c, const std::string& s) { stack += c; return put(s); }
    Structured& close(char c, const std::string& s)
    {
        if (stack.empty() || stack.back() != c) error = std::string("unbalanced close of ") + c;
        else stack.pop_back();
        return put(s);
    }
    static std::string nm(std::string_view n, std::string_view sub, std::string_view super)
    {
        std::string r(n);
        if (!sub.empty()) r += sub.size() == 1 ? "_" + std::string(sub) : "_{" + std::string(sub) + "}";
        if (!super.empty()) r += "^^" + std::string(super);
        return r;
    }
    PrintEngine& symbol(std::string_view n, std::string_view sub, std::string_view super) override { return put(nm(n, sub, super)); }
    PrintEngine& positiveSymbol(std::string_view n, std::string_view sub, std::string_view super) override { positive.insert(nm(n, sub, super)); return put(nm(n, sub, super)); }
    PrintEngine& functionName(std::string_view n) override { return put(std::string(n)); }
    PrintEngine& floatingPoint(double n) override { char b[64]; snprintf(b, sizeof b, "%.17g", n); std::string s = b; if (s.find_first_of(".e") == std::string::npos) s += "."; return put(s); }
    PrintEngine& integer(long long n) override { return put(std::to_string(n)); }
    PrintEngine& integer(std::string_view n) override { return put(std::string(n)); }
    PrintEngine& undefined() override { return put("Undefined"); }
    PrintEngine& plusSign() override { return put("+"); }
    PrintEngine& minusSign() override { return put("-"); }
    PrintEngine& unaryMinusSign() override { return put("-"); }
    PrintEngine& timesSign() override { return put("*"); }
    PrintEngine& divisionSign() override { return put("/"); }
    PrintEngine& comma() override { return put(","); }
    PrintEngine& openNumerator(bool) override { return open('n', "("); }
    PrintEngine& closeNumerator(bool) override { return close('n', ")"); }
    PrintEngine& openDenominator(bool) override { return open('d', "/("); }
    PrintEngine& closeDenominator(bool) override { return close('d', ")"); }
    PrintEngine& openScalarExponent() override { return open('e', "^("); }
    PrintEngine& closeScalarExponent() override { return close('e', ")"); }
    PrintEngine& openCompositeExponent() override { return open('c', "^("); }
    PrintEngine& closeCompositeExponent() override { return close('c', ")"); }
    PrintEngine& openSquareRoot() override { return open('r', "sqrt("); }
    PrintEngine& closeSquareRoot() override { return close('r', ")"); }
    PrintEngine& openParentheses() override { return open('p', "("); }
    PrintEngine& closeParentheses() override { return close('p', ")"); }
    std::set<std::string> positive;
};
const Strs greek{"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "my", "ny", "xi", "omikron", "pi", "rho", "sigma", "tau",
  "ypsilon", "phi", "chi", "psi", "omega"};
// Unicode text with the Greek letters spelled out again.
std::string spell(const std::string& s)
{
    static const std::map<std::string, std::string> back = [] {
        std::map<std::string, std::string> m;
        for (size_t i = 0; i < greek.size(); ++i) {
            auto utf = [](unsigned cp) { return std::string{char(0xc0 | cp >> 6), char(0x80 | (cp & 0x3f))}; };
            const unsigned off = unsigned(i) + (i >= 17 ? 1 : 0); // no final sigma
            std::string cap = greek[i];
            cap[0] = (char)std::toupper((unsigned char)cap[0]);
            m[utf(0x391 + off)] = cap;
            m[utf(0x3b1 + off)] = greek[i];
        }
        return m;
    }();
    std::string r;
    for (size_t i = 0; i < s.size();) {
        if ((unsigned char)s[i] >= 0xc0 && i + 1 < s.size()) {
            const auto it = back.find(s.substr(i, 2));
            r += it == back.end() ? "?" : it->second;
            i += 2;
        } else r += s[i++];
    }
    return r;
}
std::string shown(const Var& v, tsym::PlaintextPrintEngine::CharSet cs)
{
    std::ostringstream os;
    tsym::PlaintextPrintEngine eng(os, cs);
    tsym::print(eng, v);
    return os.str();
}
struct Names { std::set<std::string> all; bool euler = false, positive = false; };
void names(const Var& v, Names& n)
{
    if (v.type() == Var::Type::SYMBOL) { n.all.insert(tsym::name(v)); n.positive = n.positive || tsym::isPositive(v); }
    if (v.type() == Var::Type::CONSTANT && tsym::name(v) == "e") n.euler = true;
    if (isNumber(v)) return;
    for (auto& o : tsym::operands(v)) names(o, n);
}
bool denotes(Ctx& c, const char* kind, const std::string& txt, const Vals& want, long double tol)
{
    Ref ref(txt, false, true);
    const auto got = ref.run();
    if (!got) { c.fail(kind, "printed as " + txt + ", which is not an expression", txt); return false; }
    for (size_t k = 0; k < NS; ++k) {
        if (!want[k].num()) { c.skipped(); continue; }
        bool bad = got->vals[k].undef();
        if (!bad) {
            const Cmp cmp = compare(want[k], got->vals[k], tol);
            if (cmp == Cmp::UNKNOWN) { c.skipped(); continue; }
            bad = cmp == Cmp::DIFFERENT;
        }
        c.compared();
        if (bad) { c.fail(kind, "printed as " + txt + " which has value " + str(got->vals[k]) + ", the expression has " + str(want[k]), txt); return false; }
    }
    return true;
}
void check(Ctx& c, const std::string& desc, const Var& x)
{
    c.begin("print " + desc);
    c.transitions(5);
    c.state(x);
    const std::string ascii = shown(x, tsym::PlaintextPrintEngine::CharSet::ASCII), uni = shown(x, tsym::PlaintextPrintEngine::CharSet::UNICODE);
    c.outcome(ascii);
    for (unsigned char ch : ascii)
        if (ch >= 0x80) { c.fail("ascii", "ASCII output contains other characters: " + ascii); return; }
    std::ostringstream os;
    os << x;
    if (os.str() != uni) { c.fail("stream", "stream output " + os.str() + " differs from the unicode text " + uni); return; }
    if (isUndef(x)) {
        if (ascii != "Undefined") c.fail("undefined", "Undefined printed as " + ascii);
        return;
    }
    if (spell(uni) != ascii) { c.fail("unicode", "unicode text " + uni + " doesn't spell " + ascii, uni); return; }
    Names n;
    names(x, n);
    const bool dbl = hasDouble(x);
    Samples S(NS);
    for (auto& s : n.all)
        for (size_t k = 0; k < NS; ++k) S[k].v[s] = symValue(s, k);
    const Vals want = evalTree(x, S);
    if (!denotes(c, "ascii-value", ascii, want, dbl ? 1e-4L : 0)) return;
    Structured st;
    tsym::print(st, x);
    if (st.error.empty() && !st.stack.empty()) st.error = "unclosed " + st.stack;
    if (!st.error.empty()) { c.fail("balance", st.error + " in " + st.out); return; }
    if (!denotes(c, "engine-value", st.out, want, dbl ? 1e-9L : 0)) return;
    for (auto& s : tsym::collectSymbols(x))
        if (tsym::isPositive(s) != (st.positive.count(tsym::name(s)) != 0)) { c.fail("positive", "symbol " + tsym::name(s) + " handed to the wrong callback"); return; }
    // reading it back
    const auto back = tsym::parse(ascii);
    if (!back) { c.fail("reparse", "the library doesn't parse its own output " + ascii, ascii); return; }
    if (n.euler) return; // Euler's number is printed e, which is read as a symbol
    for (size_t k = 0; k < NS; ++k) {
        if (!want[k].num()) continue;
        const Val g = evalTree(*back, S[k]);
        if (g.undef() || compare(want[k], g, dbl ? 1e-4L : 0) == Cmp::DIFFERENT) { c.fail("round-trip", ascii + " is read as " + text(*back), text(*back)); return; }
    }
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(signSamples());
    const std::vector<Op> ops{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW};
    Strs atoms{"a", "b", "p", "-1", "2", "1/2", "-2/3", "(sqrt 2)", "(^ a -1/2)", "(+ a b)", "pi", "e", "(sin a)", "(^ a b)", "(atan2 a b)", "(^ 2 1/3)", "(^ a -2)", "(neg b)", "(- 1 a)", "(^ 2/3 1/4)"};
    auto all = share(closure1(atoms, ops, *S));
    auto right = deep ? all : share(closure1({"a", "-1", "1/2", "(sqrt 2)", "(+ a b)", "(^ b -1)", "(sin a)", "-2/3"}, {Op::ADD, Op::MUL, Op::POW}, *S));
    e.note("closure_states", std::to_string(all->size()));
    auto visit = [](Ctx& c, const State& st) { check(c, str(st.t), st.v); };
    e.add(listSpace("closure", all, visit));
    e.add(universeSpace("pairs", {all, right, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, S}, visit));
    { // growing expressions
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(2), *GS)), R = share(distinct(cat({growthOperands(), {"-3/4", "(/ -1 (sqrt 3))", "(neg (sqrt x1))"}}), *GS));
        e.add(universeSpace("growth", {G, R, {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, GS}, visit));
        e.add(universeSpace("growth-right", {R, G, {Op::SUB, Op::DIV, Op::POW}, GS}, visit));
        auto H = share(distinct(growth(deep ? 1 : 0), *GS));
        e.add(universeSpace("growth-pairs", {H, H, {Op::ADD, Op::MUL, Op::DIV}, GS}, visit));
    }
    { // very many operands, very deep nestings
        auto GS = std::make_shared<Samples>(manySamples());
        auto W = share(mkStates(wide(), *GS)), R = share(mkStates(Strs{"a", "-1", "(neg y9)"}, *GS));
        e.add(universeSpace("wide", {W, R, {Op::SUB, Op::DIV, Op::POW}, GS}, visit));
    }
    { // many terms
        auto L = share(mkStates(largeProducts(deep), *S));
        Space sp;
        sp.name = "large-products";
        sp.n = L->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*L)[i];
            visit(c, x);
            const Var v = tsym::expand(x.v);
            if (tsym::operands(v).size() < 300) check(c, "(expand " + str(x.t) + ")", v); // parsing longer sums takes too long
        };
        e.add(sp);
    }
    { // functions, their powers and nestings in larger expressions
        Space sp;
        sp.name = "functions";
        sp.n = all->size();
        sp.chunk = 2;
        auto few = share(distinct({"a", "-1", "1/2", "(+ a b)", "(^ a -1)", "(sqrt b)", "-3/4"}, *S));
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (Op f : {Op::SIN, Op::ACOS, Op::LOG, Op::SQRT, Op::ATAN}) {
                const Var v = applyOp(f, x.v);
                check(c, str(mk(f, x.t)), v);
                for (auto& y : *few)
                    for (Op op : {Op::MUL, Op::DIV, Op::POW, Op::SUB}) check(c, str(mk(op, mk(f, x.t), y.t)), applyOp(op, v, y.v));
            }
            for (auto& y : *few) check(c, str(mk(Op::ATAN2, x.t, y.t)), applyOp(Op::ATAN2, x.v, y.v));
        };
        e.add(sp);
    }
    { // products of three powers with all signs of exponents and coefficients
        Space sp;
        sp.name = "fractions";
        const Strs coeff{"1", "-1", "2", "-3/4", "1/5", "(sqrt 3)", "(neg (sqrt 3))", "(/ 1 (sqrt 3))", "(* 2/7 (sqrt 3))", "(* -2/7 (^ 3 -1/3))"};
        const Strs ex{"0", "1", "-1", "2", "-2", "1/2", "-1/2", "-3/2", "b", "(neg b)", "(* -2 b)", "(+ 1 b)"};
        const Strs bases{"a", "c", "(+ a c)", "(sin a)", "(log c)", "(- a c)", "2", "pi", "(atan2 a c)"};
        sp.n = coeff.size() * ex.size() * ex.size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            const std::string k = coeff[i % coeff.size()], e1 = ex[i / coeff.size() % ex.size()], e2 = ex[i / coeff.size() / ex.size()];
            for (size_t x = 0; x < bases.size(); ++x)
                for (size_t y = x + 1; y < bases.size(); ++y)
                    for (std::string tail : {"", "(^ d -1)", "(^ d -2/3)", "(+ d 1)"}) {
                        std::string t = "(* " + k + " (^ " + bases[x] + " " + e1 + ") (^ " + bases[y] + " " + e2 + ")" + (tail.empty() ? "" : " " + tail) + ")";
                        check(c, t, build(parseTerm(t)));
                        t = "(- a " + t + ")";
                        check(c, t, build(parseTerm(t)));
                    }
        };
        e.add(sp);
    }
    { // numbers of all kinds and sizes, alone and as operands
        Strs nums;
        for (std::string n : {"0", "1", "-1", "7", "-12", "1/3", "-22/7", "123456789012345678901234567890", "-99999999999999999999", "D0.1", "D-0.1", "D1e-5", "D-2.5e-7", "D1.23e20", "D3.14159e10", "D0.333333333333", "D1e30"}) nums.push_back(n);
        Space sp;
        sp.name = "numbers";
        sp.n = nums.size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const std::string& n = nums[i];
            for (std::string f : {"%", "(+ a %)", "(- a %)", "(* a %)", "(/ a %)", "(^ a %)", "(^ p %)", "(sin (* a %))", "(* (sqrt 2) %)", "(+ (* a %) b)", "(* (+ a b) %)", "(^ (+ a %) 2)", "(/ 1 (+ a %))", "(/ % (* a b))", "(^ a (* b %))", "(- b (* % a))", "(atan2 a (* b %))", "(sqrt (* p %))", "(log (+ p %))"}) {
                std::string t = f;
                t.replace(t.find('%'), 1, n);
                if (n.size() > 9 && n[0] != 'D' && f.find("^ ") == 1) continue;
                if (n[0] == 'D' && std::fabs(std::atof(n.c_str() + 1)) > 100 && f.find("^ ") == 1) continue;
                check(c, t, build(parseTerm(t)));
            }
        };
        e.add(sp);
    }
    { // symbol names: Greek letters, capitals, subscripts; every name must be printed unambiguously
        Strs nm;
        for (auto& g : greek) {
            std::string cap = g;
            cap[0] = (char)std::toupper((unsigned char)cap[0]);
            for (auto& b : {g, cap}) {
                nm.push_back(b);
                nm.push_back(b + "_1");
                nm.push_back(b + "_{beta}");
                nm.push_back(b + "x");
                nm.push_back("x" + b);
                nm.push_back(b.substr(0, 1));
                nm.push_back("x_{" + b + "}");
            }
        }
        for (std::string b : {"a", "A", "Z9", "f00", "aLPHA", "ALPHA"})
            for (std::string s : {"", "_1", "_{12}", "_a", "_{abc}"}) nm.push_back(b + s);
        Strs uniq;
        std::set<std::string> seen;
        for (auto& x : nm)
            if (x != "pi" && x != "Pi" && x != "e" && x != "E" && seen.insert(x).second) uniq.push_back(x);
        Space sp;
        sp.name = "names";
        sp.n = uniq.size();
        sp.chunk = 4;
        sp.run = [uniq](uint64_t i, Ctx& c) {
            for (bool pos : {false, true}) {
                const Var x = pos ? Var(uniq[i], Var::Sign::POSITIVE) : Var(uniq[i]);
                c.begin("symbol " + uniq[i]);
                if (tsym::name(x) != uniq[i]) { c.fail("name", "has the name " + tsym::name(x)); continue; }
                if (text(x) != uniq[i]) { c.fail("name", "is printed as " + text(x)); continue; }
                check(c, "symbol " + uniq[i], x);
                check(c, "symbol " + uniq[i] + " cubed", 2 * tsym::pow(x, Var(3)) - tsym::sqrt(x) / 3 + tsym::pow(Var("zz9"), x));
            }
        };
        e.add(sp);
    }
}
