// C09: parse() accepts exactly the documented language and gives every accepted string its conventional meaning.
#include "common.h"
#include "refparse.h"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <optional>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C09";

namespace {
void check(Ctx& c, const std::string& str)
{
    std::string shown;
    for (unsigned char ch : str) {
        if (ch >= 0x20 && ch < 0x7f) shown += ch;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); shown += b; }
    }
    c.begin("parse \"" + shown + "\"");
    c.transitions();
    Ref ref(str);
    const auto want = ref.run();
    if (ref.heavy) { c.skipped(); return; }
    if (!want && std::count(str.begin(), str.end(), '^') > 1) // the library may evaluate a prefix before it gives up
        for (size_t n = 3; n < str.size(); ++n) {
            Ref pre(str.substr(0, n));
            pre.run();
            if (pre.heavy) { c.skipped(); return; }
        }
    const auto got = tsym::parse(str);
    c.compared();
    if (!want && !got) return;
    if (!want) { c.fail("accepts", "not a sentence of the language, but parsed as " + text(*got), text(*got)); return; }
    if (!got) { c.fail("rejects", "not parsed, expected " + text(want->v)); return; }
    c.state(*got);
    c.outcome(key(*got));
    if (isUndef(*got) != isUndef(want->v)) { c.fail("undefined", "parsed as " + text(*got) + ", the operators give " + text(want->v)); return; }
    if (!ref.wide && hasDouble(*got) != hasDouble(want->v)) { c.fail("number-type", "parsed as " + text(*got) + ", the operators give " + text(want->v)); return; }
    Samples S(NS);
    for (auto& n : ref.symbols)
        for (size_t k = 0; k < NS; ++k) S[k].v[n] = symValue(n, k);
    sameValue(c, "meaning", *got, want->vals, S, ref.anyReal ? 1e-9L : 0, false);
}
// The string constructors of Var: symbols and integers, everything else is Undefined.
void checkVar(Ctx& c, const std::string& str)
{
    Ref ref(str);
    const auto want = ref.run();
    if (ref.heavy) return;
    c.begin("Var(\"" + str + "\")");
    c.transitions(2);
    const Var v(str), p(str, Var::Sign::POSITIVE);
    const bool symbol = want && want->v.type() == Var::Type::SYMBOL, integer = want && want->v.type() == Var::Type::INT;
    c.compared();
    if (!symbol && !integer) {
        if (!isUndef(v) || !isUndef(p)) c.fail("constructor", "neither symbol nor integer, but gives " + text(v), key(v));
        return;
    }
    bool plain = true; // for composed spellings of an integer only the value counts, if it is accepted at all
    for (unsigned char ch : str) plain = plain && (std::isalnum(ch) || std::strchr("_{}", ch));
    if (!plain && isUndef(v) && isUndef(p)) return;
    c.state(v);
    if (key(v) != key(want->v)) { c.fail("constructor", "gives " + text(v) + ", expected " + text(want->v), key(v)); return; }
    if (symbol && (p.type() != Var::Type::SYMBOL || !tsym::isPositive(p) || tsym::isPositive(v) || tsym::isNegative(v) || tsym::isNegative(p) || tsym::name(p) != tsym::name(want->v) || (ref.symbols.size() == 1 && tsym::name(p) != *ref.symbols.begin())))
        c.fail("constructor", "positive symbol has the name " + tsym::name(p) + " and type " + key(p), key(p));
    if (integer && key(p) != key(want->v)) c.fail("constructor", "with positive flag gives " + text(p), key(p));
}
// All strings of 1..len tokens.
Space tokens(const std::string& name, Strs tok, unsigned len, bool ctor = false)
{
    Space sp;
    sp.name = name;
    const uint64_t m = tok.size();
    uint64_t top = 1; // prefixes of length len-3 (or all) are one case each
    const unsigned tail = len > 3 ? 3 : len - 1;
    for (unsigned k = 0; k < len - tail; ++k) top *= m + 1; // digit 0: token absent (only leading ones: shorter strings)
    sp.n = top;
    sp.chunk = 16;
    sp.run = [=](uint64_t i, Ctx& c) {
        std::string prefix;
        std::vector<unsigned> d;
        for (unsigned k = 0; k < len - tail; ++k) { d.push_back(i % (m + 1)); i /= m + 1; }
        bool seen = false;
        for (unsigned x : d) {
            if (x == 0 && seen) return; // gaps only in front: every string is enumerated once
            if (x) { seen = true; prefix += tok[x - 1]; }
        }
        std::function<void(const std::string&, unsigned, bool)> rec = [&](const std::string& s, unsigned left, bool started) {
            if (left == 0) {
                check(c, s);
                if (ctor) checkVar(c, s);
                return;
            }
            if (!started) rec(s, left - 1, false);
            for (auto& t : tok) rec(s + t, left - 1, true);
        };
        rec(prefix, tail, seen);
    };
    return sp;
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    // operators, precedence, associativity, parentheses
    e.add(tokens("operators", {"a", "b", "3", "(", ")", "+", "-", "*", "/", "^"}, deep ? 8 : 7));
    // operands separated by every operator: long sentences (all of them are accepted)
    {
        Space sp;
        sp.name = "operator-chains";
        const Strs ops{"+", "-", "*", "/", "^", " - -", "*-", "/-", " + -"};
        const Strs left{"a", "-b", "3", "(a + b)", "(a - 3)^2", "-sin(a)"};
        const unsigned len = deep ? 5 : 4;
        uint64_t n = left.size();
        for (unsigned k = 0; k < len; ++k) n *= ops.size();
        sp.n = n;
        sp.chunk = 512;
        sp.run = [=](uint64_t i, Ctx& c) {
            const Strs operand{"c", "2", "(d - a)", "b^2", "5"};
            std::string s = left[i % left.size()];
            i /= left.size();
            for (unsigned k = 0; k < len; ++k) {
                s += ops[i % ops.size()] + operand[k % operand.size()];
                i /= ops.size();
            }
            check(c, s);
        };
        e.add(sp);
    }
    // functions, constants, whitespace, commas
    e.add(tokens("functions", {"sin", "atan2", "SQRT", "a", "2", "pi", "(", ")", ",", " ", "-", "^"}, deep ? 8 : 6));
    // all functions and their spellings around operands
    {
        Strs list;
        for (std::string f : {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "Sin", "COS", "tAn", "ASIN", "aCos", "ATAN", "Sqrt", "LOG", "sinh", "ln", "exp", "abs", "atan2", "ATAN2", "sin2", "s", "pi", "euler"})
            for (std::string arg : {"a", "1/2", "a + b", "-a", "(a)", "a, b", "a,", ",a", "", " a ", "sin(a)", "atan2(a, b)", "2*pi/3", "0", "1", "a, b, c", "-1", "euler^2", "b - a, a*b", "1, 2", "-1, 1", "0, -1"})
                for (std::string pre : {"", "2*", "-", "a^", "a/", "a - ", "(", "x", "2"})
                    for (std::string post : {"", "^2", "*b", " + 1", ")", "a", "/b", "^a^2", "(a)"})
                        for (std::string open : {"(", " (", "\t( "}) list.push_back(pre + f + open + arg + ")" + post);
        Space sp;
        sp.name = "function-calls";
        sp.n = list.size();
        sp.chunk = 512;
        sp.run = [list](uint64_t i, Ctx& c) { check(c, list[i]); };
        e.add(sp);
    }
    // characters: symbols, subscripts, numbers, constants
    e.add(tokens("symbol-characters", {"a", "B", "1", "_", "{", "}", " ", "*"}, deep ? 8 : 7, true));
    e.add(tokens("number-characters", {"0", "1", "7", ".", "e", "E", "+", "-", " "}, deep ? 7 : 6, true));
    e.add(tokens("constant-characters", {"p", "i", "P", "I", "1", "_", " ", "euler", "Euler", "("}, deep ? 6 : 5, true));
    // every byte in every position of small sentences
    {
        Space sp;
        sp.name = "all-bytes";
        sp.n = 256;
        sp.chunk = 4;
        sp.run = [](uint64_t i, Ctx& c) {
            const char ch = (char)(unsigned char)i;
            for (std::string base : {"", "a", "a+b", "sin(a)", "1.5", "a_{12}", "12", "a ^ 2", "atan2(a,b)", "pi/2", "-a"})
                for (size_t k = 0; k <= base.size(); ++k) {
                    std::string s = base;
                    s.insert(k, 1, ch);
                    check(c, s);
                    checkVar(c, s);
                    if (k < base.size()) { // replaced
                        s = base;
                        s[k] = ch;
                        check(c, s);
                    }
                }
        };
        e.add(sp);
    }
    // growing sentences: nesting, long sums, long integers
    {
        Space sp;
        sp.name = "growth";
        sp.n = deep ? 120 : 60;
        sp.chunk = 1;
        sp.run = [](uint64_t i, Ctx& c) {
            const unsigned n = unsigned(i) + 1;
            auto rep = [](const std::string& s, unsigned n) { std::string r; for (unsigned k = 0; k < n; ++k) r += s; return r; };
            check(c, rep("(", n) + "a" + rep(")", n));
            check(c, rep("(", n) + "a" + rep(")", n - 1));
            check(c, rep("(", n) + "a" + rep(")", n + 1));
            check(c, rep("(-", n) + "a" + rep(")", n));
            check(c, rep("sin(", n) + "a" + rep("", n));
            if (n < 13) check(c, rep("log(", n) + "a" + rep(")", n));
            check(c, "a" + rep(" + b", n));
            check(c, "a" + rep(" - b", n));
            check(c, "a" + rep("*b", n));
            check(c, "a" + rep("/b", n));
            check(c, "a" + rep("^1", n));
            check(c, "a" + rep("*-1", n));
            check(c, rep("9", n));
            check(c, rep("1234567890", n));
            check(c, rep("0", n) + "81");
            check(c, "1" + rep("0", n) + "1");
            check(c, rep("a", n));
            checkVar(c, rep("a1", n));
            checkVar(c, rep("9876543210", n));
            checkVar(c, "a_{" + rep("b1", n) + "}");
            check(c, "a_{" + rep("b1", n) + "}");
            check(c, rep(" ", n) + "a" + rep(" ", n) + "+" + rep("\n", n) + "b" + rep("\t", n));
        };
        e.add(sp);
    }
}
