// C15: the introspection functions describe the expression: it can be rebuilt from its type, name and operands.
#include "common.h"
#include <algorithm>
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C15";

namespace {
void symbolsOf(const Var& v, std::vector<Var>& out)
{
    if (v.type() == Var::Type::SYMBOL) {
        for (auto& s : out) if (key(s) == key(v)) return;
        out.push_back(v);
        return;
    }
    for (auto& o : tsym::operands(v)) symbolsOf(o, out);
}
Var function(const std::string& n, const std::vector<Var>& o)
{
    if (n == "sin") return tsym::sin(o.at(0));
    if (n == "cos") return tsym::cos(o.at(0));
    if (n == "tan") return tsym::tan(o.at(0));
    if (n == "asin") return tsym::asin(o.at(0));
    if (n == "acos") return tsym::acos(o.at(0));
    if (n == "atan") return tsym::atan(o.at(0));
    if (n == "log") return tsym::log(o.at(0));
    if (n == "atan2") return tsym::atan2(o.at(0), o.at(1));
    throw std::runtime_error("unknown function name '" + n + "'");
}
const char* typeName(Var::Type t)
{
    switch (t) {
        case Var::Type::SYMBOL: return "Symbol";
        case Var::Type::INT: return "Integer";
        case Var::Type::FRACTION: return "Fraction";
        case Var::Type::DOUBLE: return "Double";
        case Var::Type::CONSTANT: return "Constant";
        case Var::Type::UNDEFINED: return "Undefined";
        case Var::Type::FUNCTION: return "Function";
        case Var::Type::SUM: return "Sum";
        case Var::Type::PRODUCT: return "Product";
        case Var::Type::POWER: return "Power";
    }
    return "?";
}
bool leafType(Var::Type t) { return t != Var::Type::FUNCTION && t != Var::Type::SUM && t != Var::Type::PRODUCT && t != Var::Type::POWER; }
bool numeric(const Var& v) // numbers, roots of numbers and sums of them
{
    if (isNumber(v)) return true;
    if (v.type() != Var::Type::POWER && v.type() != Var::Type::SUM && v.type() != Var::Type::PRODUCT) return false;
    for (auto& o : tsym::operands(v)) if (!numeric(o)) return false;
    return true;
}
// Structure of one node and everything below.
bool check(Ctx& c, const Var& v, std::set<std::string>& seen)
{
    const std::string k = key(v);
    if (!seen.insert(k).second) return true;
    if (seen.size() > 200000) seen.clear();
    c.state(k);
    c.transitions();
    c.compared(6);
    const auto t = v.type();
    const auto o = tsym::operands(v);
    const std::string n = tsym::name(v);
    auto bad = [&](const char* kind, const std::string& m) { c.fail(kind, text(v) + ": " + m, m); return false; };
    std::ostringstream ts;
    ts << t;
    if (ts.str() != typeName(t)) return bad("type", "type is printed as " + ts.str());
    if (leafType(t) != o.empty()) return bad("operands", "has " + std::to_string(o.size()) + " operands but is of type " + typeName(t));
    if ((t == Var::Type::SYMBOL || t == Var::Type::CONSTANT || t == Var::Type::FUNCTION) != !n.empty()) return bad("name", "has name '" + n + "' but is of type " + typeName(t));
    const unsigned cx = tsym::complexity(v);
    unsigned long sum = 0;
    for (auto& x : o) {
        if (!check(c, x, seen)) return false;
        if (isUndef(x)) return bad("operands", "has an Undefined operand");
        const unsigned cc = tsym::complexity(x);
        sum += cc;
        if (cx <= cc) return bad("complexity", "complexity " + std::to_string(cx) + " isn't larger than that of its operand " + text(x));
        if (!tsym::has(v, x)) return bad("has", "has() doesn't find the operand " + text(x));
    }
    if (t != Var::Type::UNDEFINED && cx == 0) return bad("complexity", "complexity is zero");
    if (cx < sum) return bad("complexity", "complexity is less than that of its operands together");
    if (t == Var::Type::UNDEFINED) return true; // Undefined isn't equal to anything
    if (!tsym::has(v, v)) return bad("has", "has() doesn't find the expression itself");
    // rebuild from type, name and operands
    Var r;
    switch (t) {
        case Var::Type::SUM:
        case Var::Type::PRODUCT:
            if (o.size() < 2) return bad("operands", "has less than two operands");
            // a number is distributed over a sum when it meets it directly, so the numbers of a product come last
            r = Var(t == Var::Type::SUM ? 0 : 1);
            for (bool number : {false, true})
                for (auto& x : o)
                    if (numeric(x) == number) r = t == Var::Type::SUM ? r + x : r * x;
            for (size_t i = 1; i < o.size(); ++i) {
                if (o[i].type() == t || o[i - 1].type() == t) return bad("operands", "has an operand of its own type");
            }
            for (auto& x : o) {
                if (t == Var::Type::SUM && key(x) == "0") return bad("operands", "has a zero summand");
                if (t == Var::Type::PRODUCT && (key(x) == "1" || key(x) == "0")) return bad("operands", "has a factor one or zero");
            }
            if (std::count_if(o.begin(), o.end(), [](const Var& x) { return isNumber(x); }) > 1) return bad("operands", "has several numeric operands");
            break;
        case Var::Type::POWER:
            if (o.size() != 2) return bad("operands", "a power has two operands");
            if (key(o[1]) == "1" || key(o[1]) == "0" || key(o[0]) == "1" || key(o[0]) == "0") return bad("operands", "is a trivial power");
            r = tsym::pow(o[0], o[1]);
            break;
        case Var::Type::FUNCTION: r = function(n, o); break;
        case Var::Type::CONSTANT:
            if (n != "pi" && n != "e") return bad("name", "unknown constant " + n);
            r = n == "pi" ? tsym::pi() : tsym::euler();
            break;
        case Var::Type::SYMBOL: {
            r = tsym::isPositive(v) ? Var(n, Var::Sign::POSITIVE) : Var(n);
            break;
        }
        default: r = v;
    }
    c.compared();
    if (t == Var::Type::FUNCTION && n == "atan" && isConst(v) && key(r) != k) {
        // atan2 of constants keeps the quotient of its arguments as it is: only the value is that of the rebuilt atan
        const Val x = evalTree(v, Sample()), y = evalTree(r, Sample());
        if (x.num() && y.num() && std::fabs(x.m - y.m) < 1e-12L) return true;
    }
    if (key(r) != k || r != v) return bad("rebuild", "rebuilt from its operands it is " + text(r));
    return true;
}
void whole(Ctx& c, const Var& v)
{
    static std::set<std::string> seen;
    if (!check(c, v, seen)) { seen.clear(); return; }
    std::vector<Var> want;
    symbolsOf(v, want);
    const auto got = tsym::collectSymbols(v);
    c.compared();
    std::multiset<std::string> a, b;
    for (auto& x : want) a.insert(key(x));
    for (auto& x : got) b.insert(key(x));
    if (a != b) c.fail("symbols", text(v) + ": collectSymbols() gives " + std::to_string(got.size()) + " symbols, " + std::to_string(want.size()) + " occur");
    for (auto& x : want) if (!tsym::has(v, x)) c.fail("has", text(v) + ": has() doesn't find " + text(x));
    for (auto n : {"a", "b", "p", "zz", "a_1", "a_2"})
        for (bool pos : {false, true}) {
            const Var s = pos ? Var(n, Var::Sign::POSITIVE) : Var(n);
            if (tsym::has(v, s) != (a.count(key(s)) > 0)) c.fail("has", text(v) + ": has() is wrong for " + n);
        }
}
}
void driver(Engine& e)
{
    const bool deep = e.thorough();
    Samples none;
    const std::vector<Op> ops{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW};
    const Strs atoms{"a", "b", "p", "-1", "2", "1/2", "-2/3", "(sqrt 2)", "(sqrt a)", "(+ a b)", "pi", "e", "(sin a)", "(^ a b)", "(atan2 a b)", "(^ 2 1/3)", "(log p)", "(- 1 a)", "a_1", "a_2", "a'", "a_1'", "sin", "D1.2345678", "(acos a)", "(^ a 2)"};
    auto all = share(closure1(atoms, ops, none));
    auto few = share(deep ? closure1({"a", "p", "-1", "-2/3", "(sqrt 2)", "(+ a b)", "pi", "(sin a)", "(^ a b)", "a'", "a_1"}, ops, none) : distinct(atoms, none));
    e.note("closure_states", std::to_string(all->size()));
    {
        Space sp;
        sp.name = "closure";
        sp.n = all->size();
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            c.begin(str(x.t));
            whole(c, x.v);
            for (auto& y : *few)
                for (Op op : ops)
                    for (bool swap : {false, true}) {
                        if (swap && (op == Op::ADD || op == Op::MUL)) continue;
                        const State &l = swap ? y : x, &r = swap ? x : y;
                        c.begin(str(mk(op, l.t, r.t)));
                        whole(c, applyOp(op, l.v, r.v));
                    }
        };
        e.add(sp);
    }
    {
        Space sp;
        sp.name = "functions";
        sp.n = all->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*all)[i];
            for (Op f : {Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN, Op::SQRT, Op::EXPAND, Op::NORMAL, Op::SIMPLIFY}) {
                c.begin(str(mk(f, x.t)));
                const Var v = applyOp(f, x.v);
                whole(c, v);
                if (f == Op::EXPAND || f == Op::NORMAL || f == Op::SIMPLIFY) continue;
                c.begin("(* " + str(mk(f, x.t)) + " a)");
                whole(c, v * Var("a"));
                c.begin("(^ " + str(mk(f, x.t)) + " 2)");
                whole(c, tsym::pow(v, Var(2)));
                c.begin("(diff " + str(mk(f, x.t)) + " a)");
                whole(c, tsym::diff(v, Var("a")));
            }
            for (auto& y : *few) {
                c.begin("(atan2 " + str(x.t) + " " + str(y.t) + ")");
                whole(c, tsym::atan2(x.v, y.v));
            }
        };
        e.add(sp);
    }
    { // long sums and products: the number of operands and of symbols grows as it should
        Space sp;
        sp.name = "growth";
        sp.n = deep ? 120 : 60;
        sp.chunk = 2;
        sp.run = [=](uint64_t i, Ctx& c) {
            const unsigned n = i + 2;
            c.begin("sum and product of " + std::to_string(n) + " symbols");
            Var s(0), p(1), q(1);
            for (unsigned k = 0; k < n; ++k) {
                const Var x("x_{" + std::to_string(k) + "}");
                s += x;
                p *= x;
                q = tsym::sin(q + x);
            }
            c.compared(6);
            if (tsym::operands(s).size() != n || tsym::operands(p).size() != n) c.fail("growth", "wrong number of operands");
            if (tsym::collectSymbols(s).size() != n || tsym::collectSymbols(p).size() != n || tsym::collectSymbols(q).size() != n || tsym::collectSymbols(s * p * q).size() != n) c.fail("growth", "wrong number of symbols");
            whole(c, s);
            whole(c, p);
            whole(c, q);
        };
        e.add(sp);
    }
    { // growing expressions, combined and as arguments
        auto G = share(distinct(cat({growth(2), wide()}), none)), R = share(distinct(growthOperands(), none));
        Space sp;
        sp.name = "growth-combined";
        sp.n = G->size();
        sp.chunk = 1;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*G)[i];
            for (auto& y : *R)
                for (Op op : ops) {
                    c.begin(str(mk(op, x.t, y.t)));
                    whole(c, applyOp(op, x.v, y.v));
                }
            for (Op f : {Op::LOG, Op::SIN, Op::ATAN, Op::SQRT, Op::EXPAND}) {
                c.begin(str(mk(f, x.t)));
                whole(c, applyOp(f, x.v));
            }
        };
        e.add(sp);
    }
    { // names: what is given is what is returned
        Strs names;
        const Strs stems{"a", "b", "x1", "alpha", "Alpha", "omega", "A", "abc", "x2y", "sin1", "pix", "tmpx", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
        const Strs subs{"", "_1", "_a", "_{12}", "_{abc}", "_{alpha}", "_{a1}"};
        for (auto& s : stems) for (auto& t : subs) names.push_back(s + t);
        Space sp;
        sp.name = "names";
        sp.n = names.size();
        sp.chunk = 8;
        sp.run = [=](uint64_t i, Ctx& c) {
            c.begin("symbol " + names[i]);
            for (bool pos : {false, true}) {
                const Var v = pos ? Var(names[i], Var::Sign::POSITIVE) : Var(names[i]);
                c.transitions();
                c.compared(2);
                c.state(v);
                if (v.type() != Var::Type::SYMBOL) { c.fail("name", "isn't a symbol"); return; }
                if (tsym::name(v) != names[i]) c.fail("name", "has the name " + tsym::name(v));
                if (tsym::isPositive(v) != pos || tsym::isNegative(v)) c.fail("name", "sign assumption is lost");
                if (tsym::complexity(v) == 0) c.fail("name", "complexity is zero");
                for (size_t j = 0; j < names.size(); ++j) {
                    const Var w = pos ? Var(names[j], Var::Sign::POSITIVE) : Var(names[j]);
                    c.compared();
                    if ((v == w) != (i == j)) c.fail("name", "equality with " + names[j] + " is wrong");
                    if (i != j && (isUndef(v - w) || v - w == Var(0) || tsym::collectSymbols(v * w).size() != 2)) c.fail("name", "is confused with " + names[j]);
                }
            }
            if (Var(names[i]) == Var(names[i], Var::Sign::POSITIVE)) c.fail("name", "plain and positive symbol are equal");
        };
        e.add(sp);
    }
}
