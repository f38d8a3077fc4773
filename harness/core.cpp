#include "core.h"
#include <cstdlib>
#include <cstring>

namespace mc {
/* ---------- samples ---------- */
Samples signSamples()
{
    // |values| chosen pairwise multiplicatively independent-ish, some below and some above one.
    static const std::array<std::pair<int, int>, 4> mag{{{7, 5}, {3, 7}, {11, 3}, {2, 13}}};
    static const std::array<std::pair<int, int>, 4> mag2{{{2, 3}, {13, 4}, {1, 6}, {9, 5}}};
    const char* names[] = {"a", "b", "c", "d"};
    Samples out;
    for (int m = 0; m < 16; ++m) {
        Sample s;
        const auto& mm = (m * 0x9 + (m >> 2)) & 1 ? mag2 : mag;
        for (int k = 0; k < 4; ++k) {
            const int sgn = m >> k & 1 ? -1 : 1;
            s.v[names[k]] = rat(sgn * mm[k].first, mm[k].second);
        }
        s.v["p"] = m & 1 ? rat(5, 7) : rat(17, 8);
        s.v["q"] = m & 2 ? rat(19, 6) : rat(4, 11);
        out.push_back(s);
    }
    return out;
}
Samples namesakeSamples()
{
    Samples out = signSamples();
    int m = 0;
    for (auto& s : out) {
        s.v["a'"] = m & 1 ? rat(23, 9) : rat(3, 8);
        s.v["a_1"] = m & 2 ? rat(-5, 3) : rat(5, 12);
        s.v["a_1'"] = m & 4 ? rat(29, 10) : rat(6, 17);
        s.v["a_2"] = m & 8 ? rat(31, 14) : rat(-4, 15);
        s.v["sin"] = m & 1 ? rat(-8, 21) : rat(10, 7);
        ++m;
    }
    return out;
}
Samples stdSamples()
{
    Samples out = signSamples();
    auto put = [&](Val a, Val b, Val c, Val d) {
        Sample s;
        s.v = {{"a", a}, {"b", b}, {"c", c}, {"d", d}, {"p", rat(3)}, {"q", rat(1, 2)}};
        s.generic = false;
        out.push_back(s);
    };
    put(rat(0), rat(2), rat(-3), rat(1));
    put(rat(2), rat(0), rat(1), rat(-1));
    put(rat(1), rat(1), rat(2), rat(2));
    put(rat(-1), rat(2), rat(-1), rat(0));
    put(rat(3, 2), rat(-3, 2), rat(0), rat(3, 2));
    return out;
}

/* ---------- tree access ---------- */
std::string text(const Var& v)
{
    std::ostringstream os;
    tsym::PlaintextPrintEngine eng(os, tsym::PlaintextPrintEngine::CharSet::ASCII);
    tsym::print(eng, v);
    return os.str();
}
bool isNumber(const Var& v)
{
    const auto t = v.type();
    return t == Var::Type::INT || t == Var::Type::FRACTION || t == Var::Type::DOUBLE;
}
bool isUndef(const Var& v) { return v.type() == Var::Type::UNDEFINED; }
bool hasDouble(const Var& v)
{
    if (v.type() == Var::Type::DOUBLE) return true;
    if (isNumber(v)) return false;
    for (const auto& o : tsym::operands(v))
        if (hasDouble(o)) return true;
    return false;
}
bool isConst(const Var& v)
{
    if (v.type() == Var::Type::SYMBOL) return false;
    if (isNumber(v)) return true;
    for (const auto& o : tsym::operands(v))
        if (!isConst(o)) return false;
    return true;
}
static Val intText(const std::string& s)
{
    std::string digits = s;
    bool negative = false;
    if (!digits.empty() && (digits[0] == '-' || digits[0] == '+')) {
        negative = digits[0] == '-';
        digits = digits.substr(1);
    }
    if (digits.empty() || digits.find_first_not_of("0123456789") != std::string::npos) return indetVal();
    if (digits.size() <= 18) {
        const int64_t n = std::strtoll(digits.c_str(), nullptr, 10);
        return rat(negative ? -n : n);
    }
    const long double m = std::strtold(digits.c_str(), nullptr);
    return ball(negative ? -m : m, std::fabs(m) * ULP);
}
Val numberValue(const Var& v)
{
    switch (v.type()) {
        case Var::Type::INT: return intText(text(v));
        case Var::Type::FRACTION: {
            const std::string s = text(v);
            const auto pos = s.find('/');
            if (pos == std::string::npos) return indetVal();
            return div(intText(s.substr(0, pos)), intText(s.substr(pos + 1)));
        }
        case Var::Type::DOUBLE: {
            const double d = static_cast<double>(v);
            if (!std::isfinite(d)) return indetVal();
            return ball(d, std::fabs(d) * 0x1p-50L);
        }
        default: return indetVal();
    }
}
static Val fctValue(const std::string& n, const Val& x)
{
    if (n == "sin") return sinv(x);
    if (n == "cos") return cosv(x);
    if (n == "tan") return tanv(x);
    if (n == "asin") return asinv(x);
    if (n == "acos") return acosv(x);
    if (n == "atan") return atanv(x);
    if (n == "log") return logv(x);
    return indetVal();
}
Val evalTree(const Var& v, const Sample& s)
{
    switch (v.type()) {
        case Var::Type::INT:
        case Var::Type::FRACTION:
        case Var::Type::DOUBLE: return numberValue(v);
        case Var::Type::SYMBOL: {
            const std::string n = tsym::name(v);
            auto it = tsym::isPositive(v) ? s.v.find(n + "'") : s.v.end(); // a': the positive symbol of that name
            if (it == s.v.end()) it = s.v.find(n);
            return it == s.v.end() ? indetVal() : it->second;
        }
        case Var::Type::CONSTANT: {
            const std::string n = tsym::name(v);
            return n == "pi" ? piv() : n == "e" ? ev() : indetVal();
        }
        case Var::Type::UNDEFINED: return undefVal();
        case Var::Type::FUNCTION: {
            const auto ops = tsym::operands(v);
            const std::string n = tsym::name(v);
            if (ops.size() == 2 && n == "atan2") return atan2v(evalTree(ops[0], s), evalTree(ops[1], s));
            if (ops.size() == 1) return fctValue(n, evalTree(ops[0], s));
            return indetVal();
        }
        case Var::Type::SUM:
        case Var::Type::PRODUCT: {
            const bool sum = v.type() == Var::Type::SUM;
            Val r = rat(sum ? 0 : 1);
            for (const auto& o : tsym::operands(v)) {
                const Val x = evalTree(o, s);
                if (x.undef()) return x;
                // an exact zero factor must not hide an undetermined one
                if (r.st == St::INDET || x.st == St::INDET) { r = indetVal(); continue; }
                r = sum ? add(r, x) : mul(r, x);
            }
            return r;
        }
        case Var::Type::POWER: {
            const auto ops = tsym::operands(v);
            if (ops.size() != 2) return indetVal();
            return powv(evalTree(ops[0], s), evalTree(ops[1], s));
        }
    }
    return indetVal();
}
Vals evalTree(const Var& v, const Samples& s)
{
    Vals out;
    out.reserve(s.size());
    for (const auto& x : s) out.push_back(evalTree(v, x));
    return out;
}
unsigned treeSize(const Var& v)
{
    unsigned n = 1;
    if (!isNumber(v))
        for (const auto& o : tsym::operands(v)) n += treeSize(o);
    return n;
}
static void keyInto(const Var& v, std::string& out)
{
    switch (v.type()) {
        case Var::Type::INT: out += text(v); return;
        case Var::Type::FRACTION: out += 'F'; out += text(v); return;
        case Var::Type::DOUBLE: {
            char buf[64];
            snprintf(buf, sizeof buf, "D%a", static_cast<double>(v));
            out += buf;
            return;
        }
        case Var::Type::SYMBOL:
            out += tsym::isPositive(v) ? "P:" : "S:";
            out += tsym::name(v);
            return;
        case Var::Type::CONSTANT: out += "K:"; out += tsym::name(v); return;
        case Var::Type::UNDEFINED: out += "U"; return;
        case Var::Type::FUNCTION: out += tsym::name(v); break;
        case Var::Type::SUM: out += '+'; break;
        case Var::Type::PRODUCT: out += '*'; break;
        case Var::Type::POWER: out += '^'; break;
    }
    out += '(';
    bool first = true;
    for (const auto& o : tsym::operands(v)) {
        if (!first) out += ',';
        first = false;
        keyInto(o, out);
    }
    out += ')';
}
std::string key(const Var& v)
{
    std::string s;
    keyInto(v, s);
    return s;
}

/* ---------- operations ---------- */
const std::vector<Op> arith{Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW};
const std::vector<Op> trigFct{Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN};
const std::vector<Op> unaryFct{Op::LOG, Op::SIN, Op::COS, Op::TAN, Op::ASIN, Op::ACOS, Op::ATAN};
static const char* const opNames[] = {"leaf", "+", "-", "*", "/", "^", "atan2", "neg", "sqrt", "log", "sin", "cos", "tan",
  "asin", "acos", "atan", "expand", "normal", "simplify", "numerator", "denominator"};
const char* opName(Op op) { return opNames[static_cast<int>(op)]; }
Var applyOp(Op op, const Var& x, const Var& y)
{
    switch (op) {
        case Op::ADD: return x + y;
        case Op::SUB: return x - y;
        case Op::MUL: return x * y;
        case Op::DIV: return x / y;
        case Op::POW: return tsym::pow(x, y);
        case Op::ATAN2: return tsym::atan2(x, y);
        case Op::NEG: return -x;
        case Op::SQRT: return tsym::sqrt(x);
        case Op::LOG: return tsym::log(x);
        case Op::SIN: return tsym::sin(x);
        case Op::COS: return tsym::cos(x);
        case Op::TAN: return tsym::tan(x);
        case Op::ASIN: return tsym::asin(x);
        case Op::ACOS: return tsym::acos(x);
        case Op::ATAN: return tsym::atan(x);
        case Op::EXPAND: return tsym::expand(x);
        case Op::NORMAL: return tsym::normal(x);
        case Op::SIMPLIFY: return tsym::simplify(x);
        case Op::NUMER: return tsym::numerator(x);
        case Op::DENOM: return tsym::denominator(x);
        case Op::LEAF: break;
    }
    throw std::logic_error("harness: bad op");
}
Val refOp(Op op, const Val& x, const Val& y)
{
    switch (op) {
        case Op::ADD: return add(x, y);
        case Op::SUB: return sub(x, y);
        case Op::MUL: return mul(x, y);
        case Op::DIV: return div(x, y);
        case Op::POW: return powv(x, y);
        case Op::ATAN2: return atan2v(x, y);
        case Op::NEG: return neg(x);
        case Op::SQRT: return powv(x, rat(1, 2));
        case Op::LOG: return logv(x);
        case Op::SIN: return sinv(x);
        case Op::COS: return cosv(x);
        case Op::TAN: return tanv(x);
        case Op::ASIN: return asinv(x);
        case Op::ACOS: return acosv(x);
        case Op::ATAN: return atanv(x);
        case Op::EXPAND:
        case Op::NORMAL:
        case Op::SIMPLIFY: return x;
        default: return indetVal();
    }
}

/* ---------- terms ---------- */
T leaf(const std::string& s)
{
    auto t = std::make_shared<Term>();
    t->leaf = s;
    return t;
}
T mk(Op op, T x, T y)
{
    auto t = std::make_shared<Term>();
    t->op = op;
    t->x = std::move(x);
    t->y = std::move(y);
    return t;
}
std::string str(const T& t)
{
    if (t->op == Op::LEAF) return t->leaf;
    std::string s = std::string("(") + opName(t->op) + " " + str(t->x);
    if (t->y) s += " " + str(t->y);
    return s + ")";
}
static void skipWs(const std::string& s, size_t& i) { while (i < s.size() && s[i] == ' ') ++i; }
static T parseTermAt(const std::string& s, size_t& i)
{
    skipWs(s, i);
    auto word = [&]() {
        size_t b = i;
        while (i < s.size() && s[i] != ' ' && s[i] != '(' && s[i] != ')') ++i;
        return s.substr(b, i - b);
    };
    if (s[i] != '(') return leaf(word());
    ++i;
    const std::string op = word();
    int o = -1;
    for (int k = 1; k <= (int)Op::DENOM; ++k)
        if (op == opNames[k]) o = k;
    if (o < 0) throw std::logic_error("harness: bad term " + s);
    T x = parseTermAt(s, i), y;
    skipWs(s, i);
    // n-ary sugar for + and *: left-associated
    T cur = x;
    bool got = false;
    while (s[i] != ')') {
        y = parseTermAt(s, i);
        cur = mk((Op)o, cur, y);
        got = true;
        skipWs(s, i);
    }
    ++i;
    return got ? cur : mk((Op)o, x);
}
T parseTerm(const std::string& s)
{
    size_t i = 0;
    return parseTermAt(s, i);
}
static const Var& symA() { static const Var v("a"); return v; }
Var leafVar(const std::string& s)
{
    (void)symA;
    if (s == "pi") return tsym::pi();
    if (s == "e") return tsym::euler();
    if (s == "undefined") return Var(1) / Var(0);
    if (s == "p" || s == "q" || s == "r") return Var(s, Var::Sign::POSITIVE);
    if (s[0] == 'D') return Var(std::strtod(s.c_str() + 1, nullptr));
    if (s.back() == '\'') return Var(s.substr(0, s.size() - 1), Var::Sign::POSITIVE);
    if (std::isalpha((unsigned char)s[0])) return Var(s);
    const auto slash = s.find('/');
    if (slash != std::string::npos) {
        const std::string n = s.substr(0, slash), d = s.substr(slash + 1);
        if (n.size() < 9 && d.size() < 9) return Var(std::atoi(n.c_str()), std::atoi(d.c_str()));
        return Var(n) / Var(d);
    }
    if (s.size() < 10) return Var(std::atoi(s.c_str()));
    if (s[0] == '-') return -Var(s.substr(1));
    return Var(s);
}
Var build(const T& t)
{
    if (t->op == Op::LEAF) return leafVar(t->leaf);
    if (t->y) return applyOp(t->op, build(t->x), build(t->y));
    return applyOp(t->op, build(t->x));
}
Val evalTerm(const T& t, const Sample& s)
{
    if (t->op == Op::LEAF) {
        if (t->leaf == "pi") return piv();
        if (t->leaf == "e") return ev();
        if (t->leaf == "undefined") return undefVal();
        if (t->leaf[0] == 'D') {
            const double d = std::strtod(t->leaf.c_str() + 1, nullptr);
            return std::isfinite(d) ? ball(d, 0) : indetVal();
        }
        if (std::isalpha((unsigned char)t->leaf[0])) {
            const auto it = s.v.find(t->leaf);
            return it == s.v.end() ? indetVal() : it->second;
        }
        const auto slash = t->leaf.find('/');
        if (slash == std::string::npos) return intText(t->leaf);
        return div(intText(t->leaf.substr(0, slash)), intText(t->leaf.substr(slash + 1)));
    }
    if (t->y) return refOp(t->op, evalTerm(t->x, s), evalTerm(t->y, s));
    return refOp(t->op, evalTerm(t->x, s));
}
Vals evalTerm(const T& t, const Samples& s)
{
    Vals out;
    for (const auto& x : s) out.push_back(evalTerm(t, x));
    return out;
}
State mkState(const T& t, const Samples& s)
{
    State st{t, build(t), {}};
    st.vals = evalTerm(t, s);
    return st;
}
std::vector<State> mkStates(const std::vector<T>& ts, const Samples& s)
{
    std::vector<State> out;
    for (const auto& t : ts) out.push_back(mkState(t, s));
    return out;
}
std::vector<State> mkStates(const std::vector<std::string>& ts, const Samples& s)
{
    std::vector<State> out;
    for (const auto& t : ts) out.push_back(mkState(parseTerm(t), s));
    return out;
}
std::vector<State> closure(const std::vector<State>& xs, const std::vector<State>& ys, const std::vector<Op>& ops,
  const Samples& s, std::set<std::string>& known)
{
    std::vector<State> out;
    for (const auto& x : xs)
        for (const Op op : ops) {
            if (!isBinary(op)) {
                Var r = applyOp(op, x.v);
                if (isUndef(r) || !known.insert(key(r)).second) continue;
                State st{mk(op, x.t), r, {}};
                for (size_t i = 0; i < s.size(); ++i) st.vals.push_back(refOp(op, x.vals[i]));
                out.push_back(std::move(st));
                continue;
            }
            for (const auto& y : ys) {
                Var r = applyOp(op, x.v, y.v);
                if (isUndef(r) || !known.insert(key(r)).second) continue;
                State st{mk(op, x.t, y.t), r, {}};
                for (size_t i = 0; i < s.size(); ++i) st.vals.push_back(refOp(op, x.vals[i], y.vals[i]));
                out.push_back(std::move(st));
            }
        }
    return out;
}

namespace {
    struct Silent : tsym::Logger {
        void debug(const Message&) const override {}
        void info(const Message&) const override {}
        void warning(const Message&) const override {}
        void error(const Message&) const override {}
        void critical(const Message&) const override {}
    };
}
void installSilentLogger() { tsym::Logger::setInstance(std::make_unique<Silent>()); }

bool sameValue(Ctx& c, const std::string& kind, const Var& result, const Vals& want, const Samples& s, long double tol, bool partial)
{
    for (size_t i = 0; i < s.size(); ++i) {
        if (!want[i].num()) { c.skipped(); continue; }
        const Val got = evalTree(result, s[i]);
        bool bad = false;
        if (got.undef()) {
            if (!s[i].generic || (partial && !isUndef(result))) { c.skipped(); continue; }
            bad = true;
        } else {
            const Cmp cmp = compare(want[i], got, tol);
            if (cmp == Cmp::UNKNOWN) { c.skipped(); continue; }
            bad = cmp == Cmp::DIFFERENT;
        }
        c.compared();
        if (bad) {
            std::string m = "result " + text(result) + " has value " + str(got) + ", expected " + str(want[i]) + " at";
            for (const auto& kv : s[i].v) m += " " + kv.first + "=" + str(kv.second);
            c.fail(kind, m, text(result));
            return false;
        }
    }
    return true;
}
}
