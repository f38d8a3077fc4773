// Independent reference for the textual notation: tokenizer and precedence climbing, evaluated with the reference arithmetic.
#ifndef MC_REFPARSE_H
#define MC_REFPARSE_H
#include "core.h"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <optional>
namespace mc {
// Deterministic values of arbitrary symbol names, for a few assignments.
inline constexpr size_t NS = 6;
inline Val symValue(const std::string& name, size_t k)
{
    uint64_t h = 1469598103934665603ull + k * 1099511628211ull;
    for (unsigned char ch : name) { h ^= ch; h *= 1099511628211ull; h ^= h >> 29; }
    static const int den[] = {3, 5, 7, 11, 13, 17};
    const int64_t n = 1 + int64_t(h % 41);
    const bool negative = (h >> 20) % 3 == 0;
    return rat(negative ? -n : n, den[(h >> 8) % 6]);
}
struct Sem { // meaning of a (sub)string: values, the expression built by the API operators, symbols
    Vals vals;
    Var v;
};
// Independent reference: tokenizer plus precedence climbing on the documented grammar.
class Ref {
  public:
    // api: also build the expression by the operators of the library; printed: read printed text, where e is Euler's number
    explicit Ref(std::string str, bool api = true, bool printed = false) : s(std::move(str)), api(api), printed(printed) {}
    std::optional<Sem> run()
    {
        try {
            Sem r = sum();
            ws();
            if (i != s.size()) return std::nullopt;
            return r;
        } catch (int) {
            return std::nullopt;
        }
    }
    std::set<std::string> symbols;
    bool anyReal = false;
    bool wide = false; // floating point literal whose last digit may be rounded differently
    bool heavy = false; // huge powers: not evaluated

  private:
    const std::string s;
    const bool api, printed;
    size_t i = 0;
    void ws() { while (i < s.size() && (s[i] == 32 || (s[i] >= 9 && s[i] <= 13))) ++i; }
    bool lit(char c)
    {
        ws();
        if (i < s.size() && s[i] == c) { ++i; return true; }
        return false;
    }
    Sem bin(Op op, const Sem& x, const Sem& y)
    {
        if (api && op == Op::POW && y.vals[0].num() && std::fabs(y.vals[0].m) > 400) { heavy = true; throw 2; }
        Sem r{{}, api ? applyOp(op, x.v, y.v) : Var()};
        for (size_t k = 0; k < NS; ++k) r.vals.push_back(refOp(op, x.vals[k], y.vals[k]));
        return r;
    }
    Sem un(Op op, const Sem& x)
    {
        Sem r{{}, api ? applyOp(op, x.v) : Var()};
        for (size_t k = 0; k < NS; ++k) r.vals.push_back(refOp(op, x.vals[k]));
        return r;
    }
    Sem sum()
    {
        lit('+');
        Sem r = product();
        while (true) {
            if (lit('+')) r = bin(Op::ADD, r, product());
            else if (lit('-')) r = bin(Op::SUB, r, product());
            else return r;
        }
    }
    Sem product()
    {
        Sem r = sign();
        while (true) {
            if (lit('*')) r = bin(Op::MUL, r, sign());
            else if (lit('/')) r = bin(Op::DIV, r, sign());
            else return r;
        }
    }
    Sem sign() { return lit('-') ? un(Op::NEG, power()) : power(); }
    Sem power()
    {
        Sem b = primary();
        return lit('^') ? bin(Op::POW, b, power()) : b;
    }
    Sem primary()
    {
        ws();
        if (i >= s.size()) throw 1;
        const unsigned char ch = s[i];
        if (ch == '(') {
            ++i;
            Sem r = sum();
            if (!lit(')')) throw 1;
            return r;
        }
        if (ch < 128 && std::isdigit(ch)) return number();
        if (ch == '.') return number();
        if (ch < 128 && std::isalpha(ch)) return identifier();
        throw 1;
    }
    static bool an(unsigned char c) { return c < 128 && std::isalnum(c); }
    Sem number()
    {
        const size_t b = i;
        while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i;
        const bool lead = i > b;
        bool real = false;
        if (i < s.size() && s[i] == '.') {
            const size_t f = ++i;
            while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i;
            if (!lead && i == f) throw 1;
            real = true;
        }
        if ((lead || real) && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            size_t j = i + 1;
            if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j;
            const size_t d = j;
            while (j < s.size() && std::isdigit((unsigned char)s[j])) ++j;
            if (j > d) {
                const int ex = std::atoi(s.substr(d, j - d).c_str());
                if (j - d > 4 || ex > 250) { heavy = true; throw 2; }
                if (ex > 12) wide = true;
                i = j;
                real = true;
            }
        }
        if (real) {
            if (i - b > 8) wide = true;
            anyReal = true;
            const double d = std::strtod(s.substr(b, i - b).c_str(), nullptr);
            return {Vals(NS, ball(d, std::fabs(d) * 1e-15L)), Var(d)};
        }
        if (!lead) throw 1;
        std::string digits = s.substr(b, i - b);
        digits = digits.substr(std::min(digits.find_first_not_of('0'), digits.size() - 1));
        Val v = digits.size() <= 18 ? rat(std::stoll(digits)) : ball(std::strtold(digits.c_str(), nullptr), std::strtold(digits.c_str(), nullptr) * ULP);
        return {Vals(NS, v), api ? Var(digits) : Var()};
    }
    Sem identifier()
    {
        const size_t b = i;
        while (i < s.size() && an(s[i])) ++i;
        const std::string word = s.substr(b, i - b);
        std::string low;
        for (char c : word) low += (char)std::tolower((unsigned char)c);
        std::string sub;
        if (i < s.size() && s[i] == '_') {
            size_t j = i + 1;
            if (j < s.size() && an(s[j])) { sub = s[j]; i = j + 1; }
            else if (j < s.size() && s[j] == '{') {
                size_t k = j + 1;
                while (k < s.size() && an(s[k])) ++k;
                if (k == j + 1 || k >= s.size() || s[k] != '}') throw 1;
                sub = s.substr(j + 1, k - j - 1);
                i = k + 1;
            } else throw 1;
        }
        if (sub.empty()) {
            if (low == "pi") return {Vals(NS, piv()), api ? tsym::pi() : Var()};
            if (printed && word == "e") return {Vals(NS, ev()), Var()};
            if (low == "euler") return {Vals(NS, ev()), api ? tsym::euler() : Var()};
            size_t save = i;
            ws();
            const bool call = i < s.size() && s[i] == '(';
            i = save;
            if (call) {
                static const std::map<std::string, Op> fct{{"sin", Op::SIN}, {"cos", Op::COS}, {"tan", Op::TAN}, {"asin", Op::ASIN}, {"acos", Op::ACOS},
                  {"atan", Op::ATAN}, {"sqrt", Op::SQRT}, {"log", Op::LOG}, {"atan2", Op::ATAN2}};
                const auto it = fct.find(low);
                if (it == fct.end()) throw 1;
                lit('(');
                Sem x = sum();
                if (it->second == Op::ATAN2) {
                    if (!lit(',')) throw 1;
                    Sem y = sum();
                    if (!lit(')')) throw 1;
                    return bin(Op::ATAN2, x, y);
                }
                if (!lit(')')) throw 1;
                return un(it->second, x);
            }
        }
        const std::string name = sub.empty() ? word : sub.size() == 1 ? word + "_" + sub : word + "_{" + sub + "}";
        symbols.insert(name);
        Sem r{{}, api ? Var(name) : Var()};
        for (size_t k = 0; k < NS; ++k) r.vals.push_back(symValue(name, k));
        return r;
    }
};
}
#endif
