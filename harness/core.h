// Core of the explorer: terms (operation histories over the public API), reference evaluation of terms and of
// tsym expression trees, and the process pool that enumerates a finite space of cases completely.
#ifndef MC_CORE_H
#define MC_CORE_H
#include <tsym/tsym.h>
#include <atomic>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include "value.h"

namespace mc {
using tsym::Var;

/* ---------- sample assignments ---------- */
struct Sample {
    std::map<std::string, Val> v;
    bool generic = true; // false: some symbol or simple subexpression vanishes; results may be undefined there
};
using Samples = std::vector<Sample>;
using Vals = std::vector<Val>;
Samples signSamples(); // all sign patterns of a,b,c,d with generic rationals, |x|<1 and |x|>1 mixed
Samples namesakeSamples(); // signSamples() with values for a' (positive symbol named a), a_1, a_1', a_2 and a symbol named sin
Samples stdSamples();  // signSamples() plus special points (0, 1, -1, coinciding values)

/* ---------- reference evaluation of a tsym expression tree ---------- */
Val numberValue(const Var& v);
Val evalTree(const Var& v, const Sample& s);
Vals evalTree(const Var& v, const Samples& s);
std::string key(const Var& v); // structural serialisation, independent of tsym's operator== and hash
std::string text(const Var& v); // ASCII print
unsigned treeSize(const Var& v);
bool isNumber(const Var& v);
bool isUndef(const Var& v);
bool hasDouble(const Var& v);
bool isConst(const Var& v); // no symbols

/* ---------- operations ---------- */
enum class Op { LEAF, ADD, SUB, MUL, DIV, POW, ATAN2, NEG, SQRT, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN,
    EXPAND, NORMAL, SIMPLIFY, NUMER, DENOM };
const char* opName(Op op);
Var applyOp(Op op, const Var& x, const Var& y = Var());
Val refOp(Op op, const Val& x, const Val& y = Val());
inline bool isBinary(Op op) { return op >= Op::ADD && op <= Op::ATAN2; }
extern const std::vector<Op> arith, unaryFct, trigFct;

/* ---------- terms ---------- */
struct Term;
using T = std::shared_ptr<const Term>;
struct Term {
    Op op = Op::LEAF;
    std::string leaf;
    T x, y;
};
T leaf(const std::string& s);
T mk(Op op, T x, T y = nullptr);
std::string str(const T& t);
T parseTerm(const std::string& s);
Var leafVar(const std::string& s);
Var build(const T& t);
Val evalTerm(const T& t, const Sample& s);
Vals evalTerm(const T& t, const Samples& s);

struct State { // expression together with the history that built it and its value at the samples
    T t;
    Var v;
    Vals vals;
};
State mkState(const T& t, const Samples& s);
std::vector<State> mkStates(const std::vector<T>& ts, const Samples& s);
std::vector<State> mkStates(const std::vector<std::string>& ts, const Samples& s);
// All ops over all pairs of states; results deduplicated by structural key (also against `known`), simplest first.
std::vector<State> closure(const std::vector<State>& xs, const std::vector<State>& ys, const std::vector<Op>& ops,
  const Samples& s, std::set<std::string>& known);

/* ---------- engine ---------- */
struct Ctx {
    // Announces the case about to run (identity used in replays and for known findings).
    void begin(const std::string& desc);
    // sig: observed result; part of the identity of a known finding, so that another wrong result is still reported.
    void fail(const std::string& kind, const std::string& msg, const std::string& sig = "");
    void state(const std::string& key);
    void state(const Var& v) { state(key(v)); }
    void transitions(uint64_t n = 1);
    void compared(uint64_t n = 1);  // reference comparisons actually decided
    void skipped(uint64_t n = 1);   // reference comparisons outside the reference's domain
    void sample(const std::string& s);
    void outcome(const std::string& key); // distinct observable outcomes
    bool failed = false;
    uint64_t index = 0;
    struct Impl* impl = nullptr;
};
struct Space {
    std::string name;
    uint64_t n = 0;
    uint64_t chunk = 256;
    double caseLimit = 20; // seconds for one case before it counts as hanging (then re-run alone with 4x)
    std::function<void(uint64_t, Ctx&)> run;
};
class Engine {
  public:
    Engine(std::string prop, std::string tier);
    void add(Space s);
    bool thorough() const { return tier == "thorough"; }
    void note(const std::string& k, const std::string& v) { notes[k] = v; }
    void assume(const std::string& s) { assumptions.push_back(s); }
    int main(int argc, char** argv); // exit code
    std::string prop, tier;

  private:
    std::vector<Space> spaces;
    std::map<std::string, std::string> notes;
    std::vector<std::string> assumptions;
};

// Transition invariant: value(result) must equal `want` wherever `want` is defined. Returns true if it holds.
bool sameValue(Ctx& c, const std::string& kind, const Var& result, const Vals& want, const Samples& s, long double tol = 0,
  bool partial = false); // partial: the result may be undefined at single assignments (but not Undefined as such)
void installSilentLogger();

/* registry of drivers */
using Driver = void (*)(Engine&);
}
#endif
