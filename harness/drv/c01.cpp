// C01: building sums, differences, products, quotients and powers never changes the value.
#include "common.h"
using namespace mc;
extern const char* const driverProperty;
const char* const driverProperty = "C01";

void driver(Engine& e)
{
    const bool deep = e.thorough();
    auto S = std::make_shared<Samples>(stdSamples());
    auto SC = std::make_shared<Samples>(Samples{signSamples()[0]}); // numeric terms: one assignment suffices

    { // 1. closure of the atoms under all operations, twice
        Strs atoms{"a", "b", "p", "0", "1", "-1", "2", "-3", "1/2", "-2/3", "4", "1/3", "6", "(sqrt 2)", "pi", "(sin a)", "(sqrt a)"};
        if (deep) atoms = cat({atoms, {"q", "c", "8", "-1/4", "(^ 6 1/3)", "e", "(sqrt p)", "(log b)", "(cos a)"}});
        auto A0 = mkStates(atoms, *S);
        std::set<std::string> known;
        for (auto& s : A0) known.insert(key(s.v));
        auto A1 = closure(A0, A0, {Op::ADD, Op::MUL, Op::DIV, Op::POW}, *S, known);
        auto all = share(catS({A0, A1}));
        e.note("closure_states_depth1", std::to_string(all->size()));
        e.add(pairSpace("closure", all, all, arith, S));
    }
    { // 2. numeric powers: every base and exponent of a grid, then all pairs of a sub grid
        Strs bases, exps;
        const int N = deep ? 200 : 72, M = deep ? 60 : 20;
        for (int n = -12; n <= N; ++n) bases.push_back(std::to_string(n));
        for (int n = 1; n <= M; ++n)
            for (int d = 2; d <= M; ++d)
                if (gcdU(n, d) == 1) bases.push_back(std::to_string(n) + "/" + std::to_string(d));
        for (const char* b : {"-1/2", "-9/4", "-8/27", "97", "101", "128", "243", "256", "343", "512", "625", "729", "1000", "1024",
               "1296", "2310", "4096", "10403", "65536", "1000000", "1000003", "2147483646", "2147483647", "2147483648",
               "4294967296", "6469693230", "1000000007", "999999000001", "100000000000000", "1/2147483648", "49/2147483647",
               "1000000/1000003", "125/343", "144/625", "1024/59049"})
            bases.push_back(b);
        for (int d = 1; d <= (deep ? 12 : 7); ++d)
            for (int n = -(deep ? 25 : 13); n <= (deep ? 25 : 13); ++n)
                if (gcdU(std::abs(n), d) == 1 || (n == 0 && d == 1)) exps.push_back(d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d));
        auto B = share(mkStates(bases, *SC)), X = share(mkStates(exps, *SC));
        auto sp = pairSpace("numeric-power", B, X, {Op::POW}, SC);
        sp.chunk = 8;
        e.add(sp);
        Strs np;
        const Strs pb = deep ? Strs{"2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "15", "16", "18", "20", "24", "27", "30", "32", "35", "36", "40", "42", "45", "48",
                                 "50", "54", "60", "64", "72", "75", "90", "96", "100", "108", "1/2", "2/3", "3/4", "4/9", "5/6", "8/27", "9/10", "12/25", "50/3"}
                             : Strs{"2", "3", "4", "5", "6", "8", "9", "10", "12", "15", "16", "18", "20", "24", "27", "30", "32", "36", "60", "72", "1/2", "2/3", "3/4", "8/27", "9/10"};
        const Strs pe = deep ? Strs{"1/2", "-1/2", "1/3", "-1/3", "2/3", "-2/3", "1/4", "3/4", "-3/4", "5/2", "-3/2", "1/6", "5/6", "4/3", "1/5", "-7/4"}
                             : Strs{"1/2", "-1/2", "1/3", "-1/3", "2/3", "1/4", "3/4", "-3/2", "1/6", "4/3"};
        for (auto& b : pb)
            for (auto& x : pe) np.push_back("(^ " + b + " " + x + ")");
        np = cat({np, {"2", "-1", "-3", "1/2", "5/6", "(- 1 (sqrt 2))", "(* 2 (sqrt 3))", "(* -3 (^ 2 1/3))", "(+ (sqrt 2) (sqrt 3))", "(* (sqrt 2) (^ 3 1/3))"}});
        auto P = share(distinct(np, *SC));
        e.add(pairSpace("numeric-power-pairs", P, P, {Op::MUL, Op::DIV, Op::ADD, Op::SUB}, SC));
        // bases around and beyond the limit up to which prime factors are resolved
        Strs lp;
        for (auto& b : Strs{"2", "5", "10", "1/2", "7/3", "999", "1000", "1001", "1003", "1009", "1013", "2000", "2018", "3003", "1018081", "1022117", "1/1001", "1001/4", "4/1009", "1009/1013", "1000003", "1000000", "2000006", "999999000001"})
            for (auto& x : Strs{"1/2", "-1/2", "1/3", "-1/3", "2/3", "3/2", "1/4"}) lp.push_back("(^ " + b + " " + x + ")");
        lp = cat({lp, {"1009", "1/1009", "-1009", "1018081", "(neg (sqrt 1009))", "(* 3 (sqrt 2018))", "(+ 1 (sqrt 1009))"}});
        auto PL = share(distinct(lp, *SC));
        e.add(pairSpace("large-bases", PL, PL, {Op::MUL, Op::DIV, Op::ADD, Op::SUB}, SC));
        // products of three numeric powers, squared/rooted sums
        Strs tri;
        for (auto& b : deep ? pb : Strs{"2", "3", "6", "8", "12", "1/2", "18", "2/3"})
            for (auto& x : Strs{"1/2", "-1/2", "1/3", "-2/3", "1/4"}) tri.push_back("(^ " + b + " " + x + ")");
        auto T3 = share(distinct(tri, *SC));
        Space sp3;
        sp3.name = "numeric-power-triples";
        sp3.n = T3->size() * T3->size();
        sp3.chunk = 32;
        sp3.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*T3)[i / T3->size()], &y = (*T3)[i % T3->size()];
            for (Op o1 : {Op::MUL, Op::ADD}) {
                State xy{mk(o1, x.t, y.t), applyOp(o1, x.v, y.v), {refOp(o1, x.vals[0], y.vals[0])}};
                for (const auto& z : *T3)
                    for (Op o2 : {Op::MUL, Op::ADD}) c.state(step(c, o2, xy, &z, *SC));
            }
        };
        e.add(sp3);
    }
    { // 3. chains of three and four operands in every order: merging in long sums and products
        Strs items{"a", "b", "2", "-1", "1/2", "(sqrt 2)", "(sqrt 3)", "pi", "p", "(sqrt p)", "(sqrt a)", "(/ 1 a)", "(^ a 2)", "(* 2 a)", "(* a b)", "(neg b)",
          "(+ a b)", "(- a b)", "(/ 1 (+ a b))", "(^ (+ a b) 2)", "(^ 2 a)", "(^ a b)", "(sin a)", "(cos a)", "(tan a)", "(/ 1 (cos a))", "(^ (sin a) 2)",
          "(^ (cos a) 2)", "(log 2)", "(* (sqrt 2) a)", "(sqrt (+ a b))", "(+ 1 (sqrt 2))", "(sqrt (+ 1 (sqrt 2)))", "(/ a b)", "(* 3 (log a))"};
        if (deep) items = cat({items, {"c", "(^ a 1/3)", "(^ p b)", "(* a b c)", "(+ a b c)", "e", "(atan a)", "(^ e a)", "(* p (sqrt a))", "(* -2/3 (sin a))", "(^ 2 1/3)", "(sqrt (* a b))"}});
        auto I = share(distinct(items, *S));
        Space sp;
        sp.name = "chains-3";
        sp.n = I->size() * I->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State &x = (*I)[i / I->size()], &y = (*I)[i % I->size()];
            for (Op o1 : {Op::ADD, Op::MUL, Op::SUB, Op::DIV}) {
                State xy{mk(o1, x.t, y.t), step(c, o1, x, &y, *S), {}};
                for (size_t k = 0; k < S->size(); ++k) xy.vals.push_back(refOp(o1, x.vals[k], y.vals[k]));
                if (isUndef(xy.v)) continue;
                for (const auto& z : *I)
                    for (Op o2 : {Op::ADD, Op::MUL}) {
                        Var r = step(c, o2, xy, &z, *S);
                        c.state(r);
                        if (i % 331 == 7 && &z == &(*I)[3]) c.sample(str(mk(o2, xy.t, z.t)) + " -> " + text(r));
                    }
            }
        };
        e.add(sp);
        // combining two sums / two products of two items each
        Strs two;
        const Strs small = deep ? Strs{"a", "b", "2", "(sqrt 2)", "pi", "(/ 1 a)", "(sqrt p)", "(^ a 2)", "(sin a)", "(* 2 b)", "(+ a b)", "(^ 2 a)", "(cos a)", "(sqrt (+ a b))", "(^ a b)"}
                                : Strs{"a", "b", "2", "(sqrt 2)", "(/ 1 a)", "(sqrt p)", "(^ a 2)", "(sin a)", "(+ a b)", "(^ 2 a)", "(cos a)"};
        for (size_t i = 0; i < small.size(); ++i)
            for (size_t j = i; j < small.size(); ++j) {
                two.push_back("(+ " + small[i] + " " + small[j] + ")");
                two.push_back("(- " + small[i] + " " + small[j] + ")");
                two.push_back("(* " + small[i] + " " + small[j] + ")");
                two.push_back("(/ " + small[i] + " " + small[j] + ")");
            }
        auto W = share(distinct(two, *S));
        e.add(pairSpace("pairs-of-pairs", W, W, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, S));
    }
    { // 4. powers of powers and of products: exponent laws over signed and positive symbols
        const Strs coef{"1", "-1", "2", "-2", "4", "1/4", "-8", "(sqrt 2)", "(neg (sqrt 3))", "pi"};
        const Strs bas{"a", "p", "(+ a b)", "(sin a)", "(sqrt (+ p q))", "(+ p q)"};
        const Strs ex{"1", "2", "3", "-1", "-2", "1/2", "-1/2", "1/3", "2/3", "3/2", "4", "b", "(* 2 b)", "p", "(/ b 2)", "(log 2)"};
        const Strs outer{"2", "3", "-1", "-2", "4", "1/2", "-1/2", "1/3", "2/3", "3/2", "1/4", "5/2", "-3", "b", "(* 2 b)", "p", "(/ 1 b)", "(sqrt 2)", "pi", "-1/3", "6"};
        Strs in;
        for (auto& c : coef)
            for (auto& b : bas)
                for (auto& x : ex) in.push_back("(* " + c + " (^ " + b + " " + x + "))");
        for (auto& c : Strs{"1", "-1", "2", "-3"})
            for (auto& x1 : Strs{"a", "p", "(^ a 2)", "(^ p 2)", "(sqrt a)", "(^ a 3)"})
                for (auto& x2 : Strs{"b", "q", "(^ b 2)", "(sqrt b)", "(^ b -3)", "(sqrt q)", "(+ a b)", "(^ (+ a b) 2)"}) in.push_back("(* " + c + " " + x1 + " " + x2 + ")");
        auto IN = share(distinct(in, *S)), OUT = share(distinct(outer, *S));
        Space sp;
        sp.name = "exponent-laws";
        sp.n = IN->size();
        sp.chunk = 4;
        sp.run = [=](uint64_t i, Ctx& c) {
            const State& x = (*IN)[i];
            for (const auto& y : *OUT) {
                State xy{mk(Op::POW, x.t, y.t), step(c, Op::POW, x, &y, *S), {}};
                c.state(xy.v);
                for (size_t k = 0; k < S->size(); ++k) xy.vals.push_back(refOp(Op::POW, x.vals[k], y.vals[k]));
                if (isUndef(xy.v)) continue;
                for (const auto& z : *OUT) c.state(step(c, Op::POW, xy, &z, *S));
                c.state(step(c, Op::MUL, xy, &x, *S));
                c.state(step(c, Op::DIV, x, &xy, *S));
                c.state(step(c, Op::ADD, xy, &xy, *S));
            }
        };
        e.add(sp);
    }
    { // 5. floating point operands (values are only defined up to rounding)
        const Strs d{"D0.1", "D-0.3", "D1.23456789", "D-2.7182818284", "D1e10", "D12345.678901", "D1.5", "D-4", "D3.3333333333333", "D1e-3", "D1e100", "D-7.77e55", "D0.123456789"};
        const Strs o{"a", "b", "p", "2", "-1/3", "(sqrt 2)", "pi", "(+ a b)", "(* 2 a)", "(^ a 2)", "(sin a)", "(* D1.23456789 a)", "(+ a D0.123456789)", "(^ p D0.123456789)", "(log 2)", "1/2", "-3"};
        auto X = share(distinct(cat({d, o}), *S));
        e.add(pairSpace("floating-point", X, X, arith, S, 1e-10L));
    }
    { // 6. symbols of the same name
        auto NS = std::make_shared<Samples>(namesakeSamples());
        auto A = share(closure1(namesakes(), {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::POW}, *NS));
        auto B = deep ? A : share(closure1({"a", "a'", "a_1", "a_1'", "2", "sin"}, {Op::ADD, Op::MUL, Op::POW}, *NS));
        e.add(pairSpace("namesakes", A, B, arith, NS));
    }
    { // 7. growing operands, degrees, depths
        auto GS = std::make_shared<Samples>(manySamples());
        auto G = share(distinct(growth(2), *GS)), R = share(distinct(growthOperands(), *GS));
        e.note("growing_expressions", std::to_string(G->size()));
        e.add(pairSpace("growth-left", G, R, arith, GS));
        e.add(pairSpace("growth-right", R, G, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, GS));
        auto H = deep ? G : share(distinct(growth(1), *GS));
        e.add(pairSpace("growth-pairs", H, H, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, GS));
        e.add(pairSpace("growth-powers", G, share(mkStates(Strs{"2", "-1", "3", "-4", "1/2", "-1/3", "b", "1/12"}, *GS)), {Op::POW}, GS));
    }
    { // 8. very many operands, very deep nestings
        auto GS = std::make_shared<Samples>(manySamples());
        auto W = share(mkStates(wide(), *GS)), R = share(mkStates(wideOperands(), *GS));
        e.add(pairSpace("wide-left", W, R, arith, GS));
        e.add(pairSpace("wide-right", R, W, {Op::ADD, Op::SUB, Op::MUL, Op::DIV}, GS));
    }
    e.assume("values are decided at 21 assignments per expression (all sign patterns of four symbols plus degenerate points) with a rigorous error ball; an assignment where the reference is undefined or undecided is not compared");
    e.assume("floating point operands are compared up to a relative tolerance of 1e-10");
}
