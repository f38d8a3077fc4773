// Exhaustive case pool: every chunk of the enumerated space runs in its own process forked from the pristine parent,
// so a run is deterministic, crashes and hangs are observed, and any failing case is replayed before it is reported.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include "core.h"

namespace mc {
namespace {
    constexpr size_t DESC = 6000;
    constexpr size_t STATE_SLOTS = size_t(1) << 26, OUT_SLOTS = size_t(1) << 20;
    struct Slot {
        std::atomic<uint64_t> index;
        std::atomic<int64_t> startMs;
        char desc[DESC];
    };
    struct Shared {
        std::atomic<uint64_t> transitions, compared, skipped, cases, states, outcomes;
        std::atomic<uint32_t> nsamples;
        char samples[32][512];
        Slot slots[64];
        std::atomic<uint64_t> outTab[OUT_SLOTS];
        std::atomic<uint64_t> tab[STATE_SLOTS];
    };
    int64_t nowMs()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return int64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
    }
    uint64_t hash64(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        return h ? h : 1;
    }
    void insert(std::atomic<uint64_t>* tab, size_t slots, uint64_t h, std::atomic<uint64_t>& count)
    {
        if (count.load(std::memory_order_relaxed) > slots / 2) return; // full: stop counting (reported as lower bound)
        for (size_t i = h & (slots - 1);; i = (i + 1) & (slots - 1)) {
            uint64_t cur = tab[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                if (tab[i].compare_exchange_strong(cur, h)) { count.fetch_add(1, std::memory_order_relaxed); return; }
                if (cur == h) return;
            }
        }
    }
    std::string esc(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
        return o;
    }
    std::string oneLine(std::string s)
    {
        for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r' || c == '\0') c = ' ';
        return s;
    }
}
struct Impl {
    Shared* sh = nullptr;
    Slot* slot = nullptr;
    int fd = -1;
    size_t space = 0;
    uint64_t chunkStart = 0;
    std::string desc;
};

void Ctx::begin(const std::string& desc)
{
    impl->desc = desc;
    const size_t n = std::min(desc.size(), DESC - 1);
    std::memcpy(impl->slot->desc, desc.data(), n);
    impl->slot->desc[n] = 0;
    impl->slot->startMs.store(nowMs());
}
void Ctx::fail(const std::string& kind, const std::string& msg, const std::string& sig)
{
    failed = true;
    std::string line = std::to_string(impl->space) + "\t" + std::to_string(index) + "\t" + std::to_string(impl->chunkStart) + "\t"
      + oneLine(kind) + "\t" + oneLine(impl->desc) + "\t" + oneLine(msg).substr(0, 3000) + "\t" + oneLine(sig).substr(0, 500) + "\n";
    if (write(impl->fd, line.data(), line.size()) < 0) abort();
}
void Ctx::state(const std::string& key) { insert(impl->sh->tab, STATE_SLOTS, hash64(key), impl->sh->states); }
void Ctx::outcome(const std::string& key) { insert(impl->sh->outTab, OUT_SLOTS, hash64(key), impl->sh->outcomes); }
void Ctx::transitions(uint64_t n) { impl->sh->transitions.fetch_add(n, std::memory_order_relaxed); }
void Ctx::compared(uint64_t n) { impl->sh->compared.fetch_add(n, std::memory_order_relaxed); }
void Ctx::skipped(uint64_t n) { impl->sh->skipped.fetch_add(n, std::memory_order_relaxed); }
void Ctx::sample(const std::string& s)
{
    auto& n = impl->sh->nsamples;
    if (n.load() >= 32) return;
    const uint32_t k = n.fetch_add(1);
    if (k >= 32) { n.store(32); return; }
    snprintf(impl->sh->samples[k], 512, "%s", s.c_str());
}

Engine::Engine(std::string p, std::string t) : prop(std::move(p)), tier(std::move(t)) {}
void Engine::add(Space s) { if (s.n > 0) spaces.push_back(std::move(s)); }

namespace {
    struct Fail {
        size_t space;
        uint64_t index, chunkStart;
        std::string kind, desc, msg, sig;
        std::string id(const std::string& spaceName) const { return spaceName + "|" + desc + "|" + kind + "|" + sig; }
        bool operator<(const Fail& o) const { return std::tie(space, index) < std::tie(o.space, o.index); }
    };
    void runCases(const Space& sp, size_t spIdx, uint64_t from, uint64_t to, uint64_t chunkStart, Shared* sh, Slot* slot, int fd)
    {
        if (std::getenv("MC_STDERR") == nullptr) {
            const int null = open("/dev/null", O_WRONLY); // assertion messages of the code under test
            if (null >= 0) dup2(null, 2);
        }
        const size_t maxMem = sizeof(Shared) + (size_t(3) << 30);
        rlimit rl{maxMem, maxMem};
        setrlimit(RLIMIT_AS, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        Impl impl;
        impl.sh = sh; impl.slot = slot; impl.fd = fd; impl.space = spIdx; impl.chunkStart = chunkStart;
        for (uint64_t i = from; i < to; ++i) {
            Ctx c;
            c.impl = &impl;
            c.index = i;
            slot->index.store(i);
            slot->startMs.store(nowMs());
            impl.desc = "case " + std::to_string(i);
            slot->desc[0] = 0;
            try {
                sp.run(i, c);
            } catch (const std::exception& e) {
                c.fail("exception", std::string("unexpected exception: ") + e.what());
            } catch (...) {
                c.fail("exception", "unexpected exception of unknown type");
            }
            sh->cases.fetch_add(1, std::memory_order_relaxed);
        }
    }
    std::vector<Fail> readFails(int fd)
    {
        std::vector<Fail> out;
        lseek(fd, 0, SEEK_SET);
        std::string all;
        char buf[65536];
        ssize_t n;
        while ((n = read(fd, buf, sizeof buf)) > 0) all.append(buf, n);
        std::istringstream is(all);
        std::string line;
        while (std::getline(is, line)) {
            std::vector<std::string> f;
            std::string cur;
            for (char ch : line) { if (ch == '\t') { f.push_back(cur); cur.clear(); } else cur += ch; }
            f.push_back(cur);
            if (f.size() < 7) continue;
            out.push_back({std::stoull(f[0]), std::stoull(f[1]), std::stoull(f[2]), f[3], f[4], f[5], f[6]});
        }
        return out;
    }
    int tmpFd()
    {
        int fd = memfd_create("mcfails", 0);
        if (fd < 0) { FILE* f = tmpfile(); fd = dup(fileno(f)); fclose(f); }
        fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_APPEND);
        return fd;
    }
    const char* sigName(int s) { return strsignal(s); }

    struct Pool {
        Shared* sh;
        int fd;
        int workers;
        int64_t deadline;
        bool budgetHit = false;
        std::vector<Fail> fails; // crashes and hangs noticed by the parent

        // Runs [from,to) of a space in chunks. Returns false when stopped early.
        uint64_t maxFails = 400;
        int hangs = 0;
        bool run(const Space& sp, size_t spIdx, uint64_t from, uint64_t to, uint64_t chunk, double limit)
        {
            struct Job { pid_t pid = 0; uint64_t from = 0, to = 0, chunkStart = 0; bool killed = false; };
            std::vector<Job> jobs(workers);
            std::vector<Job> redo;
            uint64_t next = from;
            int active = 0;
            int64_t lastCheck = nowMs();
            while (true) {
                for (int w = 0; w < workers; ++w) {
                    if (jobs[w].pid) continue;
                    if (nowMs() > deadline) { if (next < to || !redo.empty()) budgetHit = true; next = to; redo.clear(); }
                    if (fails.size() > maxFails || hangs >= 4) { next = to; redo.clear(); }
                    Job j;
                    if (!redo.empty()) { j = redo.back(); redo.pop_back(); }
                    else if (next < to) { j.from = next; j.to = std::min(to, next + chunk); j.chunkStart = next; next = j.to; }
                    else break;
                    sh->slots[w].index.store(j.from);
                    sh->slots[w].startMs.store(nowMs());
                    sh->slots[w].desc[0] = 0;
                    fflush(nullptr);
                    const pid_t pid = fork();
                    if (pid < 0) { usleep(10000); redo.push_back(j); break; }
                    if (pid == 0) {
                        runCases(sp, spIdx, j.from, j.to, j.chunkStart, sh, &sh->slots[w], fd);
                        _exit(0);
                    }
                    j.pid = pid;
                    jobs[w] = j;
                    ++active;
                }
                if (active == 0) break;
                int st = 0;
                pid_t pid = waitpid(-1, &st, WNOHANG);
                if (pid == 0) {
                    usleep(500);
                    const int64_t now = nowMs();
                    if (now - lastCheck > 200) {
                        lastCheck = now;
                        for (int w = 0; w < workers; ++w)
                            if (jobs[w].pid && !jobs[w].killed && now - sh->slots[w].startMs.load() > int64_t(limit * 1000)) {
                                jobs[w].killed = true;
                                kill(jobs[w].pid, SIGKILL);
                            }
                        struct stat sb;
                        if (fstat(fd, &sb) == 0 && sb.st_size > (1 << 18)) maxFails = 0, fails.size() > 0 ? void() : fails.push_back({spIdx, UINT64_MAX, 0, "", "", "", ""});
                    }
                    continue;
                }
                if (pid < 0) break;
                for (int w = 0; w < workers; ++w) {
                    Job& j = jobs[w];
                    if (j.pid != pid) continue;
                    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
                        const uint64_t idx = sh->slots[w].index.load();
                        Fail f{spIdx, idx, j.chunkStart, "", sh->slots[w].desc, "", ""};
                        if (j.killed) { ++hangs; f.kind = "hang"; f.msg = "no result within the time limit"; }
                        else {
                            f.kind = "crash";
                            f.msg = WIFSIGNALED(st) ? std::string("terminated by signal: ") + sigName(WTERMSIG(st)) : "process exited";
                        }
                        fails.push_back(f);
                        if (idx + 1 < j.to) { Job r; r.from = idx + 1; r.to = j.to; r.chunkStart = j.chunkStart; redo.push_back(r); }
                    }
                    j = Job();
                    --active;
                }
            }
            fails.erase(std::remove_if(fails.begin(), fails.end(), [](const Fail& f) { return f.index == UINT64_MAX; }), fails.end());
            return !budgetHit;
        }
    };
}

static std::string argOf(int argc, char** argv, const std::string& name, const std::string& def)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (name == argv[i]) return argv[i + 1];
    return def;
}

int Engine::main(int argc, char** argv)
{
    const int64_t t0 = nowMs();
    void* mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) { perror("mmap"); return 2; }
    Pool pool;
    pool.sh = new (mem) Shared; // zero pages
    pool.workers = std::max(1, std::min(60, std::atoi(argOf(argc, argv, "--jobs", std::to_string(sysconf(_SC_NPROCESSORS_ONLN))).c_str())));
    pool.deadline = t0 + int64_t(std::atof(argOf(argc, argv, "--budget", "700").c_str()) * 1000);
    const std::string only = argOf(argc, argv, "--space", "");
    const std::string outDir = argOf(argc, argv, "--out", ".");
    const std::string evidence = argOf(argc, argv, "--evidence", "");
    const std::string knownFile = argOf(argc, argv, "--known", "");
    const std::string replayIdx = argOf(argc, argv, "--index", "");
    const std::string replayFrom = argOf(argc, argv, "--from", replayIdx);

    std::map<std::string, std::string> known; // "space|case|kind|observed result" -> description
    if (!knownFile.empty()) {
        std::ifstream in(knownFile);
        std::string line;
        while (std::getline(in, line)) { // TAB separated: property, space|case|kind|observed, description
            const auto a = line.find('\t'), b = line.find('\t', a + 1);
            if (a == std::string::npos || b == std::string::npos || line.substr(0, a) != prop) continue;
            known[line.substr(a + 1, b - a - 1)] = line.substr(b + 1);
        }
    }

    auto replay = [&](const Fail& f, bool prefix, std::string& msg) {
        const Space& sp = spaces[f.space];
        Pool p;
        p.sh = pool.sh;
        p.workers = 1;
        p.fd = tmpFd();
        p.deadline = INT64_MAX;
        const uint64_t from = prefix ? f.chunkStart : f.index;
        p.run(sp, f.space, from, f.index + 1, f.index + 1 - from, sp.caseLimit * 4);
        auto got = readFails(p.fd);
        close(p.fd);
        for (auto& x : p.fails) got.push_back(x);
        for (auto& x : got)
            if (x.index == f.index && x.kind == f.kind && (x.desc == f.desc || x.kind == "crash" || x.kind == "hang")) { msg = x.msg; return true; }
        return false;
    };

    if (!replayIdx.empty()) {
        for (size_t s = 0; s < spaces.size(); ++s) {
            if (spaces[s].name != only) continue;
            Pool p;
            p.sh = pool.sh; p.workers = 1; p.fd = tmpFd(); p.deadline = INT64_MAX;
            const uint64_t idx = std::stoull(replayIdx), from = std::stoull(replayFrom);
            p.run(spaces[s], s, from, idx + 1, idx + 1 - from, spaces[s].caseLimit * 4);
            auto got = readFails(p.fd);
            for (auto& x : p.fails) got.push_back(x);
            std::cout << "replayed " << only << " case " << idx << ": " << p.sh->slots[0].desc << "\n";
            for (auto& x : got) std::cout << "FAIL " << x.kind << " | " << x.desc << " | " << x.msg << "\n";
            return got.empty() ? 0 : 1;
        }
        std::cerr << "no such space\n";
        return 2;
    }

    std::vector<Fail> fails;
    bool complete = true;
    std::string perSpace;
    for (size_t s = 0; s < spaces.size(); ++s) {
        const Space& sp = spaces[s];
        if (!only.empty() && sp.name != only) { complete = false; continue; }
        pool.fd = tmpFd();
        pool.fails.clear();
        pool.maxFails = 400;
        pool.hangs = 0;
        const int64_t ts = nowMs();
        const uint64_t tr0 = pool.sh->transitions, st0 = pool.sh->states, cs0 = pool.sh->cases;
        if (!pool.run(sp, s, 0, sp.n, sp.chunk, sp.caseLimit)) complete = false;
        auto f = readFails(pool.fd);
        close(pool.fd);
        for (auto& x : pool.fails) f.push_back(x);
        std::sort(f.begin(), f.end());
        const uint64_t done = pool.sh->cases - cs0;
        std::cerr << prop << " " << sp.name << ": cases " << done << "/" << sp.n << " transitions " << pool.sh->transitions - tr0
                  << " new states " << pool.sh->states - st0 << " fails " << f.size() << " in " << (nowMs() - ts) / 1000.0 << " s\n";
        perSpace += (perSpace.empty() ? "" : ",") + std::string("{\"space\":\"") + esc(sp.name) + "\",\"cases\":" + std::to_string(done)
          + ",\"of\":" + std::to_string(sp.n) + ",\"transitions\":" + std::to_string(pool.sh->transitions - tr0)
          + ",\"new_states\":" + std::to_string(pool.sh->states - st0) + "}";
        fails.insert(fails.end(), f.begin(), f.end());
        size_t unknown = 0;
        for (auto& x : f)
            if (!known.count(x.id(sp.name))) unknown += x.kind == "hang" || std::getenv("MC_FIRST") ? 21 : 1;
        if (unknown > 20 && std::getenv("MC_KEEP_GOING") == nullptr) { complete = complete && s + 1 == spaces.size(); break; } // enough to report
    }

    // Replay before report.
    int violations = 0, reported = 0, flaky = 0;
    const int64_t replayDeadline = nowMs() + 60000;
    std::set<std::string> seen, knownSeen;
    std::set<std::pair<size_t, std::string>> perKind;
    std::map<std::pair<size_t, std::string>, int> kindCount;
    const int maxReport = std::atoi(argOf(argc, argv, "--max-report", "5").c_str());
    for (const auto& f : fails) {
        const std::string id = f.id(spaces[f.space].name);
        const auto kit = known.find(id);
        if (kit != known.end()) {
            if (knownSeen.insert(id).second) std::cout << "KNOWN-FINDING: property=" << prop << " " << kit->second << " [" << id << "]\n";
            continue;
        }
        if (!seen.insert(id).second) continue;
        if (kindCount[{f.space, f.kind}]++ >= (f.kind == "hang" ? 1 : maxReport)) { continue; }
        if (violations && nowMs() > replayDeadline) continue;
        std::string msg;
        bool prefix = false;
        if (!replay(f, false, msg)) {
            if (!replay(f, true, msg)) {
                ++flaky;
                --kindCount[{f.space, f.kind}];
                std::cerr << "note: not reproduced on replay, not reported: " << id << " " << f.kind << "\n";
                continue;
            }
            prefix = true;
        }
        ++violations;
        const std::string path = outDir + "/" + prop + "-" + std::to_string(++reported) + ".json";
        mkdir(outDir.c_str(), 0777);
        std::ofstream o(path);
        o << "{\"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"space\":\"" << esc(spaces[f.space].name) << "\",\"index\":" << f.index
          << ",\"from\":" << (prefix ? f.chunkStart : f.index) << ",\"case\":\"" << esc(f.desc) << "\",\"kind\":\"" << esc(f.kind)
          << "\",\"observed\":\"" << esc(f.sig) << "\",\"message\":\"" << esc(msg) << "\"}\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << path << "\n";
        std::cout << "  " << spaces[f.space].name << " [" << f.kind << "] case: " << f.desc << "\n  " << msg << (prefix ? "\n  (needs the preceding cases of its chunk: history dependent)" : "") << "\n";
    }

    const double wall = (nowMs() - t0) / 1000.0;
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        Shared& sh = *pool.sh;
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << std::atoi(std::getenv("VERIF_SEED") ? std::getenv("VERIF_SEED") : "1")
          << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << sh.states << ",\n  \"transitions\": " << sh.transitions
          << ",\n  \"traces_validated_against_impl\": " << sh.cases << ",\n  \"reference_comparisons_decided\": " << sh.compared
          << ",\n  \"reference_comparisons_outside_domain\": " << sh.skipped << ",\n  \"distinct_outcomes\": " << sh.outcomes
          << ",\n  \"exhaustive\": " << (complete ? "true" : "false") << ",\n  \"spaces\": [" << perSpace << "]";
        for (auto& kv : notes) o << ",\n  \"" << esc(kv.first) << "\": \"" << esc(kv.second) << "\"";
        o << ",\n  \"samples\": [";
        for (uint32_t i = 0; i < std::min<uint32_t>(sh.nsamples, 32); ++i) o << (i ? ", " : "") << "\"" << esc(sh.samples[i]) << "\"";
        o << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << esc(assumptions[i]) << "\"";
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cerr << prop << ": states " << pool.sh->states << " transitions " << pool.sh->transitions << " cases " << pool.sh->cases << " compared "
              << pool.sh->compared << " skipped " << pool.sh->skipped << (complete ? "" : " (NOT complete)") << " known " << knownSeen.size()
              << " violations " << violations << " wall " << wall << " s\n";
    return violations ? 1 : 0;
}
}
