#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include "core.h"
// Provided by the property's driver.
extern const char* const driverProperty;
void driver(mc::Engine& e);

// Building the alphabet already runs operations of the library. A supervisor process watches the run, so that a
// crash, an exception or a hang in that phase is reported (after it happened twice) instead of ending the check.
static int child(int argc, char** argv, const std::string& tier, int fd)
{
    mc::installSilentLogger();
    mc::Engine e(driverProperty, tier);
    try {
        driver(e);
    } catch (const std::exception& ex) {
        std::string m = std::string("X") + ex.what();
        if (write(fd, m.data(), m.size()) < 0) return 3;
        return 3;
    }
    if (write(fd, "R", 1) < 0) return 3; // ready
    close(fd);
    return e.main(argc, argv);
}
int main(int argc, char** argv)
{
    std::string tier = std::getenv("VERIF_TIER") ? std::getenv("VERIF_TIER") : "quick", out = ".", evidence;
    for (int i = 1; i + 1 < argc; ++i) {
        if (!std::strcmp(argv[i], "--tier")) tier = argv[i + 1];
        if (!std::strcmp(argv[i], "--out")) out = argv[i + 1];
        if (!std::strcmp(argv[i], "--evidence")) evidence = argv[i + 1];
    }
    if (tier != "thorough") tier = "quick";
    std::string reason;
    for (int attempt = 0; attempt < 2; ++attempt) {
        int p[2];
        if (pipe(p)) return 2;
        const pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            close(p[0]);
            _exit([&] { const int rc = child(argc, argv, tier, p[1]); std::cout.flush(); fflush(nullptr); return rc; }());
        }
        close(p[1]);
        fd_set set;
        FD_ZERO(&set);
        FD_SET(p[0], &set);
        timeval tv{attempt ? 240 : 100, 0};
        const int sel = select(p[0] + 1, &set, nullptr, nullptr, &tv);
        char buf[2000];
        ssize_t n = 0;
        if (sel > 0) n = read(p[0], buf, sizeof buf - 1);
        close(p[0]);
        int st = 0;
        if (sel > 0 && n > 0 && buf[0] == 'R') {
            waitpid(pid, &st, 0);
            return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
        }
        if (sel <= 0) { kill(pid, SIGKILL); reason = "no result within the time limit"; }
        else if (n > 0) { buf[n] = 0; reason = std::string("exception: ") + (buf + 1); }
        waitpid(pid, &st, 0);
        if (sel > 0 && n <= 0) reason = WIFSIGNALED(st) ? std::string("terminated by signal: ") + strsignal(WTERMSIG(st)) : "process exited";
    }
    mkdir(out.c_str(), 0777);
    const std::string path = out + "/" + driverProperty + "-alphabet.json";
    std::ofstream(path) << "{\"property\":\"" << driverProperty << "\",\"tier\":\"" << tier << "\",\"space\":\"\",\"case\":\"construction of the explored alphabet\",\"message\":\"" << reason << "\"}\n";
    if (!evidence.empty())
        std::ofstream(evidence) << "{\"property\":\"" << driverProperty << "\",\"tier\":\"" << tier << "\",\"seed\":1,\"level\":\"model_checking\",\"coverage\":{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[],\"exhaustive\":false},\"wall_s\":0,\"violations\":1}\n";
    std::cout << "VIOLATION property=" << driverProperty << " replay=" << path << "\n  construction of the explored alphabet: " << reason << "\n";
    return 1;
}
