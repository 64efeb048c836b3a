// Worker: runs cases [from,to) of one property and writes what it observed as JSON.
//   worker --prop C01 --seed 1 --from 0 --to 100 --out F.json --progress F.prog --tmp DIR --build NAME [--thorough] [--replay]
// Exit codes: 0 finished (violations are in the JSON), 3 harness error, 77 CPU limit of one case exceeded,
// anything else: the case named in the progress file crashed the process.
#include "common.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

using namespace vf;

static volatile uint64_t* g_progress = nullptr;

static void on_cpu_limit(int)
{
    static const char m[] = "CPU-LIMIT: the case did not finish within its CPU budget\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(77);
}

int main(int argc, char** argv)
{
    Ctx c;
    uint64_t from = 0, to = 1, step = 1;
    long deadline = 0;
    long cpu = 60;
    std::string out, prog, sub;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) exit(3); return argv[++i]; };
        if (a == "--prop") c.prop = val();
        else if (a == "--seed") c.seed = std::stoull(val());
        else if (a == "--from") from = std::stoull(val());
        else if (a == "--to") to = std::stoull(val());
        else if (a == "--step") step = std::stoull(val());
        else if (a == "--deadline") deadline = std::stol(val());
        else if (a == "--repo") c.repo = val();
        else if (a == "--out") out = val();
        else if (a == "--progress") prog = val();
        else if (a == "--tmp") c.tmp = val();
        else if (a == "--build") c.build = val();
        else if (a == "--cpu") cpu = std::stol(val());
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--replay") c.replay = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    CheckFn fn = find_check(c.prop);
    if (!fn) { fprintf(stderr, "no check for %s in this binary\n", c.prop.c_str()); return 3; }
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 64)) { perror("progress"); return 3; }
        g_progress = (volatile uint64_t*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_progress == MAP_FAILED) { perror("mmap"); return 3; }
    }
    static NullBuf nb;
    std::cerr.rdbuf(&nb); // warnings about skipped sections
    std::clog.rdbuf(&nb);
    signal(SIGVTALRM, on_cpu_limit);
    uint64_t done = 0;
    const time_t start = time(nullptr);
    for (uint64_t i = from; i < to && c.viols.size() < 10; i += step) {
        if (deadline && time(nullptr) - start > deadline) break;
        c.index = i;
        c.rng = Rng(fnv(c.prop) ^ (c.seed * 0xD1B54A32D192ED03ull) ^ ((i + 1) * 0x9E3779B97F4A7C15ull));
        c.rng.next();
        if (g_progress) { g_progress[0] = i; g_progress[1] = 1; g_progress[2]++; }
        struct itimerval tv = {{0, 0}, {cpu, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        try {
            fn(c);
        } catch (...) {
            std::string w; Kind k = classify(w);
            c.violation("uncaught", std::string("exception escaped from a call that must not throw: ") + kind_name(k) + ": " + w);
        }
        done++;
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    if (g_progress) g_progress[1] = 2;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }
    fprintf(f, "{\"done\":%llu,\"evaluations\":%llu,\"counts\":{", (unsigned long long)done, (unsigned long long)c.evaluations);
    bool first = true;
    for (auto& kv : c.count) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : c.viols) {
        fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"case\":%llu,\"artifact\":\"%s\"}", first ? "" : ",", json_escape(v.key).c_str(), json_escape(shorten(v.msg, 1500)).c_str(), (unsigned long long)v.index, json_escape(v.artifact).c_str());
        first = false;
    }
    fprintf(f, "],\"distinct\":[");
    first = true;
    for (auto h : c.distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 1)); first = false; }
    fprintf(f, "],\"outcome\":[");
    first = true;
    for (auto h : c.outcome_hash) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 1)); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout && fclose(f)) { perror("out"); return 3; }
    return 0;
}
