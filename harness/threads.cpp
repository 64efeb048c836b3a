// C16: concurrent calls. Built with -fsanitize=thread. Each case runs in a child process that has
// made no library call before its threads start, so that races in first-use initialisation show.
#include "common.h"
#include "refcodec.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <mutex>
#include <new>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#include <clocale>
#include <cstdlib>
#include <dlfcn.h>
#include <locale>
#include <sys/stat.h>

using namespace vf;

// Functions that change or use state shared by all threads and that ThreadSanitizer does not see
// into. Calling one of them from a library call is interference, whatever the outcome this time.
static thread_local bool g_in_call = false;
static std::atomic<const char*> g_unsafe{nullptr};
static void unsafe(const char* n) { if (g_in_call) g_unsafe.store(n, std::memory_order_relaxed); }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
char* setlocale(int c, const char* l) noexcept { if (l) unsafe("setlocale"); static auto f = real<char* (*)(int, const char*)>("setlocale"); return f(c, l); }
char* strtok(char* s, const char* d) noexcept { unsafe("strtok"); static auto f = real<char* (*)(char*, const char*)>("strtok"); return f(s, d); }
int setenv(const char* n, const char* v, int o) noexcept { unsafe("setenv"); static auto f = real<int (*)(const char*, const char*, int)>("setenv"); return f(n, v, o); }
int unsetenv(const char* n) noexcept { unsafe("unsetenv"); static auto f = real<int (*)(const char*)>("unsetenv"); return f(n); }
int putenv(char* v) noexcept { unsafe("putenv"); static auto f = real<int (*)(char*)>("putenv"); return f(v); }
int chdir(const char* p) noexcept { unsafe("chdir"); static auto f = real<int (*)(const char*)>("chdir"); return f(p); }
mode_t umask(mode_t m) noexcept { unsafe("umask"); static auto f = real<mode_t (*)(mode_t)>("umask"); return f(m); }
}
std::locale std::locale::global(const std::locale& l) { unsafe("std::locale::global"); static auto f = real<std::locale (*)(const std::locale&)>("_ZNSt6locale6globalERKS_"); return f(l); }

// ThreadSanitizer's operator new ends the process when a damaged file asks for too much; this one
// (linked with --wrap) throws as the standard demands.
extern "C" {
void* __real__Znwm(size_t n);
void* __wrap__Znwm(size_t n)
{
    if (n > (1u << 26)) throw std::bad_alloc();
    return __real__Znwm(n);
}
}

namespace {

static const char* kVer[] = {"4.1", "2.2"};

// Streams that hand over their bytes in pieces and yield or sleep in between.
void stumble(Rng& r)
{
    switch (r.below(12)) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(r.below(150))); break;
    case 1: case 2: sched_yield(); break;
    default: break;
    }
}
class SlowIn : public std::streambuf {
public:
    SlowIn(const std::string& b, uint64_t seed) : m_b(b), m_r(seed) {}
protected:
    int_type underflow() override
    {
        if (m_p >= m_b.size()) return traits_type::eof();
        stumble(m_r);
        size_t n = std::min<size_t>(1 + m_r.below(m_r.flip() ? 40 : 600), m_b.size() - m_p);
        m_buf.assign(m_b.begin() + (long)m_p, m_b.begin() + (long)(m_p + n));
        m_p += n;
        setg(m_buf.data(), m_buf.data(), m_buf.data() + n);
        return traits_type::to_int_type(m_buf[0]);
    }
private:
    const std::string& m_b; Rng m_r; size_t m_p = 0; std::vector<char> m_buf;
};
class SlowOut : public std::streambuf {
public:
    explicit SlowOut(uint64_t seed) : m_r(seed) {}
    std::string got;
protected:
    int_type overflow(int_type c) override { if (m_r.chance(1, 16)) stumble(m_r); if (!traits_type::eq_int_type(c, traits_type::eof())) got += (char)c; return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* p, std::streamsize n) override { if (m_r.chance(1, 8)) stumble(m_r); got.append(p, (size_t)n); return n; }
private:
    Rng m_r;
};

enum What { LOAD, LOAD_BAD, LOAD_FILE, SAVE, SAVE_SHARED, SAVE_FILE, SAVE_BAD, VALIDATE, QUERY, WHATS };
const char* kWhat[] = {"load", "load of a damaged file", "load from a file", "save", "save of the shared spec", "save to a file", "refused save", "validate", "element queries"};
struct Task {
    What what; uint64_t seed;
    std::string bytes; // to load
    MshSpec spec;      // to save
    std::string path;
    int shared = -1;
};
struct Res { int kind = 99; uint64_t hash = 0; size_t size = 0; bool operator==(const Res& o) const { return kind == o.kind && hash == o.hash && size == o.size; } };

Res perform(const Task& t, const std::vector<MshSpec>& shared, bool slow, const std::string& dir, int me)
{
    Res x; Outcome o;
    const MshSpec& s = t.shared >= 0 ? shared[(size_t)t.shared] : t.spec;
    std::string data;
    switch (t.what) {
    case LOAD: case LOAD_BAD:
        if (slow) { SlowIn b(t.bytes, t.seed); std::istream in(&b); o = load_stream(in); }
        else o = load_bytes(t.bytes);
        if (o.ok()) data = dump(o.spec);
        break;
    case LOAD_FILE: o = load_file(t.path); if (o.ok()) data = dump(o.spec); break;
    case SAVE: case SAVE_SHARED: case SAVE_BAD:
        if (slow) { SlowOut b(t.seed); std::ostream out(&b); try { mshio::save_msh(out, s); } catch (...) { o.kind = classify(o.what); } data = b.got; }
        else { o = save_bytes(s); data = o.bytes; }
        if (!o.ok()) data.clear();
        break;
    case SAVE_FILE: { std::string p = dir + "/o" + std::to_string(me) + ".msh"; o = save_file(p, s); if (o.ok()) data = slurp(p); unlink(p.c_str()); break; }
    case VALIDATE: o = validate(s); break;
    default: {
        Rng r(t.seed);
        for (int k = 0; k < 40; k++) {
            int ty = r.chance(1, 4) ? gen_int(r) : (int)r.range(0, 32); uint64_t v = 77;
            try { v = mshio::nodes_per_element(ty) * 4 + (uint64_t)mshio::get_element_dim(ty); } catch (const mshio::UnsupportedFeature&) { v = 5000; }
            data.append((const char*)&v, 8);
        } }
    }
    x.kind = o.kind; x.hash = fnv(data); x.size = data.size();
    return x;
}
Task make(Rng& r, const std::string& dir, size_t n, size_t nshared)
{
    Task t; t.seed = r.next();
    t.what = (What)r.below(WHATS);
    const int ft = (int)r.below(2), ver = (int)r.below(2);
    if (t.what <= LOAD_FILE) {
        Layout l = r.flip() ? Layout() : gen_layout(r, ft != 0);
        l.unknown = r.chance(1, 3); l.repeat = r.chance(1, 8);
        if (ver) t.bytes = write22(gen_model22(r, ft, r.chance(1, 4) ? 1 : 0), l, r.fork()).bytes;
        else { GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = r.chance(1, 4) ? 1 : 0; t.bytes = write41(gen_spec(r, o), l, r.fork()).bytes; }
        if (t.what == LOAD_BAD) { if (r.flip()) t.bytes.resize(r.below(t.bytes.size())); else t.bytes[r.below(t.bytes.size())] = 'x'; }
        if (t.what == LOAD_FILE) { t.path = dir + "/i" + std::to_string(n) + ".msh"; spit(t.path, t.bytes); }
        return t;
    }
    if (t.what == QUERY) return t;
    if (t.what == SAVE_SHARED || (t.what == VALIDATE && r.flip())) { t.shared = (int)r.below(nshared); return t; }
    GenOpt o; o.version = kVer[ver]; o.file_type = ft; o.finite = ft == 0; o.tags32 = ver == 1; o.nano = r.chance(1, 3); o.size = r.chance(1, 4) ? 1 : 0;
    t.spec = gen_spec(r, o);
    if (t.what == VALIDATE) for (auto& b : t.spec.elements.entity_blocks) if (b.num_elements_in_block == 0) { t.spec.elements = mshio::Elements(); break; }
    if (t.what == SAVE_BAD) { if (r.flip()) t.spec.mesh_format.version = "9.9"; else t.spec.mesh_format.data_size = 4; }
    return t;
}
struct Span { int64_t a, b; int what; };
int64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Report { uint64_t calls[WHATS]; uint64_t overlaps, order, bad; char msg[400]; };

void c16(Ctx& c)
{
    Rng& r = c.rng;
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        alarm(150);
        const size_t threads = 2 + r.below(7), per = 2 + r.below(6);
        std::vector<MshSpec> shared;
        for (int k = 0; k < 2; k++) { GenOpt o; o.version = kVer[k]; o.file_type = (int)r.below(2); o.finite = true; o.tags32 = true; o.size = 1; shared.push_back(gen_spec(r, o)); for (auto& b : shared.back().elements.entity_blocks) if (b.num_elements_in_block == 0) { shared.back().elements = mshio::Elements(); break; } }
        const bool same = r.chance(1, 3); // all threads do the same at the same time
        std::vector<std::vector<Task>> tasks(threads);
        Rng rs(r.next());
        for (size_t t = 0; t < threads; t++) { if (t == 0 || !same) rs = r.fork(); Rng q = same ? rs : rs.fork(); for (size_t k = 0; k < per; k++) tasks[t].push_back(make(q, c.tmp, same ? k : t * 100 + k, shared.size())); }
        const bool slow = r.chance(2, 3);
        std::vector<std::vector<Res>> got(threads); std::vector<std::vector<Span>> spans(threads);
        std::atomic<size_t> ready{0};
        std::vector<std::thread> th;
        for (size_t t = 0; t < threads; t++)
            th.emplace_back([&, t] {
                Rng q(tasks[t][0].seed + t);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) sched_yield(); // relaxed: no ordering that could hide a race
                for (auto& x : tasks[t]) {
                    if (q.chance(1, 4)) stumble(q);
                    Span s; s.what = x.what; s.a = now();
                    g_in_call = true;
                    Res z = perform(x, shared, slow, c.tmp, (int)t);
                    g_in_call = false;
                    s.b = now();
                    got[t].push_back(z); spans[t].push_back(s);
                }
            });
        for (auto& t : th) t.join();
        Report rep; memset(&rep, 0, sizeof rep);
        std::vector<std::pair<int64_t, uint64_t>> ev;
        for (size_t t = 0; t < threads; t++)
            for (size_t k = 0; k < per; k++) {
                rep.calls[tasks[t][k].what]++;
                ev.push_back({spans[t][k].a, t * 2}); ev.push_back({spans[t][k].b, t * 2 + 1});
                for (size_t u = t + 1; u < threads; u++) for (auto& s : spans[u]) if (s.a < spans[t][k].b && spans[t][k].a < s.b) rep.overlaps++;
                Res alone = perform(tasks[t][k], shared, false, c.tmp, (int)t);
                if (!(alone == got[t][k]) && !rep.bad++)
                    snprintf(rep.msg, sizeof rep.msg, "%s in thread %zu of %zu: %s, %zu bytes, alone: %s, %zu bytes", kWhat[tasks[t][k].what], t, threads, kind_name((Kind)got[t][k].kind), got[t][k].size, kind_name((Kind)alone.kind), alone.size);
            }
        if (const char* f = g_unsafe.load()) { rep.bad++; snprintf(rep.msg, sizeof rep.msg, "a library call used %s, which changes state shared by all threads", f); }
        std::sort(ev.begin(), ev.end());
        rep.order = 1;
        for (auto& e : ev) rep.order = rep.order * 1099511628211ull + e.second + 1;
        if (write(p[1], &rep, sizeof rep) != (ssize_t)sizeof rep) _exit(3);
        _exit(0);
    }
    close(p[1]);
    Report rep; memset(&rep, 0, sizeof rep);
    size_t n = 0; char* q = (char*)&rep;
    while (n < sizeof rep) { ssize_t k = read(p[0], q + n, sizeof rep - n); if (k <= 0) break; n += (size_t)k; }
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { // the report of ThreadSanitizer is on stderr
        static const char m[] = "the threads of this case raced\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(66);
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { c.violation("stuck", "the threads of the case did not finish in 150 s"); return; }
    if (n != sizeof rep || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { c.violation("crash", "the process running the threads ended with status " + std::to_string(st)); return; }
    c.eval();
    uint64_t calls = 0;
    for (int k = 0; k < WHATS; k++) { c.note(std::string("calls: ") + kWhat[k], rep.calls[k]); calls += rep.calls[k]; }
    c.note("pairs of calls that overlapped in time", rep.overlaps);
    c.nontrivial(rep.order);
    c.sample(std::to_string(calls) + " calls, " + std::to_string(rep.overlaps) + " overlapping pairs");
    if (rep.bad) c.violation("differs", std::to_string(rep.bad) + " calls interfered; " + rep.msg);
}
Reg r16("C16", c16);

} // namespace
