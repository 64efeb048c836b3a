// C26: allocations fail while the library loads, saves and validates.
#include "common.h"
#include "refcodec.h"

#include <csignal>
#include <cstdio>
#include <locale>
#include <new>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;

namespace {

static const char* kVer[] = {"4.1", "2.2"};

// A buffer of fixed size, so that the stream itself allocates nothing.
class FixedBuf : public std::streambuf {
public:
    explicit FixedBuf(size_t n) : m(n) { clear(); }
    void clear() { setp(m.data(), m.data() + m.size()); }
    size_t size() const { return (size_t)(pptr() - pbase()); }
    const char* data() const { return m.data(); }
private:
    std::vector<char> m;
};
class MemIn : public std::streambuf {
public:
    MemIn(const std::string& b) { char* p = const_cast<char*>(b.data()); setg(p, p, p + b.size()); }
};

// How often the file is open. Others are not counted: the sanitizer's own thread opens some now and then.
int open_files(const std::string& path)
{
    int n = 0;
    for (int fd = 0; fd < 64; fd++) {
        char buf[4096];
        const ssize_t k = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), buf, sizeof buf);
        if (k >= (ssize_t)path.size() && std::string(buf, path.size()) == path) n++; // perhaps followed by " (deleted)"
    }
    return n;
}

enum End { RETURNED, BAD_ALLOC, STD, NONSTD };
const char* kEnd[] = {"returned", "std::bad_alloc", "another std::exception", "something that is no std::exception"};

struct State { std::ios::fmtflags f; std::streamsize p, w; char fill; std::locale l; };
State state_of(std::ios& s) { return {s.flags(), s.precision(), s.width(), s.fill(), s.getloc()}; }
bool same(const State& a, std::ios& s) { return a.f == s.flags() && a.p == s.precision() && a.fill == s.fill() && a.l == s.getloc(); }

// Runs op with the at-th allocation failing. op must not keep what it allocates.
template <class F> End run(size_t at, bool persist, F&& op, size_t& refused)
{
    End e = RETURNED;
    Mem::fail_at(at, persist);
    try { op(); refused = Mem::end_fail(); }
    catch (const std::bad_alloc&) { refused = Mem::end_fail(); e = BAD_ALLOC; }
    catch (const std::exception&) { refused = Mem::end_fail(); e = STD; }
    catch (...) { refused = Mem::end_fail(); e = NONSTD; }
    return e;
}

struct Plan { size_t at; bool persist; };
std::vector<Plan> plans(Rng& r, size_t calls, size_t most)
{
    std::vector<Plan> p;
    if (calls <= most) for (size_t k = 0; k < calls; k++) p.push_back({k, r.flip()});
    else {
        for (size_t k = 0; k < most / 4; k++) p.push_back({k, r.flip()});
        for (size_t k = 0; k < most / 4; k++) p.push_back({calls - 1 - k, r.flip()});
        for (size_t k = 0; k < most / 2; k++) p.push_back({r.below(calls), r.flip()});
    }
    return p;
}

// ---------------------------------------------------------------- the first call of a process runs out of memory
struct Req { uint64_t seed; int op; size_t at; bool persist; }; // at: SIZE_MAX for no failure
struct Res { int end = 99; size_t refused = 0, calls = 0; uint64_t result = 0, later = 0; bool failed = false, okstate = true; int files = 0; };
const char* kOp[] = {"load_msh(stream)", "load_msh(file)", "save_msh(stream)", "save_msh(file)", "validate_spec", "nodes_per_element and get_element_dim"};
struct Job { MshSpec s; std::string bytes; int type; };
Job job(uint64_t seed) // made without any call of the library
{
    Rng r(seed);
    Job j;
    const int ft = (int)r.below(2), v = (int)r.below(2);
    GenOpt o; o.version = kVer[v]; o.file_type = ft; o.finite = ft == 0; o.tags32 = v == 1; o.nano = r.chance(1, 4); o.size = 0;
    j.s = gen_spec(r, o);
    for (auto& b : j.s.elements.entity_blocks) if (b.num_elements_in_block == 0) { j.s.elements = mshio::Elements(); break; } // validate_spec: known finding
    Layout l = gen_layout(r, ft != 0); l.unknown = r.chance(1, 3);
    if (v) j.bytes = write22(gen_model22(r, ft, 0), l, r.fork()).bytes;
    else { GenOpt q; q.file_type = ft; q.finite = ft == 0; q.printable = true; q.size = 0; j.bytes = write41(gen_spec(r, q), l, r.fork()).bytes; }
    j.type = 1 + (int)r.below(31);
    return j;
}
uint64_t spec_hash(const MshSpec& s) { return fnv(dump(s)); }
uint64_t all_calls(const Job& j) // what every call gives, in one number
{
    uint64_t h = 1;
    auto add = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; };
    for (int t = -1; t <= 33; t++) {
        try { add(mshio::nodes_per_element(t)); add((uint64_t)mshio::get_element_dim(t)); } catch (const std::exception&) { add(1000); }
    }
    Outcome l = load_bytes(j.bytes); add(l.kind); if (l.ok()) add(spec_hash(l.spec));
    Outcome w = save_bytes(j.s); add(w.kind); if (w.ok()) add(fnv(w.bytes));
    add(validate(j.s).kind);
    return h;
}
Res first_call(const Req& q, const std::string& dir)
{
    const Job j = job(q.seed);
    const std::string path = dir + "/first.msh";
    Res x;
    if (q.op == 1) spit(path, j.bytes); else unlink(path.c_str());
    MemIn mi(j.bytes); std::istream in(&mi);
    FixedBuf fb(1 << 21); std::ostream out(&fb);
    const State si = state_of(in), so = state_of(out);
    MshSpec got; size_t n = 0; int d = 0;
    const int files = open_files(path);
    auto op = [&] {
        switch (q.op) {
        case 0: got = mshio::load_msh(in); break;
        case 1: got = mshio::load_msh(path); break;
        case 2: mshio::save_msh(out, j.s); break;
        case 3: mshio::save_msh(path, j.s); break;
        case 4: mshio::validate_spec(j.s); break;
        default: n = mshio::nodes_per_element(j.type); d = mshio::get_element_dim(j.type);
        }
    };
    Mem::reset_peak();
    const size_t calls = Mem::calls();
    x.end = run(q.at, q.persist, op, x.refused);
    x.calls = Mem::calls() - calls;
    x.failed = out.fail();
    x.okstate = same(si, in) && same(so, out);
    x.files = open_files(path) - files;
    if (x.end == RETURNED && !x.failed) x.result = q.op < 2 ? spec_hash(got) : q.op == 2 ? fnv(std::string(fb.data(), fb.size())) : q.op == 3 ? fnv(slurp(path)) : q.op == 4 ? 1 : n * 8 + (size_t)d;
    unlink(path.c_str());
    x.later = all_calls(j);
    return x;
}
// Forked before this process made its first call; each request is answered by a child of its own.
struct Zygote {
    int to = -1, from = -1;
    pid_t pid = -1;
    static bool all_read(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    static bool all_write(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    void start(const std::string& dir)
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
        fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(a[1]); close(b[0]);
            Req q{};
            while (all_read(a[0], &q, sizeof q)) {
                int p[2];
                if (pipe(p)) _exit(3);
                const pid_t g = fork();
                if (g == 0) {
                    alarm(60);
                    const Res x = first_call(q, dir);
                    all_write(p[1], &x, sizeof x);
                    _exit(0);
                }
                close(p[1]);
                Res x;
                if (!all_read(p[0], &x, sizeof x)) { x = Res(); x.end = 98; }
                close(p[0]);
                int st; waitpid(g, &st, 0);
                if (!all_write(b[1], &x, sizeof x)) break;
            }
            _exit(0);
        }
        close(a[0]); close(b[1]);
        to = a[1]; from = b[0];
    }
    Res ask(const Req& q) { Res x; if (!all_write(to, &q, sizeof q) || !all_read(from, &x, sizeof x)) { fprintf(stderr, "zygote gone\n"); _exit(3); } return x; }
};
void first_calls(Ctx& c, Zygote& z)
{
    Rng& r = c.rng;
    const uint64_t seed = r.next();
    const Job j = job(seed);
    const uint64_t usual = all_calls(j);
    const std::string d = describe(j.s);
    c.nontrivial(shape(j.s)); c.sample("first calls: " + d);
    const int first = (int)r.below(6);
    for (int k = 0; k < 3; k++) {
        const int op = (first + k) % 6;
        const Res base = z.ask({seed, op, SIZE_MAX, false});
        c.eval();
        if (base.end != RETURNED || base.later != usual) { c.violation("first-call", std::string(kOp[op]) + ", as the first call of a process, " + (base.end < 4 ? kEnd[base.end] : "crashes") + (base.later != usual ? "; later calls give other results" : "") + " (" + d + ")"); return; }
        for (const Plan& p : plans(r, base.calls, c.thorough ? 60 : 16)) {
            const Res x = z.ask({seed, op, p.at, p.persist});
            const std::string where = std::string(kOp[op]) + ", the first call of the process, allocation " + std::to_string(p.at) + " of " + std::to_string(base.calls) + (p.persist ? " and all later ones of it fail" : " fails") + " (" + d + ")";
            c.eval();
            if (x.refused) { c.note("first calls of a process that run out of memory"); c.note("allocations refused", x.refused); }
            if (x.end == 98) { c.violation("crash", "out of memory: a crash in or after " + where); return; }
            if (x.end == NONSTD) { c.violation("kind", "out of memory: " + std::string(kEnd[x.end]) + " is thrown by " + where); return; }
            if (x.end == RETURNED && !x.failed && x.result != base.result) { c.violation("wrong-result", "out of memory: a wrong result is returned by " + where, shorten(j.bytes, 2000)); return; }
            if (!x.okstate) { c.violation("state", "out of memory: the formatting of the stream is changed after " + where); return; }
            if (x.files) { c.violation("descriptor", "out of memory: a file stays open after " + where); return; }
            if (x.later != usual) { c.violation("later-calls", "out of memory: later calls give other results after " + where, shorten(j.bytes, 2000)); return; }
        }
    }
}

void c26(Ctx& c)
{
    Rng& r = c.rng;
    static Zygote z;
    if (z.pid < 0) z.start(c.tmp);
    if (c.index % 8 == 5) { first_calls(c, z); return; }
    const int ft = (int)r.below(2), v = (int)r.below(2);
    GenOpt o; o.version = kVer[v]; o.file_type = ft; o.finite = ft == 0; o.tags32 = v == 1; o.nano = r.chance(1, 4);
    o.size = r.chance(1, 3) ? 1 : 0;
    MshSpec s = gen_spec(r, o);
    for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block == 0) { s.elements = mshio::Elements(); break; } // validate_spec: known finding
    const std::string d = describe(s);
    Outcome ref = save_bytes(s);
    if (!ref.ok()) { c.violation("save-throws", "save_msh of a valid spec: " + ref.str() + " (" + d + ")"); return; }
    const size_t most = c.thorough ? 200 : 60;
    const std::string path = c.tmp + "/oom.msh";
    const std::string before = dump(s);
    c.nontrivial(shape(s)); c.sample(d);

    // --- load
    std::string bytes = ref.bytes;
    if (r.flip()) {
        Layout l = gen_layout(r, ft != 0); l.unknown = r.chance(1, 3); l.stray = r.chance(1, 5); l.repeat = r.chance(1, 4);
        if (v) bytes = write22(gen_model22(r, ft, 0), l, r.fork()).bytes;
        else { GenOpt q; q.file_type = ft; q.finite = ft == 0; q.printable = true; q.size = 0; bytes = write41(gen_spec(r, q), l, r.fork()).bytes; }
        c.note("foreign files");
    }
    spit(path, bytes);
    Outcome base = load_bytes(bytes);
    if (!base.ok()) { c.violation("refused", "a conforming file is refused: " + base.str(), shorten(bytes, 2000)); return; }
    const std::string want = dump(base.spec);
    for (int way = 0; way < 2; way++) {
        { MemIn mi(bytes); std::istream in(&mi); mshio::load_msh(in); }
        if (way) mshio::load_msh(path);
        Mem::reset_peak();
        { MemIn mi(bytes); std::istream in(&mi); if (way) mshio::load_msh(path); else mshio::load_msh(in); }
        const size_t calls = Mem::calls();
        c.note("max allocations of one load", 0);
        if (c.count["max allocations of one load"] < calls) c.count["max allocations of one load"] = calls;
        for (const Plan& p : plans(r, calls, most)) {
            const int fds = open_files(path);
            size_t refused = 0;
            End e; std::string got; bool okstate = true;
            {
                MemIn mi(bytes); std::istream in(&mi);
                State st = state_of(in);
                MshSpec out;
                e = run(p.at, p.persist, [&] { if (way) out = mshio::load_msh(path); else out = mshio::load_msh(in); }, refused);
                okstate = same(st, in);
                if (e == RETURNED) got = dump(out);
            }
            const std::string where = std::string(way ? "load_msh(file)" : "load_msh(stream)") + ", allocation " + std::to_string(p.at) + " of " + std::to_string(calls) + (p.persist ? " and all later ones fail" : " fails") + " (" + d + ")";
            c.eval();
            if (refused) c.note(std::string("load: ") + kEnd[e]);
            if (refused) c.note("allocations refused", refused);
            if (e == NONSTD) { c.violation("kind", "out of memory: " + std::string(kEnd[e]) + " is thrown by " + where); return; }
            if (e == RETURNED && got != want) { c.violation("wrong-spec", "out of memory: a wrong spec is returned by " + where, shorten(bytes, 2000)); return; }
            if (!okstate) { c.violation("state", "out of memory: the formatting of the stream is changed after " + where); return; }
            got.clear(); got.shrink_to_fit();
            if (open_files(path) != fds) { c.violation("descriptor", "out of memory: " + std::to_string(open_files(path)) + " files are open instead of " + std::to_string(fds) + " after " + where); return; }
        }
    }
    // --- leaks: the same failures again, nothing else allocated in between
    {
        MemIn m0(bytes); std::istream in(&m0);
        Mem::reset_peak(); { MemIn mi(bytes); std::istream q(&mi); mshio::load_msh(q); }
        const size_t calls = Mem::calls();
        for (const Plan& p : plans(r, calls, most / 2)) {
            MemIn mi(bytes); in.rdbuf(&mi); in.clear();
            const size_t live = Mem::live(); size_t refused = 0;
            run(p.at, p.persist, [&] { mshio::load_msh(in); }, refused);
            c.eval();
            if (Mem::live() != live) { c.violation("leak", "out of memory: load_msh leaves " + std::to_string((long long)Mem::live() - (long long)live) + " bytes allocated, allocation " + std::to_string(p.at) + " of " + std::to_string(calls) + (p.persist ? " and all later ones fail" : " fails") + " (" + d + ")"); return; }
        }
    }
    // --- save
    FixedBuf fb(ref.bytes.size() + 4096);
    for (int way = 0; way < 2; way++) {
        { fb.clear(); std::ostream out(&fb); if (way) mshio::save_msh(path, s); else mshio::save_msh(out, s); }
        Mem::reset_peak();
        { fb.clear(); std::ostream out(&fb); if (way) mshio::save_msh(path, s); else mshio::save_msh(out, s); }
        const size_t calls = Mem::calls();
        if (c.count["max allocations of one save"] < calls) c.count["max allocations of one save"] = calls;
        for (const Plan& p : plans(r, calls, most)) {
            const int fds = open_files(path);
            size_t refused = 0; bool failed = false, okstate = true; End e; size_t live0, live1;
            if (way) unlink(path.c_str());
            fb.clear();
            {
                std::ostream out(&fb);
                State st = state_of(out);
                live0 = Mem::live();
                e = run(p.at, p.persist, [&] { if (way) mshio::save_msh(path, s); else mshio::save_msh(out, s); }, refused);
                live1 = Mem::live();
                failed = out.fail(); okstate = same(st, out);
            }
            const std::string where = std::string(way ? "save_msh(file)" : "save_msh(stream)") + ", allocation " + std::to_string(p.at) + " of " + std::to_string(calls) + (p.persist ? " and all later ones fail" : " fails") + " (" + d + ")";
            c.eval();
            if (refused) { c.note(std::string("save: ") + (e == RETURNED && failed ? "failed stream" : kEnd[e])); c.note("allocations refused", refused); }
            if (e == NONSTD) { c.violation("kind", "out of memory: " + std::string(kEnd[e]) + " is thrown by " + where); return; }
            if (live1 != live0) { c.violation("leak", "out of memory: " + std::to_string((long long)live1 - (long long)live0) + " bytes stay allocated after " + where); return; }
            if (!okstate) { c.violation("state", "out of memory: the formatting of the stream is changed after " + where); return; }
            if (open_files(path) != fds) { c.violation("descriptor", "out of memory: " + std::to_string(open_files(path)) + " files are open instead of " + std::to_string(fds) + " after " + where); return; }
            if (e == RETURNED && !failed) {
                const std::string got = way ? slurp(path) : std::string(fb.data(), fb.size());
                if (got != ref.bytes) {
                    size_t k = 0; while (k < got.size() && k < ref.bytes.size() && got[k] == ref.bytes[k]) k++;
                    c.violation("wrong-bytes", "out of memory: success is reported, but byte " + std::to_string(k) + " differs (" + shorten(got.substr(k > 20 ? k - 20 : 0, 60)) + " instead of " + shorten(ref.bytes.substr(k > 20 ? k - 20 : 0, 60)) + ") after " + where, shorten(got, 2000)); return; }
            }
        }
    }
    if (dump(s) != before) { c.violation("spec-modified", "save_msh modifies the spec (" + d + ")"); return; }
    // --- validate, of the spec and of one it refuses
    for (int way = 0; way < 2; way++) {
        MshSpec q = s;
        if (way) q.nodes.num_entity_blocks += 1 + r.below(3);
        bool plain = true;
        try { mshio::validate_spec(q); } catch (...) { plain = false; }
        Mem::reset_peak();
        try { mshio::validate_spec(q); } catch (...) {}
        const size_t calls = Mem::calls();
        for (const Plan& p : plans(r, calls, most)) {
            const size_t live = Mem::live(); size_t refused = 0;
            End e = run(p.at, p.persist, [&] { mshio::validate_spec(q); }, refused);
            const size_t live1 = Mem::live();
            c.eval();
            if (refused) { c.note(std::string("validate: ") + kEnd[e]); c.note("allocations refused", refused); }
            const std::string where = "validate_spec, allocation " + std::to_string(p.at) + " of " + std::to_string(calls) + " (" + d + ")";
            if (e == NONSTD || (e == RETURNED && !plain)) { c.violation("kind", "out of memory: " + std::string(kEnd[e]) + " from " + where); return; }
            if (live1 != live) { c.violation("leak", "out of memory: bytes stay allocated after " + where); return; }
        }
    }
    // --- later calls are right
    Outcome again = load_bytes(bytes), w = save_bytes(s);
    if (!again.ok() || dump(again.spec) != want || !w.ok() || w.bytes != ref.bytes) c.violation("later-calls", "calls after out-of-memory failures give other results: " + again.str() + ", " + w.str() + " (" + d + ")");
}
Reg r26("C26", c26);

} // namespace
