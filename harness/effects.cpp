// C30: what a call leaves behind besides its result.
#include "common.h"
#include "refcodec.h"

#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <new>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/vfs.h>
#include <unistd.h>

extern char** environ;

using namespace vf;

// ---------------------------------------------------------------- files opened while a call runs
namespace {
bool g_watch = false;
std::vector<std::pair<std::string, bool>>* g_opened = nullptr; // path, for writing
void opened(const char* path, bool writes)
{
    if (!g_watch) return;
    g_watch = false;
    g_opened->push_back({path ? path : "", writes});
    g_watch = true;
}
template <class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool writes_flags(int f) { return (f & O_ACCMODE) != O_RDONLY || f & (O_CREAT | O_TRUNC); }
} // namespace
extern "C" {
int open(const char* p, int f, ...) { va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a); opened(p, writes_flags(f)); return (int)syscall(SYS_openat, AT_FDCWD, p, f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a); opened(p, writes_flags(f)); return (int)syscall(SYS_openat, AT_FDCWD, p, f, m); }
int openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); const int m = va_arg(a, int); va_end(a); opened(p, writes_flags(f)); return (int)syscall(SYS_openat, d, p, f, m); }
FILE* fopen(const char* p, const char* m) { static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); opened(p, m[0] != 'r' || strchr(m, '+')); return r(p, m); }
FILE* fopen64(const char* p, const char* m) { static auto r = real<FILE* (*)(const char*, const char*)>("fopen64"); opened(p, m[0] != 'r' || strchr(m, '+')); return r(p, m); }
}

namespace {

// ---------------------------------------------------------------- the state of the process
struct World {
    std::map<std::string, std::string> v;
    std::vector<std::pair<std::string, std::locale>> locales;
    void set(const std::string& k, const std::string& x) { v[k] = x; }
    template <class T> void num(const std::string& k, const T& x) { std::ostringstream s; s << x; v[k] = s.str(); }
};
std::string bytes_of(const void* p, size_t n) { static const char* hex = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { const unsigned char b = ((const unsigned char*)p)[i]; s += hex[b >> 4]; s += hex[b & 15]; } return s; }
void ios_state(World& w, const std::string& name, std::ios& s)
{
    w.num(name + " flags", (long)s.flags()); w.num(name + " precision", s.precision()); w.num(name + " width", s.width()); w.num(name + " fill", (int)s.fill());
    w.num(name + " state", (int)s.rdstate()); w.num(name + " exceptions", (int)s.exceptions()); w.num(name + " buffer", (const void*)s.rdbuf()); w.num(name + " tie", (const void*)s.tie());
    w.locales.push_back({name + " locale", s.getloc()});
}
void tree(World& w, const std::string& dir, const std::string& rel)
{
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        const std::string p = dir + "/" + n, key = "file " + rel + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { w.num(key, "directory"); tree(w, p, rel + n + "/"); continue; }
        std::ostringstream s;
        s << st.st_size << " bytes, mode " << std::oct << st.st_mode << std::dec << ", mtime " << st.st_mtim.tv_sec << "." << st.st_mtim.tv_nsec << ", hash " << fnv(slurp(p));
        w.set(key, s.str());
    }
    closedir(d);
}
std::map<std::string, std::string> descriptors()
{
    std::map<std::string, std::string> d;
    for (int fd = 0; fd < 40; fd++) {
        struct stat st;
        if (fstat(fd, &st)) continue;
        struct statfs sf;
        if (fd > 2 && !fstatfs(fd, &sf) && sf.f_type == 0x9fa0) continue; // /proc
        std::ostringstream s;
        s << st.st_dev << ":" << st.st_ino << " flags " << fcntl(fd, F_GETFL) << "/" << fcntl(fd, F_GETFD);
        if (S_ISREG(st.st_mode)) s << " at " << lseek(fd, 0, SEEK_CUR) << " of " << st.st_size;
        d["descriptor " + std::to_string(fd)] = s.str();
    }
    return d;
}
World look(const std::string& dir)
{
    World w;
    char cwd[4096];
    w.set("working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
    const mode_t m = umask(022); umask(m);
    w.num("umask", m);
    for (char** e = environ; *e; e++) { const std::string s = *e; w.set("environment " + s.substr(0, s.find('=')), s); }
    for (int i = 1; i < 32; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (!sigaction(i, nullptr, &sa)) w.set("handler of signal " + std::to_string(i), bytes_of(&sa.sa_handler, sizeof sa.sa_handler)); }
    sigset_t set; sigemptyset(&set); sigprocmask(SIG_SETMASK, nullptr, &set);
    std::string mask; for (int i = 1; i < 65; i++) mask += sigismember(&set, i) ? '1' : '0';
    w.set("signal mask", mask);
    w.num("rounding mode", fegetround());
    w.num("enabled floating-point traps", fegetexcept());
#ifdef __SSE2__
    w.num("floating-point control word", __builtin_ia32_stmxcsr() & ~0x3fu);
#endif
    w.set("C locale", setlocale(LC_ALL, nullptr));
    w.locales.push_back({"C++ locale", std::locale()});
    w.num("terminate handler", (void*)std::get_terminate());
    w.num("new handler", (void*)std::get_new_handler());
    ios_state(w, "std::cin", std::cin); ios_state(w, "std::cout", std::cout); ios_state(w, "std::cerr", std::cerr); ios_state(w, "std::clog", std::clog);
    // The harness has a thread that now and then opens a file of /proc: twice the same, or again.
    std::map<std::string, std::string> d = descriptors();
    for (int i = 0; i < 20; i++) { auto e = descriptors(); if (e == d) break; d.swap(e); usleep(200); }
    w.v.insert(d.begin(), d.end());
    size_t threads = 0;
    if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) threads++; closedir(d); }
    w.num("threads", threads);
    struct itimerval it; getitimer(ITIMER_REAL, &it); w.num("alarm", it.it_value.tv_sec);
    tree(w, dir, "");
    return w;
}
off_t size_of(int fd) { struct stat st; return fstat(fd, &st) ? 0 : st.st_size; }
// What was written to a descriptor since it had that size (descriptors of files only).
std::string text_from(int fd, off_t at)
{
    const off_t n = size_of(fd) - at;
    if (n <= 0) return "";
    const std::string all = slurp("/proc/self/fd/" + std::to_string(fd));
    return (off_t)all.size() >= at + n ? all.substr((size_t)at, (size_t)n) : "(" + std::to_string(n) + " bytes)";
}
// What differs, without the keys that start with one of allowed.
std::string differ(const World& a, const World& b, const std::vector<std::string>& allowed)
{
    auto ok = [&](const std::string& k) { for (auto& x : allowed) if (k.compare(0, x.size(), x) == 0) return true; return false; };
    for (auto& kv : a.v) { if (ok(kv.first)) continue; auto i = b.v.find(kv.first); if (i == b.v.end()) return kv.first + " is gone (" + kv.second + ")"; if (i->second != kv.second) return kv.first + ": " + kv.second + " before, " + i->second + " after"; }
    for (auto& kv : b.v) if (!ok(kv.first) && !a.v.count(kv.first)) return kv.first + " is new (" + kv.second + ")";
    for (size_t i = 0; i < a.locales.size() && i < b.locales.size(); i++) if (!(a.locales[i].second == b.locales[i].second)) return a.locales[i].first + ": " + a.locales[i].second.name() + " before, another one after (" + b.locales[i].second.name() + ")";
    return "";
}

struct Comma : std::numpunct<char> { // a facet, so that the locale is not the classic one
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
    char do_thousands_sep() const override { return '.'; }
};

// Global streams that write into strings, for the time of a call.
struct Console {
    std::stringbuf out, err, log;
    std::streambuf *o, *e, *l;
    Console() : o(std::cout.rdbuf(&out)), e(std::cerr.rdbuf(&err)), l(std::clog.rdbuf(&log)) {}
    ~Console() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); }
};

const char* const kVer[] = {"4.1", "2.2"};
GenOpt options(Rng& r)
{
    GenOpt o; const int enc = (int)r.below(4);
    o.version = kVer[enc >> 1]; o.file_type = enc & 1; o.finite = o.file_type == 0; o.tags32 = enc >> 1; o.size = r.chance(1, 5) ? 1 : 0; o.nano = r.chance(1, 4); o.printable = true;
    return o;
}
// Bytes to load: a conforming file, one the library saved, or one damaged. names: its unsupported sections
// (in files that load).
std::string input(Rng& r, std::vector<std::string>& names, bool& damaged)
{
    std::string b;
    damaged = false;
    if (r.flip()) {
        const int ft = (int)r.below(2);
        Layout l = gen_layout(r, ft);
        l.unknown = r.flip(); l.unknown_before_format = false;
        File f;
        if (r.flip()) { GenOpt o = options(r); o.version = "4.1"; o.file_type = ft; o.nano = false; o.finite = ft == 0; o.tags32 = false; f = write41(gen_spec(r, o), l, r.fork()); }
        else f = write22(gen_model22(r, ft, 0), l, r.fork());
        for (auto& s : f.sections) if (!s.known) names.push_back(s.name);
        b = f.bytes;
    } else b = save_bytes(gen_spec(r, options(r))).bytes;
    if (r.chance(1, 3)) {
        damaged = true;
        if (b.empty()) return b;
        switch (r.below(4)) {
        case 0: b.resize(r.below(b.size())); break;
        case 1: for (size_t n = 1 + r.below(4); n > 0; n--) b[r.below(b.size())] = (char)r.next(); break;
        case 2: { const size_t at = r.below(b.size()); b.erase(at, 1 + r.below(20)); break; }
        default: { const size_t at = r.below(b.size()); b.insert(at, b.substr(r.below(b.size()), r.below(50))); break; }
        }
    }
    return b;
}

void c30(Ctx& c)
{
    Rng& r = c.rng;
    const std::string dir = c.tmp + "/fx";
    static bool first = true;
    if (first) {
        first = false;
        mkdir(dir.c_str(), 0755);
        mkdir((dir + "/sub").c_str(), 0755);
        // Files a careless call could meet.
        for (const char* n : {"tmp.msh", "output.msh", "input.msh", "mesh.msh.tmp", "mesh.msh~", "mesh.bak", "sub/mesh.msh", "sub/mesh", "out.msh.part", "log.txt"}) spit(dir + "/" + n, std::string("decoy ") + n);
        spit(c.tmp + "/stdin", std::string(5000, 'x'));
        const int fd = open((c.tmp + "/stdin").c_str(), O_RDONLY);
        if (fd > 0) { dup2(fd, 0); close(fd); }
        fflush(stdout); // what is printed to stdout has a file of its own; stderr is the run's log
        const int o = open((c.tmp + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if (o > 0) { dup2(o, 1); close(o); }
        if (chdir(dir.c_str())) { perror("chdir"); _exit(3); }
        g_opened = new std::vector<std::pair<std::string, bool>>;
    }
    if (r.chance(1, 3)) spit(dir + "/log.txt", "changed " + std::to_string(c.index));

    // What the caller has set up. The call has to leave it alone.
    const int round = r.chance(1, 4) ? (r.flip() ? FE_TOWARDZERO : FE_UPWARD) : FE_TONEAREST;
    const mode_t mask = r.flip() ? 022 : 077;
    umask(mask);
    const unsigned op = (unsigned)r.below(8);
    std::vector<std::string> names;
    bool damaged = false;
    std::string what, path, bytes;
    MshSpec s;
    const bool existing = r.flip();
    if (op <= 3) {
        bytes = input(r, names, damaged);
        if (op <= 1) { what = "load_msh from a stream"; }
        else {
            what = "load_msh from a file";
            path = r.flip() ? "mesh.msh" : dir + "/mesh.msh";
            if (r.chance(1, 12)) { path = r.flip() ? "absent.msh" : "sub"; what = "load_msh from a path that is no file"; ::unlink("mesh.msh"); }
            else { spit("mesh.msh", bytes); if (r.chance(1, 3)) chmod("mesh.msh", 0444); }
        }
    } else {
        s = gen_spec(r, options(r));
        if (r.chance(1, 5)) { s.mesh_format.version = "3.0"; damaged = true; }
        if (op <= 5) what = op == 4 ? "save_msh to a stream" : "validate_spec and the element queries";
        else {
            what = "save_msh to a file";
            path = r.flip() ? "mesh.msh" : dir + "/mesh.msh";
            if (r.chance(1, 12)) { path = r.flip() ? "nowhere/mesh.msh" : "sub"; what = "save_msh to a path that cannot be opened"; }
            else if (existing) spit("mesh.msh", "old contents"); else ::unlink("mesh.msh");
        }
    }
    if (op == 5) { // known finding of C11: validate_spec divides by the number of elements of a block
        auto& v = s.elements.entity_blocks;
        v.erase(std::remove_if(v.begin(), v.end(), [](const mshio::ElementBlock& b) { return b.num_elements_in_block == 0; }), v.end());
        s.elements.num_entity_blocks = v.size();
    }
    Console con;
    // Settings of the global streams that are not the usual ones.
    if (r.chance(1, 3)) { std::cout << std::hex; std::cout.precision(3); std::cerr << std::showpos; std::cin.tie(nullptr); std::cerr.width(5); }
    const int where = (int)r.below(4); // 0, 1: the usual locales; 2: another C++ locale; 3: another C locale
    if (where == 2) { std::locale::global(std::locale(std::locale::classic(), new Comma)); if (r.flip()) { std::cout.imbue(std::locale()); std::cerr.imbue(std::locale()); } c.note("calls under a global locale of the caller's"); }
    if (where == 3 && setlocale(LC_ALL, "C.UTF-8")) c.note("calls under C.UTF-8");
    std::istringstream in(bytes);
    std::ostringstream out;
    std::ostringstream tied;
    if (r.flip()) { in.tie(&tied); out.tie(&tied); }
    fflush(nullptr);
    const World before = look(dir);
    World si; ios_state(si, "the stream", op <= 1 ? (std::ios&)in : (std::ios&)out);
    si.v.erase("the stream state");
    g_opened->clear();
    std::string err;
    Kind k = OK;
    srand((unsigned)c.index);
    fesetround(round);
    Mem::set_cap(64u << 20, Mem::live() + (256u << 20)); // before ASan complains on stderr
    const off_t err_at = size_of(2);
    g_watch = true;
    try {
        switch (op) {
        case 0: case 1: { MshSpec q = mshio::load_msh(in); break; }
        case 2: case 3: { MshSpec q = mshio::load_msh(path); break; }
        case 4: mshio::save_msh(out, s); break;
        case 5:
            for (int t = -1; t < 34; t++) { try { mshio::nodes_per_element(t); mshio::get_element_dim(t); } catch (const std::exception&) {} }
            mshio::validate_spec(s);
            break;
        default: mshio::save_msh(path, s);
        }
    } catch (...) { g_watch = false; k = classify(err); }
    g_watch = false;
    Mem::set_cap(0, 0);
    const int round_after = fegetround();
    fesetround(FE_TONEAREST);
    const int next = rand();
    fflush(nullptr);
    const std::string printed = con.out.str(), warned = con.err.str() + text_from(2, err_at), logged = con.log.str();
    const bool width_kept = before.v.at("std::cerr width") == "0";
    World after = look(dir);
    srand((unsigned)c.index);
    c.eval(); c.note("calls: " + what); c.note(std::string("result: ") + kind_name(k));
    c.note("properties of the process compared", before.v.size());
    c.nontrivial(fnv(what) ^ (uint64_t)k * 77 ^ fnv(bytes) ^ shape(s));
    auto bad = [&](const std::string& m) { c.violation("effect", what + " (" + kind_name(k) + "): " + m, bytes); };
    if (next != rand()) bad("the sequence of rand() has moved on");
    if (round_after != round) bad("the rounding mode is another one after the call");
    std::vector<std::string> allowed{"descriptor 2"}; // warnings, judged below
    // Whoever writes to std::cerr takes its width.
    if (!names.empty() || !width_kept) allowed.push_back("std::cerr width");
    const std::string d = [&] {
        World a = before, b = after;
        if (op >= 6) { a.v.erase("file mesh.msh"); b.v.erase("file mesh.msh"); }
        return differ(a, b, allowed); }();
    if (!d.empty()) bad(d);
    World sj; ios_state(sj, "the stream", op <= 1 ? (std::ios&)in : (std::ios&)out);
    sj.v.erase("the stream state");
    if (op <= 1 || op == 4) { si.v.erase("the stream width"); sj.v.erase("the stream width"); const std::string e = differ(si, sj, {}); if (!e.empty()) bad(e); }
    if (!tied.str().empty()) bad("wrote to the stream that is tied to the caller's");
    if (!printed.empty()) bad("wrote to std::cout: " + shorten(printed));
    if (!logged.empty()) bad("wrote to std::clog: " + shorten(logged));
    if (op > 3 && !warned.empty()) bad("wrote to std::cerr: " + shorten(warned));
    if (op <= 3 && !damaged && path.empty() | (path.find("mesh.msh") != std::string::npos)) {
        if (k != OK) bad("a conforming file does not load: " + err);
        for (auto& n : names) if (warned.find(n) == std::string::npos) { bad("no warning names the unsupported section " + n); break; }
        c.note("warnings about unsupported sections", names.size());
        if (names.empty() && !warned.empty()) bad("wrote to std::cerr though every section is supported: " + shorten(warned));
    }
    for (auto& f : *g_opened) {
        c.note("files opened by a call");
        const bool own = !path.empty() && f.first == path;
        if (path.empty()) { if (f.second) bad("opened " + f.first + " for writing, though the call was given no file"); continue; }
        if (op <= 3) { if (f.second) bad("opened " + f.first + " for writing"); }
        else if (!own && f.second && f.first.compare(0, 5, "/dev/")) { // to be renamed to the target, perhaps; those in the folder are in the snapshots
            struct stat st;
            if (f.first[0] == '/' && f.first.compare(0, dir.size() + 1, dir + "/") && !lstat(f.first.c_str(), &st)) bad("left " + f.first + " behind");
        }
    }
    if (op >= 6 && damaged && !existing && path.find("sub") == std::string::npos) c.note("refused saves to new files");
    std::cout << std::dec; std::cout.precision(6); std::cerr << std::noshowpos; std::cerr.width(0); std::cin.tie(&std::cout);
    if (where > 1) { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); std::cout.imbue(std::locale()); std::cerr.imbue(std::locale()); }
    umask(022);
}
Reg r30("C30", c30);

} // namespace
