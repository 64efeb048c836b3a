// C10, C15, C19, C20, C21: the world around a call. Streams that fail, odd stream state, memory, files.
#include "common.h"
#include "refcodec.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <locale>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>

using namespace vf;

// ---------------------------------------------------------------- system calls of the file buffers
// libstdc++ writes files with write, writev and fclose and reads them with read. These stand-ins fail
// on demand, for regular use they do what they stand in for.
namespace {
struct Inject {
    std::atomic<bool> armed{false};
    std::atomic<long> write_budget{-1}; // bytes; then write_errno
    std::atomic<int> write_errno{ENOSPC};
    std::atomic<bool> once{false};      // later writes succeed
    std::atomic<bool> short_writes{false};
    std::atomic<bool> fail_close{false};
    std::atomic<long> read_budget{-1};
    std::atomic<long> writes{0}, reads{0}, failures{0};
} g_inj;
} // namespace

extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (g_inj.armed && fd > 2) {
        g_inj.writes++;
        long b = g_inj.write_budget;
        if (b >= 0) {
            if (b == 0) { g_inj.failures++; errno = g_inj.write_errno; if (g_inj.once) g_inj.write_budget = -1; return -1; }
            if ((long)n > b) n = (size_t)b;
        }
        if (g_inj.short_writes && n > 1) n = 1 + n / 3;
        ssize_t r = syscall(SYS_write, fd, p, n);
        if (b >= 0 && r > 0) g_inj.write_budget = b - r;
        return r;
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k)
{
    if (g_inj.armed && fd > 2) {
        ssize_t total = 0;
        for (int i = 0; i < k; i++) {
            if (v[i].iov_len == 0) continue;
            if (total && g_inj.write_budget == 0) break; // as the kernel does: the next call reports it
            ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return total ? total : -1;
            total += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return total;
    }
    return syscall(SYS_writev, fd, v, k);
}
extern "C" int fclose(FILE* f)
{
    static int (*real)(FILE*) = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    const bool fail = g_inj.armed && g_inj.fail_close;
    int r = real(f);
    if (fail) { g_inj.failures++; errno = EIO; return EOF; }
    return r;
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if (g_inj.armed && fd > 2) {
        g_inj.reads++;
        long b = g_inj.read_budget;
        if (b >= 0) {
            if (b == 0) { g_inj.failures++; errno = EIO; return -1; }
            if ((long)n > b) n = (size_t)b;
            ssize_t r = syscall(SYS_read, fd, p, n);
            if (r > 0) g_inj.read_budget = b - r;
            return r;
        }
    }
    return syscall(SYS_read, fd, p, n);
}

namespace {
struct Armed { Armed() { g_inj.writes = 0; g_inj.reads = 0; g_inj.failures = 0; g_inj.armed = true; } ~Armed() { g_inj.armed = false; g_inj.write_budget = -1; g_inj.read_budget = -1; g_inj.short_writes = false; g_inj.fail_close = false; g_inj.once = false; } };

static const char* kVer[] = {"4.1", "2.2"};
GenOpt options(Ctx& c, int enc, int size)
{
    GenOpt o; o.version = kVer[(enc >> 1) & 1]; o.file_type = enc & 1; o.finite = o.file_type == 0; o.tags32 = (enc >> 1) & 1; o.size = size; o.nano = c.rng.chance(1, 5);
    return o;
}
std::string enc_name(int enc) { return std::string(kVer[(enc >> 1) & 1]) + (enc & 1 ? " binary" : " ascii"); }

// ---------------------------------------------------------------- C10
void c10(Ctx& c)
{
    Rng& r = c.rng;
    const int enc = (int)(c.index & 3);
    GenOpt o = options(c, enc, r.chance(1, 4) ? 1 : 0);
    MshSpec s;
    if (c.index % 50 == 7) { o.data = false; s = gen_large(r, o, 2000 + r.below(3000)); } // larger than any file buffer
    else if (r.chance(1, 20)) { s.mesh_format.version = o.version; s.mesh_format.file_type = o.file_type; }
    else s = gen_spec(r, o);
    const std::string d = describe(s);
    Outcome ref = save_bytes(s);
    c.eval(); c.nontrivial(shape(s)); c.note(enc_name(enc)); c.sample(d + " " + std::to_string(ref.bytes.size()) + " bytes");
    if (!ref.ok() || ref.stream_failed) { c.violation("save-throws", "save_msh of a valid spec: " + ref.str() + " (" + d + ")"); return; }
    const std::string& b = ref.bytes;

    // streams whose buffer stops accepting at byte k
    const size_t share = std::max<size_t>(6, (c.thorough ? 40000000 : 6000000) / (b.size() + 1)); // fewer rounds for large files
    const size_t budget = std::min<size_t>(c.thorough ? 600 : 120, share);
    for (size_t n = 0; n < std::min(budget, b.size()); n++) {
        const size_t k = b.size() <= budget ? n : n < 20 ? b.size() - 1 - n : r.below(b.size());
        const bool once = r.flip();
        FailBuf fb(k, n & 1, once);
        std::ostream out(&fb);
        Outcome w;
        try { mshio::save_msh(out, s); } catch (...) { w.kind = classify(w.what); }
        c.note(once ? "single stream failures injected" : "stream failures injected");
        if (!fb.faulted) { c.violation("stream-short", "only " + std::to_string(fb.got.size()) + " of " + std::to_string(b.size()) + " bytes offered to a stream that accepts " + std::to_string(k) + " (" + d + ")"); return; }
        if (w.ok() && !out.fail()) { c.violation("stream-failure-hidden", "writing fails at byte " + std::to_string(k) + " of " + std::to_string(b.size()) + ", but save_msh returns and the stream is good (" + d + ")", shorten(b.substr(k > 100 ? k - 100 : 0, 200), 400)); return; }
        if (fb.got.compare(0, std::string::npos, b, 0, fb.got.size()) != 0) { c.violation("stream-other-bytes", "before the failure at byte " + std::to_string(k) + " other bytes were written (" + d + ")"); return; }
    }
    // an output stream that has already failed
    { std::ostringstream out; out.setstate(r.flip() ? std::ios::failbit : std::ios::badbit); bool threw = false; try { mshio::save_msh(out, s); } catch (...) { threw = true; } if (!threw && !out.fail()) { c.violation("stream-failure-hidden", "a failed stream is good after save_msh (" + d + ")"); return; } }

    // files: nothing can be written
    { const std::string f = full_device(c.tmp); Outcome w = save_file(f, s); c.note("device full"); struct stat st; const bool replaced = lstat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode);
      if (w.ok() && !(replaced && slurp(f) == b)) { c.violation("file-failure-hidden", "save_msh to a full device returns normally (" + d + ")"); return; } }
    const std::string p = c.tmp + "/out.msh";
    // size limit of the process
    if (r.chance(1, 3)) {
        const size_t lim = r.chance(1, 4) ? b.size() : r.chance(1, 3) ? b.size() - 1 : r.below(b.size());
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = lim;
        unlink(p.c_str());
        setrlimit(RLIMIT_FSIZE, &now); Outcome w = save_file(p, s); setrlimit(RLIMIT_FSIZE, &old);
        c.note("file size limits");
        if (lim < b.size() && w.ok()) { c.violation("file-failure-hidden", "the file may hold " + std::to_string(lim) + " of " + std::to_string(b.size()) + " bytes, but save_msh returns normally (" + d + ")"); return; }
        if (lim >= b.size() && (!w.ok() || slurp(p) != b)) { c.violation("file-incomplete", "save_msh to a file that is just large enough: " + w.str() + " (" + d + ")"); return; }
    }
    // a write that fails after k bytes, with several errors; some with short writes before
    const size_t tries = std::min<size_t>(c.thorough ? 120 : 25, share);
    for (size_t n = 0; n < tries; n++) {
        const size_t k = n == 0 ? 0 : n == 1 ? b.size() - 1 : r.below(b.size());
        Outcome w; long fails;
        { Armed a; g_inj.write_budget = (long)k; static const int e[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE}; g_inj.write_errno = e[r.below(5)]; g_inj.once = r.flip(); g_inj.short_writes = r.chance(1, 4); w = save_file(p, s); fails = g_inj.failures; }
        if (!fails) { c.note("write errors not reached"); continue; }
        c.note("write errors injected");
        if (w.ok() && slurp(p) == b) { c.note("write errors overcome by a retry"); continue; }
        if (w.ok()) { c.violation("file-failure-hidden", "write fails after " + std::to_string(k) + " of " + std::to_string(b.size()) + " bytes, but save_msh returns normally (" + d + ")"); return; }
    }
    // closing fails
    { Outcome w; long fails; { Armed a; g_inj.fail_close = true; w = save_file(p, s); fails = g_inj.failures; }
        if (fails) { c.note("close errors injected"); if (w.ok()) { c.violation("file-failure-hidden", "closing the file fails, but save_msh returns normally (" + d + ")"); return; } } }
    // success, with short writes: complete
    { Outcome w; { Armed a; g_inj.short_writes = r.flip(); w = save_file(p, s); }
        if (!w.ok() || slurp(p) != b) { c.violation("file-incomplete", "save_msh to a file: " + w.str() + ", " + std::to_string(slurp(p).size()) + " of " + std::to_string(b.size()) + " bytes (" + d + ")"); return; }
        c.note("complete files"); }
    unlink(p.c_str());
}
Reg r10("C10", c10);

// ---------------------------------------------------------------- C15
struct OddPunct : std::numpunct<char> {
    char dp, ts; std::string grp;
    OddPunct(char d, char t, std::string g) : dp(d), ts(t), grp(std::move(g)) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return grp; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct OddCtype : std::ctype<char> { // digits and signs count as white space, blanks do not
    static const mask* table()
    {
        static std::vector<mask> t = [] { std::vector<mask> v(classic_table(), classic_table() + table_size); v[','] |= space; v['7'] |= space; v['.'] |= space; v[' '] &= (mask)~space; return v; }();
        return t.data();
    }
    OddCtype() : std::ctype<char>(table()) {}
};
std::locale odd_locale(Rng& r)
{
    std::locale l = std::locale::classic();
    static const char* g[] = {"\3", "\1", "\2\3", "", "\3\1"};
    static const char dp[] = {',', '.', '_', ';'}; static const char ts[] = {'.', ',', ' ', '\'', '0'};
    if (r.chance(5, 6)) l = std::locale(l, new OddPunct(dp[r.below(4)], ts[r.below(5)], g[r.below(5)]));
    if (r.chance(1, 3)) l = std::locale(l, new OddCtype);
    return l;
}
struct Odd { std::ios::fmtflags f; std::streamsize prec, width; char fill; std::locale loc; };
Odd make_odd(std::ios& s, Rng& r)
{
    static const std::ios::fmtflags base[] = {std::ios::hex, std::ios::oct, std::ios::dec, std::ios::fmtflags(), std::ios::hex | std::ios::oct};
    static const std::ios::fmtflags fl[] = {std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific, std::ios::fmtflags()};
    static const std::ios::fmtflags adj[] = {std::ios::left, std::ios::right, std::ios::internal, std::ios::fmtflags()};
    std::ios::fmtflags f = base[r.below(5)] | fl[r.below(4)] | adj[r.below(4)];
    for (auto x : {std::ios::showbase, std::ios::showpoint, std::ios::showpos, std::ios::uppercase, std::ios::boolalpha, std::ios::unitbuf}) if (r.chance(1, 3)) f |= x;
    if (r.flip()) f |= std::ios::skipws;
    s.flags(f);
    static const int pr[] = {0, 1, 3, 6, 15, 17, 40, 100};
    s.precision(pr[r.below(8)]);
    s.width(r.flip() ? 0 : (std::streamsize)r.below(40));
    s.fill("* 0x-"[r.below(5)]);
    if (r.chance(2, 3)) s.imbue(odd_locale(r));
    return {s.flags(), s.precision(), s.width(), s.fill(), s.getloc()};
}
std::string odd_diff(const std::ios& s, const Odd& o)
{
    std::ostringstream d;
    if (s.flags() != o.f) d << "flags were 0x" << std::hex << (unsigned)o.f << ", are 0x" << (unsigned)s.flags();
    else if (s.precision() != o.prec) d << "precision was " << o.prec << ", is " << s.precision();
    else if (s.fill() != o.fill) d << "fill was '" << o.fill << "', is '" << s.fill() << "'";
    else if (!(s.getloc() == o.loc)) d << "locale differs";
    return d.str();
}
struct GlobalLocale { std::locale old; explicit GlobalLocale(const std::locale& l) : old(std::locale::global(l)) {} ~GlobalLocale() { std::locale::global(old); } };
void c15(Ctx& c)
{
    Rng& r = c.rng;
    const int enc = (int)(c.index & 3);
    GenOpt o = options(c, enc, r.chance(1, 3) ? 1 : 0);
    MshSpec s = gen_spec(r, o);
    const std::string d = describe(s);
    Outcome ref = save_bytes(s);
    Outcome lref = load_bytes(ref.bytes);
    c.eval(); c.nontrivial(shape(s)); c.note(enc_name(enc)); c.sample(d);
    if (!ref.ok() || !lref.ok()) { c.violation("save-throws", "saving and loading a valid spec: " + ref.str() + ", " + lref.str() + " (" + d + ")"); return; }
    for (int k = 0; k < (ref.bytes.size() > 300000 ? 2 : 6); k++) {
        const bool global = r.flip();
        std::unique_ptr<GlobalLocale> gl;
        if (global) { gl.reset(new GlobalLocale(odd_locale(r))); c.note("odd global locale"); }
        const std::string how = global ? "odd stream state and global locale" : "odd stream state";
        { // saving
            std::ostringstream out; Odd odd = make_odd(out, r);
            const bool bad = r.chance(1, 8); MshSpec t;
            if (bad) { t = s; t.mesh_format.version = "4.0"; }
            Outcome w; try { mshio::save_msh(out, bad ? t : s); } catch (...) { w.kind = classify(w.what); }
            c.note(bad ? "saves that throw" : "saves");
            std::string x = odd_diff(out, odd);
            if (!x.empty()) { c.violation("state-not-restored", std::string("output stream after save_msh") + (bad ? " that throws" : "") + ": " + x + " (" + d + ")"); return; }
            if (!bad && (!w.ok() || out.str() != ref.bytes)) {
                std::string g = out.str(); size_t q = 0; while (q < g.size() && q < ref.bytes.size() && g[q] == ref.bytes[q]) q++;
                c.violation("bytes-depend-on-state", how + " change what is written: " + w.str() + ", first difference at byte " + std::to_string(q) + ": \"" + json_escape(ref.bytes.substr(q > 20 ? q - 20 : 0, 40)) + "\" vs \"" + json_escape(g.substr(q > 20 ? q - 20 : 0, 40)) + "\" (" + d + ")"); return; }
        }
        { // a stream that fails on the way keeps its state as well
            FailBuf fb(r.below(ref.bytes.size()), r.flip()); std::ostream out(&fb); Odd odd = make_odd(out, r);
            try { mshio::save_msh(out, s); } catch (...) {}
            std::string x = odd_diff(out, odd);
            if (!x.empty()) { c.violation("state-not-restored", "output stream after a failed write: " + x + " (" + d + ")"); return; }
        }
        { // loading
            const bool cut = r.chance(1, 4);
            std::istringstream in(cut ? ref.bytes.substr(0, r.below(ref.bytes.size())) : ref.bytes);
            Odd odd = make_odd(in, r);
            Outcome l = load_stream(in);
            c.note(cut ? "loads of cut files" : "loads");
            std::string x = odd_diff(in, odd);
            if (!x.empty()) { c.violation("state-not-restored", std::string("input stream after load_msh") + (l.ok() ? "" : " that throws") + ": " + x + " (" + d + ")"); return; }
            if (!cut && (!l.ok() || dump(l.spec) != dump(lref.spec))) { c.violation("spec-depends-on-state", how + " change what is loaded: " + (l.ok() ? diff(lref.spec, l.spec) : l.str()) + " (" + d + ")"); return; }
        }
        if (global && k == 0) { // file interfaces under a global locale
            std::string p = c.tmp + "/loc.msh"; Outcome w = save_file(p, s);
            if (!w.ok() || slurp(p) != ref.bytes) { c.violation("bytes-depend-on-state", "the global locale changes what is written to a file: " + w.str() + " (" + d + ")"); return; }
            Outcome l = load_file(p);
            if (!l.ok() || dump(l.spec) != dump(lref.spec)) { c.violation("spec-depends-on-state", "the global locale changes what is loaded from a file: " + l.str() + " (" + d + ")"); return; }
            c.note("files under an odd global locale");
        }
    }
    // a conforming file of another writer
    if (r.flip()) {
        Layout lay = gen_layout(r, enc & 1); lay.repeat = r.chance(1, 8); File f;
        if (enc & 2) f = write22(gen_model22(r, enc & 1, 0), lay, r.fork());
        else { GenOpt q; q.file_type = enc & 1; q.finite = q.file_type == 0; q.printable = true; q.size = 0; f = write41(gen_spec(r, q), lay, r.fork()); }
        Outcome a = load_bytes(f.bytes);
        std::istringstream in(f.bytes); make_odd(in, r);
        Outcome l; { std::unique_ptr<GlobalLocale> gl; if (r.flip()) gl.reset(new GlobalLocale(odd_locale(r))); l = load_stream(in); }
        if (a.kind != l.kind || (a.ok() && dump(a.spec) != dump(l.spec))) c.violation("spec-depends-on-state", "odd state changes what is loaded from a foreign file: " + a.str() + " vs " + l.str(), shorten(f.bytes, 2000));
        c.note("foreign files");
    }
}
Reg r15("C15", c15);

// ---------------------------------------------------------------- C19
class CountBuf : public std::streambuf {
public:
    size_t n = 0;
protected:
    int_type overflow(int_type ch) override { n++; return traits_type::not_eof(ch); }
    std::streamsize xsputn(const char*, std::streamsize k) override { n += (size_t)k; return k; }
};
struct MemIn : std::streambuf { explicit MemIn(const std::string& s) { char* p = const_cast<char*>(s.data()); setg(p, p, p + s.size()); } };
void measure(Ctx& c, const std::string& bytes, const std::string& what)
{
    const size_t bound = 200 * bytes.size() + (1u << 20);
    Outcome l;
    size_t used;
    {
        MemIn mb(bytes); std::istream in(&mb);
        const size_t live = Mem::live();
        Mem::set_cap(0, live + 8 * bound + (64u << 20)); // keeps the machine usable
        Mem::reset_peak();
        l = load_stream(in);
        used = Mem::peak() - live;
        Mem::set_cap(0, 0);
    }
    c.note("files loaded"); c.note("bytes loaded", bytes.size());
    const uint64_t ratio = used / (bytes.size() + 1);
    if (bytes.size() > 20000) { c.note("files over 20 kB"); auto& m = c.count["max bytes of memory per byte loaded"]; m = std::max(m, ratio); }
    if (!l.ok()) { c.violation(l.kind == E_BADALLOC || l.kind == E_LENGTH ? "memory-load" : "refused", "load_msh of a file of " + std::to_string(bytes.size()) + " bytes: " + l.str() + " (" + what + ")", shorten(bytes, 1500)); return; }
    if (used > bound) { c.violation("memory-load", "load_msh needs " + std::to_string(used) + " bytes of memory for a file of " + std::to_string(bytes.size()) + " bytes (" + what + ")", shorten(bytes, 1500)); return; }
    for (int enc = 0; enc < 4; enc++) {
        MshSpec& t = l.spec;
        if ((enc & 2) && (t.nodes.max_node_tag > 2147483647ull || t.elements.max_element_tag > 2147483647ull)) continue;
        t.mesh_format.version = kVer[enc >> 1]; t.mesh_format.file_type = enc & 1;
        CountBuf cb; std::ostream out(&cb);
        const size_t live = Mem::live();
        Mem::set_cap(0, live + (2u << 30));
        Mem::reset_peak();
        Outcome w; try { mshio::save_msh(out, t); } catch (...) { w.kind = classify(w.what); }
        const size_t su = Mem::peak() - live;
        Mem::set_cap(0, 0);
        c.note("specs saved");
        if (!w.ok()) { c.violation(w.kind == E_BADALLOC || w.kind == E_LENGTH ? "memory-save" : "save-throws", "save_msh as " + enc_name(enc) + ": " + w.str() + " (" + what + ")"); return; }
        if (cb.n > 20000) { auto& m = c.count["max bytes of memory per 100 bytes saved"]; m = std::max<uint64_t>(m, 100 * su / cb.n); }
        if (su > 200 * cb.n + (1u << 20)) { c.violation("memory-save", "save_msh as " + enc_name(enc) + " needs " + std::to_string(su) + " bytes of memory to write " + std::to_string(cb.n) + " bytes (" + what + ")"); return; }
    }
}
int sparse_tag(Rng& r, int mode, size_t i, size_t n)
{
    switch (mode) {
    case 0: return (int)i + 1;
    case 1: return 2147483647 - (int)i;                                   // largest, descending
    case 2: return 1 + (int)(((uint64_t)i * 2147483646ull) / (n ? n : 1)); // spread over the whole range
    case 3: return i == 0 ? 2147483647 : (int)i;                          // one outlier
    case 4: return 1 + (int)((i * 7919) % (n ? n : 1));                   // permuted (n coprime)
    default: return 1000000000 + (int)(i * (1 + r.below(1)));
    }
}
void c19(Ctx& c)
{
    Rng& r = c.rng;
    const int ft = (int)(c.index & 1);
    const bool v22 = (c.index >> 1) & 1;
    const size_t big = c.thorough ? 30000 : 4000;
    const size_t n = r.chance(1, 5) ? 1 + r.below(20) : 97 + r.below(big), ne = r.chance(1, 8) ? r.below(3) : 1 + r.below(big);
    const int tmode = (int)r.below(6), emode = (int)r.below(6), alt = (int)r.below(6);
    auto entity = [&](size_t i) -> int {
        switch (alt) { case 0: return 1; case 1: return (int)(i % 2) ? 2147483647 : -2147483647; case 2: return (int)(i % 97) * 22000000 - 1000000000; case 3: return (int)i + 1; case 4: return (int)(uint32_t)(i * 2654435761u); default: return (int)(i / 50); } };
    const size_t shift = r.below(8);
    auto type = [&](size_t i) { static const int t[] = {2, 1, 15, 4, 3, 9}; return alt == 0 || shift < 4 ? t[shift % 4] : t[(i + shift) % 6]; };
    std::vector<int> tag(n); std::set<int> used;
    for (size_t i = 0; i < n; i++) { tag[i] = sparse_tag(r, tmode, i, n); while (!used.insert(tag[i]).second) tag[i] = 1 + (int)r.below(2147483647ull); }
    used.clear();
    std::vector<int> etag(ne);
    for (size_t i = 0; i < ne; i++) { etag[i] = sparse_tag(r, emode, i, ne); while (!used.insert(etag[i]).second) etag[i] = 1 + (int)r.below(2147483647ull); }
    const std::string what = std::string(v22 ? "2.2" : "4.1") + (ft ? " binary" : " ascii") + " nodes=" + std::to_string(n) + " elements=" + std::to_string(ne) + " node numbering " + std::to_string(tmode) + " element numbering " + std::to_string(emode) + " entities " + std::to_string(alt);
    c.eval(); c.nontrivial(fnv(what)); c.sample(what); c.note(std::string(v22 ? "2.2" : "4.1") + (ft ? " binary" : " ascii"));
    File f;
    Layout lay;
    if (v22) {
        Model22 m; m.file_type = ft;
        for (size_t i = 0; i < n; i++) m.nodes.push_back({tag[i], (double)i, 0.5, 0.25});
        for (size_t i = 0; i < ne; i++) { Elem22 e; e.tag = etag[i]; e.type = type(i); e.tags = {entity(i / 3), entity(i)}; if (r.chance(1, 30)) e.tags.clear(); for (size_t q = npe(e.type); q > 0; q--) e.nodes.push_back(tag[(i * 13 + q * 7) % n]); m.elems.push_back(e); }
        f = write22(m, lay, r.fork());
    } else {
        MshSpec s; s.mesh_format.file_type = ft;
        const bool huge = r.flip();
        auto wide = [&](int t) -> size_t { return huge ? 18446744073709551615ull - (size_t)t * 8589934592ull : (size_t)t; };
        auto& N = s.nodes; auto& E = s.elements;
        const size_t per = 1 + r.below(r.flip() ? 3 : 500);
        for (size_t i = 0; i < n;) { mshio::NodeBlock b; b.entity_dim = (int)(i % 4); b.entity_tag = entity(i); for (size_t q = 0; q < per && i < n; q++, i++) { b.tags.push_back(wide(tag[i])); b.data.insert(b.data.end(), {(double)i, 0.5, 0.25}); } b.num_nodes_in_block = b.tags.size(); N.entity_blocks.push_back(b); }
        N.num_entity_blocks = N.entity_blocks.size(); N.num_nodes = n; N.min_node_tag = 0; N.max_node_tag = ~0ull;
        if (!huge) N.max_node_tag = 2147483647;
        for (size_t i = 0; i < ne;) { mshio::ElementBlock b; b.entity_tag = entity(i); b.element_type = type(i); b.entity_dim = edim(b.element_type); for (size_t q = 0; q < per && i < ne; q++, i++) { b.data.push_back(wide(etag[i])); for (size_t z = npe(b.element_type); z > 0; z--) b.data.push_back(wide(tag[(i * 13 + z * 7) % n])); b.num_elements_in_block++; } E.entity_blocks.push_back(b); }
        E.num_entity_blocks = E.entity_blocks.size(); E.num_elements = ne; E.min_element_tag = 0; E.max_element_tag = huge ? ~0ull : 2147483647;
        GenOpt q; q.size = 0; q.finite = ft == 0; if (r.flip()) gen_entities(r, s, q);
        f = write41(s, lay, r.fork());
    }
    measure(c, f.bytes, what);
    // small files of every kind
    if (r.chance(1, 2)) {
        Layout l2 = gen_layout(r, ft); l2.unknown = r.flip(); l2.repeat = r.chance(1, 8);
        if (v22) f = write22(gen_model22(r, ft, 1), l2, r.fork());
        else { GenOpt q; q.file_type = ft; q.finite = ft == 0; q.printable = true; q.tags32 = true; f = write41(gen_spec(r, q), l2, r.fork()); }
        measure(c, f.bytes, "random file");
    }
}
Reg r19("C19", c19);

// ---------------------------------------------------------------- C20
uint64_t too_wide(Rng& r)
{
    static const uint64_t k[] = {2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 4294967297ull, 4294967298ull, 6442450943ull, 6442450944ull, 8589934593ull, 9223372036854775807ull, 9223372036854775808ull, 9223372036854775809ull, 18446744073709551615ull, 18446744073709551614ull, 18446744071562067968ull, 18446744071562067969ull, 18446744073709551615ull - 2147483647ull, 1099511627777ull};
    return r.chance(1, 4) ? 2147483648ull + (r.next() >> (1 + r.below(32))) : k[r.below(sizeof(k) / sizeof(*k))];
}
void c20(Ctx& c)
{
    Rng& r = c.rng;
    const int enc = (int)(c.index & 3);
    const bool v22 = enc >= 2, bin = enc & 1;
    GenOpt o; o.version = kVer[v22]; o.file_type = bin; o.finite = !bin; o.tags32 = true; o.size = r.chance(1, 3) ? 1 : 0; o.dims_match = true;
    MshSpec s = gen_spec(r, o);
    for (int t = 0; t < 20 && s.elements.num_elements == 0; t++) { MshSpec q = gen_spec(r, o); s.nodes = q.nodes; s.elements = q.elements; }
    if (s.elements.num_elements == 0) { c.note("no elements"); return; }
    while (s.node_data.empty() || s.node_data[0].entries.empty()) { s.node_data.assign(1, gen_data(r, o, false)); }
    while (s.element_data.empty() || s.element_data[0].entries.empty()) { s.element_data.assign(1, gen_data(r, o, false)); }
    while (s.element_node_data.empty() || s.element_node_data[0].entries.empty()) { s.element_node_data.assign(1, gen_data(r, o, true)); }
    // choose a place
    auto node_at = [&]() -> size_t& { std::vector<size_t*> v; for (auto& b : s.nodes.entity_blocks) if (!b.tags.empty()) v.push_back(&b.tags[r.chance(1, 3) ? b.tags.size() - 1 : r.below(b.tags.size())]); return *v[r.below(v.size())]; };
    auto elem_at = [&](bool node) -> size_t& { std::vector<size_t*> v; for (auto& b : s.elements.entity_blocks) if (!b.data.empty()) { const size_t w = npe(b.element_type) + 1; const size_t e = r.chance(1, 3) ? b.num_elements_in_block - 1 : r.below(b.num_elements_in_block); v.push_back(&b.data[e * w + (node ? (r.chance(1, 3) ? w - 1 : 1 + r.below(w - 1)) : 0)]); } return *v[r.below(v.size())]; };
    auto data_at = [&](std::vector<mshio::Data>& D) -> size_t& { std::vector<size_t*> v; for (auto& d : D) if (!d.entries.empty()) v.push_back(&d.entries[r.chance(1, 3) ? d.entries.size() - 1 : r.below(d.entries.size())].tag); return *v[r.below(v.size())]; };
    static const char* places[] = {"node tag", "element tag", "node of an element", "node data tag", "element data tag", "element-node data tag"};
    const int place = (int)r.below(6);
    size_t& t = place == 0 ? node_at() : place == 1 ? elem_at(false) : place == 2 ? elem_at(true) : place == 3 ? data_at(s.node_data) : place == 4 ? data_at(s.element_data) : data_at(s.element_node_data);
    const bool fits32 = r.chance(1, 4);
    const uint64_t v = fits32 ? (r.flip() ? 2147483647ull : 2147483647ull - r.below(3)) : too_wide(r);
    t = v;
    s.nodes.min_node_tag = 0; s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = 0; s.elements.max_element_tag = ~0ull;
    const bool stored32 = place < 3 ? v22 : v22 || bin;
    if (place >= 3 && v22 && !bin && !fits32) { c.note("not specified: data tags in 2.2 ASCII"); return; }
    const bool refuse = stored32 && !fits32;
    const std::string what = std::string(places[place]) + " " + std::to_string(v) + " in " + enc_name(enc);
    c.eval(); c.nontrivial(fnv(what)); c.sample(what); c.note(std::string(refuse ? "must be refused: " : "must be kept: ") + places[place]);
    Outcome w = save_bytes(s);
    if (refuse) {
        if (w.ok()) { Outcome l = load_bytes(w.bytes); c.violation("altered", what + " does not fit, but save_msh writes it (loads " + l.str() + ", " + (l.ok() ? diff_flat(s, l.spec) + diff(s, l.spec, CMP_DATA) : std::string()) + ")", shorten(w.bytes, 1500)); return; }
        if (w.kind == E_NONSTD) { c.violation("altered", what + ": throws something not derived from std::exception"); return; }
        if (r.chance(1, 8)) { Outcome f = save_file(c.tmp + "/w.msh", s); if (f.ok()) c.violation("altered", what + " does not fit, but save_msh to a file writes it"); }
        return;
    }
    if (!w.ok()) { c.violation("refused-fitting", what + " fits, but save_msh: " + w.str()); return; }
    Outcome l = load_bytes(w.bytes);
    if (!l.ok()) { c.violation("refused-fitting", what + " fits, but the saved file is refused: " + l.str(), shorten(w.bytes, 1500)); return; }
    std::string d = diff_flat(s, l.spec);
    if (d.empty()) d = diff(s, l.spec, CMP_DATA);
    expect_same(c, d, "altered", what + " fits, but is changed", shorten(w.bytes, 1500));
}
Reg r20("C20", c20);

// ---------------------------------------------------------------- C21
std::string same_outcome(const Outcome& a, const Outcome& b)
{
    if (a.kind != b.kind) return std::string(kind_name(a.kind)) + " (" + a.what + ") vs " + kind_name(b.kind) + " (" + b.what + ")";
    if (a.ok() && dump(a.spec) != dump(b.spec)) return diff(a.spec, b.spec);
    return "";
}
void c21(Ctx& c)
{
    Rng& r = c.rng;
    const int enc = (int)(c.index & 3);
    GenOpt o = options(c, enc, r.chance(1, 3) ? 1 : 0);
    MshSpec s;
    if (c.index % 60 == 9) { o.data = false; s = gen_large(r, o, 3000); } else s = gen_spec(r, o);
    const std::string before = dump(s), d = describe(s);
    Outcome ref = save_bytes(s);
    c.eval(); c.nontrivial(shape(s)); c.note(enc_name(enc)); c.sample(d);
    if (!ref.ok()) { c.violation("save-throws", ref.str() + " (" + d + ")"); return; }
    static const char* names[] = {"m.msh", "with space.msh", "no_extension", "ünï.msh", "a.b.c.msh", "-dash", "UPPER.MSH", ".hidden", "tab\there", "new\nline", "%s%n", "m.vtk", "$Nodes"};
    std::string p = c.tmp + "/" + names[r.below(13)] + (r.chance(1, 10) ? std::string(150, 'x') : "");
    std::vector<std::string> dirs; // made for a longer path
    bool link = false;
    struct Clean { // also on the early returns
        std::vector<std::string>& dirs; std::string& p; int back = -1;
        ~Clean()
        {
            if (!dirs.empty()) unlink(p.c_str());
            for (size_t k = dirs.size(); k > 0; k--) rmdir(dirs[k - 1].c_str());
            if (back >= 0) { if (fchdir(back)) {} close(back); }
        }
    } clean{dirs, p};
    if (r.chance(1, 6)) { // deep folders, up to the longest path the system takes
        static const size_t lengths[] = {200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4000, 4095};
        const size_t len = lengths[r.below(17)];
        std::string at = c.tmp;
        while (at.size() + 2 < len) {
            const size_t n = std::min<size_t>(len - at.size() - 2, 1 + r.below(250));
            if (at.size() + n + 2 >= len) break;
            at += "/" + std::string(n, 'd');
            if (mkdir(at.c_str(), 0700)) { at.clear(); break; }
            dirs.push_back(at);
        }
        if (!at.empty() && at.size() + 1 < len) { p = at + "/" + std::string(len - at.size() - 1, 'f'); c.note("long paths"); }
    } else if (r.chance(1, 6)) { // relative
        const std::string sub = c.tmp + "/sub";
        clean.back = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        mkdir(sub.c_str(), 0700);
        if (clean.back < 0 || chdir(sub.c_str())) return;
        static const char* how[] = {"", "./", "../", "..//sub/./", "../sub/../sub/"};
        p = std::string(how[r.below(5)]) + names[r.below(13)];
        c.note("relative paths");
    } else if (r.chance(1, 10)) { // through a symbolic link, perhaps to nothing yet
        const std::string target = c.tmp + "/target";
        unlink(target.c_str()); unlink(p.c_str());
        if (r.flip()) spit(target, "old");
        if (symlink("target", p.c_str())) return;
        link = true;
        c.note("symbolic links");
    }
    // saving: new file, or one with other contents before
    if (!link) unlink(p.c_str());
    const int prev = (int)r.below(4);
    if (prev == 1) spit(p, std::string(r.below(3 * ref.bytes.size() + 10), 'Z'));
    if (prev == 2) spit(p, ref.bytes + "$Nodes\nmore\n");
    if (prev == 3) spit(p, "");
    Outcome w = save_file(p, s);
    c.note(prev ? "existing files overwritten" : "new files");
    if (!w.ok() || slurp(p) != ref.bytes) { c.violation("file-vs-stream-save", "save_msh to a file leaves other bytes than to a stream: " + w.str() + ", " + std::to_string(slurp(p).size()) + " vs " + std::to_string(ref.bytes.size()) + " bytes, " + (prev ? "file existed" : "new file") + " (" + d + ")"); return; }
    // appending at the current position
    {
        std::string pre; for (size_t n = r.below(60); n > 0; n--) pre += (char)(unsigned char)r.below(256);
        const bool file = r.chance(1, 3);
        std::string got, want = pre + ref.bytes;
        Outcome q;
        if (file) { std::string p2 = c.tmp + "/app.msh"; { std::ofstream out(p2.c_str(), std::ios::binary); out << pre; try { mshio::save_msh(out, s); if (r.flip()) { mshio::save_msh(out, s); want += ref.bytes; } out << "tail"; want += "tail"; } catch (...) { q.kind = classify(q.what); } } got = slurp(p2); }
        else if (r.flip()) { std::ostringstream out; out << pre; try { mshio::save_msh(out, s); } catch (...) { q.kind = classify(q.what); } got = out.str(); }
        else { // in the middle of existing contents
            std::string old = pre + std::string(ref.bytes.size() + 50, 'q'); std::stringstream out(old); out.seekp((long)pre.size()); try { mshio::save_msh(out, s); } catch (...) { q.kind = classify(q.what); } got = out.str(); want = pre + ref.bytes + std::string(50, 'q'); }
        c.note("saves into a stream in use");
        if (!q.ok() || got != want) { c.violation("appends", "save_msh to a stream does more than append at the current position: " + q.str() + " (" + std::to_string(got.size()) + " vs " + std::to_string(want.size()) + " bytes; " + d + ")"); return; }
    }
    if (dump(s) != before) { c.violation("spec-modified", "save_msh modifies the spec (" + d + ")"); return; }
    // loading: file and streams, for the saved file, a foreign file or a damaged one
    std::string b = ref.bytes; std::string kind = "saved file";
    if (r.chance(1, 3)) { Layout lay = gen_layout(r, enc & 1); lay.unknown = r.flip(); lay.unknown_binary = r.flip(); lay.repeat = r.chance(1, 8); kind = "foreign file";
        if (enc & 2) b = write22(gen_model22(r, enc & 1, 1), lay, r.fork()).bytes; else { GenOpt q; q.file_type = enc & 1; q.finite = q.file_type == 0; q.printable = true; b = write41(gen_spec(r, q), lay, r.fork()).bytes; } }
    if (r.chance(1, 4) && !b.empty()) { kind += ", damaged"; for (size_t n = 1 + r.below(3); n > 0; n--) b[r.below(b.size())] = "0 9\n$xN\x01"[r.below(8)]; if (r.chance(1, 3)) b.resize(r.below(b.size())); }
    Mem::set_cap(64u << 20, Mem::live() + (256u << 20));
    Outcome base = load_bytes(b);
    c.note(kind + (base.ok() ? "" : " (refused)"));
    spit(p, b);
    std::string x = same_outcome(base, load_file(p));
    if (!x.empty()) { Mem::set_cap(0, 0); c.violation("file-vs-stream-load", "a file loads otherwise than a stream with the same bytes: " + x + " (" + kind + ", " + d + ")", shorten(b, 2000)); return; }
    for (int k = 0; k < 6; k++) {
        static const size_t sizes[] = {1, 2, 3, 7, 8, 16, 64, 511, 4096, 100000};
        const size_t m = sizes[r.below(10)];
        ChunkBuf cb(b, r.next(), m); std::istream in(&cb);
        Outcome l = load_stream(in);
        c.note("loads through chunked streams"); c.note("buffer refills", cb.calls());
        x = same_outcome(base, l);
        if (!x.empty()) { Mem::set_cap(0, 0); c.violation("delivery", "delivered in pieces of up to " + std::to_string(m) + " bytes, the same bytes load otherwise: " + x + " (" + kind + ", " + d + ")", shorten(b, 2000)); return; }
    }
    { // a file stream, positioned after other contents
        std::string pre(r.below(40), '#'); std::string p2 = c.tmp + "/pos.msh"; spit(p2, pre + b);
        std::ifstream in(p2.c_str(), std::ios::binary); char small[16]; if (r.flip()) in.rdbuf()->pubsetbuf(small, sizeof small);
        in.seekg((long)pre.size());
        x = same_outcome(base, load_stream(in));
        if (!x.empty()) { Mem::set_cap(0, 0); c.violation("delivery", "read from a file stream at a position, the same bytes load otherwise: " + x + " (" + kind + ", " + d + ")", shorten(b, 2000)); return; }
    }
    if (r.chance(1, 6)) { // a pipe
        std::string fifo = c.tmp + "/fifo"; unlink(fifo.c_str());
        if (mkfifo(fifo.c_str(), 0600) == 0) {
            signal(SIGPIPE, SIG_IGN);
            std::thread t([&] { int fd = open(fifo.c_str(), O_WRONLY); size_t done = 0; while (fd >= 0 && done < b.size()) { ssize_t k = syscall(SYS_write, fd, b.data() + done, std::min<size_t>(b.size() - done, 777)); if (k <= 0) break; done += (size_t)k; } if (fd >= 0) close(fd); });
            Outcome l = load_file(fifo);
            t.join();
            c.note("loads from a named pipe");
            x = same_outcome(base, l);
            if (!x.empty()) { Mem::set_cap(0, 0); c.violation("delivery", "read from a pipe, the same bytes load otherwise: " + x + " (" + kind + ", " + d + ")", shorten(b, 2000)); return; }
            unlink(fifo.c_str());
        }
    }
    Mem::set_cap(0, 0);
    // read errors of a file
    if (r.chance(1, 2)) {
        spit(p, ref.bytes);
        const size_t k = r.chance(1, 4) ? 0 : r.below(ref.bytes.size());
        Outcome l; long fails; { Armed a; g_inj.read_budget = (long)k; l = load_file(p); fails = g_inj.failures; }
        if (fails) { c.note("read errors of a file injected"); if (l.ok()) { c.violation("unreadable-file", "reading the file fails after " + std::to_string(k) + " of " + std::to_string(ref.bytes.size()) + " bytes, but load_msh returns (" + d + ")"); return; } }
    }
    // paths that cannot be opened
    unlink(p.c_str());
    struct { std::string path; const char* what; } bad[] = {{p, "a missing file"}, {c.tmp, "a directory"}, {c.tmp + "/", "a directory"}, {c.tmp + "/no/such/dir/m.msh", "a missing directory"}, {"", "an empty path"}, {c.tmp + "/" + std::string(300, 'n'), "a name too long"}, {std::string("/dev/null/x"), "a path through a file"}};
    for (auto& q : bad) {
        Outcome l = load_file(q.path);
        if (l.ok() || l.kind == E_NONSTD) { c.violation("unopenable", std::string("load_msh from ") + q.what + ": " + l.str()); return; }
        if (std::string(q.what) == "a missing file") continue;
        Outcome sv = save_file(q.path, s);
        if (sv.ok() || sv.kind == E_NONSTD) { c.violation("unopenable", std::string("save_msh to ") + q.what + ": " + sv.str()); return; }
    }
    c.note("paths that cannot be opened", 13);
}
Reg r21("C21", c21);

} // namespace
