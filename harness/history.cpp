// C13: element type queries. C22: earlier calls never influence later ones.
#include "common.h"
#include "refcodec.h"

#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

using namespace vf;
namespace {

static const char* kVer[] = {"4.1", "2.2"};

// ---------------------------------------------------------------- C13
// "" or what is wrong about the answers for this type
std::string query(int t)
{
    const bool known = edim(t) >= 0;
    std::string e;
    try {
        size_t n = mshio::nodes_per_element(t);
        if (!known) e = "nodes_per_element returns " + std::to_string(n) + " for an unknown type";
        else if (n != npe(t)) e = "nodes_per_element is " + std::to_string(n) + " instead of " + std::to_string(npe(t));
    } catch (const mshio::UnsupportedFeature&) {
        if (known) e = "nodes_per_element throws for a supported type";
    } catch (...) { std::string w; Kind k = classify(w); e = std::string("nodes_per_element throws ") + kind_name(k); }
    if (!e.empty()) return e;
    try {
        int d = mshio::get_element_dim(t);
        if (!known) e = "get_element_dim returns " + std::to_string(d) + " for an unknown type";
        else if (d != edim(t)) e = "get_element_dim is " + std::to_string(d) + " instead of " + std::to_string(edim(t));
    } catch (const mshio::UnsupportedFeature&) {
        if (known) e = "get_element_dim throws for a supported type";
    } catch (...) { std::string w; Kind k = classify(w); e = std::string("get_element_dim throws ") + kind_name(k); }
    return e;
}
void ask(Ctx& c, int t)
{
    c.eval();
    c.note(edim(t) >= 0 ? "supported types asked" : "unsupported types asked");
    std::string e = query(t);
    if (!e.empty()) c.violation("query", "type " + std::to_string(t) + ": " + e);
}
void c13(Ctx& c)
{
    if (c.build == "sweep") { // every int: case k is the k-th stretch of 2^16
        const int64_t first = ((int64_t)c.index << 16) - ((int64_t)1 << 31);
        std::string e;
        for (int64_t t = first; t < first + 65536; t++) if (!(e = query((int)t)).empty()) { c.violation("query", "type " + std::to_string(t) + ": " + e); break; }
        c.eval(65536); c.nontrivial(fnv(std::to_string(c.index))); c.note("stretches of 65536 types covered");
        return;
    }
    // contiguous around zero, then patterns whose low bits look like a supported type
    const int64_t first = -80000 + (int64_t)c.index * 2500;
    if (c.index < 64) for (int64_t t = first; t < first + 2500; t++) ask(c, (int)t);
    for (int t = -2; t <= 34; t++) { // in every state the calls before may have left
        ask(c, t);
        const int b = 8 + (int)c.rng.below(24);
        ask(c, (int)((uint32_t)t + (1u << b)));
        ask(c, (int)((uint32_t)t + (uint32_t)(c.rng.next() << (5 + c.rng.below(20)))));
        ask(c, (int)((uint32_t)t ^ 0x80000000u));
    }
    for (int k = 0; k < 2000; k++) ask(c, (int)(uint32_t)(c.rng.next() >> c.rng.below(32)));
    for (int t : {INT32_MAX, INT32_MAX - 1, INT32_MIN, INT32_MIN + 1, INT32_MIN + 2, INT32_MIN + 31}) ask(c, t);
    c.nontrivial(fnv(std::to_string(c.index)));
    if (c.index == 0) c.sample("types -80000..-77501, -2..34 and their images in high bits, 2000 random types");
}
Reg r13("C13", c13);

// ---------------------------------------------------------------- C22
struct Res { uint64_t kind = 99, hash = 0, size = 0; bool operator==(const Res& o) const { return kind == o.kind && hash == o.hash && size == o.size; } };
struct Op { uint64_t seed; };

const char* op_name(uint64_t k)
{
    static const char* n[] = {"load a valid file", "load a mutated file", "load a truncated file", "load from a failing stream", "save", "save an invalid spec", "save to a failing stream", "save to a file and load it", "load a missing file", "validate", "validate an invalid spec", "element queries", "load a 2.2 file", "save curves and patches", "save to a full device", "load in small pieces", "save tags that do not fit", "save to a stream that throws", "run out of memory"};
    return n[k];
}
MshSpec a_spec(Rng& r, int ver, int ft, bool nano)
{
    GenOpt o; o.version = kVer[ver]; o.file_type = ft; o.finite = ft == 0; o.tags32 = ver == 1; o.nano = nano; o.size = r.chance(1, 3) ? 1 : 0;
    MshSpec s = gen_spec(r, o);
    for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block == 0) { s.elements = mshio::Elements(); break; } // validate_spec: known finding
    return s;
}
std::string a_file(Rng& r, int ver)
{
    const int ft = (int)r.below(2);
    Layout l = gen_layout(r, ft != 0);
    l.unknown = r.chance(1, 3); l.stray = r.chance(1, 4); l.repeat = r.chance(1, 8);
    if (ver == 1) return write22(gen_model22(r, ft, 0), l, r.fork()).bytes;
    GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = 0;
    return write41(gen_spec(r, o), l, r.fork()).bytes;
}
Res of(const Outcome& o, bool saved)
{
    Res x;
    x.kind = o.kind;
    const std::string b = !o.ok() ? std::string() : saved ? o.bytes : dump(o.spec);
    x.hash = fnv(b); x.size = b.size();
    return x;
}
Res run_op(const Op& op, const std::string& dir, uint64_t& what)
{
    Rng r(op.seed);
    what = r.below(19);
    switch (what) {
    case 0: return of(load_bytes(a_file(r, (int)r.below(2))), false);
    case 12: return of(load_bytes(a_file(r, 1)), false);
    case 1: {
        std::string b = a_file(r, (int)r.below(2));
        for (size_t n = 1 + r.below(3); n > 0 && !b.empty(); n--) { size_t p = r.below(b.size()); if (r.flip()) b[p] = (char)('0' + r.below(10)); else b.erase(p, 1 + r.below(20)); }
        Mem::set_cap(64u << 20, Mem::live() + (256u << 20));
        Outcome o = load_bytes(b);
        Mem::set_cap(0, 0);
        return of(o, false); }
    case 2: { std::string b = a_file(r, (int)r.below(2)); b.resize(r.below(b.size() + 1)); return of(load_bytes(b), false); }
    case 3: { std::string b = a_file(r, (int)r.below(2)); ChunkBuf cb(b, r.next(), 1 + r.below(64), r.flip() ? ChunkBuf::THROW : ChunkBuf::END, r.below(b.size())); std::istream in(&cb); return of(load_stream(in), false); }
    case 15: { std::string b = a_file(r, (int)r.below(2)); ChunkBuf cb(b, r.next(), 1 + r.below(16)); std::istream in(&cb); return of(load_stream(in), false); }
    case 4: return of(save_bytes(a_spec(r, (int)r.below(2), (int)r.below(2), false)), true);
    case 13: return of(save_bytes(a_spec(r, (int)r.below(2), (int)r.below(2), true)), true);
    case 5: {
        MshSpec s = a_spec(r, (int)r.below(2), (int)r.below(2), false);
        switch (r.below(4)) {
        case 0: s.mesh_format.version = "3.0"; break;
        case 3: if (!s.elements.entity_blocks.empty()) { s.elements.entity_blocks[r.below(s.elements.entity_blocks.size())].element_type = r.flip() ? 0 : 32 + (int)r.below(100); break; } // fall through

        case 1: s.mesh_format.data_size = 4; break;
        default: { mshio::ElementBlock b; b.element_type = 99; b.entity_dim = 2; b.num_elements_in_block = 1; b.data = {1, 1}; s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks++; s.elements.num_elements++; }
        }
        return of(save_bytes(s), true); }
    case 6: {
        MshSpec s = a_spec(r, (int)r.below(2), (int)r.below(2), false);
        FailBuf fb(r.below(400), r.flip()); std::ostream out(&fb);
        Outcome o;
        try { mshio::save_msh(out, s); } catch (...) { o.kind = classify(o.what); }
        Res x = of(o, true); x.hash = fnv(fb.got) + out.fail(); x.size = fb.got.size(); return x; }
    case 7: {
        MshSpec s = a_spec(r, (int)r.below(2), (int)r.below(2), r.flip());
        const std::string p = dir + "/h.msh";
        Outcome o = save_file(p, s);
        if (!o.ok()) return of(o, true);
        Outcome q = load_file(p);
        Res x = of(q, false); x.hash ^= fnv(slurp(p)) * 3; unlink(p.c_str()); return x; }
    case 8: return of(load_file(dir + "/no/such/file.msh"), false);
    case 14: return of(save_file(full_device(dir), a_spec(r, (int)r.below(2), (int)r.below(2), false)), true);
    case 9: return of(validate(a_spec(r, (int)r.below(2), 0, false)), false);
    case 10: {
        MshSpec s = a_spec(r, (int)r.below(2), 0, false);
        switch (r.below(3)) { case 0: s.nodes.num_entity_blocks++; break; case 1: s.elements.num_entity_blocks += 2; break; default: s.nodes.min_node_tag = 5; s.nodes.max_node_tag = 4; }
        return of(validate(s), false); }
    case 16: { // refused somewhere in the middle
        MshSpec s = a_spec(r, (int)r.below(2), (int)r.below(2), r.flip());
        const size_t big = (size_t)(r.flip() ? 1ull << 31 : r.next() | 1ull << 40);
        for (size_t n = 1 + r.below(3); n > 0; n--) {
            auto& nb = s.nodes.entity_blocks; auto& eb = s.elements.entity_blocks;
            auto& dt = r.chance(1, 3) ? s.node_data : r.flip() ? s.element_data : s.element_node_data;
            switch (r.below(3)) {
            case 0: if (!nb.empty()) { auto& b = nb[r.below(nb.size())]; if (!b.tags.empty()) b.tags[r.below(b.tags.size())] = big; } break;
            case 1: if (!eb.empty()) { auto& b = eb[r.below(eb.size())]; if (!b.data.empty()) b.data[r.below(b.data.size())] = big; } break;
            default: if (!dt.empty()) { auto& d = dt[r.below(dt.size())]; if (!d.entries.empty()) d.entries[r.below(d.entries.size())].tag = big; }
            }
        }
        return of(save_bytes(s), true); }
    case 17: { // exceptions enabled: every write can end the call
        MshSpec s = a_spec(r, (int)r.below(2), (int)r.below(2), r.flip());
        FailBuf fb(r.below(1 + (size_t)r.below(3000)), r.flip()); std::ostream out(&fb);
        out.exceptions(std::ios::badbit | (r.flip() ? std::ios::failbit : std::ios::goodbit));
        Outcome o;
        try { mshio::save_msh(out, s); } catch (...) { o.kind = classify(o.what); }
        Res x = of(o, true); x.hash = fnv(fb.got) + out.fail(); x.size = fb.got.size(); return x; }
    case 18: { // what it gives depends on caches of the C++ library, so only what it does to later calls counts
        Rng q = r.fork();
        if (r.flip()) {
            MshSpec s = a_spec(q, (int)q.below(2), (int)q.below(2), q.flip());
            NullBuf nb; std::ostream out(&nb);
            Mem::fail_at(r.below(r.flip() ? 4 : 60), r.flip());
            try { mshio::save_msh(out, s); } catch (const std::exception&) {}
            Mem::end_fail();
        } else {
            const std::string b = a_file(q, (int)q.below(2));
            std::istringstream in(b);
            Mem::fail_at(r.below(r.flip() ? 20 : 400), r.flip());
            try { mshio::load_msh(in); } catch (const std::exception&) {}
            Mem::end_fail();
        }
        Res x; x.kind = 0; return x; }
    default: {
        Res x; x.kind = 0; x.hash = 1;
        for (int n = 0; n < 12; n++) {
            const int t = r.chance(1, 3) ? gen_int(r) : (int)r.range(-1, 33);
            uint64_t v = 1000;
            try { v = mshio::nodes_per_element(t); v = v * 8 + (uint64_t)mshio::get_element_dim(t); } catch (const mshio::UnsupportedFeature&) { v = 2000; }
            x.hash = x.hash * 1099511628211ull + v;
        }
        return x; }
    }
}
// A process that was forked before this process made its first call. It answers each request from
// a child of its own, so every answer is the first call of a process.
struct Zygote {
    int to = -1, from = -1;
    pid_t pid = -1;
    static bool all_read(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    static bool all_write(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    void start(const std::string& dir)
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
        fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(a[1]); close(b[0]);
            Op op;
            while (all_read(a[0], &op, sizeof op)) {
                int p[2];
                if (pipe(p)) _exit(3);
                pid_t g = fork();
                if (g == 0) {
                    alarm(60);
                    uint64_t w;
                    Res x = run_op(op, dir, w);
                    all_write(p[1], &x, sizeof x);
                    _exit(0);
                }
                close(p[1]);
                Res x;
                if (!all_read(p[0], &x, sizeof x)) x = Res{98, 0, 0};
                close(p[0]);
                int st; waitpid(g, &st, 0);
                if (!all_write(b[1], &x, sizeof x)) break;
            }
            _exit(0);
        }
        close(a[0]); close(b[1]);
        to = a[1]; from = b[0];
    }
    Res ask(const Op& op) { Res x; if (!all_write(to, &op, sizeof op) || !all_read(from, &x, sizeof x)) { fprintf(stderr, "zygote gone\n"); _exit(3); } return x; }
};
std::string str(const Res& x) { return x.kind == 98 ? "crash" : std::string(kind_name((Kind)x.kind)) + " " + std::to_string(x.size) + " bytes, hash " + std::to_string(x.hash % 1000000); }

void c22(Ctx& c)
{
    static Zygote z;
    if (z.pid < 0) z.start(c.tmp);
    if (c.index % 400 == 399) { // a long history: counters that run over
        const Op op{c.rng.next()}, small{0x1234567 + c.seed};
        Res want = z.ask(op), w2 = z.ask(small);
        uint64_t w;
        const size_t n = c.thorough ? 300000 : 70000;
        MshSpec s; s.mesh_format.version = "4.1"; s.mesh_format.file_type = 0;
        NullBuf nb; std::ostream out(&nb);
        for (size_t k = 0; k < n; k++) { try { mshio::nodes_per_element((int)(k % 40)); } catch (const mshio::UnsupportedFeature&) {} if (k % 4 == 0) mshio::save_msh(out, s); if (k % 4 == 1) mshio::validate_spec(s); }
        c.note("calls made", n);
        c.eval(2); c.nontrivial(fnv(std::to_string(c.index)));
        Res a = run_op(op, c.tmp, w), b = run_op(small, c.tmp, w);
        if (!(a == want)) c.violation("history", std::string("after many calls: ") + op_name(w) + " gives " + str(a) + ", in a fresh process " + str(want));
        if (!(b == w2)) c.violation("history", std::string("after many calls: ") + op_name(w) + " gives " + str(b) + ", in a fresh process " + str(w2));
        return;
    }
    std::vector<Op> pool; std::vector<Res> want;
    for (size_t k = 3 + c.rng.below(3); k > 0; k--) { pool.push_back(Op{c.rng.next()}); want.push_back(z.ask(pool.back())); }
    std::string trace;
    std::vector<std::string> names;
    uint64_t h = 0;
    for (size_t n = 8 + c.rng.below(8); n > 0; n--) {
        const size_t k = c.rng.below(pool.size());
        uint64_t w = 0;
        Res x = run_op(pool[k], c.tmp, w);
        c.eval(); c.note(std::string("calls: ") + op_name(w)); c.note(std::string("result: ") + kind_name((Kind)x.kind));
        h = h * 31 + w * 17 + x.kind;
        if (!trace.empty()) trace += ", ";
        trace += op_name(w);
        if (!(x == want[k])) { c.violation("history", std::string(op_name(w)) + " gives " + str(x) + ", as the first call of a fresh process " + str(want[k]) + "; calls of this case: " + trace); return; }
    }
    c.nontrivial(h); c.sample(trace);
}
Reg r22("C22", c22);

} // namespace
