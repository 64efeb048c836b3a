// C27: the work of a call, counted, against the size of its input. The library is built with
// -fsanitize-coverage=trace-pc-guard (each executed edge calls the counter below) and linked with
// memmove and the like wrapped.
#include "common.h"
#include "refcodec.h"

#include <ctime>

using namespace vf;

namespace {
uint64_t g_edges, g_moved;
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { g_edges++; }
void* __real_memmove(void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
void* __wrap_memmove(void* a, const void* b, size_t n) { g_moved += n; return __real_memmove(a, b, n); }
void* __wrap_memcpy(void* a, const void* b, size_t n) { g_moved += n; return __real_memcpy(a, b, n); }
void* __wrap_memset(void* a, int b, size_t n) { g_moved += n; return __real_memset(a, b, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { g_moved += n; return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int b, size_t n) { g_moved += n; return __real_memchr(a, b, n); }
size_t __wrap_strlen(const char* a) { const size_t n = __real_strlen(a); g_moved += n; return n; }
}

namespace {

// Seekable source that counts what it delivers.
class CountIn : public std::streambuf {
public:
    explicit CountIn(const std::string& b) : m_b(b) {}
    uint64_t bytes = 0, seeks = 0;
protected:
    int_type underflow() override
    {
        m_pos = here();
        if (m_pos >= m_b.size()) { setg(nullptr, nullptr, nullptr); return traits_type::eof(); }
        window();
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize xsgetn(char* p, std::streamsize n) override
    {
        const size_t at = here(), k = std::min((size_t)n, m_b.size() - std::min(at, m_b.size()));
        std::copy(m_b.data() + at, m_b.data() + at + k, p);
        bytes += k; m_pos = at + k; setg(nullptr, nullptr, nullptr);
        return (std::streamsize)k;
    }
    int_type pbackfail(int_type) override
    {
        const size_t at = here();
        if (!at) return traits_type::eof();
        m_pos = at - 1; window(); return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        seeks++;
        const off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)here() : (off_type)m_b.size();
        if (base + o < 0 || base + o > (off_type)m_b.size()) return pos_type(off_type(-1));
        m_pos = (size_t)(base + o); setg(nullptr, nullptr, nullptr);
        return pos_type(base + o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode w) override { return seekoff((off_type)p, std::ios_base::beg, w); }
private:
    const std::string& m_b;
    size_t m_pos = 0; // of eback if there is a window, else of the next byte
    size_t here() const { return eback() ? m_pos + (size_t)(gptr() - eback()) : m_pos; }
    void window()
    {
        const size_t k = std::min<size_t>(256, m_b.size() - m_pos);
        char* p = const_cast<char*>(m_b.data()) + m_pos;
        setg(p, p, p + k); bytes += k;
    }
};
class CountOut : public std::streambuf {
public:
    uint64_t bytes = 0, calls = 0;
protected:
    int_type overflow(int_type c) override { bytes++; calls++; return traits_type::not_eof(c); }
    std::streamsize xsputn(const char*, std::streamsize n) override { bytes += (uint64_t)n; calls++; return n; }
    int sync() override { calls++; return 0; }
};

double cpu_now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

struct Cost { uint64_t edges = 0, moved = 0, alloc = 0, stream = 0; double cpu = 0; bool ok = true; std::string what;
    uint64_t total() const { return edges + moved / 8 + alloc / 8 + stream; } };
template <class F> Cost measure(F&& f)
{
    Cost k;
    Mem::reset_peak(); g_edges = g_moved = 0;
    const double t = cpu_now();
    try { f(); } catch (...) { k.ok = false; k.edges = g_edges; classify(k.what); return k; }
    k.cpu = cpu_now() - t; k.edges = g_edges; k.moved = g_moved; k.alloc = Mem::allocated();
    return k;
}

struct Input { std::string bytes; MshSpec spec; bool save = true, load = true; };
static const char* kFamily[] = {
    "nodes in one block", "node blocks of one node", "empty node blocks", "parametric node blocks",
    "elements in one block", "element blocks of one element", "element blocks of alternating types", "elements in descending order",
    "points", "curves", "a volume with many boundary and physical tags", "physical groups", "a long name", "a name of quotes",
    "node data fields", "entries of a field", "string tags", "real tags", "integer tags", "components", "element-node entries", "nodes of an element-node entry",
    "NanoSpline curves", "control points of a curve", "NanoSpline patches", "control points of a patch", "several of these",
    "2.2: nodes", "2.2: sparse nodes in descending order", "2.2: elements of one entity", "2.2: elements of alternating entities", "2.2: elements each of its own entity", "2.2: an entity in many physical groups", "2.2: elements with many tags", "2.2: element data",
    "unsupported sections", "lines of an unsupported section", "a long word in an unsupported section", "words like end markers in an unsupported section", "stray words", "a long stray word", "blanks at the end", "empty sections",
    "4.1: $Nodes and $Elements sections", "4.1: $Entities and $PhysicalNames sections", "2.2: $Nodes sections", "a long number", "2.2: nodes around an element"};
const size_t kFamilies = sizeof(kFamily) / sizeof(*kFamily);

mshio::NodeBlock node_block(size_t tag, size_t n, int dim, int entity, int param)
{
    mshio::NodeBlock b; b.entity_dim = dim; b.entity_tag = entity; b.parametric = param; b.num_nodes_in_block = n;
    for (size_t k = 0; k < n; k++) b.tags.push_back(tag + k);
    b.data.resize(n * (size_t)(3 + (param ? dim : 0)));
    for (size_t k = 0; k < b.data.size(); k++) b.data[k] = (double)(k % 97) * 0.25;
    return b;
}
mshio::ElementBlock element_block(size_t tag, size_t n, int type, int entity, bool down = false)
{
    mshio::ElementBlock b; b.entity_dim = edim(type); b.entity_tag = entity; b.element_type = type; b.num_elements_in_block = n;
    for (size_t k = 0; k < n; k++) { b.data.push_back(down ? tag + n - 1 - k : tag + k); for (size_t j = 0; j < npe(type); j++) b.data.push_back(1 + (k + j) % 50); }
    return b;
}
void totals(MshSpec& s)
{
    auto& N = s.nodes; auto& E = s.elements;
    N.num_entity_blocks = N.entity_blocks.size(); N.num_nodes = 0; N.min_node_tag = N.entity_blocks.empty() ? 0 : SIZE_MAX; N.max_node_tag = 0;
    for (auto& b : N.entity_blocks) { N.num_nodes += b.tags.size(); for (auto t : b.tags) { N.min_node_tag = std::min(N.min_node_tag, t); N.max_node_tag = std::max(N.max_node_tag, t); } }
    if (!N.num_nodes) N.min_node_tag = N.max_node_tag = 0;
    E.num_entity_blocks = E.entity_blocks.size(); E.num_elements = 0; E.min_element_tag = SIZE_MAX; E.max_element_tag = 0;
    for (auto& b : E.entity_blocks) { E.num_elements += b.num_elements_in_block; const size_t m = npe(b.element_type) + 1; for (size_t k = 0; k < b.data.size(); k += m) { E.min_element_tag = std::min(E.min_element_tag, b.data[k]); E.max_element_tag = std::max(E.max_element_tag, b.data[k]); } }
    if (!E.num_elements) E.min_element_tag = E.max_element_tag = 0;
}
mshio::Data field(size_t n, int comp, bool en)
{
    mshio::Data d; d.header.string_tags = {"f"}; d.header.real_tags = {0.5}; d.header.int_tags = {0, comp, (int)n};
    for (size_t k = 0; k < n; k++) { mshio::DataEntry e; e.tag = k + 1; if (en) e.num_nodes_per_element = 3; e.data.assign((size_t)comp * (en ? 3 : 1), (double)(k % 31)); d.entries.push_back(e); }
    return d;
}
// Adds n items of a family; descriptions above.
void grow(MshSpec& s, size_t fam, size_t n)
{
    auto& N = s.nodes.entity_blocks; auto& E = s.elements.entity_blocks;
    size_t nt = 1, et = 1;
    for (auto& b : N) nt += b.tags.size();
    for (auto& b : E) et += b.num_elements_in_block;
    static const int types[] = {2, 15, 4, 1, 3, 8, 5};
    switch (fam) {
    case 0: N.push_back(node_block(nt, n, 2, 1, 0)); break;
    case 1: for (size_t k = 0; k < n; k++) N.push_back(node_block(nt + k, 1, (int)(k % 4), (int)k, 0)); break;
    case 2: for (size_t k = 0; k < n; k++) N.push_back(node_block(nt, 0, (int)(k % 4), (int)k, 0)); break;
    case 3: for (size_t k = 0; k < n / 3; k++) N.push_back(node_block(nt + 3 * k, 3, (int)(k % 4), (int)k, 1)); break;
    case 4: E.push_back(element_block(et, n, 2, 1)); break;
    case 5: for (size_t k = 0; k < n; k++) E.push_back(element_block(et + k, 1, 2, (int)(k / 2))); break;
    case 6: for (size_t k = 0; k < n; k++) E.push_back(element_block(et + k, 1, types[k % 7], (int)(k % 11))); break;
    case 7: E.push_back(element_block(et, n, 4, 1, true)); break;
    case 8: for (size_t k = 0; k < n; k++) { mshio::PointEntity p; p.tag = (int)k; p.physical_group_tags = {1}; s.entities.points.push_back(p); } break;
    case 9: for (size_t k = 0; k < n; k++) { mshio::CurveEntity p; p.tag = (int)(n - k); p.boundary_point_tags = {(int)k, (int)k + 1}; s.entities.curves.push_back(p); } break;
    case 10: { mshio::VolumeEntity v; for (size_t k = 0; k < n; k++) { v.physical_group_tags.push_back((int)(n - k)); v.boundary_surface_tags.push_back((int)k); } s.entities.volumes.push_back(v); break; }
    case 11: for (size_t k = 0; k < n; k++) { mshio::PhysicalGroup g; g.dim = (int)(k % 4); g.tag = (int)k; g.name = "g" + std::to_string(k); s.physical_groups.push_back(g); } break;
    case 12: { mshio::PhysicalGroup g; g.name = std::string(8 * n, 'n'); s.physical_groups.push_back(g); break; }
    case 13: { mshio::PhysicalGroup g; g.name = std::string(8 * n, '"'); s.physical_groups.push_back(g); break; }
    case 14: for (size_t k = 0; k < n; k++) s.node_data.push_back(field(1, 1, false)); break;
    case 15: s.node_data.push_back(field(n, 3, false)); break;
    case 16: { auto d = field(1, 1, false); for (size_t k = 0; k < n; k++) d.header.string_tags.push_back("t" + std::to_string(k)); s.node_data.push_back(d); break; }
    case 17: { auto d = field(1, 1, false); d.header.real_tags.resize(n, 1.25); s.element_data.push_back(d); break; }
    case 18: { auto d = field(1, 1, false); d.header.int_tags.resize(n + 3, 7); s.element_data.push_back(d); break; }
    case 19: s.element_data.push_back(field(2, (int)n, false)); break;
    case 20: s.element_node_data.push_back(field(n, 1, true)); break;
    case 21: { auto d = field(1, 1, true); d.entries[0].num_nodes_per_element = (int)n; d.entries[0].data.resize(n); s.element_node_data.push_back(d); break; }
    case 22: for (size_t k = 0; k < n; k++) { mshio::Curve q; q.curve_tag = k; q.num_control_points = 2; q.data.resize(6, 0.5); s.curves.push_back(q); } break;
    case 23: { mshio::Curve q; q.num_control_points = n; q.num_knots = n; q.data.resize(4 * n, 0.5); s.curves.push_back(q); break; }
    case 24: for (size_t k = 0; k < n; k++) { mshio::Patch q; q.patch_tag = k; q.num_control_points = 2; q.data.resize(6, 0.5); s.patches.push_back(q); } break;
    case 25: { mshio::Patch q; q.num_control_points = n; q.num_u_knots = n; q.data.resize(4 * n, 0.5); s.patches.push_back(q); break; }
    default: break;
    }
}
Input build(size_t fam, size_t n, int ft, uint64_t seed)
{
    Rng r(seed);
    Input in;
    MshSpec& s = in.spec;
    s.mesh_format.version = "4.1"; s.mesh_format.file_type = ft;
    const std::string head = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n";
    Layout l;
    if (fam <= 26) {
        if (fam >= 4 && fam <= 7) s.nodes.entity_blocks.push_back(node_block(1, 60, 0, 1, 0));
        if (fam < 26) grow(s, fam, n);
        else for (size_t k = 2 + r.below(4); k > 0; k--) { size_t f = r.below(26); if (f == 7 || f == 4) f = 6; if (f == 13) f = 12; grow(s, f, n / (1 + r.below(3))); }
        totals(s);
        if (s.curves.empty() && s.patches.empty() && fam != 13) in.bytes = write41(s, l, r.fork()).bytes;
        else { std::ostringstream o; mshio::save_msh(o, s); in.bytes = o.str(); }
        if (r.chance(1, 4)) s.mesh_format.version = "2.2"; // saving only: what was loaded is 4.1
        return in;
    }
    if (fam <= 34 || fam == 47) {
        Model22 m; m.file_type = ft;
        for (size_t k = 0; k < (fam <= 28 ? n : 60); k++) { const int t = fam == 28 ? (int)(1 + (n - k) * 1000 + r.below(999)) : (int)k + 1; m.nodes.push_back({t, 0.25, 1, (double)(k % 13)}); }
        for (size_t k = 0; k < (fam >= 29 && fam != 34 ? n : 5); k++) {
            Elem22 e; e.tag = (int)k + 1; e.type = 2; e.tags = {1, 1}; e.nodes = {1 + (int)(k % 50), 2 + (int)(k % 49), 3};
            if (fam == 30) e.tags[1] = 1 + (int)(k % 3);
            if (fam == 31) e.tags[1] = (int)(n - k);
            if (fam == 32) e.tags[0] = (int)((k * 7919) % 1000003);
            if (fam == 33) e.tags.resize(2 + k % 17, 3);
            if (fam == 47) { e.nodes = {7, 8 + (int)k, 9 + (int)k}; e.tags[1] = 1 + (int)(k % 2); }
            m.elems.push_back(e);
        }
        if (fam == 47) for (size_t k = 60; k < n + 10; k++) m.nodes.push_back({(int)k + 1, 0, 0, 0});
        if (fam == 34) { m.element_data.push_back(field(n, 1, false)); m.element_node_data.push_back(field(n / 2, 1, true)); }
        in.bytes = write22(m, l, r.fork()).bytes;
        std::istringstream is(in.bytes);
        s = mshio::load_msh(is);
        return in;
    }
    in.save = false;
    std::string b = ft && fam != 46 ? std::string("$MeshFormat\n4.1 1 8\n") + std::string("\1\0\0\0", 4) + "\n$EndMeshFormat\n" : head;
    MshSpec one; one.mesh_format = s.mesh_format;
    auto text = [&](const char* x) { std::string t; for (size_t k = 0; k < n; k++) t += x; return t; };
    switch (fam) {
    case 35: b += text("$Foo\n1 2 3\n$EndFoo\n"); break;
    case 36: b += "$Foo\n" + text("1 2 3 some text\n") + "$EndFoo\n"; break;
    case 37: b += "$Foo\n" + text("abcdefgh") + "\n$EndFoo\n"; break;
    case 38: b += "$Foo\n" + text("$EndFo $EndFooo $End $Foo\n") + "$EndFoo\n"; break;
    case 39: b += text("stray words\n"); break;
    case 40: b += text("strayword") + "\n"; break;
    case 41: b += text("    \n"); break;
    case 42: if (ft) b += text("$PhysicalNames\n0\n$EndPhysicalNames\n"); else b += text("$PhysicalNames\n0\n$EndPhysicalNames\n$Nodes\n0 0 0 0\n$EndNodes\n$Elements\n0 0 0 0\n$EndElements\n$Entities\n0 0 0 0\n$EndEntities\n"); break;
    case 43: case 44: {
        grow(one, fam == 43 ? 0 : 8, 1); grow(one, fam == 43 ? 4 : 11, 1); totals(one);
        const std::string w = write41(one, l, r.fork()).bytes, rest = w.substr(w.find("$EndMeshFormat") + 15);
        b = w; for (size_t k = 1; k < n; k++) b += rest; break; }
    case 45: {
        Model22 m; m.file_type = ft; m.nodes.push_back({1, 1, 2, 3}); m.has_elements = false;
        const std::string w = write22(m, l, r.fork()).bytes, rest = w.substr(w.find("$EndMeshFormat") + 15);
        b = w; for (size_t k = 1; k < n; k++) b += rest; break; }
    case 46: b += "$Nodes\n1 1 1 1\n0 1 0 1\n1\n0." + text("12345678") + " 1 1\n$EndNodes\n"; break;
    }
    in.bytes = b;
    return in;
}

struct Costs { Cost load, save, validate; size_t bytes; };
Costs run(const Input& in)
{
    Costs k; k.bytes = in.bytes.size();
    CountIn ci(in.bytes); std::istream is(&ci);
    MshSpec t;
    k.load = measure([&] { t = mshio::load_msh(is); });
    k.load.stream = ci.bytes + 64 * ci.seeks;
    if (in.save) {
        CountOut co; std::ostream os(&co);
        k.save = measure([&] { mshio::save_msh(os, in.spec); });
        k.save.stream = co.bytes + 8 * co.calls;
        if (!os) k.save.ok = false;
        bool empty = false;
        for (auto& b : in.spec.elements.entity_blocks) if (b.num_elements_in_block == 0) empty = true;
        if (!empty) k.validate = measure([&] { mshio::validate_spec(in.spec); });
    }
    return k;
}

void c27(Ctx& c)
{
    Rng& r = c.rng;
    const size_t fam = c.index % kFamilies;
    const int ft = (int)((c.index / kFamilies) & 1);
    const uint64_t seed = r.next();
    const bool big = (c.index / kFamilies / 2) % 4 == 3;
    const std::string enc = ft ? "binary" : "ascii";
    size_t n = big ? (size_t)r.range(40000, 80000) : (size_t)r.range(400, c.thorough ? 6000 : 1500);
    c.nontrivial(fnv(std::string(kFamily[fam]) + enc + std::to_string(n)));
    if (c.index < kFamilies) c.sample(std::string(kFamily[fam]) + ", " + enc + ", " + std::to_string(n) + " and " + std::to_string(4 * n));
    Input a = build(fam, n, ft, seed);
    Costs ka = run(a);
    c.eval(); c.note(big ? "large inputs timed" : "pairs compared"); c.note("bytes loaded", ka.bytes);
    const std::string d = std::string(kFamily[fam]) + ", " + enc + ", n=" + std::to_string(n);
    if (!ka.load.ok || !ka.save.ok) { c.violation("refused", "a valid input is refused (" + d + "): " + ka.load.what + ka.save.what + ka.validate.what); return; }
    if (big) { // what happens inside libstdc++ is not counted, but takes time
        const double t[] = {ka.load.cpu, ka.save.cpu, ka.validate.cpu};
        const char* w[] = {"load_msh", "save_msh", "validate_spec"};
        for (int k = 0; k < 3; k++) {
            auto& mx = c.count[std::string("max microseconds of one large ") + w[k]];
            mx = std::max<uint64_t>(mx, (uint64_t)(t[k] * 1e6));
            if (t[k] > 4 + (double)ka.bytes * 2e-6) c.violation("time", std::string(w[k]) + " needs " + std::to_string(t[k]) + " s of CPU for " + std::to_string(ka.bytes) + " bytes (" + d + ")");
        }
        return;
    }
    Input b = build(fam, 4 * n, ft, seed);
    Costs kb = run(b);
    c.note("bytes loaded", kb.bytes);
    if (!kb.load.ok || !kb.save.ok) { c.violation("refused", "a valid input is refused (" + d + " x 4): " + kb.load.what + kb.save.what + kb.validate.what); return; }
    if (!ka.validate.ok || !kb.validate.ok) c.note("pairs validate_spec refuses");
    const Cost* pa[] = {&ka.load, &ka.save, &ka.validate};
    const Cost* pb[] = {&kb.load, &kb.save, &kb.validate};
    const char* w[] = {"load_msh", "save_msh", "validate_spec"};
    for (int k = 0; k < 3; k++) {
        const uint64_t x = pa[k]->total(), y = pb[k]->total();
        c.note(std::string("edges executed in ") + w[k], pa[k]->edges + pb[k]->edges);
        auto& mx = c.count[std::string("max growth of ") + w[k] + " for 4 times the input, in percent"];
        if (x + y > 100000) mx = std::max<uint64_t>(mx, 100 * y / std::max<uint64_t>(x, 1));
        auto show = [](const Cost& q) { return std::to_string(q.edges) + " edges, " + std::to_string(q.moved) + " bytes moved, " + std::to_string(q.alloc) + " bytes allocated, " + std::to_string(q.stream) + " of stream work"; };
        if (y > 7 * x + 50000) c.violation("growth", std::string(w[k]) + " does " + std::to_string((double)y / (double)x) + " times the work for 4 times the input (" + d + "): " + show(*pa[k]) + "; then " + show(*pb[k]));
    }
}
Reg r27("C27", c27);

} // namespace
