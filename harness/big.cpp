// C28: blocks, entries, lists and files of more than 2^31 and 2^32 bytes.
// The files are not stored: a stream buffer produces their bytes, and another one compares what is saved.
#include "common.h"

#include <atomic>
#include <cmath>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

// Memory in use is bounded, so that a copy of the library that needs several times the size of a spec is
// refused the memory and does not take down the machine.
static std::atomic<size_t> g_live{0}, g_peak{0}, g_cap{0}, g_denied{0};
static void* take(size_t n)
{
    if (g_cap && g_live + n > g_cap) {
        if (n > g_denied) g_denied = n;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    const size_t now = (g_live += malloc_usable_size(p));
    size_t top = g_peak;
    while (now > top && !g_peak.compare_exchange_weak(top, now)) {}
    return p;
}
static void give(void* p)
{
    if (!p) return;
    g_live -= malloc_usable_size(p);
    free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

using namespace vf;

namespace {

constexpr size_t G2 = size_t(1) << 31, G4 = size_t(1) << 32;
constexpr size_t CHUNK = 1 << 16;

// ---------------------------------------------------------------- a long run of bytes that is computed, not stored
struct Region {
    enum What { WORDS, NODES22, ELEMS22, ZERO, TEXT } what = WORDS;
    size_t size = 0; // bytes
    uint64_t salt = 0;
    uint64_t word(size_t i) const { return what == ZERO ? 0 : (i + salt) * 0x9E3779B97F4A7C15ull; }
    static constexpr size_t NREC = 28, EN = 56, EREC = 4 * (EN + 2); // 2.2 records: node; element of type 31 with one tag
    double coord(size_t i, size_t k) const { return (double)((i * 3 + k + salt % 1000) % 1000003) / 64.0; }
    static int enode(size_t i, size_t k) { return (int)((i * EN + k) * 2654435761u % 40000) + 1; }
    void record(size_t i, char* p) const
    {
        if (what == NODES22) {
            const int32_t t = (int32_t)i + 1; memcpy(p, &t, 4);
            for (size_t k = 0; k < 3; k++) { const double d = coord(i, k); memcpy(p + 4 + 8 * k, &d, 8); }
        } else {
            int32_t v[EN + 2]; v[0] = (int32_t)i + 1; v[1] = 7;
            for (size_t k = 0; k < EN; k++) v[2 + k] = enode(i, k);
            memcpy(p, v, sizeof v);
        }
    }
    // Bytes [off, off + n) of the run.
    void gen(size_t off, size_t n, char* dst) const
    {
        if (what == TEXT) { for (size_t i = 0; i < n; i++) dst[i] = (char)('a' + (off + i + salt) % 23); return; }
        if (what == ZERO) { memset(dst, 0, n); return; }
        const size_t rec = what == WORDS ? 8 : what == NODES22 ? NREC : EREC;
        char tmp[EREC];
        auto one = [&](size_t i, char* p) { if (what == WORDS) { const uint64_t w = word(i); memcpy(p, &w, 8); } else record(i, p); };
        if (off % rec && n) {
            const size_t i = off / rec, a = off % rec, k = std::min(n, rec - a);
            one(i, tmp); memcpy(dst, tmp + a, k); off += k; n -= k; dst += k;
        }
        for (; n >= rec; off += rec, n -= rec, dst += rec) one(off / rec, dst);
        if (n) { one(off / rec, tmp); memcpy(dst, tmp, n); }
    }
};

struct BigFile { // head, run, tail
    std::string head, tail;
    Region run;
    size_t size() const { return head.size() + run.size + tail.size(); }
    void gen(size_t off, size_t n, char* dst) const
    {
        while (n) {
            size_t k;
            if (off < head.size()) { k = std::min(n, head.size() - off); memcpy(dst, head.data() + off, k); }
            else if (off < head.size() + run.size) { k = std::min(n, head.size() + run.size - off); run.gen(off - head.size(), k, dst); }
            else { const size_t a = off - head.size() - run.size; k = std::min(n, tail.size() - a); memcpy(dst, tail.data() + a, k); }
            off += k; n -= k; dst += k;
        }
    }
};

class Source : public std::streambuf {
public:
    explicit Source(const BigFile& f) : m_f(f), m_buf(CHUNK) { setg(m_buf.data(), m_buf.data(), m_buf.data()); }
protected:
    int_type underflow() override
    {
        const size_t n = std::min(CHUNK, m_f.size() - m_pos);
        if (!n) return traits_type::eof();
        m_f.gen(m_pos, n, m_buf.data());
        m_pos += n;
        setg(m_buf.data(), m_buf.data(), m_buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize xsgetn(char* p, std::streamsize want) override
    {
        std::streamsize got = 0;
        while (got < want) {
            if (gptr() == egptr()) {
                if (want - got >= (std::streamsize)CHUNK) {
                    const size_t n = std::min((size_t)(want - got), m_f.size() - m_pos);
                    if (!n) break;
                    m_f.gen(m_pos, n, p + got);
                    m_pos += n; got += (std::streamsize)n;
                    continue;
                }
                if (underflow() == traits_type::eof()) break;
            }
            const std::streamsize n = std::min(want - got, (std::streamsize)(egptr() - gptr()));
            memcpy(p + got, gptr(), (size_t)n);
            setg(eback(), gptr() + n, egptr());
            got += n;
        }
        return got;
    }
private:
    const BigFile& m_f;
    std::vector<char> m_buf;
    size_t m_pos = 0;
};

// Finds the run in what is written, compares it, and keeps the bytes around it.
class Sink : public std::streambuf {
public:
    explicit Sink(const Region& run) : m_run(run), m_area(CHUNK), m_tmp(CHUNK)
    {
        m_needle.resize(std::min<size_t>(run.size, 96));
        run.gen(0, m_needle.size(), &m_needle[0]);
        setp(m_area.data(), m_area.data() + m_area.size());
    }
    std::string head, tail, problem;
    size_t done = 0; // bytes of the run seen
    bool found = false;
    void finish() { drain(); if (!found) problem = "the contents are not in the output"; else if (problem.empty() && done < m_run.size) problem = "the output ends after " + std::to_string(done) + " of " + std::to_string(m_run.size) + " bytes of contents"; }
protected:
    int_type overflow(int_type c) override
    {
        drain();
        if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = traits_type::to_char_type(c); pbump(1); }
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (n < 0) { problem = "a negative number of bytes written"; return 0; }
        if (n <= epptr() - pptr()) { memcpy(pptr(), p, (size_t)n); pbump((int)n); return n; }
        drain();
        take_in(p, (size_t)n);
        return n;
    }
    int sync() override { return 0; }
private:
    void drain() { const size_t n = (size_t)(pptr() - pbase()); setp(m_area.data(), m_area.data() + m_area.size()); take_in(m_area.data(), n); }
    void take_in(const char* p, size_t n)
    {
        while (n && problem.empty()) {
            if (!found) {
                const size_t before = head.size(), k = std::min(n, (size_t)1 << 20);
                head.append(p, k); p += k; n -= k;
                const size_t at = head.find(m_needle, before > m_needle.size() ? before - m_needle.size() : 0);
                if (at == std::string::npos) { if (head.size() > (4u << 20)) problem = "the contents are not in the output"; continue; }
                found = true;
                const std::string rest = head.substr(at);
                head.resize(at);
                take_in(rest.data(), rest.size());
                continue;
            }
            if (done < m_run.size) {
                const size_t k = std::min({n, m_run.size - done, CHUNK});
                m_run.gen(done, k, m_tmp.data());
                if (memcmp(m_tmp.data(), p, k)) { size_t i = 0; while (m_tmp[i] == p[i]) i++; problem = "byte " + std::to_string(done + i) + " of the contents is wrong"; return; }
                done += k; p += k; n -= k;
                continue;
            }
            if (tail.size() > (4u << 20)) { problem = "too many bytes after the contents"; return; }
            tail.append(p, n);
            n = 0;
        }
    }
    const Region& m_run;
    std::vector<char> m_area, m_tmp;
    std::string m_needle;
};

// ---------------------------------------------------------------- comparison of a spec with the run
std::string same(const Region& run, size_t off, const void* data, size_t n, const char* where)
{
    std::vector<char> t(CHUNK);
    const char* p = (const char*)data;
    for (size_t a = 0; a < n; a += CHUNK) {
        const size_t k = std::min(CHUNK, n - a);
        run.gen(off + a, k, t.data());
        if (memcmp(t.data(), p + a, k)) { size_t i = 0; while (t[i] == p[a + i]) i++; return std::string(where) + ": byte " + std::to_string(a + i) + " of " + std::to_string(n) + " is wrong"; }
    }
    return "";
}
std::string size_is(size_t have, size_t want, const char* where) { return have == want ? "" : std::string(where) + " has " + std::to_string(have) + " entries, not " + std::to_string(want); }
#define TRY(x) do { std::string t_ = (x); if (!t_.empty()) return t_; } while (0)

template <class T> void put(std::string& s, T v) { s.append((const char*)&v, sizeof v); }

// ---------------------------------------------------------------- families
struct Big {
    BigFile f;
    std::string name;
    std::function<std::string(const MshSpec&)> big;     // compares the long part
    std::function<void(MshSpec&)> strip;                // empties it
    MshSpec rest;                                       // what is left then
    bool save = true;
    bool from_disk = false, to_disk = false;
    std::function<MshSpec()> make;                      // makes the spec, if it is not to be loaded
};
const char* HEAD41 = "$MeshFormat\n4.1 1 8\n\x01\0\0\0\n$EndMeshFormat\n";
const char* HEAD22 = "$MeshFormat\n2.2 1 8\n\x01\0\0\0\n$EndMeshFormat\n";
void start(Big& b, const char* version)
{
    b.f.head.assign(version[0] == '4' ? HEAD41 : HEAD22, strlen("$MeshFormat\n4.1 1 8\n") + 5 + strlen("$EndMeshFormat\n"));
    b.rest.mesh_format.version = version;
    b.rest.mesh_format.file_type = 1;
    b.rest.mesh_format.data_size = 8;
}
// A small field that comes after everything else.
void trailer(Big& b, const char* kind)
{
    mshio::Data d;
    d.header.string_tags = {"after"}; d.header.real_tags = {0.5}; d.header.int_tags = {3, 1, 2, 0};
    std::string& t = b.f.tail;
    t += std::string("$") + kind + "\n1\n\"after\"\n1\n0.5\n4\n3\n1\n2\n0\n";
    for (int i = 0; i < 2; i++) { mshio::DataEntry e; e.tag = (size_t)i + 41; e.data = {i + 0.25}; d.entries.push_back(e); put(t, (int32_t)e.tag); put(t, e.data[0]); }
    t += std::string("$End") + kind + "\n";
    (kind[0] == 'N' ? b.rest.node_data : b.rest.element_data).push_back(d);
}
size_t beyond(Rng& r, size_t least) { return least + 8 * (1 + r.below(1 << 20)); }

Big nodes41(Rng& r, size_t least, bool by_tags)
{
    Big b; start(b, "4.1");
    const int dim = (int)r.below(4), par = !by_tags && r.flip();
    const size_t per = par ? 3 + (size_t)dim : 3, n = beyond(r, least) / (by_tags ? 8 : 8 * per) + 1;
    b.name = by_tags ? "node tags" : "node coordinates";
    b.f.head += "$Nodes\n";
    for (size_t v : {(size_t)1, n, (size_t)0, ~(size_t)0}) put(b.f.head, v);
    put(b.f.head, dim); put(b.f.head, 5); put(b.f.head, par); put(b.f.head, n);
    b.f.run.size = n * 8 * (1 + per); b.f.run.salt = r.next();
    b.f.tail = "$EndNodes\n";
    trailer(b, "NodeData");
    b.rest.nodes.num_entity_blocks = 1; b.rest.nodes.num_nodes = n; b.rest.nodes.max_node_tag = ~(size_t)0;
    b.rest.nodes.entity_blocks.resize(1);
    mshio::NodeBlock& k = b.rest.nodes.entity_blocks[0]; k.entity_dim = dim; k.entity_tag = 5; k.parametric = par; k.num_nodes_in_block = n;
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        if (s.nodes.entity_blocks.size() != 1) return std::to_string(s.nodes.entity_blocks.size()) + " node blocks, not 1";
        const mshio::NodeBlock& q = s.nodes.entity_blocks[0];
        TRY(size_is(q.tags.size(), n, "node tags")); TRY(size_is(q.data.size(), n * per, "node data"));
        TRY(same(run, 0, q.tags.data(), n * 8, "node tags")); return same(run, n * 8, q.data.data(), n * per * 8, "node data"); };
    b.strip = [](MshSpec& s) { for (auto& q : s.nodes.entity_blocks) { std::vector<size_t>().swap(q.tags); std::vector<double>().swap(q.data); } };
    return b;
}
Big elems41(Rng& r, size_t least)
{
    Big b; start(b, "4.1");
    const int type = (int)r.range(1, 31), dim = edim(type);
    const size_t per = npe(type) + 1, n = beyond(r, least) / (8 * per) + 1;
    b.name = "elements";
    b.f.head += "$Elements\n";
    for (size_t v : {(size_t)1, n, (size_t)0, ~(size_t)0}) put(b.f.head, v);
    put(b.f.head, dim); put(b.f.head, 5); put(b.f.head, type); put(b.f.head, n);
    b.f.run.size = n * 8 * per; b.f.run.salt = r.next();
    b.f.tail = "$EndElements\n";
    trailer(b, "ElementData");
    b.rest.elements.num_entity_blocks = 1; b.rest.elements.num_elements = n; b.rest.elements.max_element_tag = ~(size_t)0;
    b.rest.elements.entity_blocks.resize(1);
    mshio::ElementBlock& k = b.rest.elements.entity_blocks[0]; k.entity_dim = dim; k.entity_tag = 5; k.element_type = type; k.num_elements_in_block = n;
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        if (s.elements.entity_blocks.size() != 1) return std::to_string(s.elements.entity_blocks.size()) + " element blocks, not 1";
        const mshio::ElementBlock& q = s.elements.entity_blocks[0];
        TRY(size_is(q.data.size(), n * per, "element data")); return same(run, 0, q.data.data(), n * per * 8, "element data"); };
    b.strip = [](MshSpec& s) { for (auto& q : s.elements.entity_blocks) std::vector<size_t>().swap(q.data); };
    return b;
}
// The nodes of an element block without nodes are no contradiction for the format: a spec need not have nodes.
Big data(Rng& r, size_t least, const char* version, int kind, bool zero = false) // 0 node, 1 element, 2 element node
{
    Big b; start(b, version);
    static const char* const names[] = {"NodeData", "ElementData", "ElementNodeData"};
    int nodes = kind == 2 ? (int)r.range(3000, 60000) : 0;
    const size_t want = beyond(r, least) / 8 + 1;
    const int comps = kind == 2 ? (int)(want / (size_t)nodes + 1) : (int)want;
    const size_t n = (size_t)comps * (kind == 2 ? (size_t)nodes : 1);
    b.name = names[kind];
    b.f.head += std::string("$") + names[kind] + "\n1\n\"f\"\n1\n0.25\n3\n0\n" + std::to_string(comps) + "\n1\n";
    put(b.f.head, (int32_t)77);
    if (kind == 2) put(b.f.head, (int32_t)nodes);
    b.f.run.size = n * 8; b.f.run.salt = r.next(); b.f.run.what = zero ? Region::ZERO : Region::WORDS;
    b.f.tail = std::string("$End") + names[kind] + "\n";
    mshio::Data d; d.header.string_tags = {"f"}; d.header.real_tags = {0.25}; d.header.int_tags = {0, comps, 1};
    d.entries.resize(1); d.entries[0].tag = 77; d.entries[0].num_nodes_per_element = nodes;
    (kind == 0 ? b.rest.node_data : kind == 1 ? b.rest.element_data : b.rest.element_node_data).push_back(d);
    if (kind < 2) trailer(b, kind == 0 ? "NodeData" : "ElementData");
    const Region run = b.f.run;
    auto field = [=](const MshSpec& s) -> const std::vector<mshio::Data>& { return kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data; };
    b.big = [=](const MshSpec& s) -> std::string {
        const auto& v = field(s);
        if (v.empty() || v[0].entries.size() != 1) return "the field has not one entry";
        TRY(size_is(v[0].entries[0].data.size(), n, names[kind])); return same(run, 0, v[0].entries[0].data.data(), n * 8, names[kind]); };
    b.strip = [=](MshSpec& s) { auto& v = const_cast<std::vector<mshio::Data>&>(field(s)); std::vector<double>().swap(v[0].entries[0].data); };
    return b;
}
Big nano(Rng& r, size_t least, bool patch)
{
    Big b; start(b, "4.1");
    const size_t want = beyond(r, least) / 8 + 1, weights = r.below(2), dim = weights ? 4 : 3;
    const size_t knots = r.flip() ? r.below(1000) : want - r.below(1000), cps = (want > knots ? want - knots : 0) / dim + 1;
    const size_t ku = patch ? r.below(knots + 1) : knots, kv = knots - ku, n = cps * dim + knots;
    b.name = patch ? "patch" : "curve";
    b.f.head += "$NanoSplineFormat\n1.0\n$EndNanoSplineFormat\n";
    if (patch) b.f.head += "$Patches\n1\n9 1 2 3 " + std::to_string(cps) + " " + std::to_string(ku) + " " + std::to_string(kv) + " " + std::to_string(weights) + "\n";
    else b.f.head += "$Curves\n1\n9 1 2 " + std::to_string(cps) + " " + std::to_string(ku) + " " + std::to_string(weights) + "\n";
    b.f.run.size = n * 8; b.f.run.salt = r.next();
    b.f.tail = patch ? "\n$EndPatches\n" : "\n$EndCurves\n";
    if (patch) { mshio::Patch p; p.patch_tag = 9; p.patch_type = 1; p.degree_u = 2; p.degree_v = 3; p.num_control_points = cps; p.num_u_knots = ku; p.num_v_knots = kv; p.with_weights = weights; b.rest.patches.push_back(p); }
    else { mshio::Curve p; p.curve_tag = 9; p.curve_type = 1; p.curve_degree = 2; p.num_control_points = cps; p.num_knots = ku; p.with_weights = weights; b.rest.curves.push_back(p); }
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        if ((patch ? s.patches.size() : s.curves.size()) != 1) return "not one curve or patch";
        const std::vector<double>& d = patch ? s.patches[0].data : s.curves[0].data;
        TRY(size_is(d.size(), n, "spline data")); return same(run, 0, d.data(), n * 8, "spline data"); };
    b.strip = [=](MshSpec& s) { std::vector<double>().swap(patch ? s.patches[0].data : s.curves[0].data); };
    return b;
}
Big entity(Rng& r, size_t least, int list) // 0 points, 1 to 3 physical tags of the others, 4 to 6 boundaries
{
    Big b; start(b, "4.1");
    const int kind = list > 3 ? list - 3 : list;
    const size_t n = (beyond(r, least) / 8 + 1) * 2;
    b.name = list > 3 ? "boundary tags" : "physical tags";
    std::string& h = b.f.head;
    h += "$Entities\n";
    for (int i = 0; i < 4; i++) put(h, (size_t)(i == kind ? 2 : 0));
    auto box = [&](std::string& s) { for (int i = 0; i < (kind ? 6 : 3); i++) put(s, i + 0.5); };
    put(h, 3); box(h);
    if (list > 3) { put(h, (size_t)1); put(h, 12); }
    put(h, n);
    b.f.run.size = n * 4; b.f.run.salt = r.next();
    std::string& t = b.f.tail;
    if (kind && list <= 3) { put(t, (size_t)1); put(t, 13); }
    put(t, 4); box(t); put(t, (size_t)1); put(t, 14); if (kind) { put(t, (size_t)1); put(t, 15); }
    t += "$EndEntities\n";
    trailer(b, "NodeData");
    auto fill = [&](auto& v, auto phys, auto bound) {
        v.resize(2); v[0].tag = 3; v[1].tag = 4;
        for (auto& e : v) { if constexpr (!std::is_same_v<std::decay_t<decltype(e)>, mshio::PointEntity>) { e.min_x = 0.5; e.min_y = 1.5; e.min_z = 2.5; e.max_x = 3.5; e.max_y = 4.5; e.max_z = 5.5; } else { e.x = 0.5; e.y = 1.5; e.z = 2.5; } }
        phys(v[1]).push_back(14);
        bound(v[1]).push_back(15);
        if (list > 3) phys(v[0]).push_back(12); else bound(v[0]).push_back(13);
    };
    static std::vector<int> none;
    auto ph = [](auto& e) -> std::vector<int>& { return e.physical_group_tags; };
    if (kind == 0) fill(b.rest.entities.points, ph, [](auto&) -> std::vector<int>& { return none; });
    if (kind == 1) fill(b.rest.entities.curves, ph, [](auto& e) -> std::vector<int>& { return e.boundary_point_tags; });
    if (kind == 2) fill(b.rest.entities.surfaces, ph, [](auto& e) -> std::vector<int>& { return e.boundary_curve_tags; });
    if (kind == 3) fill(b.rest.entities.volumes, ph, [](auto& e) -> std::vector<int>& { return e.boundary_surface_tags; });
    none.clear();
    auto the = [=](MshSpec& s) -> std::vector<int>* {
        auto& e = s.entities;
        switch (list) {
        case 0: return e.points.size() ? &e.points[0].physical_group_tags : nullptr;
        case 1: return e.curves.size() ? &e.curves[0].physical_group_tags : nullptr;
        case 2: return e.surfaces.size() ? &e.surfaces[0].physical_group_tags : nullptr;
        case 3: return e.volumes.size() ? &e.volumes[0].physical_group_tags : nullptr;
        case 4: return e.curves.size() ? &e.curves[0].boundary_point_tags : nullptr;
        case 5: return e.surfaces.size() ? &e.surfaces[0].boundary_curve_tags : nullptr;
        default: return e.volumes.size() ? &e.volumes[0].boundary_surface_tags : nullptr;
        }
    };
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        const std::vector<int>* v = the(const_cast<MshSpec&>(s));
        if (!v) return "the entity is missing";
        TRY(size_is(v->size(), n, "tag list")); return same(run, 0, v->data(), n * 4, "tag list"); };
    b.strip = [=](MshSpec& s) { if (auto* v = the(s)) std::vector<int>().swap(*v); };
    return b;
}
Big nodes22(Rng& r, size_t least)
{
    Big b; start(b, "2.2");
    const size_t n = beyond(r, least) / Region::NREC + 1;
    b.name = "nodes of 2.2";
    b.f.head += "$Nodes\n" + std::to_string(n) + "\n";
    b.f.run.what = Region::NODES22; b.f.run.size = n * Region::NREC; b.f.run.salt = r.next();
    b.f.tail = "$EndNodes\n";
    trailer(b, "NodeData");
    b.rest.nodes.num_entity_blocks = 1; b.rest.nodes.num_nodes = n; b.rest.nodes.min_node_tag = 1; b.rest.nodes.max_node_tag = n;
    b.rest.nodes.entity_blocks.resize(1); b.rest.nodes.entity_blocks[0].num_nodes_in_block = n;
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        if (s.nodes.entity_blocks.size() != 1) return std::to_string(s.nodes.entity_blocks.size()) + " node blocks, not 1";
        const mshio::NodeBlock& q = s.nodes.entity_blocks[0];
        TRY(size_is(q.tags.size(), n, "node tags")); TRY(size_is(q.data.size(), n * 3, "node data"));
        for (size_t i = 0; i < n; i++) {
            if (q.tags[i] != i + 1) return "tag of node " + std::to_string(i) + " is " + std::to_string(q.tags[i]);
            for (size_t k = 0; k < 3; k++) if (q.data[i * 3 + k] != run.coord(i, k)) return "coordinates of node " + std::to_string(i) + " are wrong";
        }
        return ""; };
    b.strip = [](MshSpec& s) { for (auto& q : s.nodes.entity_blocks) { std::vector<size_t>().swap(q.tags); std::vector<double>().swap(q.data); } };
    return b;
}
Big elems22(Rng& r, size_t least, bool save_only)
{
    constexpr size_t EN = Region::EN;
    Big b; start(b, "2.2");
    const size_t n = beyond(r, least) / Region::EREC + 1;
    b.name = "elements of 2.2";
    b.f.head += "$Elements\n" + std::to_string(n) + "\n";
    put(b.f.head, (int32_t)31); put(b.f.head, (int32_t)n); put(b.f.head, (int32_t)1);
    b.f.run.what = Region::ELEMS22; b.f.run.size = n * Region::EREC;
    b.f.tail = "$EndElements\n";
    trailer(b, "NodeData");
    b.rest.elements.num_entity_blocks = 1; b.rest.elements.num_elements = n; b.rest.elements.min_element_tag = 1; b.rest.elements.max_element_tag = n;
    b.rest.elements.entity_blocks.resize(1);
    auto& k = b.rest.elements.entity_blocks[0]; k.entity_dim = 3; k.entity_tag = 7; k.element_type = 31; k.num_elements_in_block = n;
    b.big = [=](const MshSpec& s) -> std::string {
        if (s.elements.entity_blocks.size() != 1) return std::to_string(s.elements.entity_blocks.size()) + " element blocks, not 1";
        const auto& q = s.elements.entity_blocks[0];
        TRY(size_is(q.data.size(), n * (EN + 1), "element data"));
        for (size_t i = 0; i < n; i++) {
            if (q.data[i * (EN + 1)] != i + 1) return "tag of element " + std::to_string(i) + " is " + std::to_string(q.data[i * (EN + 1)]);
            for (size_t j = 0; j < EN; j++) if (q.data[i * (EN + 1) + 1 + j] != (size_t)Region::enode(i, j)) return "nodes of element " + std::to_string(i) + " are wrong";
        }
        return ""; };
    b.strip = [](MshSpec& s) { for (auto& q : s.elements.entity_blocks) std::vector<size_t>().swap(q.data); };
    // Loading takes one block per element first, and with it several times the memory.
    const MshSpec rest = b.rest;
    if (save_only) b.make = [=]() {
        MshSpec s = rest;
        std::vector<size_t>& v = s.elements.entity_blocks[0].data;
        v.resize(n * (EN + 1));
        for (size_t i = 0; i < n; i++) { v[i * (EN + 1)] = i + 1; for (size_t j = 0; j < EN; j++) v[i * (EN + 1) + 1 + j] = (size_t)Region::enode(i, j); }
        return s; };
    return b;
}
Big unknown(Rng& r, size_t least, const char* version)
{
    Big b; start(b, version);
    b.name = "unsupported section of one word";
    b.f.head += "$Stuff\n";
    b.f.run.what = Region::TEXT; b.f.run.size = beyond(r, least); b.f.run.salt = r.next();
    b.f.tail = "\n$EndStuff\n";
    trailer(b, "NodeData");
    b.big = [](const MshSpec&) { return std::string(); };
    b.strip = [](MshSpec&) {};
    b.save = false;
    return b;
}
Big name(Rng& r, size_t least)
{
    Big b; start(b, "4.1");
    b.name = "name of a group";
    b.f.head += "$PhysicalNames\n1\n2 3 \"";
    b.f.run.what = Region::TEXT; b.f.run.size = beyond(r, least); b.f.run.salt = r.next();
    b.f.tail = "\"\n$EndPhysicalNames\n";
    trailer(b, "NodeData");
    b.rest.physical_groups.resize(1); b.rest.physical_groups[0].dim = 2; b.rest.physical_groups[0].tag = 3;
    const Region run = b.f.run;
    b.big = [=](const MshSpec& s) -> std::string {
        if (s.physical_groups.size() != 1) return "not one group";
        TRY(size_is(s.physical_groups[0].name.size(), run.size, "name")); return same(run, 0, s.physical_groups[0].name.data(), run.size, "name"); };
    b.strip = [](MshSpec& s) { if (s.physical_groups.size()) std::string().swap(s.physical_groups[0].name); };
    return b;
}

Big pick(Ctx& c, Rng& r)
{
    // Every list and entry that has code of its own is long once; the longest come first.
    switch (c.index) {
    case 0: return nodes41(r, G2, true);
    case 1: return nodes41(r, G4, false);
    case 2: return nodes22(r, G2);
    case 3: return elems41(r, G4);
    case 4: return elems22(r, G2, true);
    case 5: return data(r, G4, "4.1", (int)r.below(2));
    case 6: return data(r, G4, "2.2", (int)r.below(2));
    case 7: return data(r, G4, "4.1", 2);
    case 8: return data(r, G4, "2.2", 2);
    case 9: return nano(r, G4, false);
    case 10: return nano(r, G4, true);
    case 11: case 12: case 13: case 14: case 15: case 16: case 17: return entity(r, G4, (int)c.index - 11);
    case 18: { Big b = data(r, G4, r.flip() ? "4.1" : "2.2", 0, true); b.from_disk = true; return b; }
    case 19: { Big b = r.flip() ? elems41(r, G2) : data(r, G2, "4.1", 0); b.to_disk = true; return b; }
    case 20: return unknown(r, G2, "4.1");
    case 21: return elems41(r, G2);
    case 22: return name(r, G2);
    case 23: return unknown(r, G4, "2.2");
    case 24: return name(r, G4);
    case 25: return entity(r, G4 * 2, (int)r.below(7)); // more than 2^31 tags
    case 26: return elems22(r, G2, false);
    case 27: return nodes22(r, G4);
    default:
        switch (r.below(8)) {
        case 0: return nodes41(r, r.flip() ? G2 : G4, false);
        case 1: case 2: return elems41(r, r.flip() ? G2 : G4 + r.below(G2));
        case 3: return data(r, r.flip() ? G2 : G4, r.flip() ? "4.1" : "2.2", (int)r.below(3));
        case 4: return data(r, r.flip() ? G2 : G4, r.flip() ? "4.1" : "2.2", 2);
        case 5: return nano(r, r.flip() ? G2 : G4, r.flip());
        default: return entity(r, r.flip() ? G2 : G4, (int)r.below(7));
        }
    }
}

// Without what the format leaves open: the line break between a payload and its end marker, and the section
// that announces curves and patches. Anything else that differs is decided by loading.
std::string plain(std::string s)
{
    const std::string opt = "$NanoSplineFormat\n1.0\n$EndNanoSplineFormat\n";
    for (size_t at; (at = s.find(opt)) != std::string::npos;) s.erase(at, opt.size());
    for (size_t at = 0; (at = s.find("\n$End", at)) != std::string::npos;) s.erase(at, 1);
    return s;
}

// Was the failure ours, for lack of memory?
bool short_of_memory(Ctx& c, const Outcome& o, const char* what)
{
    if (o.kind != E_BADALLOC || g_denied > (size_t(48) << 30)) return false;
    c.note(std::string("not decided for lack of memory: ") + what);
    return true;
}
// "" or what is wrong with what was loaded.
std::string judge(const Big& b, MshSpec& s)
{
    TRY(b.big(s));
    MshSpec copy;
    b.strip(s);
    return diff(b.rest, s);
}

void c28(Ctx& c)
{
    g_cap = (size_t)(c.thorough ? 13 : 9) << 30; // of two or three processes at a time
    Rng r = c.rng;
    Big b = pick(c, r);
    c.note("contents: " + b.name);
    c.note(b.f.size() > G4 ? "files longer than 2^32 bytes" : "files longer than 2^31 bytes");
    c.nontrivial(fnv(b.name) + b.f.run.size);
    c.sample(b.name + ", version " + b.rest.mesh_format.version + ", " + std::to_string(b.f.size()) + " bytes");
    const std::string what = b.name + " in a file of " + std::to_string(b.f.size()) + " bytes (" + b.rest.mesh_format.version + ")";
    g_denied = 0; g_peak = g_live.load();
    Outcome o;
    struct Gone { std::string p; ~Gone() { if (!p.empty()) ::unlink(p.c_str()); } } disk;
    if (b.from_disk) { // the contents are a hole in the file
        disk.p = c.tmp + "/big.msh";
        spit(disk.p, b.f.head);
        struct stat st;
        bool ok = !truncate(disk.p.c_str(), (off_t)(b.f.head.size() + b.f.run.size)) && !stat(disk.p.c_str(), &st) && st.st_blocks < (1 << 16);
        if (ok) { std::ofstream f(disk.p, std::ios::binary | std::ios::app); f << b.f.tail; ok = f.good(); }
        if (!ok) { c.note("not decided: no files with holes here"); return; }
        o = load_file(disk.p);
        c.eval(); c.note("bytes loaded from a file", b.f.size());
    } else if (b.make) o.spec = b.make();
    else {
        Source src(b.f);
        std::istream in(&src);
        o = load_stream(in);
        c.eval(); c.note("bytes loaded", b.f.size());
    }
    if (short_of_memory(c, o, "load")) return;
    if (!o.ok()) { c.violation("big-load", what + ": load_msh throws " + o.str()); return; }
    // The long part is compared and stays where it is, for save_msh.
    std::string d = b.make ? "" : b.big(o.spec);
    if (!d.empty()) { c.violation("big-load", what + ": " + d); return; }
    bool saved = false, exact = false;
    BigFile again;
    if (b.save) {
        Sink sink(b.f.run);
        std::ostream out(&sink);
        std::string err;
        Kind k = OK;
        if (b.to_disk) {
            disk.p = c.tmp + "/big.msh";
            try { mshio::save_msh(disk.p, o.spec); } catch (...) { k = classify(err); }
            std::ifstream f(disk.p, std::ios::binary);
            std::vector<char> t(CHUNK);
            while (f.read(t.data(), CHUNK) || f.gcount()) out.write(t.data(), f.gcount());
        } else
        try { mshio::save_msh(out, o.spec); } catch (...) { k = classify(err); }
        sink.finish();
        c.eval();
        Outcome so; so.kind = k; so.what = err;
        if (!short_of_memory(c, so, "save")) {
            if (k != OK) { c.violation("big-save", what + ": save_msh throws " + so.str()); return; }
            if (!sink.problem.empty()) { c.violation("big-save", what + ": save_msh: " + sink.problem); return; }
            if (!out) { c.violation("big-save", what + ": save_msh leaves the stream failed"); return; }
            saved = true;
            c.note("bytes saved", sink.head.size() + sink.done + sink.tail.size());
            again.head = sink.head; again.tail = sink.tail; again.run = b.f.run;
            exact = plain(again.head) == plain(b.f.head) && plain(again.tail) == plain(b.f.tail);
        }
    }
    { uint64_t& top = c.count["max megabytes of memory"]; top = std::max<uint64_t>(top, g_peak.load() >> 20); }
    b.strip(o.spec);
    if (!expect_same(c, diff(b.rest, o.spec), "big-load", what + ": the rest of the spec")) return;
    if (saved && !exact) { // laid out differently: what it means decides
        Source src(again);
        std::istream in(&src);
        Outcome p = load_stream(in);
        c.eval(); c.note("saved files loaded again");
        if (short_of_memory(c, p, "load again")) return;
        if (!p.ok()) { c.violation("big-save", what + ": what was saved does not load: " + p.str()); return; }
        if (!(d = judge(b, p.spec)).empty()) c.violation("big-save", what + ": saved and loaded: " + d);
    } else if (saved) c.note("saved files identical to the independent ones");
}
Reg r28("C28", c28);

} // namespace
