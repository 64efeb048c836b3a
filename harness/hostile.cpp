// C08, C09, C14: input that is not a valid file.
#include "common.h"
#include "refcodec.h"

#include <algorithm>

using namespace vf;

// Other builds of the library in the same process (shim_multi.cpp).
void* load_fill_pattern(std::istream& in, int& kind, std::string& what);
void* load_fill_zero(std::istream& in, int& kind, std::string& what);
void* load_plain(std::istream& in, int& kind, std::string& what);

namespace {

static const char* kVer[] = {"4.1", "2.2"};

struct CapGuard {
    CapGuard() { Mem::set_cap(64u << 20, Mem::live() + (192u << 20)); }
    ~CapGuard() { Mem::set_cap(0, 0); Mem::set_fill(-1); }
};

// ---------------------------------------------------------------- hostile bytes
std::vector<uint64_t> make_interesting()
{
    std::vector<uint64_t> v = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15, 16, 31, 32, 33, 36, 63, 64, 92, 127, 128, 255, 256, 1000, 4096, 65535, 65536, 1000000, 0x7ffffffd, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u,
        0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0x1000000000000000ull, 0x2000000000000000ull, 0x4000000000000000ull};
    // counts whose product with a record size wraps around
    for (uint64_t k = 2; k <= 60; k++) { uint64_t q = 0xffffffffffffffffull / k; v.push_back(q); v.push_back(q + 1); v.push_back(q + 2); }
    for (uint64_t k : {24, 32, 40, 48, 56, 64, 72, 80, 96, 120, 128, 456}) { uint64_t q = 0xffffffffffffffffull / k; v.push_back(q); v.push_back(q + 1); v.push_back(q + 2); }
    for (uint64_t k = 2; k <= 57; k += 5) { v.push_back(0xffffffffull / k + 1); v.push_back(0x7fffffffull / k + 1); }
    return v;
}
const std::vector<uint64_t>& interesting() { static const std::vector<uint64_t> v = make_interesting(); return v; }

std::string hostile_number(Rng& r)
{
    switch (r.below(9)) {
    case 0: case 1: case 2: return std::to_string(interesting()[r.below(interesting().size())]);
    case 3: return std::to_string((int64_t)interesting()[r.below(interesting().size())]);
    case 4: return std::to_string((int32_t)interesting()[r.below(interesting().size())]);
    case 5: { static const char* k[] = {"nan", "inf", "-inf", "1e400", "-1e400", "1e-400", "0x10", "1e5", "-0", "+3", "1.5", "abc", "", "-", "+", "e", ".", "$", "\"", "99999999999999999999999999", "-99999999999999999999999999", "1e", "0000000000000000000000007", "$EndNodes", "1,5"};
        return k[r.below(25)]; }
    case 6: return std::to_string(r.below(60));
    case 7: return "-" + std::to_string(1 + r.below(60));
    default: return std::to_string(r.next() >> r.below(64));
    }
}
std::string base_file(Rng& r, File* out = nullptr)
{
    const int ft = (int)r.below(2);
    const bool v22 = r.flip();
    const int size = r.chance(1, 8) ? 1 : 0;
    File f;
    switch (r.below(4)) {
    case 0: { // written by the library, with curves and patches
        GenOpt o; o.version = kVer[v22]; o.file_type = ft; o.finite = ft == 0; o.tags32 = v22; o.nano = true; o.size = size;
        f.bytes = save_bytes(gen_spec(r, o)).bytes; break; }
    case 1: case 2: {
        Layout l = gen_layout(r, ft != 0);
        l.repeat = r.chance(1, 8);
        l.unknown = r.chance(1, 4); l.stray = r.chance(1, 4); l.unknown_binary = r.flip();
        if (v22) f = write22(gen_model22(r, ft, size), l, r.fork());
        else { GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = size; f = write41(gen_spec(r, o), l, r.fork()); }
        break; }
    default: {
        Layout l;
        if (v22) f = write22(gen_model22(r, ft, size), l, r.fork());
        else { GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = size; o.data = r.flip(); f = write41(gen_spec(r, o), l, r.fork()); } }
    }
    if (out) *out = f;
    return f.bytes;
}
std::string soup(Rng& r)
{
    static const char* w[] = {"$MeshFormat\n4.1 0 8\n$EndMeshFormat\n", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n", "$MeshFormat\n4.1 1 8\n\1\0\0\0\n$EndMeshFormat\n", "$MeshFormat\n2.2 1 8\n\1\0\0\0\n$EndMeshFormat\n", "$Nodes\n", "$EndNodes\n", "$Elements\n", "$EndElements\n",
        "$Entities\n", "$EndEntities\n", "$PhysicalNames\n", "$EndPhysicalNames\n", "$NodeData\n", "$EndNodeData\n", "$ElementData\n", "$EndElementData\n", "$ElementNodeData\n", "$EndElementNodeData\n", "$Curves\n", "$EndCurves\n",
        "$Patches\n", "$EndPatches\n", "$NanoSplineFormat\n1.0\n$EndNanoSplineFormat\n", "\"s\"\n", "$", "$End", "$Comments\n", "$EndComments\n", " ", "\n"};
    static const size_t n2 = 36; // length of a binary header
    std::string s;
    if (r.chance(9, 10)) { size_t k = r.below(4); s = k < 2 ? std::string(w[k]) : std::string(w[k], n2); }
    for (size_t n = 1 + r.below(40); n > 0; n--) {
        switch (r.below(4)) {
        case 0: s += w[r.below(30)]; break;
        case 1: { uint64_t v = interesting()[r.below(interesting().size())]; s.append((const char*)&v, r.flip() ? 8 : 4); break; }
        default: s += hostile_number(r); s += r.flip() ? " " : "\n";
        }
    }
    return s;
}
// Structured files whose declared counts and kinds are hostile, everything before them valid.
std::string crafted(Rng& r)
{
    const bool bin = r.flip(), v22 = r.flip();
    std::string s = std::string("$MeshFormat\n") + kVer[v22] + (bin ? " 1 8\n" : " 0 8\n");
    if (bin) s += std::string("\1\0\0\0\n", 5);
    s += "$EndMeshFormat\n";
    auto huge = [&] { return r.chance(2, 3) ? interesting()[r.below(interesting().size())] : r.below(6); };
    auto u = [&](uint64_t v) { if (bin) s.append((const char*)&v, 8); else s += std::to_string(v) + " "; };
    auto i = [&](int64_t v) { int32_t w = (int32_t)v; if (bin) s.append((const char*)&w, 4); else s += std::to_string(w) + " "; };
    static const int64_t edge[] = {0x7fffffff, 0x7ffffffe, 0x7ffffffd, -0x80000000ll, -0x7fffffff, -2, -3, -4, 256, 0x40000000};
    auto dim = [&] { return r.chance(1, 3) ? edge[r.below(10)] : (int64_t)r.below(6) - 1; };
    auto txt = [&](uint64_t v) { s += std::to_string(r.chance(1, 3) ? v : v & 0x7fffffff) + "\n"; };
    auto body = [&](size_t n) { for (; n > 0; n--) if (bin) { double d = gen_double(r, false); s.append((const char*)&d, 8); } else s += std::to_string(r.below(9)) + " "; };
    for (size_t n = 1 + r.below(3); n > 0; n--) {
        switch (r.below(7)) {
        case 0: s += "$Nodes\n";
            if (!v22) { u(r.chance(1, 4) ? huge() : 1 + r.below(3)); u(huge()); u(huge()); u(huge()); i(dim()); i(1); i(r.chance(1, 3) ? (int64_t)huge() : (int64_t)r.below(2)); u(huge()); }
            else { txt(huge()); }
            body(r.below(40)); s += "\n$EndNodes\n"; break;
        case 1: s += "$Elements\n";
            if (!v22) { u(r.chance(1, 4) ? huge() : 1 + r.below(3)); u(huge()); u(huge()); u(huge()); i(dim()); i(1); i(r.chance(1, 4) ? (int64_t)huge() : 1 + (int64_t)r.below(31)); u(huge()); }
            else if (bin) { txt(huge()); for (size_t k = 1 + r.below(4); k > 0; k--) { i(1 + (int64_t)r.below(33)); i((int64_t)huge()); i((int64_t)huge()); body(r.below(10)); } }
            else { txt(huge()); i((int64_t)huge()); i(1 + (int64_t)r.below(33)); i((int64_t)huge()); }
            body(r.below(40)); s += "\n$EndElements\n"; break;
        case 2: s += "$Entities\n"; for (int k = 0; k < 4; k++) u(r.flip() ? 0 : huge()); i(1); body(6); u(huge()); body(r.below(10)); s += "\n$EndEntities\n"; break;
        case 3: case 4: { const char* nm = r.flip() ? "NodeData" : r.flip() ? "ElementData" : "ElementNodeData";
            s += std::string("$") + nm + "\n";
            if (r.chance(1, 4)) txt(huge()); else { s += "1\n\"v\"\n"; }
            if (r.chance(1, 4)) txt(huge()); else { s += "1\n0.5\n"; }
            if (r.chance(1, 4)) txt(huge()); else { s += "3\n0\n"; s += std::to_string(r.chance(1, 2) ? (int32_t)huge() : (int32_t)r.below(4)) + "\n"; s += std::to_string(r.chance(1, 2) ? (int32_t)huge() : (int32_t)r.below(4)) + "\n"; }
            i(1); i(r.flip() ? (int64_t)huge() : 3); body(r.below(40)); s += std::string("\n$End") + nm + "\n"; break; }
        case 5: s += r.flip() ? "$Curves\n" : "$Patches\n"; txt(1 + r.below(2)); for (int k = 0; k < 8; k++) { s += std::to_string(huge()); s += k == 7 ? "\n" : " "; } body(r.below(40)); s += "\n$EndCurves\n$EndPatches\n"; break;
        default: s += "$PhysicalNames\n"; s += hostile_number(r) + "\n1 2 \"a\"\n"; s += "$EndPhysicalNames\n";
        }
    }
    return s;
}
std::string hostile(Rng& r, std::string& how)
{
    std::string s;
    switch (r.below(16)) {
    case 0: { how = "random bytes"; for (size_t n = r.below(300); n > 0; n--) s += (char)(unsigned char)r.below(256); if (r.flip()) s = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n" + s; return s; }
    case 1: case 2: how = "token soup"; return soup(r);
    case 3: case 4: case 5: how = "hostile counts"; return crafted(r);
    default: break;
    }
    File f;
    s = base_file(r, &f);
    how = "mutated file";
    for (size_t n = 1 + r.below(4); n > 0 && !s.empty(); n--) {
        auto pos = [&] { // near the start of a section in half of the cases
            if (!f.sections.empty() && r.flip()) return (size_t)std::min<uint64_t>(f.sections[r.below(f.sections.size())].begin + r.below(64), s.size() - 1);
            return (size_t)r.below(s.size()); };
        const size_t p = pos();
        switch (r.below(12)) {
        case 0: s[p] = (char)(unsigned char)r.below(256); break;
        case 1: s[p] ^= (char)(1 << r.below(8)); break;
        case 2: case 3: case 4: { // replace a number
            size_t q = s.find_first_of("0123456789", p);
            if (q == std::string::npos) break;
            size_t e = s.find_first_not_of("0123456789.e-+", q);
            if (e == std::string::npos) e = s.size();
            s.replace(q, e - q, hostile_number(r)); break; }
        case 5: case 6: { uint64_t v = interesting()[r.below(interesting().size())]; size_t w = r.flip() ? 8 : 4; if (p + w <= s.size()) s.replace(p, w, (const char*)&v, w); break; }
        case 7: s.erase(p, 1 + r.below(r.flip() ? 4 : 200)); break;
        case 8: { size_t k = 1 + r.below(100); s.insert(r.below(s.size()), s.substr(p, k)); break; }
        case 9: s.resize(p); break;
        case 10: { // duplicate or remove a whole section, or give it another name
            if (f.sections.empty()) break;
            const Section& x = f.sections[r.below(f.sections.size())];
            if (x.end > s.size() || x.begin >= x.end) break;
            std::string t = s.substr(x.begin, x.end - x.begin);
            switch (r.below(4)) {
            case 0: s.insert(x.end, "\n" + t); break;
            case 1: s.erase(x.begin, x.end - x.begin); break;
            case 2: s += "\n" + t; break;
            default: { static const char* nm[] = {"$Nodes", "$Elements", "$Entities", "$NodeData", "$ElementNodeData", "$Curves", "$Patches", "$PhysicalNames", "$MeshFormat", "$Foo"}; s.replace(x.begin, x.name.size() + 1, nm[r.below(10)]); }
            }
            break; }
        default: { // header
            size_t q = s.find("\n4.1 ");
            if (q == std::string::npos) q = s.find("\n2.2 ");
            if (q == std::string::npos || q + 6 > s.size()) break;
            static const char* h[] = {"4.1 0", "4.1 1", "2.2 0", "2.2 1", "4.1 2", "2.2 -1", "4.1 -1", "4.0 0", "2.2 2"};
            s.replace(q + 1, 5, h[r.below(9)]); }
        }
    }
    return s;
}

struct Result { Kind kind; std::string what, dump; };
Result load_build(int build, const std::string& b)
{
    std::istringstream in(b, std::ios::in | std::ios::binary);
    Result x; int k = 0;
    if (build == 0) { Outcome o = load_stream(in); x.kind = o.kind; x.what = o.what; if (o.ok()) x.dump = dump(o.spec); return x; }
    void* p = build == 1 ? load_fill_pattern(in, k, x.what) : build == 2 ? load_fill_zero(in, k, x.what) : load_plain(in, k, x.what);
    x.kind = (Kind)k;
    if (p) { MshSpec* s = static_cast<MshSpec*>(p); x.dump = dump(*s); delete s; }
    return x;
}
void c08(Ctx& c)
{
    std::string how;
    const std::string b = hostile(c.rng, how);
    c.eval();
    c.note(how);
    c.note("bytes fed", b.size());
    Result r[4];
    static const int fills[4] = {0xA5, 0x00, 0xFF, 0x5A};
    static const char* names[4] = {"extension, assertions on", "assertions off, stack pattern", "assertions off, stack zero", "no extension"};
    for (int k = 0; k < 4; k++) {
        size_t leak = 0, before, after;
        {
            CapGuard g;
            Mem::set_fill(fills[k]);
            before = Mem::live();
            {
                Result t = load_build(k, b);
                Mem::set_cap(0, 0);
                leak = Mem::live();
                r[k] = t;
                leak = 0;
            }
            r[k].what.shrink_to_fit();
        }
        // leak: what is live apart from the recorded result; measured on a second call so that
        // one-time allocations of the C++ runtime do not count
        {
            CapGuard g;
            before = Mem::live();
            { Result t = load_build(k, b); }
            after = Mem::live();
        }
        if (after != before) {
            CapGuard g;
            size_t b2 = Mem::live();
            { Result t = load_build(k, b); }
            if (Mem::live() != b2) { c.violation("leak", "load_msh leaks " + std::to_string(Mem::live() - b2) + " bytes (" + names[k] + ", " + kind_name(r[k].kind) + ", " + how + ")", shorten(b, 3000)); return; }
        }
        (void)leak;
        c.note(std::string("outcome: ") + kind_name(r[k].kind));
        if (r[k].kind == E_NONSTD) { c.violation("foreign-exception", std::string("load_msh throws something not derived from std::exception (") + names[k] + ")", shorten(b, 3000)); return; }
    }
    c.nontrivial(fnv(r[0].what, fnv(how) + (uint64_t)r[0].kind * 7919) ^ fnv(std::to_string(b.size() / 16)));
    c.sample(how + " -> " + kind_name(r[0].kind) + ": " + shorten(r[0].what, 80) + " input: " + json_escape(shorten(b, 120)));
    for (int k = 1; k < 3; k++)
        if (r[k].kind != E_BADALLOC && r[0].kind != E_BADALLOC && (r[k].kind != r[0].kind || r[k].dump != r[0].dump)) {
            c.violation("uninitialised", "the result depends on what uninitialised memory holds, or on assertions: " + std::string(names[0]) + " " + kind_name(r[0].kind) + " (" + r[0].what + "), " + names[k] + " " + kind_name(r[k].kind) + " (" + r[k].what + "); " + how, shorten(b, 3000));
            return;
        }
}
Reg r08("C08", c08);

// ---------------------------------------------------------------- C09
void expect_throw(Ctx& c, const Outcome& o, const std::string& key, const std::string& what, const std::string& b)
{
    if (o.ok()) c.violation(key, what + ": accepted", shorten(b, 3000));
    else if (o.kind == E_NONSTD) c.violation(key, what + ": throws something not derived from std::exception", shorten(b, 3000));
}
std::string word_around(const std::string& b, size_t k) { size_t s = k > 30 ? k - 30 : 0; return json_escape(b.substr(s, k - s)); }

void c09(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    const bool v22 = (c.index >> 1) & 1;
    const int size = c.rng.chance(1, 4) ? 1 : 0;
    Layout l = c.rng.flip() ? Layout() : gen_layout(c.rng, ft != 0);
    if (c.rng.chance(1, 4)) l.unknown = true;
    MshSpec s; Model22 m; File f;
    const bool nano = c.rng.chance(1, 6);
    std::string d;
    if (nano) { // curves and patches, written by the library; sections by length of partial files
        GenOpt o; o.version = kVer[v22]; o.file_type = ft; o.finite = ft == 0; o.size = 0; o.nano = true;
        MshSpec n; n.mesh_format.version = o.version; n.mesh_format.file_type = ft;
        gen_nano(c.rng, n, o);
        if (n.curves.empty()) { n.curves.resize(1); n.curves[0].num_control_points = 1; n.curves[0].data = {1, 2, 3}; }
        if (n.patches.empty()) { n.patches.resize(1); n.patches[0].num_control_points = 1; n.patches[0].data = {1, 2, 3}; }
        MshSpec a = n; a.curves.clear(); a.patches.clear();
        std::string b0 = save_bytes(a).bytes; a.curves = n.curves; std::string b1 = save_bytes(a).bytes;
        Outcome w = save_bytes(n);
        if (!w.ok() || w.bytes.compare(0, b1.size(), b1) != 0 || b1.compare(0, b0.size(), b0) != 0) { c.note("nano files without known section bounds"); return; }
        f.bytes = w.bytes;
        f.sections = {{"Curves", b0.size(), b1.size() - 1, true}, {"Patches", b1.size(), w.bytes.size() - 1, true}};
        s = n; d = "curves and patches " + describe(n);
    } else if (v22) { m = gen_model22(c.rng, ft, size); f = write22(m, l, c.rng.fork()); d = "2.2 nodes=" + std::to_string(m.nodes.size()) + " elements=" + std::to_string(m.elems.size()); }
    else { GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = size; s = gen_spec(c.rng, o); f = write41(s, l, c.rng.fork()); d = describe(s); }
    const std::string& b = f.bytes;
    if (b.size() > 200000) { c.note("file too large, skipped"); return; }
    c.eval(); c.nontrivial(f.shape ^ fnv(std::to_string(b.size())) ^ (nano ? 77 : 0)); c.sample(d + " layout: " + l.str());
    if (!load_bytes(b).ok()) { c.violation("refused", "a valid file is refused (" + d + ")", shorten(b, 3000)); return; }
    CapGuard g;

    // every cut inside a section, or a sample when the file is long
    const size_t budget = std::min<size_t>(c.thorough ? 6000 : 1500, std::max<size_t>(60, (c.thorough ? 60000000 : 12000000) / (b.size() + 1)));
    size_t inside = 0, between = 0;
    auto section_of = [&](size_t k) -> const Section* { for (auto& x : f.sections) if (k > x.begin && k < x.end) return &x; return nullptr; };
    std::vector<size_t> cuts;
    if (b.size() <= budget) for (size_t k = 0; k < b.size(); k++) cuts.push_back(k);
    else {
        std::set<size_t> u;
        for (auto& x : f.sections) for (size_t q = 0; q < (budget < 300 ? 6 : 40); q++) { if (x.begin + q < x.end) u.insert(x.begin + q); if (x.end >= q + x.begin) u.insert(x.end - q); u.insert(std::min(b.size() - 1, x.end + q % 4)); }
        while (u.size() < budget && u.size() < b.size() / 2) u.insert(c.rng.below(b.size()));
        cuts.assign(u.begin(), u.end());
    }
    // what a file cut after its first n sections holds
    auto expected_before = [&](size_t k, std::string& dd, const MshSpec& got) {
        std::map<std::string, size_t> seen;
        for (auto& x : f.sections) if (x.end <= k) seen[x.name]++;
        if (!seen["MeshFormat"]) return false;
        if (v22) {
            Model22 t; t.file_type = m.file_type;
            t.has_nodes = seen["Nodes"]; if (t.has_nodes) t.nodes = m.nodes;
            t.has_elements = seen["Elements"]; if (t.has_elements) t.elems = m.elems;
            if (seen["PhysicalNames"]) t.groups = m.groups;
            t.node_data.assign(m.node_data.begin(), m.node_data.begin() + (long)seen["NodeData"]);
            t.element_data.assign(m.element_data.begin(), m.element_data.begin() + (long)seen["ElementData"]);
            t.element_node_data.assign(m.element_node_data.begin(), m.element_node_data.begin() + (long)seen["ElementNodeData"]);
            dd = diff22(t, got);
        } else {
            MshSpec t; t.mesh_format = s.mesh_format;
            if (seen["Nodes"]) t.nodes = s.nodes;
            if (seen["Elements"]) t.elements = s.elements;
            if (seen["Entities"]) t.entities = s.entities;
            if (seen["PhysicalNames"]) t.physical_groups = s.physical_groups;
            t.node_data.assign(s.node_data.begin(), s.node_data.begin() + (long)seen["NodeData"]);
            t.element_data.assign(s.element_data.begin(), s.element_data.begin() + (long)seen["ElementData"]);
            t.element_node_data.assign(s.element_node_data.begin(), s.element_node_data.begin() + (long)seen["ElementNodeData"]);
            unsigned what = CMP_ALL & ~(unsigned)CMP_NANO;
            if (!seen["Nodes"]) { what &= ~(unsigned)CMP_NODES; if (!got.nodes.entity_blocks.empty()) { dd = "nodes from nowhere"; return true; } }
            if (!seen["Elements"]) { what &= ~(unsigned)CMP_ELEMENTS; if (!got.elements.entity_blocks.empty()) { dd = "elements from nowhere"; return true; } }
            dd = diff(t, got, what);
        }
        return true;
    };
    const size_t first = nano ? f.sections[0].begin : 0;
    for (size_t k : cuts) {
        if (k < first) continue;
        const std::string t = b.substr(0, k);
        const Section* x = section_of(k);
        Outcome o;
        const int mode = (int)c.rng.below(16);
        if (mode == 0) { std::string p = c.tmp + "/cut.msh"; spit(p, t); o = load_file(p); c.note("cuts through a file"); }
        else if (mode == 1) { ChunkBuf cb(b, c.rng.next(), 1 + c.rng.below(50), ChunkBuf::END, k); std::istream in(&cb); o = load_stream(in); c.note("cuts through a stream"); }
        else o = load_bytes(t);
        // content of an unsupported section may look like its own end marker once it is cut
        if (x && !x->known && t.size() >= x->name.size() + 4 && t.compare(t.size() - x->name.size() - 4, std::string::npos, "$End" + x->name) == 0) continue;
        if (x) {
            inside++;
            c.note(std::string("cuts inside $") + (x->known ? x->name : "(unsupported)"));
            if (o.ok() || o.kind == E_NONSTD) { expect_throw(c, o, "truncated", "a file cut after byte " + std::to_string(k) + " of " + std::to_string(b.size()) + ", inside $" + x->name + " (\"..." + word_around(b, k) + "\") (" + d + "; " + l.str() + ")", t); return; }
        } else if (!nano) {
            std::string dd;
            bool has_format = false;
            for (auto& y : f.sections) if (y.end <= k && y.name == "MeshFormat") has_format = true;
            if (!has_format) continue;
            between++;
            if (!o.ok()) { c.violation("cut-between", "a file cut between sections, after byte " + std::to_string(k) + ", is refused: " + o.str() + " (" + d + "; " + l.str() + ")", shorten(t, 3000)); return; }
            if (expected_before(k, dd, o.spec) && !dd.empty()) { c.violation("cut-between", "a file cut between sections, after byte " + std::to_string(k) + ", loads something else than the sections before the cut: " + dd + " (" + d + "; " + l.str() + ")", shorten(t, 3000)); return; }
        }
    }
    c.note("cuts inside a section", inside); c.note("cuts between sections", between);

    // read errors
    const size_t faults = std::min<size_t>(c.thorough ? 600 : 120, 20 + budget / 3);
    for (size_t n = 0; n < faults; n++) {
        const size_t k = b.size() <= faults ? n : c.rng.below(b.size());
        if (k >= b.size()) break;
        ChunkBuf cb(b, c.rng.next(), 1 + c.rng.below(c.rng.flip() ? 8 : 4000), ChunkBuf::THROW, k);
        std::istream in(&cb);
        Outcome o = load_stream(in);
        if (!cb.faulted()) continue;
        c.note("read errors injected");
        if (o.ok() || o.kind == E_NONSTD) { expect_throw(c, o, "read-error", "reading fails at byte " + std::to_string(k) + " of " + std::to_string(b.size()) + " (\"..." + word_around(b, k) + "\") (" + d + "; " + l.str() + ")", b); return; }
    }
    // a read error that is reported as a failing seek-free end of stream with badbit set: a stream buffer that throws on uflow only
    // words in place of numbers
    if (!nano && !f.numbers.empty()) {
        static const char* words[] = {"abc", "x", "?", "_", "#", "none", "N/A", "one", "--", "-", "zwei", "$", "\"", "%d", "{}", ";", "(1)", "*"};
        const size_t tries = std::min<size_t>(std::min<size_t>(f.numbers.size(), budget / 2), c.thorough ? 800 : 200);
        for (size_t n = 0; n < tries; n++) {
            const Token& t = tries == f.numbers.size() ? f.numbers[n] : f.numbers[c.rng.below(f.numbers.size())];
            if (!f.sections[t.section].known) continue;
            std::string w = words[c.rng.below(18)];
            if (w == "$" && f.sections[t.section].name == "MeshFormat") w = "abc";
            std::string x = b.substr(0, t.begin) + w + b.substr(t.end);
            Outcome o = load_bytes(x);
            c.note(std::string("numbers garbled in $") + f.sections[t.section].name);
            if (o.ok() || o.kind == E_NONSTD) { expect_throw(c, o, "garbled", "the number \"" + b.substr(t.begin, t.end - t.begin) + "\" at byte " + std::to_string(t.begin) + " in $" + f.sections[t.section].name + " is replaced by \"" + w + "\" (" + d + "; " + l.str() + ")", x); return; }
        }
    }
    if (nano && ft == 0) { // numbers of curves and patches
        std::vector<Token> nums;
        for (auto& x : f.sections) {
            size_t p = b.find('\n', x.begin), stop = b.rfind("$End", x.end);
            while (p < stop) {
                p = b.find_first_not_of(" \n\t", p);
                if (p == std::string::npos || p >= stop) break;
                size_t e = b.find_first_of(" \n\t", p);
                nums.push_back({p, e, 0}); p = e;
            }
        }
        for (size_t n = 0; n < std::min<size_t>(nums.size(), std::min<size_t>(120, budget)); n++) {
            const Token& t = nums.size() <= 120 ? nums[n] : nums[c.rng.below(nums.size())];
            std::string x = b.substr(0, t.begin) + "abc" + b.substr(t.end);
            Outcome o = load_bytes(x);
            c.note("numbers garbled in curves and patches");
            if (o.ok() || o.kind == E_NONSTD) { expect_throw(c, o, "garbled", "the number \"" + b.substr(t.begin, t.end - t.begin) + "\" at byte " + std::to_string(t.begin) + " in curves or patches is replaced by \"abc\" (" + d + ")", x); return; }
        }
    }
}
Reg r09("C09", c09);

// ---------------------------------------------------------------- C14
std::string header(const std::string& version, const std::string& ft, const std::string& ds, bool one, bool swapped = false)
{
    std::string s = "$MeshFormat\n" + version + " " + ft + " " + ds + "\n";
    if (one) s += swapped ? std::string("\0\0\0\1\n", 5) : std::string("\1\0\0\0\n", 5);
    return s + "$EndMeshFormat\n";
}
void expect_kind(Ctx& c, const Outcome& o, Kind k, const std::string& what, const std::string& b)
{
    if (o.kind != k) c.violation("refused-as", what + ": " + kind_name(k) + " expected, load_msh: " + o.str(), shorten(b, 3000));
}
std::string bad_version(Rng& r)
{
    static const char* k[] = {"1", "1.0", "2", "2.0", "2.1", "2.3", "2.20", "2.2.0", "02.2", "4", "4.0", "4.2", "4.10", "4.1.0", "04.1", "4,1", "3", "3.0", "5", "5.0", "22", "41", "2.2a", "v4.1", "-4.1", "4.1e0", "4.1f", "abc", "nan", "0", "2.19999999", "4.10000001", "4.1000000000000001", "2.2000000000000002", "0x4", "4.1,", "+2.2", "+4.1", "1e1", ".41", "2.2;", "4.1$"};
    if (r.chance(1, 4)) { std::string s; do { s.clear(); for (size_t n = 1 + r.below(6); n > 0; n--) s += "0123456789.24"[r.below(13)]; } while (s == "2.2" || s == "4.1"); return s; }
    return k[r.below(sizeof(k) / sizeof(*k))];
}
void c14(Ctx& c)
{
    Rng& r = c.rng;
    const int ft = (int)r.below(2);
    const bool v22 = r.flip();
    const int size = r.chance(1, 6) ? 1 : 0;
    GenOpt o; o.version = kVer[v22]; o.file_type = ft; o.finite = ft == 0; o.tags32 = v22; o.size = size; o.printable = true;
    Layout l = r.flip() ? Layout() : gen_layout(r, ft != 0);
    auto valid = [&] { return v22 ? write22(gen_model22(r, ft, size), l, r.fork()) : write41(gen_spec(r, o), l, r.fork()); };
    auto patch = [&](File& f, size_t token, const std::string& w) { const Token t = f.numbers.at(token); f.bytes.replace(t.begin, t.end - t.begin, w); };
    const std::string enc = std::string(kVer[v22]) + (ft ? " binary" : " ascii");
    c.eval(); c.note(enc);
    struct Cap { Cap() { Mem::set_cap(1u << 30, Mem::live() + (2u << 30)); } ~Cap() { Mem::set_cap(0, 0); } } g;
    auto h = [&](const std::string& what, uint64_t extra) { c.note(what); c.nontrivial(fnv(what, fnv(enc)) ^ extra * 0x9E3779B97F4A7C15ull); };
    // a whole file of a valid encoding to which something is done
    switch (c.index % 12) {
    case 0: { // version
        File f = valid(); const std::string v = bad_version(r);
        size_t p = f.bytes.find("$MeshFormat") + 11; p = f.bytes.find(kVer[v22], p);
        f.bytes.replace(p, 3, v); h("unsupported versions", fnv(v)); c.sample("version " + v + ", " + enc);
        expect_kind(c, load_bytes(f.bytes), E_UNSUPPORTED, "version \"" + v + "\" (" + enc + ")", f.bytes); break; }
    case 1: { // data size, 4.1
        File f; { o.version = "4.1"; o.tags32 = false; f = write41(gen_spec(r, o), l, r.fork()); }
        static const char* ds[] = {"4", "0", "16", "-8", "1", "2", "7", "9", "80", "88", "2147483647", "-2147483648", "256", "264", "32"};
        const std::string w = r.chance(1, 4) ? std::to_string((int)(r.below(2000) + 9)) : ds[r.below(15)];
        patch(f, 1, w); h("data sizes other than 8", fnv(w) + (uint64_t)ft);
        expect_kind(c, load_bytes(f.bytes), E_UNSUPPORTED, "data size " + w + " in a 4.1 file (" + (ft ? "binary" : "ascii") + ")", f.bytes); break; }
    case 2: { // foreign byte order
        std::string b = header(kVer[v22], "1", "8", true, true);
        if (r.flip()) { // no integer 1 of this machine either
            static const uint32_t k[] = {0, 0x00010000, 0x00000100, 2, 0x00000101, 0x01000001, 0x01010101, 0xffffffff, 0x80000001, 0x3f800000, 0x10001};
            uint32_t one = r.chance(1, 3) ? (uint32_t)r.next() : k[r.below(11)];
            if (one == 1) one = 3;
            const char low = (char)(one & 0xff);
            if (low == '\n' || low == '\r' || low == ' ' || low == '\t') one ^= 0x80; // white space is skipped
            const size_t at = b.find("$End") - 5;
            b.replace(at, 4, reinterpret_cast<const char*>(&one), 4);
        }
        if (r.flip()) { File f; if (v22) f = write22(gen_model22(r, 1, size), Layout(), r.fork()); else { o.file_type = 1; f = write41(gen_spec(r, o), Layout(), r.fork()); } b += f.bytes.substr(f.sections[0].end + 1); }
        h("foreign byte order", b.size());
        expect_kind(c, load_bytes(b), E_UNSUPPORTED, std::string("big-endian ") + kVer[v22] + " file", b); break; }
    case 3: case 4: { // element type
        static const int k[] = {0, 32, 33, 34, 92, 93, -1, -2, -15, 64, 100, 128, 140, 255, 256, 257, 271, 65535, 65536, 65537, 2147483647, (int)0x80000000, 31 + 256, 4 + 65536};
        int type = r.chance(1, 3) ? (int)(uint32_t)r.next() : k[r.below(sizeof(k) / sizeof(*k))];
        if (type >= 1 && type <= 31) type += 31;
        const size_t before = r.below(3); // valid elements in front
        const bool none = r.chance(1, 4) && !(v22 && !ft); // a block of this type without elements
        std::string b = header(kVer[v22], ft ? "1" : "0", "8", ft);
        auto u = [&](uint64_t v) { if (ft) b.append((const char*)&v, 8); else b += std::to_string(v) + " "; };
        auto i = [&](int v) { if (ft) b.append((const char*)&v, 4); else b += std::to_string(v) + " "; };
        b += "$Elements\n";
        if (!v22) {
            u(before + 1); u(before + !none); u(before + !none > 0); u(before + !none);
            for (size_t q = 0; q < before; q++) { i(2); i(1); i(2); u(1); u(q + 1); u(1); u(2); u(3); }
            i(2); i(1); i(type); u(!none);
        } else {
            b += std::to_string(before + 1) + "\n";
            for (size_t q = 0; q < before; q++) { if (ft) { i(2); i(1); i(2); i((int)q + 1); } else { i((int)q + 1); i(2); i(2); } i(1); i(1); i(1); i(2); i(3); }
            if (none) { i(type); i(0); i((int)r.below(4)); i(2); i(1); i(2); i((int)before + 1); i(1); i(1); i(1); i(2); i(3); }
            else { if (ft) { i(type); i(1); i(2); i((int)before + 1); } else { i((int)before + 1); i(type); i(2); } i(1); i(1); }
        }
        if (!none) for (size_t q = r.below(60) + (r.flip() ? 60 : 0); q > 0; q--) if (v22) i((int)q); else u(q);
        b += "\n$EndElements\n"; h(none ? "element type outside the table, empty block" : "element type outside the table", (uint64_t)(uint32_t)type); c.sample("element type " + std::to_string(type) + ", " + enc);
        expect_kind(c, load_bytes(b), E_UNSUPPORTED, "element type " + std::to_string(type) + " (" + enc + ")", b); break; }
    case 5: { // $Entities in 2.2
        Model22 m = gen_model22(r, ft, size); Layout pl = l; pl.shuffle = false; pl.final_newline = true;
        File f = write22(m, pl, r.fork());
        GenOpt e; e.file_type = ft; e.finite = ft == 0; e.size = 0; MshSpec es; gen_entities(r, es, e); es.mesh_format.file_type = ft;
        if (r.chance(1, 3)) es.entities = mshio::Entities();
        File g4 = write41(es, Layout(), r.fork());
        std::string sec = ft ? std::string("$Entities\n") + std::string(32, '\0') + "\n$EndEntities\n" : "$Entities\n0 0 0 0\n$EndEntities\n";
        for (auto& x : g4.sections) if (x.name == "Entities") sec = g4.bytes.substr(x.begin, x.end - x.begin) + "\n";
        const size_t at = r.below(f.sections.size());
        f.bytes.insert(f.sections[at].end, "\n" + sec); h("$Entities in a 2.2 file", at + f.sections.size() * 16);
        expect_kind(c, load_bytes(f.bytes), E_INVALID, std::string("$Entities in a 2.2 file (") + (ft ? "binary" : "ascii") + ")", f.bytes); break; }
    case 6: { // fewer than three integer tags
        static const char* nm[] = {"NodeData", "ElementData", "ElementNodeData"};
        const int which = (int)r.below(3); const size_t n = r.below(3);
        mshio::Data d = gen_data(r, o, which == 2);
        std::string sec = std::string("$") + nm[which] + "\n" + std::to_string(d.header.string_tags.size()) + "\n";
        for (auto& t : d.header.string_tags) sec += "\"" + t + "\"\n";
        sec += "1\n0.5\n" + std::to_string(n) + "\n";
        for (size_t q = 0; q < n; q++) sec += std::to_string(q == 2 ? 0 : (int)r.below(4)) + "\n";
        sec += std::string("$End") + nm[which] + "\n";
        Layout pl = l; pl.final_newline = true;
        File f = v22 ? write22(gen_model22(r, ft, size), pl, r.fork()) : write41(gen_spec(r, o), pl, r.fork());
        f.bytes += (f.bytes.back() == '\n' ? "" : "\n") + sec; h(std::string(nm[which]) + " with " + std::to_string(n) + " integer tags", (uint64_t)which);
        expect_kind(c, load_bytes(f.bytes), E_INVALID, std::string("$") + nm[which] + " with " + std::to_string(n) + " integer tags (" + enc + ")", f.bytes); break; }
    case 7: { // no header at all
        File f = valid();
        std::string b = f.bytes.substr(0, f.sections[0].begin) + f.bytes.substr(f.sections[0].end);
        if (f.sections[0].name != "MeshFormat") break;
        if (r.chance(1, 6)) b = ""; else if (r.chance(1, 6)) b = "hello\nworld\n"; else if (r.chance(1, 8)) b = "$Comments\nno mesh here\n$EndComments\n";
        h("no $MeshFormat", b.size());
        expect_throw(c, load_bytes(b), "no-header", "a file without $MeshFormat (" + enc + ")", b); break; }
    case 8: { // a supported section before the header
        File f = valid();
        std::vector<const Section*> k;
        for (auto& x : f.sections) if (x.known && x.name != "MeshFormat") k.push_back(&x);
        std::string sec;
        if (k.empty() || r.chance(1, 4)) { static const char* z[] = {"$Nodes\n0 0 0 0\n$EndNodes\n", "$Elements\n0 0 0 0\n$EndElements\n", "$PhysicalNames\n0\n$EndPhysicalNames\n", "$Entities\n0 0 0 0\n$EndEntities\n", "$NodeData\n0\n0\n3\n0 1 0\n$EndNodeData\n", "$ElementData\n0\n0\n3\n0 1 0\n$EndElementData\n", "$ElementNodeData\n0\n0\n3\n0 1 0\n$EndElementNodeData\n", "$Curves\n0\n$EndCurves\n", "$Patches\n0\n$EndPatches\n", "$NanoSplineFormat\n1.0\n$EndNanoSplineFormat\n"}; sec = z[r.below(10)]; }
        else { const Section* x = k[r.below(k.size())]; sec = f.bytes.substr(x->begin, x->end - x->begin) + "\n"; }
        std::string b = sec + f.bytes; h("section before $MeshFormat: " + sec.substr(0, sec.find_first_of("\r\n")), 0);
        expect_throw(c, load_bytes(b), "no-header", "a file with " + sec.substr(0, sec.find_first_of("\r\n")) + " before $MeshFormat (" + enc + ")", b); break; }
    default: { // save_msh
        MshSpec s; if (r.chance(2, 3)) { o.nano = r.chance(1, 4); s = gen_spec(r, o); }
        std::string v = r.chance(1, 8) ? "" : r.chance(1, 8) ? " 4.1" : r.chance(1, 8) ? "4.1 " : r.chance(1, 8) ? gen_string(r, false) : bad_version(r);
        if (v == "2.2" || v == "4.1") v = "4.0";
        s.mesh_format.version = v; s.mesh_format.file_type = ft;
        h("save_msh, unsupported version", fnv(v) ^ shape(s));
        Outcome w = save_bytes(s);
        if (w.ok()) { c.violation("save-version", "save_msh accepts version \"" + v + "\" and writes " + std::to_string(w.bytes.size()) + " bytes (" + describe(s) + ")", shorten(w.bytes, 2000)); return; }
        if (w.kind == E_NONSTD) { c.violation("save-version", "save_msh of version \"" + v + "\" throws something not derived from std::exception"); return; }
        w = save_file(c.tmp + "/v.msh", s);
        if (w.ok()) c.violation("save-version", "save_msh to a file accepts version \"" + v + "\" (" + describe(s) + ")"); }
    }
}
Reg r14("C14", c14);

} // namespace
