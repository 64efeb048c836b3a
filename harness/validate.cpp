// C11, C12: validate_spec.
#include "common.h"
#include "refcodec.h"

#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
namespace {

static const char* kVer[] = {"4.1", "2.2"};

// ---------------------------------------------------------------- an independent statement of the rules
// "" if the spec follows every documented rule, else the first broken one. The letter in front says
// which: a rule the library enforces today ("a"), or one of its known gaps ("V2".."V7").
std::string broken_rule(const MshSpec& s)
{
    const auto& N = s.nodes; const auto& E = s.elements;
    auto mul = [](size_t a, size_t b, size_t want) { return b == 0 ? want == 0 : (a == want / b && want % b == 0); };
    if (N.num_entity_blocks != N.entity_blocks.size()) return "a number of node blocks";
    if (E.num_entity_blocks != E.entity_blocks.size()) return "a number of element blocks";
    if (N.min_node_tag > N.max_node_tag) return "a node tag range";
    if (E.min_element_tag > E.max_element_tag) return "a element tag range";
    size_t nodes = 0, elems = 0;
    std::string gap;
    for (auto& b : N.entity_blocks) {
        if (b.tags.size() != b.num_nodes_in_block) return "a number of node tags";
        for (auto t : b.tags) if (t < N.min_node_tag || t > N.max_node_tag) return "a node tag out of range";
        if (b.parametric != 0 && b.parametric != 1) gap = "V6 parametric flag";
        if (b.entity_dim < 0 || b.entity_dim > 3) gap = "V6 entity dimension";
        const size_t m = (size_t)(b.parametric > 0 ? 3 + (long)b.entity_dim : 3L);
        if (!mul(b.num_nodes_in_block, m, b.data.size())) return gap.empty() ? "a length of node data" : gap;
        nodes += b.num_nodes_in_block;
    }
    for (auto& b : E.entity_blocks) {
        if (b.num_elements_in_block == 0) { if (b.data.empty()) { if (gap.empty()) gap = "V1 empty element block"; } else return "V1 empty element block with data"; continue; }
        if (b.element_type < 1 || b.element_type > 31) { if (gap.empty()) gap = "V3 element type"; }
        else if (!mul(b.num_elements_in_block, npe(b.element_type) + 1, b.data.size())) { if (gap.empty()) gap = "V2 length of element data"; }
        if (b.entity_dim < 0 || b.entity_dim > 3) { if (gap.empty()) gap = "V6 entity dimension"; }
        elems += b.num_elements_in_block;
        if (gap.empty()) {
            const size_t w = npe(b.element_type) + 1;
            for (size_t k = 0; k < b.data.size(); k++) {
                if (k % w == 0 && (b.data[k] < E.min_element_tag || b.data[k] > E.max_element_tag)) return "a element tag out of range";
                if (k % w != 0 && (b.data[k] < N.min_node_tag || b.data[k] > N.max_node_tag)) return "a node of an element out of range";
            }
        }
    }
    if (!gap.empty()) return gap;
    if (nodes != N.num_nodes) return "V4 total number of nodes";
    if (elems != E.num_elements) return "V4 total number of elements";
    for (auto* D : {&s.node_data, &s.element_data, &s.element_node_data})
        for (auto& d : *D) {
            if (d.header.int_tags.size() < 3) return "V5 integer tags";
            if (d.header.int_tags[1] < 0 || d.header.int_tags[2] < 0 || (size_t)d.header.int_tags[2] != d.entries.size()) return "V5 number of entries";
            for (auto& e : d.entries) {
                size_t n = (size_t)d.header.int_tags[1];
                if (D == &s.element_node_data) { if (e.num_nodes_per_element < 0) return "V5 length of entries"; n *= (size_t)e.num_nodes_per_element; }
                if (e.data.size() != n) return "V5 length of entries";
            }
        }
    for (auto& x : s.curves) if (!mul(1, x.num_control_points * (x.with_weights ? 4 : 3) + x.num_knots, x.data.size())) return "V7 curves";
    for (auto& x : s.patches) if (!mul(1, x.num_control_points * (x.with_weights ? 4 : 3) + x.num_u_knots + x.num_v_knots, x.data.size())) return "V7 patches";
    return "";
}
bool has_empty_element_block(const MshSpec& s) { for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block == 0 || b.data.size() < b.num_elements_in_block) return true; return false; }
void drop_empty_element_blocks(MshSpec& s)
{
    auto& v = s.elements.entity_blocks;
    v.erase(std::remove_if(v.begin(), v.end(), [](const mshio::ElementBlock& b) { return b.num_elements_in_block == 0; }), v.end());
    s.elements.num_entity_blocks = v.size();
    if (v.empty()) s.elements = mshio::Elements();
}

// A small valid spec: two triangles, a line, data of each kind.
MshSpec sample_spec()
{
    MshSpec s;
    auto& N = s.nodes; N.num_entity_blocks = 1; N.num_nodes = 4; N.min_node_tag = 1; N.max_node_tag = 4;
    N.entity_blocks.resize(1); auto& b = N.entity_blocks[0]; b.entity_dim = 2; b.entity_tag = 1; b.num_nodes_in_block = 4; b.tags = {1, 2, 3, 4}; b.data = {0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0};
    auto& E = s.elements; E.num_entity_blocks = 1; E.num_elements = 2; E.min_element_tag = 1; E.max_element_tag = 2;
    E.entity_blocks.resize(1); auto& e = E.entity_blocks[0]; e.entity_dim = 2; e.entity_tag = 1; e.element_type = 2; e.num_elements_in_block = 2; e.data = {1, 1, 2, 3, 2, 1, 3, 4};
    return s;
}
mshio::Data sample_data()
{
    mshio::Data d; d.header.string_tags = {"v"}; d.header.real_tags = {0.5}; d.header.int_tags = {0, 1, 2};
    d.entries.resize(2); d.entries[0].tag = 1; d.entries[0].data = {1.5}; d.entries[1].tag = 2; d.entries[1].data = {2.5};
    return d;
}

// ---------------------------------------------------------------- probes of the known gaps, in a child process
struct ChildEnd { bool crashed; int code; };
ChildEnd in_child(const std::function<int()>& f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (!freopen("/dev/null", "w", stderr)) _exit(120);
        int rc = 121;
        try { rc = f(); } catch (...) { rc = 122; }
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    ChildEnd e{false, 0};
    if (WIFSIGNALED(st)) { e.crashed = true; e.code = WTERMSIG(st); }
    else { e.code = WEXITSTATUS(st); e.crashed = e.code == 99 || e.code == 1; } // sanitizer report
    return e;
}
struct Probe { const char* name; const char* what; std::function<MshSpec()> make; bool c12 = true; };
const std::vector<Probe>& probes()
{
    static const std::vector<Probe> v = {
        {"V1", "element block without elements", [] { MshSpec s = sample_spec(); mshio::ElementBlock b; b.entity_dim = 1; b.entity_tag = 1; b.element_type = 1; s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks = 2; return s; }},
        {"V2", "element block of two triangles with six values", [] { MshSpec s = sample_spec(); s.elements.entity_blocks[0].data = {1, 1, 2, 2, 1, 3}; return s; }},
        {"V2b", "element block of two triangles with one value", [] { MshSpec s = sample_spec(); s.elements.entity_blocks[0].data = {1}; return s; }},
        {"V3", "element type 77", [] { MshSpec s = sample_spec(); s.elements.entity_blocks[0].element_type = 77; return s; }},
        {"V4", "total number of nodes 5 with 4 nodes", [] { MshSpec s = sample_spec(); s.nodes.num_nodes = 5; return s; }},
        {"V4b", "total number of elements 3 with 2 elements", [] { MshSpec s = sample_spec(); s.elements.num_elements = 3; s.mesh_format.version = "2.2"; return s; }},
        {"V5", "data field with two integer tags", [] { MshSpec s = sample_spec(); s.node_data = {sample_data()}; s.node_data[0].header.int_tags.pop_back(); return s; }},
        {"V5b", "data field that announces 3 entries and has 2", [] { MshSpec s = sample_spec(); s.element_data = {sample_data()}; s.element_data[0].header.int_tags[2] = 3; return s; }},
        {"V5c", "data entry with 2 values where 1 is announced", [] { MshSpec s = sample_spec(); s.node_data = {sample_data()}; s.node_data[0].entries[0].data.push_back(9); return s; }},
        {"V6", "parametric flag 2 with 5 values per node", [] { MshSpec s = sample_spec(); auto& b = s.nodes.entity_blocks[0]; b.parametric = 2; b.data.resize(20, 0.25); return s; }, false},
        {"V6b", "parametric block of entity dimension -1", [] { MshSpec s = sample_spec(); auto& b = s.nodes.entity_blocks[0]; b.parametric = 1; b.entity_dim = -1; b.data.resize(8); return s; }, false},
        {"V6c", "parametric block of entity dimension 2147483647", [] { MshSpec s = sample_spec(); auto& b = s.nodes.entity_blocks[0]; b.parametric = 1; b.entity_dim = 2147483647; return s; }},
        {"V7", "curve with 2 control points and no data", [] { MshSpec s = sample_spec(); s.curves.resize(1); s.curves[0].num_control_points = 2; return s; }, false},
    };
    return v;
}

// ---------------------------------------------------------------- C12
void must_accept(Ctx& c, const MshSpec& s, const std::string& what)
{
    Outcome v = validate(s);
    c.note("valid specs given");
    if (!v.ok()) c.violation("rejects-valid", "validate_spec rejects " + what + ": " + v.str() + " (" + describe(s) + ")");
}
void c12(Ctx& c)
{
    Rng& r = c.rng;
    const auto& P = probes();
    if (c.index < P.size()) { // fixed probes of the rules that validate_spec is known not to check
        const Probe& p = P[c.index];
        if (!p.c12) return; // C12 says nothing about it
        c.eval(); c.note("probes of single rules"); c.nontrivial(fnv(p.name));
        const MshSpec s = p.make();
        const bool valid = broken_rule(s).compare(0, 14, "V1 empty eleme") == 0; // an empty block is valid
        ChildEnd e = in_child([&] { Outcome v = validate(s); return v.ok() ? 10 : v.kind == E_NONSTD ? 12 : 11; });
        if (e.crashed) c.violation(std::string("crash-") + p.name, std::string("validate_spec crashes: ") + p.what);
        else if (e.code == 10 && !valid) c.violation(std::string("accepts-") + p.name, std::string("validate_spec accepts: ") + p.what);
        else if (e.code != 10 && valid) c.violation(std::string("rejects-") + p.name, std::string("validate_spec rejects: ") + p.what);
        return;
    }
    const int ft = (int)r.below(2);
    const bool v22 = r.flip();
    GenOpt o; o.version = kVer[v22]; o.file_type = ft; o.finite = ft == 0; o.tags32 = v22; o.nano = r.chance(1, 6); o.printable = true;
    o.size = r.chance(1, 3) ? 0 : r.chance(1, 20) ? 2 : 1;
    MshSpec s;
    const uint64_t mode = c.index % 8;
    c.eval();
    if (mode == 0) { // loaded from a conforming file of another writer
        Layout l = gen_layout(r, ft != 0); l.repeat = r.chance(1, 4);
        File f = v22 ? write22(gen_model22(r, ft, o.size), l, r.fork()) : write41(gen_spec(r, o), l, r.fork());
        Outcome q = load_bytes(f.bytes);
        if (!q.ok()) { c.violation("refused", "a conforming file is refused: " + q.str(), shorten(f.bytes, 2000)); return; }
        if (has_empty_element_block(q.spec)) { c.note("skipped: empty element block (known finding)"); return; }
        c.nontrivial(shape(q.spec));
        must_accept(c, q.spec, "a spec loaded from a conforming file");
        return;
    }
    if (mode == 1 && r.chance(1, 10)) { s.mesh_format.version = kVer[v22]; must_accept(c, s, "an empty spec"); }
    s = gen_spec(r, o);
    if (r.chance(1, 10)) s.physical_groups.clear();
    drop_empty_element_blocks(s);
    c.nontrivial(shape(s)); c.sample(describe(s));
    const std::string self = broken_rule(s);
    if (!self.empty()) { c.violation("harness", "the generator made an invalid spec: " + self); return; }
    must_accept(c, s, "a valid spec");
    if (mode < 4) return;
    // exactly one rule broken
    auto& N = s.nodes; auto& E = s.elements;
    auto node_block = [&]() -> mshio::NodeBlock* { std::vector<mshio::NodeBlock*> v; for (auto& b : N.entity_blocks) if (!b.tags.empty()) v.push_back(&b); return v.empty() ? nullptr : v[r.below(v.size())]; };
    auto elem_block = [&]() -> mshio::ElementBlock* { return E.entity_blocks.empty() ? nullptr : &E.entity_blocks[r.below(E.entity_blocks.size())]; };
    std::string what;
    for (int tries = 0; tries < 20 && what.empty(); tries++) {
        switch (r.below(16)) {
        case 0: N.num_entity_blocks += 1 + r.below(3); what = "node blocks: too many declared"; break;
        case 1: if (N.num_entity_blocks) { N.num_entity_blocks -= 1 + r.below(N.num_entity_blocks); what = "node blocks: too few declared"; } break;
        case 2: E.num_entity_blocks += 1 + r.below(3); what = "element blocks: too many declared"; break;
        case 3: if (E.num_entity_blocks) { E.num_entity_blocks -= 1 + r.below(E.num_entity_blocks); what = "element blocks: too few declared"; } break;
        case 4: if (N.max_node_tag > 0 && !N.entity_blocks.empty()) { std::swap(N.min_node_tag, N.max_node_tag); if (N.min_node_tag > N.max_node_tag) what = "node tags: min > max"; } else if (N.entity_blocks.empty()) { N.min_node_tag = 1 + r.below(9); N.max_node_tag = N.min_node_tag - 1; what = "node tags: min > max, no nodes"; } break;
        case 5: if (E.entity_blocks.empty()) { E.min_element_tag = r.flip() ? 1 : ~0ull; E.max_element_tag = 0; what = "element tags: min > max, no elements"; } else { std::swap(E.min_element_tag, E.max_element_tag); if (E.min_element_tag > E.max_element_tag) what = "element tags: min > max"; } break;
        case 6: if (auto* b = node_block()) { if (N.min_node_tag > 0) { b->tags[r.below(b->tags.size())] = N.min_node_tag - 1 - r.below(N.min_node_tag); what = "a node tag below the range"; } } break;
        case 7: if (auto* b = node_block()) { if (N.max_node_tag < ~0ull) { b->tags[r.below(b->tags.size())] = N.max_node_tag + 1 + r.below(~0ull - N.max_node_tag); what = "a node tag above the range"; } } break;
        case 8: case 9: case 10: case 11: if (auto* b = elem_block()) {
                const size_t w = npe(b->element_type) + 1, k = r.below(b->num_elements_in_block) * w;
                const int q = (int)r.below(4);
                size_t& t = q < 2 ? b->data[k] : b->data[k + 1 + r.below(w - 1)];
                const size_t lo = q < 2 ? E.min_element_tag : N.min_node_tag, hi = q < 2 ? E.max_element_tag : N.max_node_tag;
                const char* n = q < 2 ? "an element tag" : "a node of an element";
                if (q % 2 == 0 && lo > 0) { t = lo - 1 - (r.flip() ? 0 : r.below(lo)); what = std::string(n) + " below the range"; }
                else if (q % 2 == 1 && hi < ~0ull) { t = hi + 1 + (r.flip() ? 0 : r.below(~0ull - hi)); what = std::string(n) + " above the range"; }
            } break;
        case 12: if (!N.entity_blocks.empty()) { auto& b = N.entity_blocks[r.below(N.entity_blocks.size())]; if (r.flip()) b.tags.push_back(N.min_node_tag); else if (!b.tags.empty()) b.tags.pop_back(); else b.tags.push_back(N.max_node_tag); what = "number of node tags"; } break;
        case 13: if (!N.entity_blocks.empty()) { auto& b = N.entity_blocks[r.below(N.entity_blocks.size())]; if (r.flip() || b.data.empty()) b.data.resize(b.data.size() + 1 + r.below(3)); else b.data.resize(b.data.size() - 1 - r.below(std::min<size_t>(3, b.data.size()))); what = "length of node data"; } break;
        case 14: { for (auto& b : N.entity_blocks) if (!b.tags.empty() && b.entity_dim > 0 && what.empty()) { b.parametric = !b.parametric; what = b.parametric ? "parametric block without parametric coordinates" : "parametric coordinates in a block that is not parametric"; } break; }
        default: if (auto* b = elem_block()) { // a length that no element size explains
                const size_t n = b->num_elements_in_block, q = b->data.size() / n, was = b->data.size();
                if (n >= 2 && q >= 2) { b->data.push_back(N.min_node_tag); const size_t len = b->data.size(), qq = len / n; if (len % qq) what = "length of element data"; else b->data.resize(was); } } break;
        }
    }
    if (what.empty()) { c.note("nothing to break"); return; }
    c.note("broken: " + what); c.nontrivial(fnv(what, shape(s)));
    Outcome v = validate(s);
    if (v.ok()) c.violation("accepts-invalid", "validate_spec accepts a spec that breaks a rule: " + what + " (" + describe(s) + ")");
    else if (v.kind == E_NONSTD) c.violation("accepts-invalid", "validate_spec throws something not derived from std::exception: " + what);
}
Reg r12("C12", c12);

// ---------------------------------------------------------------- C11
uint64_t wild(Rng& r, uint64_t v) { switch (r.below(6)) { case 0: return v + 1; case 1: return v - 1; case 2: return 0; case 3: return gen_u64(r); case 4: return v * 2; default: return r.below(9); } }
void mutate(Rng& r, MshSpec& s)
{
    auto& N = s.nodes; auto& E = s.elements;
    auto nb = [&]() -> mshio::NodeBlock& { if (N.entity_blocks.empty()) N.entity_blocks.resize(1); return N.entity_blocks[r.below(N.entity_blocks.size())]; };
    auto eb = [&]() -> mshio::ElementBlock& { if (E.entity_blocks.empty()) E.entity_blocks.resize(1); return E.entity_blocks[r.below(E.entity_blocks.size())]; };
    switch (r.below(20)) {
    case 0: N.num_entity_blocks = wild(r, N.num_entity_blocks); break;
    case 1: E.num_entity_blocks = wild(r, E.num_entity_blocks); break;
    case 2: N.min_node_tag = wild(r, N.min_node_tag); break;
    case 3: N.max_node_tag = wild(r, N.max_node_tag); break;
    case 4: E.min_element_tag = wild(r, E.min_element_tag); break;
    case 5: E.max_element_tag = wild(r, E.max_element_tag); break;
    case 6: { auto& b = nb(); b.num_nodes_in_block = wild(r, b.num_nodes_in_block); break; }
    case 7: { auto& b = nb(); b.tags.resize(wild(r, b.tags.size()) % 5000, N.min_node_tag); break; }
    case 8: { auto& b = nb(); b.data.resize(wild(r, b.data.size()) % 5000); break; }
    case 9: { auto& b = nb(); b.parametric = gen_int(r); break; }
    case 10: { auto& b = nb(); b.entity_dim = gen_int(r) % 1000000; break; } // more overflows an int: probe V6c
    case 11: { auto& b = eb(); b.num_elements_in_block = wild(r, b.num_elements_in_block); break; }
    case 12: { auto& b = eb(); b.data.resize(wild(r, b.data.size()) % 5000, E.min_element_tag); break; }
    case 13: { auto& b = eb(); b.element_type = r.flip() ? gen_int(r) : (int)r.range(1, 31); break; }
    case 14: { auto& b = nb(); if (!b.tags.empty()) b.tags[r.below(b.tags.size())] = gen_u64(r); break; }
    case 15: { auto& b = eb(); if (!b.data.empty()) b.data[r.below(b.data.size())] = gen_u64(r); break; }
    case 16: { for (auto* D : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& d : *D) if (r.flip()) { if (r.flip()) d.entries.resize(r.below(5)); else d.header.int_tags.resize(r.below(5)); } break; }
    case 17: { N.entity_blocks.resize(r.below(4)); break; }
    case 18: { E.entity_blocks.resize(r.below(4)); break; }
    default: N.num_nodes = wild(r, N.num_nodes); E.num_elements = wild(r, E.num_elements);
    }
}
void save_and_load(Ctx& c, const MshSpec& s, const std::string& what)
{
    Outcome w = save_bytes(s);
    if (!w.ok()) {
        bool wide = false;
        if (w.kind == E_CORRUPT) wide = true; // a tag that does not fit: C20
        if (!wide || w.kind == E_NONSTD) c.violation("accepted-not-saved", "validate_spec accepts, save_msh: " + w.str() + " (" + what + "; " + describe(s) + ")");
        else c.note("saving refused a tag");
        return;
    }
    Outcome l = load_bytes(w.bytes);
    if (!l.ok()) { c.violation("accepted-not-loadable", "validate_spec accepts, but what save_msh writes cannot be loaded: " + l.str() + " (" + what + "; " + describe(s) + ")", shorten(w.bytes, 2000)); return; }
    unsigned cmp = CMP_DATA; // a tag range without any block is not written
    if (!s.nodes.entity_blocks.empty()) cmp |= CMP_NODES;
    if (!s.elements.entity_blocks.empty()) cmp |= CMP_ELEMENTS;
    std::string d = diff_flat(s, l.spec);
    if (d.empty() && s.mesh_format.version == "4.1") d = diff(s, l.spec, cmp);
    if (d.empty()) d = diff(s, l.spec, CMP_DATA);
    expect_same(c, d, "accepted-not-kept", "validate_spec accepts, but the saved file holds something else (" + what + "; " + describe(s) + ")", shorten(w.bytes, 2000));
    c.note("accepted specs saved and loaded");
}
void c11(Ctx& c)
{
    Rng& r = c.rng;
    const auto& P = probes();
    if (c.index < 2 * P.size()) { // the known gaps: crash of validate_spec, or of save_msh on what it accepted
        const Probe& p = P[c.index / 2];
        MshSpec s = p.make();
        s.mesh_format.file_type = (int)(c.index & 1);
        const char* enc = c.index & 1 ? "binary" : "ascii";
        c.eval(); c.note("probes of single rules"); c.nontrivial(fnv(p.name) + (c.index & 1));
        ChildEnd e = in_child([&] { Outcome v = validate(s); return v.ok() ? 10 : v.kind == E_NONSTD ? 12 : 11; });
        if (e.crashed) { c.violation(std::string("crash-") + p.name, std::string("validate_spec crashes (") + enc + "): " + p.what); return; }
        if (e.code == 12) { c.violation("nonstd", "validate_spec throws something not derived from std::exception"); return; }
        if (e.code != 10) { c.note("probe rejected"); return; }
        e = in_child([&] {
            Outcome w = save_bytes(s);
            if (!w.ok()) return w.kind == E_NONSTD ? 12 : w.kind == E_CORRUPT ? 10 : 13;
            Outcome l = load_bytes(w.bytes);
            if (!l.ok()) return 14;
            std::string d = s.mesh_format.version == "4.1" ? diff(s, l.spec, CMP_NODES | CMP_ELEMENTS | CMP_DATA | CMP_NANO) : diff_flat(s, l.spec);
            return d.empty() ? 10 : 15; });
        if (e.crashed) c.violation(std::string("save-") + p.name, std::string("validate_spec accepts, save_msh leaves its memory (") + enc + "): " + p.what);
        else if (e.code == 13) c.violation(std::string("save-") + p.name, std::string("validate_spec accepts, save_msh throws (") + enc + "): " + p.what);
        else if (e.code == 14) c.violation(std::string("save-") + p.name, std::string("validate_spec accepts, the saved file cannot be loaded (") + enc + "): " + p.what);
        else if (e.code == 15) c.violation(std::string("save-") + p.name, std::string("validate_spec accepts, the saved file holds something else (") + enc + "): " + p.what);
        else if (e.code != 10) c.violation("harness", "probe ended with " + std::to_string(e.code));
        return;
    }
    const int ft = (int)r.below(2);
    const bool v22 = r.flip();
    GenOpt o; o.version = kVer[v22]; o.file_type = ft; o.finite = ft == 0; o.tags32 = r.flip() ? v22 : r.flip(); o.printable = r.flip(); o.size = r.chance(1, 3) ? 1 : 0;
    if (v22 && ft == 0) o.tags32 = true; // data tags beyond 32 bits in 2.2 ASCII: not specified
    MshSpec s;
    if (!r.chance(1, 10)) s = gen_spec(r, o); else { s.mesh_format.version = o.version; s.mesh_format.file_type = ft; }
    const size_t k = r.below(4);
    for (size_t n = k; n > 0; n--) mutate(r, s);
    c.eval(); c.nontrivial(shape(s) ^ fnv(std::to_string(k)));
    // known finding V1: the division by the number of elements; kept out of the random specs
    for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block == 0 || b.data.size() < b.num_elements_in_block) { b.num_elements_in_block = 1 + r.below(3); if (b.data.size() < b.num_elements_in_block) b.data.resize(b.num_elements_in_block + r.below(9), s.elements.min_element_tag); }
    Outcome v = validate(s);
    c.note(v.ok() ? "accepted" : "rejected");
    if (v.kind == E_NONSTD) { c.violation("nonstd", "validate_spec throws something not derived from std::exception"); return; }
    const std::string rule = broken_rule(s);
    c.sample(describe(s) + " -> " + v.str() + (rule.empty() ? "" : " [" + rule + "]"));
    if (!v.ok()) { if (rule.empty()) c.violation("rejects-valid", "validate_spec rejects a valid spec: " + v.str() + " (" + describe(s) + ")"); return; }
    if (rule.empty()) { save_and_load(c, s, "no rule broken"); return; }
    if (rule[0] == 'V') { c.note("accepted although broken, known finding " + rule.substr(0, 2)); return; }
    c.violation("accepts-invalid", "validate_spec accepts a spec that breaks a rule: " + rule.substr(2) + " (" + describe(s) + ")");
}
Reg r11("C11", c11);

} // namespace
