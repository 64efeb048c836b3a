// C01, C02, C03, C17: what was saved is what is loaded.
#include "common.h"
#include "refcodec.h"

#include <cmath>

using namespace vf;
namespace {

// Save through a stream or a file, load through a stream or a file.
bool round_trip(Ctx& c, const MshSpec& s, MshSpec& out, std::string* bytes = nullptr)
{
    const unsigned mode = (unsigned)c.rng.below(8);
    std::string b;
    if (mode == 0) {
        std::string p = c.tmp + "/rt.msh";
        Outcome o = save_file(p, s);
        if (!o.ok()) { c.violation("save-throws", "save_msh(file) of a valid spec: " + o.str() + " [" + describe(s) + "]"); return false; }
        b = slurp(p);
    } else {
        Outcome o = save_bytes(s);
        if (!o.ok() || o.stream_failed) { c.violation("save-throws", "save_msh of a valid spec: " + o.str() + (o.stream_failed ? " (stream failed)" : "") + " [" + describe(s) + "]"); return false; }
        b = o.bytes;
    }
    Outcome l;
    if (mode == 1) { std::string p = c.tmp + "/rt.msh"; spit(p, b); l = load_file(p); }
    else if (mode == 2) { ChunkBuf cb(b, c.rng.next(), 64); std::istream in(&cb); l = load_stream(in); }
    else l = load_bytes(b);
    c.note(mode == 0 || mode == 1 ? "through a file" : mode == 2 ? "through a chunked stream" : "through a string stream");
    c.note("bytes written", b.size());
    if (!l.ok()) { c.violation("load-throws", "load_msh of what save_msh wrote: " + l.str() + " [" + describe(s) + "]", shorten(b, 3000)); return false; }
    out = std::move(l.spec);
    if (bytes) *bytes = b;
    return true;
}
void observe(Ctx& c, const MshSpec& s)
{
    c.eval();
    c.nontrivial(shape(s));
    c.note(s.mesh_format.version + (s.mesh_format.file_type ? " binary" : " ascii"));
    c.note("nodes", s.nodes.num_nodes);
    c.note("elements", s.elements.num_elements);
    c.note("data entries", [&] { size_t n = 0; for (auto* d : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& x : *d) n += x.entries.size(); return n; }());
    for (auto& b : s.nodes.entity_blocks) { if (b.parametric) c.note("parametric blocks"); if (b.tags.empty()) c.note("empty node blocks"); }
    for (auto& b : s.elements.entity_blocks) { c.note("element type " + std::to_string(b.element_type)); if (b.data.empty()) c.note("empty element blocks"); }
    if (s.nodes.max_node_tag > 2147483647ull) c.note("specs with tags beyond 32 bits");
    c.sample(describe(s));
}
GenOpt options(Ctx& c, const char* version, int ft)
{
    GenOpt o;
    o.version = version; o.file_type = ft; o.finite = ft == 0; o.stairs = true;
    const uint64_t k = c.rng.below(20);
    o.size = k < 4 ? 0 : k < 18 ? 1 : 2;
    o.exact_range = c.rng.chance(1, 4);
    return o;
}
// Only the arrays differ from the default: for specs that have no nodes at all but blocks.
MshSpec only_empty_blocks(Ctx& c, const GenOpt& o)
{
    MshSpec s;
    s.mesh_format.version = o.version; s.mesh_format.file_type = o.file_type;
    s.nodes.entity_blocks.resize(1 + c.rng.below(3));
    for (auto& b : s.nodes.entity_blocks) { b.entity_dim = (int)c.rng.below(4); b.entity_tag = gen_int(c.rng); b.parametric = (int)c.rng.below(2); }
    s.nodes.num_entity_blocks = s.nodes.entity_blocks.size();
    if (c.rng.flip()) {
        s.elements.entity_blocks.resize(1 + c.rng.below(3));
        for (auto& b : s.elements.entity_blocks) { b.element_type = (int)c.rng.range(1, 31); b.entity_dim = edim(b.element_type); b.entity_tag = gen_int(c.rng); }
        s.elements.num_entity_blocks = s.elements.entity_blocks.size();
    }
    return s;
}

void c01(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, "4.1", ft);
    o.data = c.rng.chance(1, 4);
    o.nano = c.rng.chance(1, 6);
    MshSpec s;
    if (c.index % 97 == 5) s = only_empty_blocks(c, o);
    else if (c.index % 401 == 11) { o.data = false; s = gen_large(c.rng, o, c.thorough ? 200000 : 20000); }
    else s = gen_spec(c.rng, o);
    observe(c, s);
    MshSpec t;
    if (!round_trip(c, s, t)) return;
    unsigned what = CMP_FORMAT | CMP_NODES | CMP_ELEMENTS | CMP_ENTITIES | CMP_GROUPS;
    expect_same(c, diff(s, t, what), "roundtrip-41", "saved -> loaded (" + describe(s) + ")");
    // a second pass over the loaded spec must be the identity as well
    if (c.rng.chance(1, 4)) { MshSpec u; if (round_trip(c, t, u)) expect_same(c, diff(t, u, what), "roundtrip-41-again", "loaded, saved, loaded (" + describe(s) + ")"); }
}
Reg r01("C01", c01);

void c02(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, "2.2", ft);
    o.tags32 = true;
    o.data = c.rng.chance(1, 4);
    o.nano = c.rng.chance(1, 6);
    MshSpec s;
    if (c.index % 97 == 5) s = only_empty_blocks(c, o);
    else if (c.index % 401 == 11) { o.data = false; s = gen_large(c.rng, o, c.thorough ? 200000 : 20000); }
    else s = gen_spec(c.rng, o);
    observe(c, s);
    MshSpec t;
    if (!round_trip(c, s, t)) return;
    const std::string d = describe(s);
    if (!expect_same(c, diff_flat(s, t), "roundtrip-22", "saved -> loaded (" + d + ")")) return;
    if (!expect_same(c, diff(s, t, CMP_FORMAT | CMP_GROUPS), "roundtrip-22", "saved -> loaded (" + d + ")")) return;
    if (!expect_same(c, check_v22_consistency(t), "inconsistent-22", "loaded spec is not self-consistent (" + d + ")")) return;
    Outcome v = validate(t);
    if (!v.ok()) c.violation("validate-22", "validate_spec rejects a loaded 2.2 spec: " + v.str() + " (" + d + ")");
}
Reg r02("C02", c02);

void c03(Ctx& c)
{
    static const char* ver[] = {"4.1", "2.2"};
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, ver[(c.index >> 1) & 1], ft);
    if ((c.index >> 1) & 1) o.tags32 = true;
    MshSpec s;
    if (c.rng.chance(1, 3)) s = gen_spec(c.rng, o);
    else { s.mesh_format.version = o.version; s.mesh_format.file_type = ft; }
    s.node_data.clear(); s.element_data.clear(); s.element_node_data.clear();
    if (c.index % 50 < 4) { MshSpec l = gen_stairs(c.rng, o); s.node_data = l.node_data; s.element_data = l.element_data; s.element_node_data = l.element_node_data; }
    else if (c.index % 401 == 11) { MshSpec l = gen_large(c.rng, o, c.thorough ? 200000 : 20000); s.node_data = l.node_data; s.element_data = l.element_data; }
    else {
        const bool one = c.rng.chance(1, 2);
        auto many = [&] { return one ? c.rng.below(2) : c.rng.below(6); };
        for (size_t k = many(); k > 0; k--) s.node_data.push_back(gen_data(c.rng, o, false));
        for (size_t k = many(); k > 0; k--) s.element_data.push_back(gen_data(c.rng, o, false));
        for (size_t k = many(); k > 0; k--) s.element_node_data.push_back(gen_data(c.rng, o, true));
        if (s.node_data.empty() && s.element_data.empty() && s.element_node_data.empty()) s.element_node_data.push_back(gen_data(c.rng, o, true));
        if (c.rng.chance(1, 4)) for (auto* v : {&s.node_data, &s.element_data, &s.element_node_data}) repeat_fields(c.rng, *v);
        if (c.rng.chance(1, 4)) gen_coherent(c.rng, s, o);
    }
    observe(c, s);
    c.note("data fields", s.node_data.size() + s.element_data.size() + s.element_node_data.size());
    MshSpec t;
    if (!round_trip(c, s, t)) return;
    if (!expect_same(c, diff(s, t, CMP_DATA | CMP_FORMAT), "roundtrip-data", "saved -> loaded (" + describe(s) + ")")) return;
    for (auto* d : {&t.node_data, &t.element_data})
        for (auto& x : *d) for (auto& e : x.entries) if (e.num_nodes_per_element != 0) { c.violation("roundtrip-data", "an entry of node or element data came back with a node count"); return; }
}
Reg r03("C03", c03);

// C17: chains of conversions.
void c17(Ctx& c)
{
    GenOpt o;
    o.tags32 = true; o.dims_match = true; o.version = "4.1"; o.file_type = 0; o.finite = true; o.stairs = true;
    o.size = c.index % 40 == 7 ? 2 : 1;
    MshSpec s = gen_spec(c.rng, o);
    if (c.rng.flip()) for (auto& b : s.nodes.entity_blocks) if (b.parametric) { // drop the coordinates 2.2 cannot hold
        std::vector<double> d; const size_t m = (size_t)(3 + b.entity_dim);
        for (size_t i = 0; i < b.tags.size(); i++) d.insert(d.end(), b.data.begin() + (long)(i * m), b.data.begin() + (long)(i * m + 3));
        b.data = d; b.parametric = 0;
    }
    MshSpec cur = s;
    std::string path;
    const size_t steps = 2 + c.rng.below(c.thorough ? 10 : 5);
    observe(c, s);
    for (size_t k = 0; k < steps; k++) {
        const int enc = (int)c.rng.below(4);
        cur.mesh_format.version = enc & 2 ? "2.2" : "4.1"; cur.mesh_format.file_type = enc & 1;
        path += (k ? " -> " : "") + cur.mesh_format.version + (enc & 1 ? "b" : "a");
        MshSpec t; std::string b1;
        if (!round_trip(c, cur, t, &b1)) return;
        c.note("conversion steps");
        if (!expect_same(c, diff_flat(s, t), "chain", "after " + path + " (" + describe(s) + ")")) return;
        if (!expect_same(c, diff(s, t, CMP_GROUPS | CMP_DATA), "chain", "after " + path + " (" + describe(s) + ")")) return;
        bool empty_block = false; // validate_spec and empty element blocks: see C12
        for (auto& b : t.elements.entity_blocks) empty_block |= b.data.empty();
        Outcome v;
        if (!empty_block) { v = validate(t); c.note("specs validated"); }
        if (!v.ok()) { c.violation("chain", "validate_spec rejects the spec after " + path + ": " + v.str()); return; }
        // re-save: b1 was written from cur; t = load(b1); b2 = save(t); b3 = save(load(b2)) must equal b2
        if (k + 1 == steps || c.rng.chance(1, 3)) {
            Outcome b2 = save_bytes(t);
            if (!b2.ok()) { c.violation("resave", "saving a loaded spec: " + b2.str()); return; }
            if (enc < 2 && b2.bytes != b1) { c.violation("resave", "4.1: save(load(bytes)) differs from bytes after " + path, shorten(b1, 2000)); return; }
            Outcome l2 = load_bytes(b2.bytes);
            if (!l2.ok()) { c.violation("resave", "loading a re-saved file: " + l2.str()); return; }
            Outcome b3 = save_bytes(l2.spec);
            if (!b3.ok() || b3.bytes != b2.bytes) { c.violation("resave", "bytes still change on the second re-save after " + path, shorten(b2.bytes, 2000)); return; }
            c.note("fixed points checked");
        }
        cur = std::move(t);
    }
    // foreign file: re-saving reaches a fixed point
    if (c.rng.chance(1, 3)) {
        const int ft = (int)c.rng.below(2); const bool v22 = c.rng.flip();
        Layout lay = gen_layout(c.rng, ft != 0); lay.repeat = c.rng.chance(1, 8);
        File f;
        if (v22) f = write22(gen_model22(c.rng, ft, 1), lay, c.rng.fork());
        else { GenOpt p; p.file_type = ft; p.finite = ft == 0; p.printable = true; f = write41(gen_spec(c.rng, p), lay, c.rng.fork()); }
        Outcome l = load_bytes(f.bytes);
        if (!l.ok()) { c.violation("foreign", "a conforming file is refused: " + l.str(), shorten(f.bytes, 2000)); return; }
        Outcome b1 = save_bytes(l.spec);
        Outcome l1 = b1.ok() ? load_bytes(b1.bytes) : Outcome();
        Outcome b2 = l1.ok() ? save_bytes(l1.spec) : Outcome();
        if (!b1.ok() || !l1.ok() || !b2.ok() || b1.bytes != b2.bytes) { c.violation("foreign", "re-saving a foreign file does not reach a fixed point: " + b1.str() + "/" + l1.str() + "/" + b2.str(), shorten(f.bytes, 2000)); return; }
        c.note("foreign files re-saved");
    }
}
Reg r17("C17", c17);

} // namespace
