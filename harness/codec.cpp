// C04, C05, C06, C07, C18: the bytes, judged by an independent reader and writer.
#include "common.h"
#include "refcodec.h"

using namespace vf;

// Other build of the library in the same process (shim_def.cpp).
void* def_load(const std::string& bytes, std::string& what);
bool def_save(const void* spec, std::string& bytes, std::string& what);

namespace {

static const char* kVer[] = {"4.1", "2.2"};

GenOpt options(Ctx& c, const char* version, int ft)
{
    GenOpt o;
    o.version = version; o.file_type = ft; o.finite = ft == 0; o.stairs = true;
    const uint64_t k = c.rng.below(20);
    o.size = k < 4 ? 0 : k < 18 ? 1 : 2;
    o.tags32 = std::string(version) == "2.2";
    return o;
}
Outcome def_load_bytes(const std::string& b)
{
    Outcome o;
    void* p = def_load(b, o.what);
    if (!p) { o.kind = E_RUNTIME; return o; }
    MshSpec* s = static_cast<MshSpec*>(p); // same definition, other namespace
    o.spec = std::move(*s);
    delete s;
    return o;
}

// ---------------------------------------------------------------- C04
void check_conforming(Ctx& c, const MshSpec& s, const std::string& bytes, bool nano, const std::string& d)
{
    try {
        if (s.mesh_format.version == "4.1") {
            MshSpec t = read41(bytes);
            unsigned what = CMP_ALL & ~(unsigned)CMP_NANO;
            if (nano) what |= CMP_NANO;
            else if (!t.curves.empty() || !t.patches.empty()) { c.violation("conforming", "curves or patches written by a build without the extension"); return; }
            expect_same(c, diff(s, t, what), "conforming", "an independent reader decodes something else than the spec that was saved (" + d + ")", shorten(bytes, 2000));
        } else {
            MshSpec n;
            Model22 m = read22(bytes, &n);
            if ((m.file_type ? 1 : 0) != s.mesh_format.file_type) { c.violation("conforming", "file type"); return; }
            auto fn = flat_nodes(s); auto fe = flat_elems(s);
            std::ostringstream o; o.precision(17);
            if (fn.size() != m.nodes.size()) o << "number of nodes: " << fn.size() << " saved, file has " << m.nodes.size();
            for (size_t i = 0; i < m.nodes.size() && o.tellp() == 0; i++)
                if ((uint64_t)m.nodes[i].tag != fn[i].tag || !same_bits(m.nodes[i].x, fn[i].x) || !same_bits(m.nodes[i].y, fn[i].y) || !same_bits(m.nodes[i].z, fn[i].z))
                    o << "node " << i << ": saved " << fn[i].tag << " (" << fn[i].x << "," << fn[i].y << "," << fn[i].z << "), file has " << m.nodes[i].tag << " (" << m.nodes[i].x << "," << m.nodes[i].y << "," << m.nodes[i].z << ")";
            if (o.tellp() == 0 && fe.size() != m.elems.size()) o << "number of elements: " << fe.size() << " saved, file has " << m.elems.size();
            for (size_t i = 0; i < m.elems.size() && o.tellp() == 0; i++) {
                const auto& e = m.elems[i];
                std::vector<uint64_t> nn(e.nodes.begin(), e.nodes.end());
                const bool entity = e.tags.size() == 1 ? e.tags[0] == fe[i].entity : e.tags.size() >= 2 ? e.tags[1] == fe[i].entity : false;
                if ((uint64_t)e.tag != fe[i].tag || e.type != fe[i].type || nn != fe[i].nodes || !entity) o << "element " << i << " of tag " << fe[i].tag << " type " << fe[i].type << " entity " << fe[i].entity << " is in the file as tag " << e.tag << " type " << e.type << " with " << e.tags.size() << " tags" << (nn != fe[i].nodes ? " and other nodes" : "");
            }
            std::string dd = o.str();
            if (dd.empty()) { MshSpec t; t.physical_groups = m.groups; t.node_data = m.node_data; t.element_data = m.element_data; t.element_node_data = m.element_node_data; dd = diff(s, t, CMP_GROUPS | CMP_DATA); }
            if (dd.empty() && nano) dd = diff(s, n, CMP_NANO);
            expect_same(c, dd, "conforming", "an independent reader decodes something else than the spec that was saved (" + d + ")", shorten(bytes, 2000));
        }
    } catch (const std::runtime_error& e) {
        c.violation("conforming", std::string("not a conforming file: ") + e.what() + " (" + d + ")", shorten(bytes, 2000));
    }
}
void c04(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, kVer[(c.index >> 1) & 1], ft);
    o.printable = true;
    o.nano = c.rng.chance(1, 4);
    MshSpec s = gen_spec(c.rng, o);
    if (c.rng.chance(1, 12)) { // fields or entries without any value
        mshio::Data d; d.header.string_tags = {"none"}; d.header.int_tags = {0, 0, 2}; d.entries.resize(2); d.entries[0].tag = 1; d.entries[1].tag = 2;
        if (c.rng.flip()) s.node_data.push_back(d);
        else { d.header.int_tags[1] = 1; s.element_node_data.push_back(d); }
    }
    c.eval(); c.nontrivial(shape(s)); c.note(s.mesh_format.version + (ft ? " binary" : " ascii")); c.sample(describe(s));
    Outcome w = save_bytes(s);
    if (!w.ok() || w.stream_failed) { c.violation("save-throws", "save_msh of a valid spec: " + w.str()); return; }
    c.note("bytes decoded by the independent reader", w.bytes.size());
    check_conforming(c, s, w.bytes, true, describe(s) + ", extension on");
    std::string b, what;
    if (!def_save(&s, b, what)) { c.violation("save-throws", "save_msh of a valid spec (build without extension): " + what); return; }
    check_conforming(c, s, b, false, describe(s) + ", extension off");
    c.note("files decoded", 2);
}
Reg r04("C04", c04);

// ---------------------------------------------------------------- C05
Outcome load_somehow(Ctx& c, const std::string& b)
{
    switch (c.rng.below(8)) {
    case 0: { c.note("through a file"); std::string p = c.tmp + "/in.msh"; spit(p, b); return load_file(p); }
    case 1: { c.note("through a chunked stream"); ChunkBuf cb(b, c.rng.next(), 1 + c.rng.below(80)); std::istream in(&cb); return load_stream(in); }
    case 2: { c.note("in the build without extension"); return def_load_bytes(b); }
    default: return load_bytes(b);
    }
}
void observe_file(Ctx& c, const File& f, const Layout& l, const std::string& sample)
{
    c.eval(); c.nontrivial(f.shape ^ fnv(std::to_string(f.bytes.size())));
    c.note("bytes loaded", f.bytes.size()); c.note("sections", f.sections.size());
    if (l.crlf) c.note("CRLF files"); if (l.shuffle) c.note("shuffled section order"); if (!l.nl_before_end) c.note("glued end markers"); if (!l.final_newline) c.note("no final line break");
    for (auto& s : f.sections) if (!s.known) c.note("unsupported sections"); else c.note("$" + s.name);
    c.sample(sample + " layout: " + l.str());
}
void c05(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, "4.1", ft);
    o.printable = true;
    MshSpec s = gen_spec(c.rng, o);
    Layout l = gen_layout(c.rng, ft != 0);
    File f = write41(s, l, c.rng.fork());
    observe_file(c, f, l, describe(s));
    Outcome r = load_somehow(c, f.bytes);
    if (!r.ok()) { c.violation("refused-41", "a conforming 4.1 file is refused: " + r.str() + " (" + describe(s) + "; " + l.str() + ")", shorten(f.bytes, 2000)); return; }
    expect_same(c, diff(s, r.spec, CMP_ALL & ~(unsigned)CMP_NANO), "loads-41", "the file says one thing, load_msh another (" + describe(s) + "; " + l.str() + ")", shorten(f.bytes, 2000));
}
Reg r05("C05", c05);

// ---------------------------------------------------------------- C06
void c06(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    const uint64_t k = c.rng.below(20);
    Model22 m = gen_model22(c.rng, ft, k < 4 ? 0 : k < 18 ? 1 : 2);
    Layout l = gen_layout(c.rng, ft != 0);
    File f = write22(m, l, c.rng.fork());
    const std::string d = "2.2 " + std::string(ft ? "binary" : "ascii") + " nodes=" + std::to_string(m.nodes.size()) + " elements=" + std::to_string(m.elems.size()) + "; " + l.str();
    observe_file(c, f, l, d);
    for (auto& e : m.elems) c.note("elements with " + std::to_string(e.tags.size()) + " tags");
    Outcome r = load_somehow(c, f.bytes);
    if (!r.ok()) { c.violation("refused-22", "a conforming 2.2 file is refused: " + r.str() + " (" + d + ")", shorten(f.bytes, 2000)); return; }
    expect_same(c, diff22(m, r.spec), "loads-22", "the file says one thing, load_msh another (" + d + ")", shorten(f.bytes, 2000));
}
Reg r06("C06", c06);

// ---------------------------------------------------------------- C07
void c07(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    if (c.index % 6 == 5) { // $NanoSplineFormat, $Curves and $Patches are unsupported in the build without the extension
        GenOpt o = options(c, kVer[(c.index / 6) & 1], (int)((c.index / 12) & 1));
        o.nano = true;
        MshSpec s = gen_spec(c.rng, o);
        Outcome w = save_bytes(s);
        if (!w.ok()) { c.violation("save-throws", w.str()); return; }
        MshSpec n = s; n.curves.clear(); n.patches.clear();
        Outcome wn = save_bytes(n);
        c.eval(); c.nontrivial(shape(s)); c.note("files with curves and patches read without the extension"); c.note("curves and patches skipped", s.curves.size() + s.patches.size());
        Outcome a = def_load_bytes(w.bytes), b = def_load_bytes(wn.bytes);
        if (!a.ok() || !b.ok()) { c.violation("skip-refused", "file with curves and patches, build without extension: " + a.str() + "; without them: " + b.str() + " (" + describe(s) + ")", shorten(w.bytes, 2000)); return; }
        expect_same(c, diff(a.spec, b.spec, CMP_ALL & ~(unsigned)CMP_NANO), "skip", "curves and patches disturb the rest in a build without the extension (" + describe(s) + ")", shorten(w.bytes, 2000));
        return;
    }
    Layout l = gen_layout(c.rng, ft != 0);
    l.stray = c.rng.chance(2, 3); l.unknown = !l.stray || c.rng.chance(2, 3); l.unknown_binary = c.rng.flip();
    const bool v22 = (c.index >> 1) & 1;
    Outcome r; File f; std::string d, what;
    if (!v22) {
        GenOpt o = options(c, "4.1", ft); o.printable = true;
        MshSpec s = gen_spec(c.rng, o);
        f = write41(s, l, c.rng.fork());
        observe_file(c, f, l, describe(s));
        what = describe(s) + "; " + l.str();
        r = load_somehow(c, f.bytes);
        if (r.ok()) d = diff(s, r.spec, CMP_ALL & ~(unsigned)CMP_NANO);
    } else {
        Model22 m = gen_model22(c.rng, ft, 1);
        f = write22(m, l, c.rng.fork());
        what = "2.2 nodes=" + std::to_string(m.nodes.size()) + " elements=" + std::to_string(m.elems.size()) + "; " + l.str();
        observe_file(c, f, l, what);
        r = load_somehow(c, f.bytes);
        if (r.ok()) d = diff22(m, r.spec);
    }
    if (!r.ok()) { c.violation("skip-refused", "a file with extra sections or stray text is refused: " + r.str() + " (" + what + ")", shorten(f.bytes, 2000)); return; }
    expect_same(c, d, "skip", "extra sections or stray text change the result (" + what + ")", shorten(f.bytes, 2000));
}
Reg r07("C07", c07);

// ---------------------------------------------------------------- C25
void c25(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    Layout l = gen_layout(c.rng, ft != 0);
    l.repeat = true; l.unknown = c.rng.chance(1, 5); l.stray = c.rng.chance(1, 8);
    Outcome r; File f; std::string d, what;
    unsigned rest = CMP_ALL & ~(unsigned)CMP_NANO;
    if (c.index % 8 == 6 || c.index % 8 == 7) { // curves and patches: sections of two files of this library put together
        GenOpt o; o.version = "4.1"; o.file_type = ft; o.finite = ft == 0; o.nano = true; o.mesh = o.data = o.entities = false; o.size = 1;
        std::vector<MshSpec> part;
        MshSpec all; all.mesh_format.version = kVer[(c.index >> 3) & 1]; all.mesh_format.file_type = ft;
        for (size_t n = 2 + c.rng.below(3); n > 0; n--) {
            MshSpec s; s.mesh_format = all.mesh_format;
            gen_nano(c.rng, s, o); if (c.rng.chance(1, 5)) gen_repeats(c.rng, s);
            s.nanospline_format = all.nanospline_format;
            Outcome w = save_bytes(s);
            if (!w.ok()) { c.violation("save-throws", w.str()); return; }
            const size_t cut = f.bytes.empty() ? 0 : w.bytes.find("$EndMeshFormat\n") + 15;
            f.bytes += w.bytes.substr(cut);
            all.curves.insert(all.curves.end(), s.curves.begin(), s.curves.end());
            all.patches.insert(all.patches.end(), s.patches.begin(), s.patches.end());
        }
        what = describe(all);
        c.eval(); c.nontrivial(shape(all)); c.note("files with repeated curves and patches"); c.sample(what);
        if (c.rng.flip()) r = load_bytes(f.bytes);
        else { ChunkBuf cb(f.bytes, c.rng.next(), 1 + c.rng.below(80)); std::istream in(&cb); r = load_stream(in); }
        if (r.ok()) d = diff(all, r.spec, CMP_ALL);
    } else if ((c.index >> 1) & 1) {
        const uint64_t k = c.rng.below(20);
        Model22 m = gen_model22(c.rng, ft, k < 6 ? 0 : k < 19 ? 1 : 2);
        f = write22(m, l, c.rng.fork());
        what = "2.2 nodes=" + std::to_string(m.nodes.size()) + " elements=" + std::to_string(m.elems.size()) + "; " + l.str();
        observe_file(c, f, l, what);
        r = load_somehow(c, f.bytes);
        if (r.ok()) d = diff22(m, r.spec);
    } else {
        GenOpt o = options(c, "4.1", ft); o.printable = true;
        MshSpec s = gen_spec(c.rng, o);
        f = write41(s, l, c.rng.fork());
        what = describe(s) + "; " + l.str();
        observe_file(c, f, l, what);
        r = load_somehow(c, f.bytes);
        if (r.ok()) d = diff(s, r.spec, rest);
    }
    std::map<std::string, int> kinds;
    for (auto& s : f.sections) if (s.known) kinds[s.name]++;
    for (auto& kv : kinds) if (kv.second > 1) c.note("files with several $" + kv.first);
    if (!r.ok()) { c.violation("repeat-refused", "a file with repeated sections is refused: " + r.str() + " (" + what + ")", shorten(f.bytes, 2000)); return; }
    if (!expect_same(c, d, "repeat", "repeated sections: the file says one thing, load_msh another (" + what + ")", shorten(f.bytes, 2000))) return;
    for (auto& b : r.spec.elements.entity_blocks) if (b.num_elements_in_block == 0) return; // validate_spec: known finding
    Outcome v = validate(r.spec);
    if (!v.ok()) c.violation("repeat-invalid", "validate_spec refuses what was loaded from a file with repeated sections: " + v.str() + " (" + what + ")", shorten(f.bytes, 2000));
}
Reg r25("C25", c25);

// ---------------------------------------------------------------- C18
void c18(Ctx& c)
{
    const int ft = (int)(c.index & 1);
    GenOpt o = options(c, kVer[(c.index >> 1) & 1], ft);
    o.nano = true;
    MshSpec s;
    if (c.rng.chance(1, 3)) s = gen_spec(c.rng, o);
    else if (c.rng.chance(1, 40)) { o.mesh = o.data = o.entities = false; s = gen_stairs(c.rng, o); }
    else { s.mesh_format.version = o.version; s.mesh_format.file_type = ft; gen_nano(c.rng, s, o); if (c.rng.chance(1, 4)) gen_repeats(c.rng, s); }
    c.eval(); c.nontrivial(shape(s) ^ fnv(s.nanospline_format.version)); c.note(s.mesh_format.version + (ft ? " binary" : " ascii"));
    c.note("curves", s.curves.size()); c.note("patches", s.patches.size()); c.sample(describe(s));
    for (auto& x : s.curves) c.note(x.with_weights ? "weighted curves" : "unweighted curves");
    for (auto& x : s.patches) c.note(x.with_weights ? "weighted patches" : "unweighted patches");
    Outcome w = save_bytes(s);
    if (!w.ok() || w.stream_failed) { c.violation("save-throws", "save_msh of a valid spec: " + w.str() + " (" + describe(s) + ")"); return; }
    Outcome r;
    if (c.rng.chance(1, 6)) { ChunkBuf cb(w.bytes, c.rng.next(), 1 + c.rng.below(64)); std::istream in(&cb); r = load_stream(in); } else r = load_bytes(w.bytes);
    if (!r.ok()) { c.violation("load-throws", "load_msh of what save_msh wrote: " + r.str() + " (" + describe(s) + ")", shorten(w.bytes, 2000)); return; }
    if (!expect_same(c, diff(s, r.spec, CMP_NANO | CMP_FORMAT | CMP_DATA | CMP_GROUPS), "nano", "saved -> loaded (" + describe(s) + ")", shorten(w.bytes, 2000))) return;
    std::string d = o.version == "4.1" ? diff(s, r.spec, CMP_NODES | CMP_ELEMENTS | CMP_ENTITIES) : diff_flat(s, r.spec);
    if (!expect_same(c, d, "nano-rest", "curves and patches disturb the rest (" + describe(s) + ")", shorten(w.bytes, 2000))) return;
    Outcome q = def_load_bytes(w.bytes);
    if (!q.ok()) { c.violation("nano-def", "the build without the extension refuses the file: " + q.str() + " (" + describe(s) + ")", shorten(w.bytes, 2000)); return; }
    if (!q.spec.curves.empty() || !q.spec.patches.empty()) { c.violation("nano-def", "the build without the extension loads curves or patches"); return; }
    expect_same(c, diff(r.spec, q.spec, CMP_ALL & ~(unsigned)CMP_NANO), "nano-def", "rest of the spec differs in the build without the extension (" + describe(s) + ")", shorten(w.bytes, 2000));
}
Reg r18("C18", c18);

} // namespace
