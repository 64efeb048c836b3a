#include "refcodec.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

namespace vf {

// The element table of the MSH documentation (README "Supported element types").
static const int kNodes[32] = {0, 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15, 13, 9, 10, 12, 15, 15, 21, 4, 5, 6, 20, 35, 56};
static const int kDims[32] = {0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 3, 3, 3};

std::string Layout::str() const
{
    std::ostringstream o;
    o << (crlf ? "crlf " : "") << "spacing" << spacing << " spelling" << spelling << (shuffle ? " shuffled" : "") << (final_newline ? "" : " no-final-newline")
      << (nl_before_end ? "" : " glued-end") << (repeat ? " repeated" : "") << (stray ? " stray" : "") << (unknown ? " unknown" : "") << (unknown_binary ? "(binary)" : "") << (unknown_before_format ? " unknown-first" : "");
    return o.str();
}
Layout gen_layout(Rng& r, bool binary)
{
    Layout l;
    l.crlf = !binary && r.chance(1, 3);
    l.spacing = (int)r.below(3);
    l.spelling = (int)r.below(4);
    l.shuffle = r.chance(1, 2);
    l.final_newline = !r.chance(1, 3);
    l.nl_before_end = r.flip();
    return l;
}

namespace {

std::string spell(double d, int style, Rng& r)
{
    char b[64];
    if (style == 3) style = (int)r.below(5);
    switch (style) {
    case 1: snprintf(b, sizeof b, "%.16e", d); break;
    case 2:
        for (int p : {1, 6, 15, 16, 17}) { snprintf(b, sizeof b, "%.*g", p, d); if (same_bits(strtod(b, nullptr), d)) break; }
        break;
    case 4: {
        snprintf(b, sizeof b, "%.17g", d);
        std::string s = b;
        if (s.find_first_of(".e") == std::string::npos) return s + (r.flip() ? "." : ".0");
        for (auto& c : s) if (c == 'e') c = 'E';
        return s; }
    case 3: snprintf(b, sizeof b, "%.19e", d); break;
    default: snprintf(b, sizeof b, "%.17g", d);
    }
    return b;
}

struct Writer {
    File f;
    const Layout& l;
    Rng r;
    bool binary;
    size_t cur = 0;
    bool line_start = true;
    Writer(const Layout& lay, Rng rng, bool bin) : l(lay), r(rng), binary(bin) {}

    void raw(const std::string& s) { f.bytes += s; }
    template <class T> void pod(T v) { f.bytes.append(reinterpret_cast<const char*>(&v), sizeof v); }
    void blanks()
    {
        if (l.spacing == 0) return;
        static const char* k[] = {"", " ", "  ", "\t"};
        raw(k[r.below(l.spacing == 1 ? 3 : 4)]);
    }
    void sep() { if (!line_start) raw(l.spacing == 2 && r.chance(1, 5) ? "\t" : " "); blanks(); line_start = false; }
    void nl()
    {
        if (!binary) blanks();
        raw(l.crlf ? "\r\n" : "\n");
        line_start = true;
    }
    void nlb() { nl(); if (!binary && l.spacing == 2 && r.chance(1, 10)) nl(); } // maybe a blank line after
    void token(const std::string& s) { sep(); f.numbers.push_back({f.bytes.size(), f.bytes.size() + s.size(), cur}); raw(s); }
    template <class T> void i(T v) { token(std::to_string(v)); }
    void d(double v) { token(spell(v, l.spelling, r)); }
    void str(const std::string& s) { sep(); raw("\"" + s + "\""); }
    void word(const std::string& s) { sep(); raw(s); }

    void begin(const std::string& name, bool known)
    {
        cur = f.sections.size();
        f.sections.push_back({name, f.bytes.size(), 0, known});
        raw("$" + name); line_start = false;
        // white space after the opening marker would be taken for payload in binary sections
        raw(l.crlf ? "\r\n" : "\n"); line_start = true;
    }
    void end(bool payload)
    {
        if (payload && binary) { if (l.nl_before_end) raw("\n"); }
        raw("$End" + f.sections[cur].name);
        f.sections[cur].end = f.bytes.size();
        if (!binary) blanks();
        raw(l.crlf ? "\r\n" : "\n"); line_start = true;
    }

    void format(const std::string& version, int file_type)
    {
        begin("MeshFormat", true);
        sep(); raw(version); i(file_type); i(8);
        if (binary) { blanks(); raw("\n"); pod<int32_t>(1); end(true); } else { nl(); end(false); }
    }
    void groups(const std::vector<mshio::PhysicalGroup>& g)
    {
        begin("PhysicalNames", true);
        i(g.size()); nl();
        for (auto& x : g) { i(x.dim); i(x.tag); str(x.name); nl(); }
        end(false);
    }
    void data(const char* name, const mshio::Data& dt, bool en)
    {
        begin(name, true);
        const auto& h = dt.header;
        i(h.string_tags.size()); nl(); for (auto& s : h.string_tags) { str(s); nl(); }
        i(h.real_tags.size()); nl(); for (auto x : h.real_tags) { d(x); nl(); }
        i(h.int_tags.size()); nl();
        for (size_t k = 0; k < h.int_tags.size(); k++) {
            i(h.int_tags[k]);
            if (binary && k + 1 == h.int_tags.size()) { raw("\n"); line_start = true; } else nl();
        }
        for (auto& e : dt.entries) {
            if (binary) {
                pod<int32_t>((int32_t)e.tag); if (en) pod<int32_t>(e.num_nodes_per_element);
                for (auto x : e.data) pod(x);
            } else {
                i(e.tag); if (en) i(e.num_nodes_per_element);
                for (auto x : e.data) d(x);
                nlb();
            }
        }
        end(true);
    }
    // A section name that no build supports: well-known ones, invented ones, and small edits of supported ones.
    std::string unknown_name()
    {
        static const char* names[] = {"Periodic", "PartitionedEntities", "GhostElements", "Parametrizations", "InterpolationScheme", "Comments",
            "Foo", "Node", "NodesX", "ElementDataX", "nodes", "Curve", "NODES", "PhysicalName", "MeshFormat2", "Nodes2"};
        static const char* known[] = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches"};
        if (r.flip()) return names[r.below(16)];
        static const char alphabet[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:";
        for (;;) {
            std::string n = known[r.below(11)];
            auto ch = [&] { return alphabet[r.below(sizeof(alphabet) - 1)]; };
            switch (r.below(8)) {
            case 0: for (size_t k = 1 + r.below(8); k > 0; k--) n += ch(); break;
            case 1: n += known[r.below(11)]; break;
            case 2: n = ch() + n; break;
            case 3: n.resize(1 + r.below(n.size() - 1)); break;
            case 4: n.erase(0, 1 + r.below(n.size() - 1)); break;
            case 5: { size_t p = r.below(n.size()); n[p] = (char)(n[p] ^ 0x20); break; }
            case 6: n[r.below(n.size())] = ch(); break;
            default: n.clear(); for (size_t k = 1 + r.below(r.chance(1, 10) ? 300 : 20); k > 0; k--) n += ch();
            }
            bool bad = n.compare(0, 3, "End") == 0;
            for (auto k : known) if (n == k) bad = true;
            if (!bad) return n;
        }
    }
    void unknown()
    {
        const std::string name = unknown_name();
        begin(name.c_str(), false);
        const std::string own[] = {"$" + name, "$End" + name + "X", "$End" + name.substr(0, name.size() - 1), "End" + name, "$end" + name};
        static const char* lines[] = {"0", "1 2 3", "some text", "$Nodes", "$EndNodes", "$Elements", "$EndElements", "$MeshFormat", "2.2 0 8", "\"quoted", "$", "$End", "$$", "# comment", "3 -1 1e400 nan", "$NodeData", "9999999999999999999999", "\\", "$EndMeshFormat"};
        size_t n = r.chance(1, 60) ? 2000 + r.below(4000) : r.below(8);
        if (r.chance(1, 60)) raw(std::string(1 + r.below(200000), 'x') + (l.crlf ? "\r\n" : "\n"));
        for (size_t k = 0; k < n; k++) { raw(r.chance(1, 8) ? own[r.below(5)] : std::string(lines[r.below(sizeof(lines) / sizeof(*lines))])); raw(l.crlf ? "\r\n" : "\n"); }
        bool glued = false;
        if (l.unknown_binary) {
            size_t m = r.below(200);
            for (size_t k = 0; k < m; k++) { char c = (char)(unsigned char)r.below(256); raw(std::string(1, c)); }
            glued = !l.nl_before_end;
            if (!glued) raw("\n");
        }
        raw("$End" + f.sections[cur].name);
        f.sections[cur].end = f.bytes.size();
        raw(l.crlf ? "\r\n" : "\n"); line_start = true;
    }
    void between()
    {
        if (l.stray && r.chance(1, 2)) {
            static const char* k[] = {"stray text", "12 34 -5", "Nodes", "EndNodes", "\"", "% comment", "a$Nodes", "-$EndElements", "\x01\x02\x7f"};
            for (size_t n = 1 + r.below(3); n > 0; n--) { raw(k[r.below(9)]); raw(l.crlf ? "\r\n" : "\n"); }
        }
        if (!binary && l.spacing == 2 && r.chance(1, 3)) raw(l.crlf ? "\r\n" : "\n");
        if (l.unknown) for (size_t n = r.below(3); n > 0; n--) unknown();
    }
    using Parts = std::vector<std::function<void()>>; // sections of one kind, which keep their order
    // Cuts [0,n) into the ranges that go to one section each.
    std::vector<std::pair<size_t, size_t>> cut(size_t n)
    {
        std::vector<std::pair<size_t, size_t>> p;
        size_t at = 0;
        if (l.repeat) for (size_t k = r.chance(1, 20) ? 30 : r.below(4); k > 0; k--) { size_t e = at + r.below(n - at + 1); p.push_back({at, e}); at = e; }
        p.push_back({at, n});
        return p;
    }
    void finish(std::vector<Parts> sections, bool shuffle)
    {
        std::vector<size_t> order;
        for (size_t k = 0; k < sections.size(); k++) order.insert(order.end(), l.repeat ? sections[k].size() : 1, k);
        if (shuffle) for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.below(k)]);
        std::vector<size_t> next(sections.size(), 0);
        for (size_t k : order) {
            if (l.repeat) { between(); sections[k][next[k]++](); }
            else { between(); for (auto& part : sections[k]) part(); }
        }
        between();
        if (!l.final_newline) while (!f.bytes.empty() && (f.bytes.back() == '\n' || f.bytes.back() == '\r' || f.bytes.back() == ' ' || f.bytes.back() == '\t')) f.bytes.pop_back();
        uint64_t h = fnv(l.str());
        for (auto& s : f.sections) h = fnv(s.name, h);
        f.shape = h;
    }
};

void box(Writer& w, bool bin, int tag, const double* b, const std::vector<int>& phys, const std::vector<int>* bound)
{
    if (bin) {
        w.pod<int32_t>(tag); for (int k = 0; k < 6; k++) w.pod(b[k]);
        w.pod<uint64_t>(phys.size()); for (int x : phys) w.pod<int32_t>(x);
        w.pod<uint64_t>(bound->size()); for (int x : *bound) w.pod<int32_t>(x);
    } else {
        w.i(tag); for (int k = 0; k < 6; k++) w.d(b[k]);
        w.i(phys.size()); for (int x : phys) w.i(x);
        w.i(bound->size()); for (int x : *bound) w.i(x);
        w.nlb();
    }
}
template <class E> void box(Writer& w, bool bin, const E& e, const std::vector<int>& bound)
{
    double b[6] = {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z};
    box(w, bin, e.tag, b, e.physical_group_tags, &bound);
}
} // namespace

template <class T> std::vector<T> slice(const std::vector<T>& v, std::pair<size_t, size_t> p)
{
    return std::vector<T>(v.begin() + (long)std::min(p.first, v.size()), v.begin() + (long)std::min(p.second, v.size()));
}
File write41(const MshSpec& s, const Layout& l, Rng r)
{
    const bool bin = s.mesh_format.file_type != 0;
    Writer w(l, r, bin);
    if (l.unknown_before_format) w.unknown();
    w.format("4.1", bin ? 1 : 0);
    std::vector<Writer::Parts> sec;
    if (!s.physical_groups.empty() || w.r.chance(1, 8)) {
        sec.emplace_back();
        for (auto p : w.cut(s.physical_groups.size())) sec.back().push_back([&, p] { w.groups(slice(s.physical_groups, p)); });
    }
    if (!s.entities.empty() || w.r.chance(1, 8)) {
        sec.emplace_back();
        const auto& all = s.entities;
        for (auto p : w.cut(std::max(std::max(all.points.size(), all.curves.size()), std::max(all.surfaces.size(), all.volumes.size())))) sec.back().push_back([&, p] {
            mshio::Entities e{slice(all.points, p), slice(all.curves, p), slice(all.surfaces, p), slice(all.volumes, p)};
            w.begin("Entities", true);
            size_t c[4] = {e.points.size(), e.curves.size(), e.surfaces.size(), e.volumes.size()};
            for (size_t k = 0; k < 4; k++) if (bin) w.pod<uint64_t>(c[k]); else w.i(c[k]);
            if (!bin) w.nl();
            for (auto& p : e.points) {
                if (bin) { w.pod<int32_t>(p.tag); w.pod(p.x); w.pod(p.y); w.pod(p.z); w.pod<uint64_t>(p.physical_group_tags.size()); for (int x : p.physical_group_tags) w.pod<int32_t>(x); }
                else { w.i(p.tag); w.d(p.x); w.d(p.y); w.d(p.z); w.i(p.physical_group_tags.size()); for (int x : p.physical_group_tags) w.i(x); w.nlb(); }
            }
            for (auto& x : e.curves) box(w, bin, x, x.boundary_point_tags);
            for (auto& x : e.surfaces) box(w, bin, x, x.boundary_curve_tags);
            for (auto& x : e.volumes) box(w, bin, x, x.boundary_surface_tags);
            w.end(true);
        });
    }
    // A repeated section announces the range of its own tags now and then, else the range of the file.
    if (!s.nodes.entity_blocks.empty() || w.r.chance(1, 8)) {
        sec.emplace_back();
        const auto& N = s.nodes;
        const auto parts = w.cut(N.entity_blocks.size());
        size_t global = w.r.below(parts.size());
        for (size_t q = 0; q < parts.size(); q++) for (auto& b : slice(N.entity_blocks, parts[q])) if (!b.tags.empty()) global = q;
        for (size_t q = 0; q < parts.size(); q++) sec.back().push_back([&, q, parts, global] {
            const auto blocks = slice(N.entity_blocks, parts[q]);
            uint64_t n = 0, lo = UINT64_MAX, hi = 0;
            for (auto& b : blocks) { n += b.tags.size(); for (auto t : b.tags) { lo = std::min<uint64_t>(lo, t); hi = std::max<uint64_t>(hi, t); } }
            w.begin("Nodes", true);
            uint64_t h[4] = {blocks.size(), parts.size() == 1 ? N.num_nodes : n, N.min_node_tag, N.max_node_tag};
            if (n == 0 && N.num_nodes > 0) { if (w.r.flip()) h[2] = h[3] = 0; } // no nodes: its range means nothing
            else if (q != global && n && w.r.flip()) { h[2] = lo; h[3] = hi; }
            for (auto v : h) if (bin) w.pod<uint64_t>(v); else w.i(v);
            if (!bin) w.nl();
            for (auto& b : blocks) {
                if (bin) {
                    w.pod<int32_t>(b.entity_dim); w.pod<int32_t>(b.entity_tag); w.pod<int32_t>(b.parametric); w.pod<uint64_t>(b.tags.size());
                    for (auto t : b.tags) w.pod<uint64_t>(t);
                    for (auto x : b.data) w.pod(x);
                } else {
                    w.i(b.entity_dim); w.i(b.entity_tag); w.i(b.parametric); w.i(b.tags.size()); w.nlb();
                    for (auto t : b.tags) { w.i(t); w.nl(); }
                    size_t m = b.tags.empty() ? 1 : b.data.size() / b.tags.size();
                    for (size_t k = 0; k < b.data.size(); k++) { w.d(b.data[k]); if ((k + 1) % m == 0) w.nl(); }
                }
            }
            w.end(true);
        });
    }
    if (!s.elements.entity_blocks.empty() || w.r.chance(1, 8)) {
        sec.emplace_back();
        const auto& E = s.elements;
        const auto parts = w.cut(E.entity_blocks.size());
        size_t global = w.r.below(parts.size());
        for (size_t q = 0; q < parts.size(); q++) for (auto& b : slice(E.entity_blocks, parts[q])) if (!b.data.empty()) global = q;
        for (size_t q = 0; q < parts.size(); q++) sec.back().push_back([&, q, parts, global] {
            const auto blocks = slice(E.entity_blocks, parts[q]);
            uint64_t n = 0, lo = UINT64_MAX, hi = 0;
            for (auto& b : blocks) { const size_t m = (size_t)kNodes[b.element_type] + 1; for (size_t k = 0; k < b.data.size(); k += m) { n++; lo = std::min<uint64_t>(lo, b.data[k]); hi = std::max<uint64_t>(hi, b.data[k]); } }
            w.begin("Elements", true);
            uint64_t h[4] = {blocks.size(), parts.size() == 1 ? E.num_elements : n, E.min_element_tag, E.max_element_tag};
            if (n == 0 && E.num_elements > 0) { if (w.r.flip()) h[2] = h[3] = 0; }
            else if (q != global && n && w.r.flip()) { h[2] = lo; h[3] = hi; }
            for (auto v : h) if (bin) w.pod<uint64_t>(v); else w.i(v);
            if (!bin) w.nl();
            for (auto& b : blocks) {
                const size_t m = (size_t)kNodes[b.element_type] + 1;
                if (bin) {
                    w.pod<int32_t>(b.entity_dim); w.pod<int32_t>(b.entity_tag); w.pod<int32_t>(b.element_type); w.pod<uint64_t>(b.data.size() / m);
                    for (auto t : b.data) w.pod<uint64_t>(t);
                } else {
                    w.i(b.entity_dim); w.i(b.entity_tag); w.i(b.element_type); w.i(b.data.size() / m); w.nlb();
                    for (size_t k = 0; k < b.data.size(); k++) { w.i(b.data[k]); if ((k + 1) % m == 0) w.nl(); }
                }
            }
            w.end(true);
        });
    }
    auto fields = [&](const char* name, const std::vector<mshio::Data>& v, bool en) {
        if (v.empty()) return;
        sec.emplace_back();
        for (auto& d : v) sec.back().push_back([&w, &d, name, en] { w.data(name, d, en); });
    };
    fields("NodeData", s.node_data, false);
    fields("ElementData", s.element_data, false);
    fields("ElementNodeData", s.element_node_data, true);
    w.finish(sec, l.shuffle);
    return w.f;
}

Model22 gen_model22(Rng& r, int file_type, int size)
{
    Model22 m;
    m.file_type = file_type;
    m.has_nodes = !r.chance(1, 15);
    const size_t n = m.has_nodes && !r.chance(1, 12) ? gen_count(r, size) + (r.chance(3, 4) ? 3 : 0) : 0;
    auto tags = gen_tags(r, n, true);
    for (size_t i = 0; i < n; i++) m.nodes.push_back({(int)tags[i], gen_double(r, file_type == 0), gen_double(r, file_type == 0), gen_double(r, file_type == 0)});
    m.has_elements = !r.chance(1, 15);
    const size_t ne = n && m.has_elements && !r.chance(1, 12) ? gen_count(r, size) + gen_count(r, size) : 0;
    auto et = gen_tags(r, ne, true);
    int type = 2, entity = 1, phys = 1;
    size_t ntags = r.below(4);
    const int ntypes = (int)r.range(1, 4);
    std::vector<int> types;
    for (int i = 0; i < ntypes; i++) if (ne > 4000) types.push_back((int)r.range(1, 4)); else types.push_back(r.chance(1, 3) ? std::vector<int>{9, 10, 13, 15}[r.below(4)] : (int)r.range(1, 31));
    const int persist = (int)r.range(0, 9);
    const size_t span = r.chance(1, 3) ? 1 + n / 2 : n;
    if (size && n && m.has_elements && r.chance(1, 40)) { // runs of elements of one kind whose lengths are around those of buffers and chunks
        int tag = 1 + (int)r.below(300);
        for (size_t len : stairs(r, 4096)) {
            const int ty = std::vector<int>{15, 1, 2, 4, 8}[r.below(5)];
            const size_t nt = r.below(5);
            for (size_t i = 0; i < len; i++) {
                Elem22 e; e.tag = tag++; e.type = ty;
                for (size_t k = 0; k < nt; k++) e.tags.push_back(1 + (int)r.below(2));
                for (int k = 0; k < kNodes[ty]; k++) e.nodes.push_back((int)tags[r.below(span)]);
                m.elems.push_back(std::move(e));
            }
        }
    } else for (size_t i = 0; i < ne; i++) {
        if (i == 0 || (int)r.below(10) >= persist) type = types[r.below(types.size())];
        if (i == 0 || (int)r.below(10) >= persist) entity = r.chance(2, 3) ? (int)r.range(1, 4) : gen_int(r);
        if (i == 0 || (int)r.below(10) >= persist) phys = r.chance(2, 3) ? (int)r.range(0, 4) : gen_int(r);
        if ((int)r.below(12) >= persist) ntags = size && ne < 60 && r.chance(1, 40) ? gen_threshold(r) % 1500 : r.below(6);
        Elem22 e; e.tag = (int)et[i]; e.type = type;
        for (size_t k = 0; k < ntags; k++) e.tags.push_back(k == 0 ? phys : k == 1 ? entity : gen_int(r));
        if (ntags == 1) e.tags[0] = entity;
        for (int k = 0; k < kNodes[type]; k++) e.nodes.push_back((int)tags[r.below(span)]);
        m.elems.push_back(std::move(e));
    }
    GenOpt o; o.version = "2.2"; o.file_type = file_type; o.finite = file_type == 0; o.tags32 = true; o.printable = true; o.size = std::min(size, 1);
    MshSpec tmp;
    if (r.flip()) gen_groups(r, tmp, o);
    m.groups = tmp.physical_groups;
    for (size_t i = r.below(3); i > 0; i--) m.node_data.push_back(gen_data(r, o, false));
    for (size_t i = r.below(3); i > 0; i--) m.element_data.push_back(gen_data(r, o, false));
    for (size_t i = r.below(3); i > 0; i--) m.element_node_data.push_back(gen_data(r, o, true));
    if (r.chance(1, 5)) { // see gen_repeats
        repeat_groups(r, m.groups);
        for (auto* v : {&m.node_data, &m.element_data, &m.element_node_data}) repeat_fields(r, *v);
        for (size_t i = 1; i < m.nodes.size() && i < 60; i++) if (r.chance(1, 4)) { const int t = m.nodes[i].tag; m.nodes[i] = m.nodes[i - 1]; m.nodes[i].tag = t; }
        for (size_t i = 0; i < m.elems.size() && i < 200; i++) {
            auto& e = m.elems[i];
            if (i && e.nodes.size() == m.elems[i - 1].nodes.size() && r.chance(1, 3)) e.nodes = m.elems[i - 1].nodes;
            for (size_t j = 1; j < e.nodes.size(); j++) if (r.chance(1, 8)) e.nodes[j] = e.nodes[j - 1];
        }
    }
    if (r.chance(1, 6)) {
        std::vector<size_t> nt, et2, en;
        for (auto& x : m.nodes) nt.push_back((size_t)x.tag);
        for (auto& x : m.elems) { et2.push_back((size_t)x.tag); en.push_back(x.nodes.size()); }
        coherent_fields(r, nt, et2, en, file_type == 0, m.node_data, m.element_data, m.element_node_data);
    }
    return m;
}

File write22(const Model22& m, const Layout& l, Rng r)
{
    const bool bin = m.file_type != 0;
    Writer w(l, r, bin);
    if (l.unknown_before_format) w.unknown();
    w.format("2.2", bin ? 1 : 0);
    std::vector<Writer::Parts> sec;
    if (!m.groups.empty() || w.r.chance(1, 8)) {
        sec.emplace_back();
        for (auto p : w.cut(m.groups.size())) sec.back().push_back([&, p] { w.groups(slice(m.groups, p)); });
    }
    if (m.has_nodes) {
        sec.emplace_back();
        for (auto p : w.cut(m.nodes.size())) sec.back().push_back([&, p] {
            w.begin("Nodes", true);
            w.i(p.second - p.first); if (bin) { w.raw("\n"); w.line_start = true; } else w.nl();
            for (size_t k = p.first; k < p.second; k++) {
                const auto& n = m.nodes[k];
                if (bin) { w.pod<int32_t>(n.tag); w.pod(n.x); w.pod(n.y); w.pod(n.z); }
                else { w.i(n.tag); w.d(n.x); w.d(n.y); w.d(n.z); w.nlb(); }
            }
            w.end(true);
        });
    }
    if (m.has_elements) {
        sec.emplace_back();
        for (auto p : w.cut(m.elems.size())) sec.back().push_back([&, p] {
            w.begin("Elements", true);
            w.i(p.second - p.first); if (bin) { w.raw("\n"); w.line_start = true; } else w.nl();
            const int split = (int)w.r.below(4); // 0: one header per element, 3: longest runs
            for (size_t k = p.first; k < p.second;) {
                size_t e = k + 1;
                if (bin) {
                    if (split == 2 && w.r.chance(1, 8)) { // a header that announces no elements
                        w.pod<int32_t>((int32_t)(1 + w.r.below(31))); w.pod<int32_t>(0); w.pod<int32_t>((int32_t)w.r.below(5));
                    }
                    while (e < p.second && m.elems[e].type == m.elems[k].type && m.elems[e].tags.size() == m.elems[k].tags.size() && split != 0 && (split == 3 || !w.r.chance(1, 4))) e++;
                    w.pod<int32_t>(m.elems[k].type); w.pod<int32_t>((int32_t)(e - k)); w.pod<int32_t>((int32_t)m.elems[k].tags.size());
                }
                for (; k < e; k++) {
                    const auto& x = m.elems[k];
                    if (bin) { w.pod<int32_t>(x.tag); for (int t : x.tags) w.pod<int32_t>(t); for (int t : x.nodes) w.pod<int32_t>(t); }
                    else { w.i(x.tag); w.i(x.type); w.i(x.tags.size()); for (int t : x.tags) w.i(t); for (int t : x.nodes) w.i(t); w.nlb(); }
                }
            }
            w.end(true);
        });
    }
    auto fields = [&](const char* name, const std::vector<mshio::Data>& v, bool en) {
        if (v.empty()) return;
        sec.emplace_back();
        for (auto& d : v) sec.back().push_back([&w, &d, name, en] { w.data(name, d, en); });
    };
    fields("NodeData", m.node_data, false);
    fields("ElementData", m.element_data, false);
    fields("ElementNodeData", m.element_node_data, true);
    w.finish(sec, l.shuffle);
    return w.f;
}

template <class E> static std::string cmp_entities(const std::map<int, std::set<int>>& want, const std::vector<E>& got, int dim)
{
    std::map<int, std::set<int>> g;
    for (auto& e : got) {
        std::set<int> p(e.physical_group_tags.begin(), e.physical_group_tags.end());
        if (p.size() != e.physical_group_tags.size()) return "entity of dimension " + std::to_string(dim) + " tag " + std::to_string(e.tag) + " lists a physical group twice";
        if (!g.emplace(e.tag, p).second) return "entity of dimension " + std::to_string(dim) + " tag " + std::to_string(e.tag) + " appears twice";
    }
    if (g == want) return "";
    std::ostringstream o;
    o << "entities of dimension " << dim << ": file has {";
    for (auto& kv : want) { o << kv.first << ":["; for (int p : kv.second) o << p << " "; o << "] "; }
    o << "} loaded {";
    for (auto& kv : g) { o << kv.first << ":["; for (int p : kv.second) o << p << " "; o << "] "; }
    o << "}";
    return o.str();
}
std::string diff22(const Model22& m, const MshSpec& s)
{
    std::ostringstream o;
    if (s.mesh_format.version != "2.2" || s.mesh_format.file_type != (m.file_type ? 1 : 0) || s.mesh_format.data_size != 8) { o << "mesh format: " << s.mesh_format.version << " " << s.mesh_format.file_type << " " << s.mesh_format.data_size; return o.str(); }
    auto fn = flat_nodes(s);
    if (fn.size() != m.nodes.size()) { o << "number of nodes: file has " << m.nodes.size() << ", loaded " << fn.size(); return o.str(); }
    for (size_t i = 0; i < fn.size(); i++) {
        const auto& a = m.nodes[i];
        if (fn[i].tag != (uint64_t)a.tag || !same_bits(fn[i].x, a.x) || !same_bits(fn[i].y, a.y) || !same_bits(fn[i].z, a.z)) {
            o.precision(17); o << "node " << i << ": file has " << a.tag << " (" << a.x << "," << a.y << "," << a.z << "), loaded " << fn[i].tag << " (" << fn[i].x << "," << fn[i].y << "," << fn[i].z << ")"; return o.str(); }
    }
    auto fe = flat_elems(s);
    if (fe.size() != m.elems.size()) { o << "number of elements: file has " << m.elems.size() << ", loaded " << fe.size(); return o.str(); }
    std::map<int, std::set<int>> want[4];
    for (size_t i = 0; i < fe.size(); i++) {
        const auto& a = m.elems[i];
        std::vector<uint64_t> nn(a.nodes.begin(), a.nodes.end());
        if (fe[i].tag != (uint64_t)a.tag || fe[i].type != a.type || fe[i].dim != kDims[a.type] || fe[i].nodes != nn) { o << "element " << i << ": file has tag " << a.tag << " type " << a.type << ", loaded tag " << fe[i].tag << " type " << fe[i].type << " dim " << fe[i].dim << (fe[i].nodes != nn ? ", connectivity differs" : ""); return o.str(); }
        if (!a.tags.empty()) {
            int e = a.tags.size() >= 2 ? a.tags[1] : a.tags[0];
            if (fe[i].entity != e) { o << "element " << i << " (" << a.tags.size() << " tags): entity tag " << e << ", loaded " << fe[i].entity; return o.str(); }
        }
        if (a.tags.size() >= 2) want[kDims[a.type]][a.tags[1]].insert(a.tags[0]);
    }
    std::string d = check_v22_consistency(s);
    if (!d.empty()) return d;
    d = cmp_entities(want[0], s.entities.points, 0); if (!d.empty()) return d;
    d = cmp_entities(want[1], s.entities.curves, 1); if (!d.empty()) return d;
    d = cmp_entities(want[2], s.entities.surfaces, 2); if (!d.empty()) return d;
    d = cmp_entities(want[3], s.entities.volumes, 3); if (!d.empty()) return d;
    MshSpec t; t.physical_groups = m.groups; t.node_data = m.node_data; t.element_data = m.element_data; t.element_node_data = m.element_node_data;
    return diff(t, s, CMP_GROUPS | CMP_DATA);
}

// ---------------------------------------------------------------- strict readers
namespace {
[[noreturn]] void bad(const std::string& what, size_t pos) { throw std::runtime_error(what + " at byte " + std::to_string(pos)); }

struct Reader {
    const std::string& b;
    size_t p = 0;
    bool binary = false;
    explicit Reader(const std::string& bytes) : b(bytes) {}
    static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
    void skip() { while (p < b.size() && ws(b[p])) p++; }
    bool at_end() { skip(); return p >= b.size(); }
    std::string word()
    {
        skip();
        size_t s = p;
        while (p < b.size() && !ws(b[p])) p++;
        if (s == p) bad("unexpected end of file", p);
        return b.substr(s, p - s);
    }
    uint64_t u()
    {
        size_t at = p; std::string w = word();
        if (w.find_first_not_of("0123456789") != std::string::npos || w.size() > 20) bad("unsigned integer expected, found \"" + shorten(w, 40) + "\"", at);
        errno = 0; uint64_t v = strtoull(w.c_str(), nullptr, 10);
        if (errno) bad("integer out of range: " + w, at);
        return v;
    }
    int i()
    {
        size_t at = p; std::string w = word();
        size_t k = w[0] == '-' ? 1 : 0;
        if (k == w.size() || w.find_first_not_of("0123456789", k) != std::string::npos || w.size() > 11) bad("integer expected, found \"" + shorten(w, 40) + "\"", at);
        long long v = atoll(w.c_str());
        if (v != (int)v) bad("integer out of range: " + w, at);
        return (int)v;
    }
    double d()
    {
        size_t at = p; std::string w = word();
        char* e = nullptr;
        double v = strtod(w.c_str(), &e);
        if (*e || e == w.c_str() || w.find_first_of("xXnN") != std::string::npos) bad("real number expected, found \"" + shorten(w, 40) + "\"", at);
        return v;
    }
    std::string str()
    {
        skip();
        if (p >= b.size() || b[p] != '"') bad("opening quote expected", p);
        size_t e = b.find('"', p + 1);
        if (e == std::string::npos) bad("closing quote missing", p);
        std::string s = b.substr(p + 1, e - p - 1);
        if (s.find('\n') != std::string::npos) bad("line break in a string", p);
        p = e + 1;
        return s;
    }
    template <class T> T pod()
    {
        if (b.size() - p < sizeof(T)) bad("binary data cut short", p);
        T v; memcpy(&v, b.data() + p, sizeof v); p += sizeof v; return v;
    }
    void newline() // exactly one line break before binary data
    {
        if (p >= b.size() || b[p] != '\n') bad("line break expected before binary data", p);
        p++;
    }
    uint64_t size() { return binary ? pod<uint64_t>() : u(); }
    int num() { return binary ? pod<int32_t>() : i(); }
    double real() { return binary ? pod<double>() : d(); }
    std::string marker()
    {
        skip();
        if (p >= b.size()) return "";
        if (b[p] != '$' || (p > 0 && b[p - 1] != '\n')) bad("section marker expected at the start of a line", p);
        size_t e = b.find('\n', p);
        if (e == std::string::npos) bad("section marker line not terminated", p);
        std::string m = b.substr(p + 1, e - p - 1);
        p = e; // leave the line break
        return m;
    }
    void end(const std::string& name, bool payload)
    {
        if (payload && binary) { if (p < b.size() && b[p] == '\n') p++; } else { skip(); if (b[p - 1] != '\n') bad("end marker not at the start of a line", p); }
        std::string want = "$End" + name;
        if (b.compare(p, want.size(), want) != 0) bad("\"" + want + "\" expected, found \"" + json_escape(b.substr(p, 24)) + "\"", p);
        p += want.size();
        if (p >= b.size() || b[p] != '\n') bad("line break expected after " + want, p);
        p++;
    }
    template <class T> void reserve_check(uint64_t n, size_t unit) { if (n > (b.size() - p) / (unit ? unit : 1) + 1) bad("count " + std::to_string(n) + " is larger than the file", p); }
};

void read_format(Reader& r, const char* version)
{
    if (r.marker() != "MeshFormat") bad("$MeshFormat expected first", 0);
    r.newline();
    std::string v = r.word();
    if (v != version) bad("version " + std::string(version) + " expected, found " + v, r.p);
    int ft = r.i(), ds = r.i();
    if (ft != 0 && ft != 1) bad("file type 0 or 1 expected", r.p);
    if (ds != 8) bad("data size 8 expected", r.p);
    r.binary = ft == 1;
    if (r.binary) { r.newline(); if (r.pod<int32_t>() != 1) bad("integer 1 expected in the binary header", r.p); r.end("MeshFormat", true); }
    else r.end("MeshFormat", false);
}
std::vector<mshio::PhysicalGroup> read_groups(Reader& r)
{
    std::vector<mshio::PhysicalGroup> g(0);
    uint64_t n = r.u(); r.reserve_check<int>(n, 5);
    for (uint64_t k = 0; k < n; k++) { mshio::PhysicalGroup x; x.dim = r.i(); x.tag = r.i(); x.name = r.str(); g.push_back(x); }
    r.end("PhysicalNames", false);
    return g;
}
mshio::Data read_data(Reader& r, const std::string& name, bool en)
{
    mshio::Data d;
    uint64_t n = r.u(); r.reserve_check<int>(n, 2);
    for (uint64_t k = 0; k < n; k++) d.header.string_tags.push_back(r.str());
    n = r.u(); r.reserve_check<int>(n, 2);
    for (uint64_t k = 0; k < n; k++) d.header.real_tags.push_back(r.d());
    n = r.u(); r.reserve_check<int>(n, 2);
    for (uint64_t k = 0; k < n; k++) d.header.int_tags.push_back(r.i());
    if (n < 3) bad("data section with fewer than 3 integer tags", r.p);
    if (d.header.int_tags[1] < 0 || d.header.int_tags[2] < 0) bad("negative count in data section", r.p);
    if (r.binary) r.newline();
    uint64_t m = (uint64_t)d.header.int_tags[2]; r.reserve_check<int>(m, 3);
    for (uint64_t k = 0; k < m; k++) {
        mshio::DataEntry e;
        if (r.binary) { int t = r.pod<int32_t>(); if (t < 0) bad("negative tag in data section", r.p); e.tag = (size_t)t; } else e.tag = r.u();
        uint64_t c = (uint64_t)d.header.int_tags[1];
        if (en) { e.num_nodes_per_element = r.num(); if (e.num_nodes_per_element < 0) bad("negative number of nodes", r.p); c *= (uint64_t)e.num_nodes_per_element; }
        r.reserve_check<int>(c, 2);
        for (uint64_t q = 0; q < c; q++) e.data.push_back(r.real());
        d.entries.push_back(std::move(e));
    }
    r.end(name, true);
    return d;
}
std::vector<int> read_ints(Reader& r)
{
    uint64_t n = r.size(); r.reserve_check<int>(n, r.binary ? 4 : 2);
    std::vector<int> v; for (uint64_t k = 0; k < n; k++) v.push_back(r.num());
    return v;
}
template <class E> void read_box(Reader& r, E& e)
{
    e.tag = r.num(); e.min_x = r.real(); e.min_y = r.real(); e.min_z = r.real(); e.max_x = r.real(); e.max_y = r.real(); e.max_z = r.real();
    e.physical_group_tags = read_ints(r);
}
bool read_nano(Reader& r, const std::string& m, MshSpec& s)
{
    if (m == "NanoSplineFormat") { s.nanospline_format.version = r.word(); r.end(m, false); return true; }
    if (m == "Curves") {
        uint64_t n = r.u();
        for (uint64_t k = 0; k < n; k++) {
            mshio::Curve c; c.curve_tag = r.u(); c.curve_type = r.u(); c.curve_degree = r.u(); c.num_control_points = r.u(); c.num_knots = r.u(); c.with_weights = r.u();
            if (r.binary) r.newline();
            uint64_t q = c.num_control_points * (c.with_weights ? 4 : 3) + c.num_knots; r.reserve_check<int>(q, 2);
            for (uint64_t j = 0; j < q; j++) c.data.push_back(r.real());
            s.curves.push_back(std::move(c));
        }
        r.end(m, true); return true;
    }
    if (m == "Patches") {
        uint64_t n = r.u();
        for (uint64_t k = 0; k < n; k++) {
            mshio::Patch c; c.patch_tag = r.u(); c.patch_type = r.u(); c.degree_u = r.u(); c.degree_v = r.u(); c.num_control_points = r.u(); c.num_u_knots = r.u(); c.num_v_knots = r.u(); c.with_weights = r.u();
            if (r.binary) r.newline();
            uint64_t q = c.num_control_points * (c.with_weights ? 4 : 3) + c.num_u_knots + c.num_v_knots; r.reserve_check<int>(q, 2);
            for (uint64_t j = 0; j < q; j++) c.data.push_back(r.real());
            s.patches.push_back(std::move(c));
        }
        r.end(m, true); return true;
    }
    return false;
}
} // namespace

MshSpec read41(const std::string& bytes)
{
    Reader r(bytes);
    MshSpec s;
    read_format(r, "4.1");
    s.mesh_format.version = "4.1"; s.mesh_format.file_type = r.binary ? 1 : 0; s.mesh_format.data_size = 8;
    std::set<std::string> seen;
    while (!r.at_end()) {
        std::string m = r.marker();
        const bool payload_at_once = m == "Entities" || m == "Nodes" || m == "Elements";
        if (m.find("Data") == std::string::npos && !seen.insert(m).second) bad("section $" + m + " appears twice", r.p);
        if (r.binary && payload_at_once) r.newline();
        if (m == "PhysicalNames") s.physical_groups = read_groups(r);
        else if (m == "Entities") {
            uint64_t c[4]; for (auto& x : c) x = r.size();
            for (auto x : c) r.reserve_check<int>(x, 10);
            for (uint64_t k = 0; k < c[0]; k++) { mshio::PointEntity e; e.tag = r.num(); e.x = r.real(); e.y = r.real(); e.z = r.real(); e.physical_group_tags = read_ints(r); s.entities.points.push_back(e); }
            for (uint64_t k = 0; k < c[1]; k++) { mshio::CurveEntity e; read_box(r, e); e.boundary_point_tags = read_ints(r); s.entities.curves.push_back(e); }
            for (uint64_t k = 0; k < c[2]; k++) { mshio::SurfaceEntity e; read_box(r, e); e.boundary_curve_tags = read_ints(r); s.entities.surfaces.push_back(e); }
            for (uint64_t k = 0; k < c[3]; k++) { mshio::VolumeEntity e; read_box(r, e); e.boundary_surface_tags = read_ints(r); s.entities.volumes.push_back(e); }
            r.end(m, true);
        } else if (m == "Nodes") {
            auto& N = s.nodes;
            N.num_entity_blocks = r.size(); N.num_nodes = r.size(); N.min_node_tag = r.size(); N.max_node_tag = r.size();
            r.reserve_check<int>(N.num_entity_blocks, 6);
            uint64_t total = 0;
            for (uint64_t k = 0; k < N.num_entity_blocks; k++) {
                mshio::NodeBlock b; b.entity_dim = r.num(); b.entity_tag = r.num(); b.parametric = r.num(); b.num_nodes_in_block = r.size();
                if (b.entity_dim < 0 || b.entity_dim > 3) bad("entity dimension out of range", r.p);
                if (b.parametric != 0 && b.parametric != 1) bad("parametric flag is not 0 or 1", r.p);
                r.reserve_check<int>(b.num_nodes_in_block, 2);
                for (uint64_t q = 0; q < b.num_nodes_in_block; q++) b.tags.push_back(r.size());
                uint64_t mlt = (uint64_t)(3 + (b.parametric ? b.entity_dim : 0));
                for (uint64_t q = 0; q < b.num_nodes_in_block * mlt; q++) b.data.push_back(r.real());
                total += b.num_nodes_in_block;
                for (auto t : b.tags) if (t < N.min_node_tag || t > N.max_node_tag) bad("node tag outside the declared range", r.p);
                N.entity_blocks.push_back(std::move(b));
            }
            if (total != N.num_nodes) bad("declared number of nodes " + std::to_string(N.num_nodes) + " but " + std::to_string(total) + " present", r.p);
            r.end(m, true);
        } else if (m == "Elements") {
            auto& E = s.elements;
            E.num_entity_blocks = r.size(); E.num_elements = r.size(); E.min_element_tag = r.size(); E.max_element_tag = r.size();
            r.reserve_check<int>(E.num_entity_blocks, 6);
            uint64_t total = 0;
            for (uint64_t k = 0; k < E.num_entity_blocks; k++) {
                mshio::ElementBlock b; b.entity_dim = r.num(); b.entity_tag = r.num(); b.element_type = r.num(); b.num_elements_in_block = r.size();
                if (b.element_type < 1 || b.element_type > 31) bad("element type out of range", r.p);
                r.reserve_check<int>(b.num_elements_in_block, 2);
                const uint64_t w = (uint64_t)kNodes[b.element_type] + 1;
                for (uint64_t q = 0; q < b.num_elements_in_block * w; q++) {
                    uint64_t t = r.size(); b.data.push_back(t);
                    if (q % w == 0 && (t < E.min_element_tag || t > E.max_element_tag)) bad("element tag outside the declared range", r.p);
                }
                total += b.num_elements_in_block;
                E.entity_blocks.push_back(std::move(b));
            }
            if (total != E.num_elements) bad("declared number of elements " + std::to_string(E.num_elements) + " but " + std::to_string(total) + " present", r.p);
            r.end(m, true);
        } else if (m == "NodeData") s.node_data.push_back(read_data(r, m, false));
        else if (m == "ElementData") s.element_data.push_back(read_data(r, m, false));
        else if (m == "ElementNodeData") s.element_node_data.push_back(read_data(r, m, true));
        else if (!read_nano(r, m, s)) bad("unexpected section \"$" + shorten(m, 40) + "\"", r.p);
    }
    return s;
}

Model22 read22(const std::string& bytes, MshSpec* nano)
{
    Reader r(bytes);
    Model22 s;
    read_format(r, "2.2");
    s.file_type = r.binary ? 1 : 0;
    s.has_nodes = s.has_elements = false;
    MshSpec dummy;
    std::set<std::string> seen;
    while (!r.at_end()) {
        std::string m = r.marker();
        if (m.find("Data") == std::string::npos && !seen.insert(m).second) bad("section $" + m + " appears twice", r.p);
        if (m == "PhysicalNames") s.groups = read_groups(r);
        else if (m == "Nodes") {
            s.has_nodes = true;
            uint64_t n = r.u(); r.reserve_check<int>(n, 8);
            if (r.binary) r.newline();
            for (uint64_t k = 0; k < n; k++) {
                Node22 x; x.tag = r.num(); x.x = r.real(); x.y = r.real(); x.z = r.real();
                if (x.tag <= 0) bad("node number is not positive", r.p);
                s.nodes.push_back(x);
            }
            r.end(m, true);
        } else if (m == "Elements") {
            s.has_elements = true;
            uint64_t n = r.u(); r.reserve_check<int>(n, 6);
            if (r.binary) r.newline();
            for (uint64_t k = 0; k < n;) {
                int type = 0, run = 1, nt = 0;
                if (r.binary) {
                    type = r.pod<int32_t>(); run = r.pod<int32_t>(); nt = r.pod<int32_t>();
                    if (run <= 0 || (uint64_t)run > n - k) bad("element header announces " + std::to_string(run) + " elements", r.p);
                }
                for (int q = 0; q < run; q++, k++) {
                    Elem22 e; e.tag = r.num();
                    if (!r.binary) { type = r.i(); nt = r.i(); }
                    if (type < 1 || type > 31) bad("element type out of range", r.p);
                    if (nt < 0 || nt > 1000) bad("number of tags out of range", r.p);
                    if (e.tag <= 0) bad("element number is not positive", r.p);
                    e.type = type;
                    for (int t = 0; t < nt; t++) e.tags.push_back(r.num());
                    for (int t = 0; t < kNodes[type]; t++) e.nodes.push_back(r.num());
                    s.elems.push_back(std::move(e));
                }
            }
            r.end(m, true);
        } else if (m == "NodeData") s.node_data.push_back(read_data(r, m, false));
        else if (m == "ElementData") s.element_data.push_back(read_data(r, m, false));
        else if (m == "ElementNodeData") s.element_node_data.push_back(read_data(r, m, true));
        else if (!read_nano(r, m, nano ? *nano : dummy)) bad("unexpected section \"$" + shorten(m, 40) + "\"", r.p);
    }
    return s;
}

} // namespace vf
