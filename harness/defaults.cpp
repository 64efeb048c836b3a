// C29: what a new object holds, whatever was in its memory before.
#include "common.h"
#include "refcodec.h"

#include <new>
#include <type_traits>

using namespace vf;
using namespace mshio;

namespace {

// One object of type T made in memory that holds a pattern, in one of the ways users make them.
template <class T, class F>
void in_dirty(Rng& r, F look)
{
    const int byte = (int)r.below(256);
    switch (r.below(5)) {
    case 0: { // T x;
        alignas(T) unsigned char mem[sizeof(T)];
        memset(mem, byte, sizeof mem);
        asm volatile("" : : "r"(mem) : "memory");
        T* p = new (mem) T;
        look(*p);
        p->~T();
        break; }
    case 1: { // T x{};
        alignas(T) unsigned char mem[sizeof(T)];
        memset(mem, byte, sizeof mem);
        asm volatile("" : : "r"(mem) : "memory");
        T* p = new (mem) T{};
        look(*p);
        p->~T();
        break; }
    case 2: { // new T
        Mem::set_fill(byte);
        T* p = new T;
        Mem::set_fill(-1);
        look(*p);
        delete p;
        break; }
    case 3: { // vector<T>(n)
        Mem::set_fill(byte);
        std::vector<T> v(1 + r.below(4));
        Mem::set_fill(-1);
        for (auto& x : v) look(x);
        break; }
    default: { // emplace_back and resize of a vector that grows
        Mem::set_fill(byte);
        std::vector<T> v;
        for (size_t n = 1 + r.below(5); n > 0; n--) { if (r.flip()) v.emplace_back(); else v.resize(v.size() + 1); }
        Mem::set_fill(-1);
        for (auto& x : v) look(x);
        break; }
    }
}

std::string g_what; // the first member that is wrong
template <class A, class B> void is(const char* member, const A& have, const B& want)
{
    if (g_what.empty() && !(have == (A)want)) { std::ostringstream s; s << member << " is " << have << ", not " << want; g_what = s.str(); }
}
void zero(const char* member, double have) { if (g_what.empty() && !same_bits(have, 0.0)) { std::ostringstream s; s << member << " is " << have << ", not 0"; g_what = s.str(); } }
template <class A> void none(const char* member, const A& v) { is(member, v.size(), 0u); }

void look(const MeshFormat& x) { is("MeshFormat::version", x.version, "4.1"); is("MeshFormat::file_type", x.file_type, 0); is("MeshFormat::data_size", x.data_size, 8); }
void look(const NodeBlock& x) { is("NodeBlock::entity_dim", x.entity_dim, 0); is("NodeBlock::entity_tag", x.entity_tag, 0); is("NodeBlock::parametric", x.parametric, 0); is("NodeBlock::num_nodes_in_block", x.num_nodes_in_block, 0); none("NodeBlock::tags", x.tags); none("NodeBlock::data", x.data); }
void look(const Nodes& x) { is("Nodes::num_entity_blocks", x.num_entity_blocks, 0); is("Nodes::num_nodes", x.num_nodes, 0); is("Nodes::min_node_tag", x.min_node_tag, 0); is("Nodes::max_node_tag", x.max_node_tag, 0); none("Nodes::entity_blocks", x.entity_blocks); }
void look(const ElementBlock& x) { is("ElementBlock::entity_dim", x.entity_dim, 0); is("ElementBlock::entity_tag", x.entity_tag, 0); is("ElementBlock::element_type", x.element_type, 0); is("ElementBlock::num_elements_in_block", x.num_elements_in_block, 0); none("ElementBlock::data", x.data); }
void look(const Elements& x) { is("Elements::num_entity_blocks", x.num_entity_blocks, 0); is("Elements::num_elements", x.num_elements, 0); is("Elements::min_element_tag", x.min_element_tag, 0); is("Elements::max_element_tag", x.max_element_tag, 0); none("Elements::entity_blocks", x.entity_blocks); }
void look(const DataHeader& x) { none("DataHeader::string_tags", x.string_tags); none("DataHeader::real_tags", x.real_tags); none("DataHeader::int_tags", x.int_tags); }
void look(const DataEntry& x) { is("DataEntry::tag", x.tag, 0); is("DataEntry::num_nodes_per_element", x.num_nodes_per_element, 0); none("DataEntry::data", x.data); }
void look(const Data& x) { look(x.header); none("Data::entries", x.entries); }
void look(const PointEntity& x) { is("PointEntity::tag", x.tag, 0); zero("PointEntity::x", x.x); zero("PointEntity::y", x.y); zero("PointEntity::z", x.z); none("PointEntity::physical_group_tags", x.physical_group_tags); }
template <class T> void box(const T& x) { is("entity tag", x.tag, 0); zero("entity min_x", x.min_x); zero("entity min_y", x.min_y); zero("entity min_z", x.min_z); zero("entity max_x", x.max_x); zero("entity max_y", x.max_y); zero("entity max_z", x.max_z); none("entity physical_group_tags", x.physical_group_tags); }
void look(const CurveEntity& x) { box(x); none("CurveEntity::boundary_point_tags", x.boundary_point_tags); }
void look(const SurfaceEntity& x) { box(x); none("SurfaceEntity::boundary_curve_tags", x.boundary_curve_tags); }
void look(const VolumeEntity& x) { box(x); none("VolumeEntity::boundary_surface_tags", x.boundary_surface_tags); }
void look(const Entities& x) { none("Entities::points", x.points); none("Entities::curves", x.curves); none("Entities::surfaces", x.surfaces); none("Entities::volumes", x.volumes); is("Entities::empty()", x.empty(), true); }
void look(const PhysicalGroup& x) { is("PhysicalGroup::dim", x.dim, 0); is("PhysicalGroup::tag", x.tag, 0); is("PhysicalGroup::name", x.name, ""); }
void look(const NanoSplineFormat& x) { is("NanoSplineFormat::version", x.version, "1.0"); }
void look(const Curve& x) { is("Curve::curve_tag", x.curve_tag, 0); is("Curve::curve_type", x.curve_type, 0); is("Curve::curve_degree", x.curve_degree, 0); is("Curve::num_control_points", x.num_control_points, 0); is("Curve::num_knots", x.num_knots, 0); is("Curve::with_weights", x.with_weights, 0); none("Curve::data", x.data); }
void look(const Patch& x) { is("Patch::patch_tag", x.patch_tag, 0); is("Patch::patch_type", x.patch_type, 0); is("Patch::degree_u", x.degree_u, 0); is("Patch::degree_v", x.degree_v, 0); is("Patch::num_control_points", x.num_control_points, 0); is("Patch::num_u_knots", x.num_u_knots, 0); is("Patch::num_v_knots", x.num_v_knots, 0); is("Patch::with_weights", x.with_weights, 0); none("Patch::data", x.data); }
void look(const MshSpec& x)
{
    look(x.mesh_format); look(x.nodes); look(x.elements); look(x.entities); look(x.nanospline_format);
    none("MshSpec::physical_groups", x.physical_groups); none("MshSpec::node_data", x.node_data); none("MshSpec::element_data", x.element_data); none("MshSpec::element_node_data", x.element_node_data);
    none("MshSpec::curves", x.curves); none("MshSpec::patches", x.patches);
}
template <class T> void check(Ctx& c, const char* name)
{
    g_what.clear();
    in_dirty<T>(c.rng, [](const T& x) { look(x); });
    c.eval(); c.note(std::string("new objects: ") + name);
    if (!g_what.empty()) c.violation("default", std::string("a new ") + name + ": " + g_what);
}

// Entities::empty() says whether there are entities.
void empty_query(Ctx& c)
{
    Entities e;
    const unsigned mask = (unsigned)c.rng.below(16);
    if (mask & 1) e.points.resize(1 + c.rng.below(3));
    if (mask & 2) e.curves.resize(1 + c.rng.below(3));
    if (mask & 4) e.surfaces.resize(1 + c.rng.below(3));
    if (mask & 8) e.volumes.resize(1 + c.rng.below(3));
    c.eval(); c.note("Entities::empty() asked");
    if (e.empty() != (mask == 0)) c.violation("empty", "Entities::empty() is " + std::string(e.empty() ? "true" : "false") + " with kinds of entities present: " + std::to_string(mask));
}

// A new spec can be validated, saved and loaded as it is, and what a file does not mention is as in a new spec.
void new_spec(Ctx& c)
{
    Rng& r = c.rng;
    MshSpec s;
    static const char* const versions[] = {"4.1", "2.2"};
    const bool plain = r.chance(1, 4);
    if (!plain) { s.mesh_format.version = versions[r.below(2)]; s.mesh_format.file_type = (int)r.below(2); }
    Outcome v = validate(s);
    c.eval();
    if (!v.ok()) c.violation("new-spec", "validate_spec refuses a new spec: " + v.str());
    Outcome w = save_bytes(s);
    if (!w.ok() || w.stream_failed) { c.violation("new-spec", "a new spec is not saved: " + w.str()); return; }
    Outcome l = load_bytes(w.bytes);
    c.eval(2); c.note("new specs saved and loaded");
    if (!l.ok()) { c.violation("new-spec", "a new spec, saved, does not load: " + l.str(), w.bytes); return; }
    expect_same(c, diff(s, l.spec), "new-spec", "a new spec, saved and loaded", w.bytes);
    // A subset of the contents of a spec: the rest is as in a new one.
    GenOpt o; o.version = versions[r.below(2)]; o.file_type = (int)r.below(2); o.tags32 = true; o.size = 0; o.printable = true;
    MshSpec full = gen_spec(r, o), part;
    part.mesh_format = full.mesh_format;
    unsigned mask = (unsigned)r.below(128);
    if (o.version == "2.2") mask &= ~3u; // 2.2 derives entities and blocks from the elements: C02 and C06
    if (mask & 1) part.nodes = full.nodes;
    if (mask & 2) part.elements = full.elements;
    if (mask & 4 && o.version == "4.1") part.entities = full.entities;
    if (mask & 8) part.physical_groups = full.physical_groups;
    if (mask & 16) part.node_data = full.node_data;
    if (mask & 32) part.element_data = full.element_data;
    if (mask & 64) part.element_node_data = full.element_node_data;
    if (!(mask & 2)) part.elements = Elements();
    std::string bytes;
    if (o.version == "4.1") {
        Layout lay; // only the sections that have contents
        File f = write41(part, lay, r.fork());
        bytes = f.bytes;
    } else {
        Model22 m; m.file_type = o.file_type; m.has_nodes = m.has_elements = false;
        m.groups = part.physical_groups; m.node_data = part.node_data; m.element_data = part.element_data; m.element_node_data = part.element_node_data;
        bytes = write22(m, Layout(), r.fork()).bytes;
    }
    Mem::set_fill((int)r.below(256));
    Outcome q = load_bytes(bytes);
    Mem::set_fill(-1);
    c.eval(); c.note("files with some sections only");
    c.nontrivial(shape(part) ^ mask);
    c.sample("sections " + std::to_string(mask) + ": " + describe(part));
    if (!q.ok()) { c.violation("absent-sections", "a file with some sections only does not load: " + q.str(), bytes); return; }
    expect_same(c, diff(part, q.spec), "absent-sections", "a file with some sections only (mask " + std::to_string(mask) + ")", bytes);
}

void c29(Ctx& c)
{
    switch (c.rng.below(18)) {
    case 0: check<MeshFormat>(c, "MeshFormat"); break;
    case 1: check<NodeBlock>(c, "NodeBlock"); break;
    case 2: check<Nodes>(c, "Nodes"); break;
    case 3: check<ElementBlock>(c, "ElementBlock"); break;
    case 4: check<Elements>(c, "Elements"); break;
    case 5: check<DataHeader>(c, "DataHeader"); break;
    case 6: check<DataEntry>(c, "DataEntry"); break;
    case 7: check<Data>(c, "Data"); break;
    case 8: check<PointEntity>(c, "PointEntity"); break;
    case 9: check<CurveEntity>(c, "CurveEntity"); break;
    case 10: check<SurfaceEntity>(c, "SurfaceEntity"); break;
    case 11: check<VolumeEntity>(c, "VolumeEntity"); break;
    case 12: check<Entities>(c, "Entities"); break;
    case 13: check<PhysicalGroup>(c, "PhysicalGroup"); break;
    case 14: check<NanoSplineFormat>(c, "NanoSplineFormat"); break;
    case 15: check<Curve>(c, "Curve"); break;
    case 16: check<Patch>(c, "Patch"); break;
    default: check<MshSpec>(c, "MshSpec"); break;
    }
    empty_query(c);
    new_spec(c);
}
Reg r29("C29", c29);

} // namespace
