// C23: the Python module, compiled against a stand-in for nanobind that records what it registers.
#include "common.h"
#include "refcodec.h"

#include <nanobind/nanobind.h>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>

using namespace vf;
namespace mock = nanobind::mock;
namespace {

static const char* kVer[] = {"4.1", "2.2"};

// ---------------------------------------------------------------- values as bytes
struct Bytes {
    std::string s;
    template <class T> std::enable_if_t<std::is_arithmetic<T>::value> operator()(const T& v) { s.append((const char*)&v, sizeof v); }
    void operator()(const std::string& v) { uint64_t n = v.size(); (*this)(n); s += v; }
    template <class T> void operator()(const std::vector<T>& v) { uint64_t n = v.size(); (*this)(n); for (auto& x : v) (*this)(x); }
    void operator()(const mshio::MeshFormat& v) { (*this)(v.version); (*this)(v.file_type); (*this)(v.data_size); }
    void operator()(const mshio::NodeBlock& v) { (*this)(v.entity_dim); (*this)(v.entity_tag); (*this)(v.parametric); (*this)(v.num_nodes_in_block); (*this)(v.tags); (*this)(v.data); }
    void operator()(const mshio::Nodes& v) { (*this)(v.num_entity_blocks); (*this)(v.num_nodes); (*this)(v.min_node_tag); (*this)(v.max_node_tag); (*this)(v.entity_blocks); }
    void operator()(const mshio::ElementBlock& v) { (*this)(v.entity_dim); (*this)(v.entity_tag); (*this)(v.element_type); (*this)(v.num_elements_in_block); (*this)(v.data); }
    void operator()(const mshio::Elements& v) { (*this)(v.num_entity_blocks); (*this)(v.num_elements); (*this)(v.min_element_tag); (*this)(v.max_element_tag); (*this)(v.entity_blocks); }
    void operator()(const mshio::DataHeader& v) { (*this)(v.string_tags); (*this)(v.real_tags); (*this)(v.int_tags); }
    void operator()(const mshio::DataEntry& v) { (*this)(v.tag); (*this)(v.num_nodes_per_element); (*this)(v.data); }
    void operator()(const mshio::Data& v) { (*this)(v.header); (*this)(v.entries); }
    void operator()(const mshio::PointEntity& v) { (*this)(v.tag); (*this)(v.x); (*this)(v.y); (*this)(v.z); (*this)(v.physical_group_tags); }
    template <class E> void box(const E& v) { (*this)(v.tag); for (double d : {v.min_x, v.min_y, v.min_z, v.max_x, v.max_y, v.max_z}) (*this)(d); (*this)(v.physical_group_tags); }
    void operator()(const mshio::CurveEntity& v) { box(v); (*this)(v.boundary_point_tags); }
    void operator()(const mshio::SurfaceEntity& v) { box(v); (*this)(v.boundary_curve_tags); }
    void operator()(const mshio::VolumeEntity& v) { box(v); (*this)(v.boundary_surface_tags); }
    void operator()(const mshio::Entities& v) { (*this)(v.points); (*this)(v.curves); (*this)(v.surfaces); (*this)(v.volumes); }
    void operator()(const mshio::PhysicalGroup& v) { (*this)(v.dim); (*this)(v.tag); (*this)(v.name); }
    void operator()(const mshio::MshSpec& v) { s += dump(v); }
};
template <class T> std::string bytes(const T& v) { Bytes b; b(v); return b.s; }

// ---------------------------------------------------------------- random values
struct Gen {
    Rng& r; int depth = 0;
    void operator()(int& v) { v = gen_int(r); }
    void operator()(size_t& v) { v = gen_u64(r); }
    void operator()(double& v) { v = gen_double(r, false); }
    void operator()(std::string& v) { v = gen_string(r, r.flip()); }
    template <class T> void operator()(std::vector<T>& v) { v.resize(r.below(4)); for (auto& x : v) (*this)(x); }
    void operator()(mshio::MeshFormat& v) { (*this)(v.version); (*this)(v.file_type); (*this)(v.data_size); }
    void operator()(mshio::NodeBlock& v) { (*this)(v.entity_dim); (*this)(v.entity_tag); (*this)(v.parametric); (*this)(v.num_nodes_in_block); (*this)(v.tags); (*this)(v.data); }
    void operator()(mshio::Nodes& v) { (*this)(v.num_entity_blocks); (*this)(v.num_nodes); (*this)(v.min_node_tag); (*this)(v.max_node_tag); (*this)(v.entity_blocks); }
    void operator()(mshio::ElementBlock& v) { (*this)(v.entity_dim); (*this)(v.entity_tag); (*this)(v.element_type); (*this)(v.num_elements_in_block); (*this)(v.data); }
    void operator()(mshio::Elements& v) { (*this)(v.num_entity_blocks); (*this)(v.num_elements); (*this)(v.min_element_tag); (*this)(v.max_element_tag); (*this)(v.entity_blocks); }
    void operator()(mshio::DataHeader& v) { (*this)(v.string_tags); (*this)(v.real_tags); (*this)(v.int_tags); }
    void operator()(mshio::DataEntry& v) { (*this)(v.tag); (*this)(v.num_nodes_per_element); (*this)(v.data); }
    void operator()(mshio::Data& v) { (*this)(v.header); (*this)(v.entries); }
    void operator()(mshio::PointEntity& v) { (*this)(v.tag); (*this)(v.x); (*this)(v.y); (*this)(v.z); (*this)(v.physical_group_tags); }
    template <class E> void box(E& v) { (*this)(v.tag); for (double* d : {&v.min_x, &v.min_y, &v.min_z, &v.max_x, &v.max_y, &v.max_z}) (*this)(*d); (*this)(v.physical_group_tags); }
    void operator()(mshio::CurveEntity& v) { box(v); (*this)(v.boundary_point_tags); }
    void operator()(mshio::SurfaceEntity& v) { box(v); (*this)(v.boundary_curve_tags); }
    void operator()(mshio::VolumeEntity& v) { box(v); (*this)(v.boundary_surface_tags); }
    void operator()(mshio::Entities& v) { (*this)(v.points); (*this)(v.curves); (*this)(v.surfaces); (*this)(v.volumes); }
    void operator()(mshio::PhysicalGroup& v) { (*this)(v.dim); (*this)(v.tag); (*this)(v.name); }
    void operator()(mshio::MshSpec& v) { (*this)(v.mesh_format); (*this)(v.nodes); (*this)(v.elements); (*this)(v.entities); (*this)(v.physical_groups); (*this)(v.node_data); (*this)(v.element_data); (*this)(v.element_node_data); }
};

const mock::Module& module()
{
    static mock::Module m;
    static bool once = [] { nanobind::module_ x{&m, ""}; vf_python_module(x); return true; }();
    (void)once;
    return m;
}

// ---------------------------------------------------------------- attributes
template <class T, class F> void field(Ctx& c, const mock::Class& k, const char* name, F T::*p)
{
    const std::string full = k.name + "." + name;
    auto it = k.attrs.find(name);
    c.note("attributes checked");
    if (it == k.attrs.end()) { c.violation("missing", full + " is not registered"); return; }
    Gen g{c.rng};
    for (int round = 0; round < 3; round++) {
        T t; g(t);
        if (round == 0) t = T();
        const std::string before = bytes(t);
        try {
            std::any v = it->second.get(&t);
            const F got = mock::arg<F>(v);
            if (bytes(got) != bytes(t.*p)) { c.violation("read", full + " does not read the field of that name"); return; }
            if (bytes(t) != before) { c.violation("read", "reading " + full + " changes the object"); return; }
            if (!it->second.set) { c.violation("readonly", full + " cannot be assigned"); return; }
            F nv; g(nv);
            T want = t; want.*p = nv;
            it->second.set(&t, std::any(nv));
            c.eval();
            if (bytes(t) != bytes(want)) { c.violation("assign", bytes(t.*p) != bytes(nv) ? full + " does not assign the field of that name" : "assigning " + full + " changes another field"); return; }
        } catch (const std::exception& e) { c.violation("value", full + ": " + e.what()); return; }
    }
    c.nontrivial(fnv(full));
}
template <class T> const mock::Class* cls(Ctx& c, const char* name)
{
    auto it = module().classes.find(name);
    c.note("classes checked");
    if (it == module().classes.end()) { c.violation("missing", std::string("class ") + name + " is not registered"); return nullptr; }
    if (it->second->type != std::type_index(typeid(T))) { c.violation("type", std::string("class ") + name + " is bound to another C++ class"); return nullptr; }
    if (!it->second->default_init) c.violation("init", std::string("class ") + name + " cannot be constructed without arguments");
    auto rp = it->second->methods.find("__repr__");
    if (rp != it->second->methods.end()) { T t; Gen g{c.rng}; g(t); try { rp->second(&t, {}); } catch (const std::exception& e) { c.violation("repr", std::string("repr of ") + name + ": " + e.what()); } }
    return it->second.get();
}
template <class E> void bbox(Ctx& c, const mock::Class* k)
{
    field(c, *k, "tag", &E::tag);
    field(c, *k, "min_x", &E::min_x); field(c, *k, "min_y", &E::min_y); field(c, *k, "min_z", &E::min_z);
    field(c, *k, "max_x", &E::max_x); field(c, *k, "max_y", &E::max_y); field(c, *k, "max_z", &E::max_z);
    field(c, *k, "physical_group_tags", &E::physical_group_tags);
}
void attributes(Ctx& c)
{
    using namespace mshio;
    if (auto* k = cls<MeshFormat>(c, "MeshFormat")) { field(c, *k, "version", &MeshFormat::version); field(c, *k, "file_type", &MeshFormat::file_type); field(c, *k, "data_size", &MeshFormat::data_size); }
    if (auto* k = cls<NodeBlock>(c, "NodeBlock")) { field(c, *k, "entity_dim", &NodeBlock::entity_dim); field(c, *k, "entity_tag", &NodeBlock::entity_tag); field(c, *k, "parametric", &NodeBlock::parametric); field(c, *k, "num_nodes_in_block", &NodeBlock::num_nodes_in_block); field(c, *k, "tags", &NodeBlock::tags); field(c, *k, "data", &NodeBlock::data); }
    if (auto* k = cls<Nodes>(c, "Nodes")) { field(c, *k, "num_entity_blocks", &Nodes::num_entity_blocks); field(c, *k, "num_nodes", &Nodes::num_nodes); field(c, *k, "min_node_tag", &Nodes::min_node_tag); field(c, *k, "max_node_tag", &Nodes::max_node_tag); field(c, *k, "entity_blocks", &Nodes::entity_blocks); }
    if (auto* k = cls<ElementBlock>(c, "ElementBlock")) { field(c, *k, "entity_dim", &ElementBlock::entity_dim); field(c, *k, "entity_tag", &ElementBlock::entity_tag); field(c, *k, "element_type", &ElementBlock::element_type); field(c, *k, "num_elements_in_block", &ElementBlock::num_elements_in_block); field(c, *k, "data", &ElementBlock::data); }
    if (auto* k = cls<Elements>(c, "Elements")) { field(c, *k, "num_entity_blocks", &Elements::num_entity_blocks); field(c, *k, "num_elements", &Elements::num_elements); field(c, *k, "min_element_tag", &Elements::min_element_tag); field(c, *k, "max_element_tag", &Elements::max_element_tag); field(c, *k, "entity_blocks", &Elements::entity_blocks); }
    if (auto* k = cls<DataHeader>(c, "DataHeader")) { field(c, *k, "string_tags", &DataHeader::string_tags); field(c, *k, "real_tags", &DataHeader::real_tags); field(c, *k, "int_tags", &DataHeader::int_tags); }
    if (auto* k = cls<DataEntry>(c, "DataEntry")) { field(c, *k, "tag", &DataEntry::tag); field(c, *k, "num_nodes_per_element", &DataEntry::num_nodes_per_element); field(c, *k, "data", &DataEntry::data); }
    if (auto* k = cls<Data>(c, "Data")) { field(c, *k, "header", &Data::header); field(c, *k, "entries", &Data::entries); }
    if (auto* k = cls<PointEntity>(c, "PointEntity")) { field(c, *k, "tag", &PointEntity::tag); field(c, *k, "x", &PointEntity::x); field(c, *k, "y", &PointEntity::y); field(c, *k, "z", &PointEntity::z); field(c, *k, "physical_group_tags", &PointEntity::physical_group_tags); }
    if (auto* k = cls<CurveEntity>(c, "CurveEntity")) { bbox<CurveEntity>(c, k); field(c, *k, "boundary_point_tags", &CurveEntity::boundary_point_tags); }
    if (auto* k = cls<SurfaceEntity>(c, "SurfaceEntity")) { bbox<SurfaceEntity>(c, k); field(c, *k, "boundary_curve_tags", &SurfaceEntity::boundary_curve_tags); }
    if (auto* k = cls<VolumeEntity>(c, "VolumeEntity")) { bbox<VolumeEntity>(c, k); field(c, *k, "boundary_surface_tags", &VolumeEntity::boundary_surface_tags); }
    if (auto* k = cls<Entities>(c, "Entities")) { field(c, *k, "points", &Entities::points); field(c, *k, "curves", &Entities::curves); field(c, *k, "surfaces", &Entities::surfaces); field(c, *k, "volumes", &Entities::volumes); }
    if (auto* k = cls<PhysicalGroup>(c, "PhysicalGroup")) { field(c, *k, "dim", &PhysicalGroup::dim); field(c, *k, "tag", &PhysicalGroup::tag); field(c, *k, "name", &PhysicalGroup::name); }
    if (auto* k = cls<MshSpec>(c, "MshSpec")) {
        field(c, *k, "mesh_format", &MshSpec::mesh_format); field(c, *k, "nodes", &MshSpec::nodes); field(c, *k, "elements", &MshSpec::elements); field(c, *k, "entities", &MshSpec::entities);
        field(c, *k, "physical_groups", &MshSpec::physical_groups); field(c, *k, "node_data", &MshSpec::node_data); field(c, *k, "element_data", &MshSpec::element_data); field(c, *k, "element_node_data", &MshSpec::element_node_data);
    }
}

// ---------------------------------------------------------------- functions
// Overload resolution as nanobind does it: the first that accepts the arguments.
bool invoke(Ctx& c, const char* name, const std::vector<std::any>& args, std::any& result, Outcome& o)
{
    auto it = module().functions.find(name);
    if (it == module().functions.end()) { c.violation("missing", std::string("function ") + name + " is not registered"); return false; }
    for (auto& f : it->second) {
        try { result = f(args); return true; }
        catch (const mock::BadCast&) { continue; }
        catch (...) { o.kind = classify(o.what); return true; }
    }
    c.violation("call", std::string(name) + " does not accept the arguments of the C++ function");
    return false;
}
void functions(Ctx& c)
{
    Rng& r = c.rng;
    std::any v;
    // element queries
    for (int n = 0; n < 30; n++) {
        const int t = r.flip() ? (int)r.range(-2, 34) : gen_int(r);
        Outcome o; std::any d;
        if (!invoke(c, "nodes_per_element", {std::any(t)}, v, o)) return;
        if (edim(t) < 0 ? o.kind != E_UNSUPPORTED : !o.ok() || mock::arg<size_t>(v) != npe(t)) { c.violation("nodes_per_element", "nodes_per_element(" + std::to_string(t) + ") differs from C++"); return; }
        o = Outcome();
        if (!invoke(c, "get_element_dim", {std::any(t)}, d, o)) return;
        if (edim(t) < 0 ? o.kind != E_UNSUPPORTED : !o.ok() || mock::arg<int>(d) != edim(t)) { c.violation("get_element_dim", "get_element_dim(" + std::to_string(t) + ") differs from C++"); return; }
        c.eval(2);
    }
    // save and load
    const int ver = (int)r.below(2), ft = (int)r.below(2);
    GenOpt o; o.version = kVer[ver]; o.file_type = ft; o.finite = ft == 0; o.tags32 = ver == 1; o.size = r.chance(1, 3) ? 1 : 0;
    MshSpec s = gen_spec(r, o);
    for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block == 0) { s.elements = mshio::Elements(); break; } // validate_spec: known finding
    if (r.chance(1, 6)) s.mesh_format.version = "1.0";
    else if (r.chance(1, 6)) s.nodes.num_entity_blocks++;
    const MshSpec kept = s;
    Outcome a, b = validate(s);
    if (!invoke(c, "validate_spec", {std::any(s)}, v, a)) return;
    if (a.kind != b.kind) { c.violation("validate_spec", std::string("validate_spec gives ") + kind_name(a.kind) + ", in C++ " + kind_name(b.kind)); return; }
    c.eval(); c.note(std::string("validate_spec: ") + kind_name(a.kind));
    if (s.nodes.num_entity_blocks > s.nodes.entity_blocks.size()) return;
    // Specs that break the rules but can be saved: the module has to do with them what C++ does.
    const unsigned broken = r.flip() ? 0 : 1 + (unsigned)r.below(255);
    if (broken & 1 && !s.nodes.entity_blocks.empty()) s.nodes.num_entity_blocks = r.below(s.nodes.entity_blocks.size());
    if (broken & 2 && !s.elements.entity_blocks.empty()) s.elements.num_entity_blocks = r.below(s.elements.entity_blocks.size());
    if (broken & 4) std::swap(s.nodes.min_node_tag, s.nodes.max_node_tag);
    if (broken & 8) s.nodes.num_nodes += 1 + r.below(3);
    if (broken & 16) { s.elements.min_element_tag++; s.elements.num_elements++; }
    if (broken & 32) s.elements.max_element_tag = r.below(100);
    if (broken & 64) for (auto* f : {&s.node_data, &s.element_data}) for (auto& d : *f) if (r.flip()) d.header.string_tags.clear();
    if (broken & 128) for (auto& g : s.physical_groups) if (r.flip()) { g.dim = (int)r.range(-3, 9); g.tag = gen_int(r); }
    const MshSpec sent = s;
    if (broken) {
        a = Outcome(); b = validate(s);
        if (s.nodes.num_entity_blocks == s.nodes.entity_blocks.size() && s.elements.num_entity_blocks == s.elements.entity_blocks.size()) {
            if (!invoke(c, "validate_spec", {std::any(s)}, v, a)) return;
            if (a.kind != b.kind) { c.violation("validate_spec", std::string("validate_spec gives ") + kind_name(a.kind) + ", in C++ " + kind_name(b.kind)); return; }
        }
        c.note(b.ok() ? "specs that break no rule" : "specs that break a rule, saved");
    }
    const std::string p = c.tmp + "/py.msh", q = c.tmp + "/cpp.msh";
    a = Outcome();
    if (!invoke(c, "save_msh", {std::any(p), std::any(s)}, v, a)) return;
    b = save_file(q, s);
    c.eval(); c.note(std::string("save_msh: ") + kind_name(a.kind));
    if (a.kind != b.kind) { c.violation("save_msh", std::string("save_msh gives ") + kind_name(a.kind) + ", in C++ " + kind_name(b.kind)); return; }
    if (dump(s) != dump(sent)) { c.violation("save_msh", "save_msh changes the spec"); return; }
    if (a.ok()) {
        if (slurp(p) != slurp(q)) { c.violation("save_msh", "save_msh writes other bytes than in C++"); return; }
        if (r.chance(1, 4)) { std::string t = slurp(q); t.resize(r.below(t.size())); spit(p, t); spit(q, t); }
        a = Outcome(); b = load_file(q);
        if (!invoke(c, "load_msh", {std::any(p)}, v, a)) return;
        c.eval(); c.note(std::string("load_msh: ") + kind_name(a.kind));
        if (a.kind != b.kind) { c.violation("load_msh", std::string("load_msh gives ") + kind_name(a.kind) + ", in C++ " + kind_name(b.kind)); return; }
        if (a.ok() && dump(mock::arg<MshSpec>(v)) != dump(b.spec)) { c.violation("load_msh", "load_msh returns another spec than in C++"); return; }
    }
    unlink(p.c_str()); unlink(q.c_str());
    a = Outcome(); b = load_file(c.tmp + "/missing.msh");
    if (!invoke(c, "load_msh", {std::any(c.tmp + "/missing.msh")}, v, a)) return;
    if (a.kind != b.kind) c.violation("load_msh", std::string("load_msh of a missing file gives ") + kind_name(a.kind));
    c.nontrivial(shape(kept));
    c.sample("save, load and validate " + describe(kept));
}
// The package re-exports what the extension module defines.
void package(Ctx& c)
{
    const std::string init = c.repo + "/python/mshio/__init__.py", dir = c.tmp + "/pkg";
    if (access(init.c_str(), R_OK)) { c.note("no python package"); return; }
    std::string names;
    for (auto& k : module().classes) names += k.first + " = object()\n";
    for (auto& k : module().functions) names += k.first + " = object()\n";
    if (mkdir(dir.c_str(), 0755) || mkdir((dir + "/mshio").c_str(), 0755)) return;
    spit(dir + "/mshio/__init__.py", slurp(init));
    spit(dir + "/mshio/pymshio.py", names);
    spit(dir + "/t.py", "import mshio\nfrom mshio import pymshio as p\nbad = [n for n in vars(p) if not n.startswith('_') and getattr(mshio, n, None) is not getattr(p, n)]\nraise SystemExit('not exported: ' + ', '.join(bad) if bad else 0)\n");
    const int rc = system(("cd " + dir + " && python3 -I -B -c 'import sys; sys.path.insert(0, \".\"); exec(open(\"t.py\").read())' > out.txt 2>&1").c_str());
    c.eval(); c.note("package imported");
    if (rc != 0) c.violation("package", "importing the package: " + shorten(slurp(dir + "/out.txt"), 400));
}
void c23(Ctx& c)
{
    if (c.index == 0) package(c);

    attributes(c);
    functions(c);
}
Reg r23("C23", c23);

} // namespace
