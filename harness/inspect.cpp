// C24: msh_inspect, compiled with its main renamed and run in a child process.
#include "common.h"
#include "refcodec.h"

#include <cmath>
#include <cstdio>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
int msh_inspect_main(int argc, char** argv);
namespace {


struct Ran { int status = -1; bool crashed = false; std::string out, err; };
Ran run(const std::string& dir, std::vector<std::string> args)
{
    Ran x;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        if (chdir(dir.c_str()) || !freopen("out.txt", "w", stdout) || !freopen("err.txt", "w", stderr)) _exit(120);
        std::cerr.rdbuf(std::cout.rdbuf()); // main.cpp silences it
        std::vector<char*> a;
        for (auto& s : args) a.push_back(&s[0]);
        a.push_back(nullptr);
        int rc = 121;
        try { rc = msh_inspect_main((int)args.size(), a.data()); } catch (...) { rc = 122; }
        std::cout.flush();
        exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    x.crashed = !WIFEXITED(st) || WEXITSTATUS(st) == 99;
    x.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    x.out = slurp(dir + "/out.txt"); x.err = slurp(dir + "/err.txt");
    return x;
}
// Numbers (reals as %g) and quoted strings in order; labels are not compared.
std::vector<std::string> tokens(const std::string& s)
{
    std::vector<std::string> v;
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 6, "sizeof") == 0) continue;
        if (line.compare(0, 7, "Warning") == 0) continue;
        for (size_t i = 0; i < line.size();) {
            if (isspace((unsigned char)line[i])) { i++; continue; }
            if (line[i] == '"') { size_t e = line.find('"', i + 1); if (e == std::string::npos) e = line.size() - 1; v.push_back(line.substr(i, e - i + 1)); i = e + 1; continue; }
            size_t e = line.find_first_of(" \t\"", i);
            if (e == std::string::npos) e = line.size();
            std::string w = line.substr(i, e - i);
            i = e;
            if (!w.empty() && w.back() == ':') w.pop_back();
            char* q = nullptr;
            strtod(w.c_str(), &q);
            if (!w.empty() && q && *q == 0) v.push_back(w);
        }
    }
    return v;
}
std::vector<std::string> expected(const MshSpec& s)
{
    std::vector<std::string> v;
    auto u = [&](uint64_t x) { v.push_back(std::to_string(x)); };
    auto i = [&](int64_t x) { v.push_back(std::to_string(x)); };
    auto d = [&](double x) { char b[40]; snprintf(b, sizeof b, "%g", x); v.push_back(b); };
    auto q = [&](const std::string& x) { v.push_back("\"" + x + "\""); };
    auto list = [&](const std::vector<int>& x) { u(x.size()); for (int t : x) i(t); };
    u(s.entities.points.size());
    for (auto& e : s.entities.points) { i(e.tag); d(e.x); d(e.y); d(e.z); list(e.physical_group_tags); }
    auto box = [&](auto& e) { i(e.tag); d(e.min_x); d(e.min_y); d(e.min_z); d(e.max_x); d(e.max_y); d(e.max_z); list(e.physical_group_tags); };
    u(s.entities.curves.size()); for (auto& e : s.entities.curves) { box(e); list(e.boundary_point_tags); }
    u(s.entities.surfaces.size()); for (auto& e : s.entities.surfaces) { box(e); list(e.boundary_curve_tags); }
    u(s.entities.volumes.size()); for (auto& e : s.entities.volumes) { box(e); list(e.boundary_surface_tags); }
    u(s.physical_groups.size()); for (auto& g : s.physical_groups) { i(g.dim); i(g.tag); q(g.name); }
    u(s.nodes.num_nodes); u(s.nodes.num_entity_blocks); u(s.nodes.min_node_tag); u(s.nodes.max_node_tag);
    for (auto& b : s.nodes.entity_blocks) {
        i(b.entity_dim); i(b.entity_tag); i(b.parametric); u(b.num_nodes_in_block);
        const size_t w = b.num_nodes_in_block ? b.data.size() / b.num_nodes_in_block : 0;
        for (size_t k = 0; k < b.num_nodes_in_block; k++) { u(b.tags[k]); for (size_t j = 0; j < w; j++) d(b.data[k * w + j]); }
    }
    u(s.elements.num_elements); u(s.elements.num_entity_blocks); u(s.elements.min_element_tag); u(s.elements.max_element_tag);
    for (auto& b : s.elements.entity_blocks) {
        i(b.entity_dim); i(b.entity_tag); i(b.element_type); u(b.num_elements_in_block);
        for (auto t : b.data) u(t);
    }
    for (auto* D : {&s.node_data, &s.element_data})
        for (auto& x : *D) {
            u(x.header.string_tags.size()); for (auto& t : x.header.string_tags) q(t);
            u(x.header.real_tags.size()); for (auto t : x.header.real_tags) d(t);
            u(x.header.int_tags.size()); for (auto t : x.header.int_tags) i(t);
            for (auto& e : x.entries) { u(e.tag); for (auto t : e.data) d(t); }
        }
    return v;
}
bool small_ints(const std::vector<mshio::Data>& D) { for (auto& d : D) for (int t : d.header.int_tags) if (t > 999999 || t < -999999) return false; return true; }

// ---------------------------------------------------------------- probes of known defects
MshSpec probe(uint64_t k)
{
    MshSpec s;
    s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = 2; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 2;
    mshio::NodeBlock b; b.entity_dim = k == 0 ? 2 : k == 1 ? 3 : 0; b.entity_tag = 1; b.num_nodes_in_block = 2; b.tags = {1, 2};
    b.parametric = k < 3; const size_t w = 3 + (b.parametric ? (size_t)b.entity_dim : 0);
    for (size_t i = 0; i < 2 * w; i++) b.data.push_back(0.5 + (double)i);
    s.nodes.entity_blocks = {b};
    if (k == 3) { mshio::Data d; d.header.string_tags = {"v"}; d.header.real_tags = {0}; d.header.int_tags = {1234567, 1, 1}; mshio::DataEntry e; e.tag = 1; e.data = {2}; d.entries = {e}; s.node_data = {d}; }
    return s;
}
const char* kProbe[] = {"parametric nodes of a surface", "parametric nodes of a volume", "parametric nodes of a point", "an integer tag of seven digits"};

void judge(Ctx& c, const std::string& key, const std::string& what, const Outcome& file, const Ran& x, const std::string& artifact)
{
    if (x.crashed) { c.violation(key.empty() ? "crash" : key, "msh_inspect crashes: " + what + " " + shorten(x.err, 300), artifact); return; }
    if (x.status != 0) { c.violation(key.empty() ? "status" : key, "msh_inspect exits with " + std::to_string(x.status) + ": " + what, artifact); return; }
    const auto got = tokens(x.out), want = expected(file.spec);
    c.note("values compared", want.size());
    for (size_t k = 0; k < std::max(got.size(), want.size()); k++)
        if (k >= got.size() || k >= want.size() || got[k] != want[k]) {
            c.violation(key.empty() ? "output" : key, "msh_inspect prints " + (k < got.size() ? got[k] : std::string("nothing")) + " instead of " + (k < want.size() ? want[k] : std::string("nothing")) + " as value " + std::to_string(k) + ": " + what, artifact);
            return;
        }
    Outcome t = load_file(c.tmp + "/tmp.msh");
    if (!t.ok()) { c.violation(key.empty() ? "copy" : key, "tmp.msh cannot be loaded: " + t.str() + ": " + what, artifact); return; }
    std::string d = diff(file.spec, t.spec, file.spec.mesh_format.version == "4.1" ? CMP_ALL & ~(unsigned)CMP_NANO : CMP_FORMAT | CMP_DATA | CMP_GROUPS);
    if (d.empty()) d = diff_flat(file.spec, t.spec);
    if (!d.empty()) c.violation(key.empty() ? "copy" : key, "tmp.msh holds another spec: " + d + ": " + what, artifact);
}
void c24(Ctx& c)
{
    Rng& r = c.rng;
    c.eval();
    unlink((c.tmp + "/tmp.msh").c_str());
    const std::string path = c.tmp + "/in.msh";
    if (c.index < 4) {
        MshSpec s = probe(c.index);
        Layout l;
        File f = write41(s, l, r.fork());
        spit(path, f.bytes);
        Outcome o = load_file(path);
        if (!o.ok()) { c.violation("refused", "a valid file is refused: " + o.str(), f.bytes); return; }
        c.note("probes"); c.nontrivial(c.index);
        judge(c, "probe-I" + std::to_string(c.index), kProbe[c.index], o, run(c.tmp, {"msh_inspect", "in.msh"}), "");
        return;
    }
    if (c.index % 16 == 5) {
        std::vector<std::string> a = {"msh_inspect"};
        spit(path, "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n");
        const int n = (int)r.below(3);
        if (n) for (int k = 0; k < 1 + n; k++) a.push_back("in.msh");
        Ran x = run(c.tmp, a);
        c.note("wrong number of arguments"); c.nontrivial(fnv("args") + (uint64_t)n);
        if (x.crashed || x.status == 0) c.violation("usage", "with " + std::to_string(a.size() - 1) + " arguments msh_inspect exits with " + std::to_string(x.status));
        else if (x.out.empty() && x.err.empty()) c.violation("usage", "with " + std::to_string(a.size() - 1) + " arguments msh_inspect prints nothing");
        return;
    }
    const int ft = (int)r.below(2); const bool v22 = r.flip();
    Layout l = r.flip() ? Layout() : gen_layout(r, ft != 0);
    l.unknown = r.chance(1, 5);
    const int size = r.chance(1, 3) ? 0 : 1;
    MshSpec s; Model22 m; File f;
    bool ok = true;
    if (v22) { m = gen_model22(r, ft, size); for (auto* D : {&m.node_data, &m.element_data}) ok = ok && small_ints(*D); if (!ok) { m.node_data.clear(); m.element_data.clear(); } f = write22(m, l, r.fork()); }
    else {
        GenOpt o; o.file_type = ft; o.finite = ft == 0; o.printable = true; o.size = size;
        s = gen_spec(r, o);
        for (auto& b : s.nodes.entity_blocks) if (b.parametric && b.entity_dim != 1) { b.parametric = 0; b.data.resize(3 * b.num_nodes_in_block); } // known finding
        for (auto* D : {&s.node_data, &s.element_data}) for (auto& d : *D) for (size_t k = 0; k < d.header.int_tags.size(); k++) if (d.header.int_tags[k] > 999999 || d.header.int_tags[k] < -999999) d.header.int_tags[k] %= 1000000; // known finding
        f = write41(s, l, r.fork());
    }
    spit(path, f.bytes);
    const std::string what = v22 ? "2.2 file of " + std::to_string(f.bytes.size()) + " bytes" : describe(s);
    Outcome o = load_file(path);
    if (!o.ok()) { c.violation("refused", "a valid file is refused: " + o.str(), shorten(f.bytes, 2000)); return; }
    std::string d = v22 ? diff22(m, o.spec) : diff(s, o.spec, CMP_ALL & ~(unsigned)CMP_NANO); // what the file contains, not only what load_msh says
    if (!v22 && s.nodes.entity_blocks.empty()) d = ""; // ranges without blocks: not compared here
    if (!v22 && s.elements.entity_blocks.empty()) d = "";
    if (!d.empty()) { c.violation("load", "load_msh does not return what the file contains: " + d, shorten(f.bytes, 2000)); return; }
    if (v22 && !(small_ints(o.spec.node_data) && small_ints(o.spec.element_data))) return;
    c.nontrivial(f.shape ^ shape(o.spec)); c.sample(what);
    judge(c, "", what, o, run(c.tmp, {"msh_inspect", r.flip() ? "in.msh" : "./in.msh"}), shorten(f.bytes, 2000));
}
Reg r24("C24", c24);

} // namespace
