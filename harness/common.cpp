#include <unistd.h>
#include "common.h"

#include <algorithm>
#include <array>
#include <climits>
#include <set>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <malloc.h>
#include <new>
#include <atomic>

namespace vf {

uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// The element table of the MSH documentation (README "Supported element types"), independent of the library.
static const int kNpe[32] = {0, 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15, 13, 9, 10, 12, 15, 15, 21, 4, 5, 6, 20, 35, 56};
static const int kDim[32] = {0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 3, 3, 3};
size_t npe(int type) { return type >= 1 && type <= 31 ? (size_t)kNpe[type] : 0; }
int edim(int type) { return type >= 1 && type <= 31 ? kDim[type] : -1; }

// ---------------------------------------------------------------- values
static const uint64_t kSpecial[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 31, 32, 33, 36, 127, 128, 255, 256, 257,
    1000, 2570, 8224, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 1000001, 16777216, 16777217,
    2147483646ull, 2147483647ull};
static const uint64_t kSpecial64[] = {2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 4294967297ull,
    9007199254740991ull, 9007199254740992ull, 9007199254740993ull, 9223372036854775807ull, 9223372036854775808ull,
    18446744073709551614ull, 18446744073709551615ull, 0x0A0A0A0A0A0A0A0Aull, 0x2020202020202020ull, 0x0D0A200900000000ull};

int gen_int(Rng& r)
{
    switch (r.below(6)) {
    case 0: case 1: return (int)r.range(0, 9);
    case 2: return (int)kSpecial[r.below(sizeof(kSpecial) / sizeof(*kSpecial))];
    case 3: return -(int)kSpecial[r.below(sizeof(kSpecial) / sizeof(*kSpecial))];
    case 4: return r.chance(1, 4) ? std::numeric_limits<int>::min() : (int)r.range(-1000, 100000);
    default: return (int)(uint32_t)r.next();
    }
}
uint64_t gen_u64(Rng& r)
{
    switch (r.below(4)) {
    case 0: return r.below(20);
    case 1: return kSpecial[r.below(sizeof(kSpecial) / sizeof(*kSpecial))];
    case 2: return kSpecial64[r.below(sizeof(kSpecial64) / sizeof(*kSpecial64))];
    default: return r.next() >> r.below(64);
    }
}
double gen_double(Rng& r, bool finite)
{
    for (;;) {
        double d = 0;
        switch (r.below(10)) {
        case 0: d = (double)r.range(-3, 9); break;
        case 1: d = (double)r.range(-1000000, 1000000) / 1000.0; break;
        case 2: d = (double)r.range(-1000000000, 1000000000) / 1e7; break;
        case 3: { // any bit pattern
            uint64_t b = r.next(); std::memcpy(&d, &b, 8); break; }
        case 4: d = (double)(r.next() >> 11) * (1.0 / 9007199254740992.0); break; // 53-bit in [0,1)
        case 5: { static const double k[] = {0.0, -0.0, 1.0 / 3, 0.1, 0.1 + 0.2, 1e-300, 1e300, 5e-324, -5e-324,
                2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308,
                3.141592653589793, 2.718281828459045, 123456.7, 1234567.0, 12345678.9, 0.30000000000000004,
                9007199254740993.0, 1e16, 1e17, 1e22, 1e23, 100000.0, 999999.5, 1000000.0, 0.0001, 0.00001, 6.02214076e23};
            d = k[r.below(sizeof(k) / sizeof(*k))]; break; }
        case 6: { // bytes that are white space or markers
            static const unsigned char k[] = {0x0A, 0x20, 0x0D, 0x09, 0x24, 0x22, 0x00, 0x1A, 0xFF};
            unsigned char b[8]; for (auto& c : b) c = k[r.below(sizeof(k))]; std::memcpy(&d, b, 8); break; }
        case 7: d = std::ldexp((double)(r.next() >> 11), (int)r.range(-1100, 900)); if (r.flip()) d = -d; break;
        case 8: { uint64_t b = r.next() & 0x800FFFFFFFFFFFFFull; std::memcpy(&d, &b, 8); break; } // denormals
        default:
            if (finite) d = (double)r.range(0, 100) * 0.25;
            else { static const uint64_t k[] = {0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull,
                    0xFFF8000000000000ull, 0x7FF0000000000001ull, 0x7FFFFFFFFFFFFFFFull, 0x7FF80000DEADBEEFull};
                uint64_t b = k[r.below(7)]; std::memcpy(&d, &b, 8); }
        }
        if (!finite || std::isfinite(d)) return d;
    }
}
std::string gen_string(Rng& r, bool printable)
{
    static const char* words[] = {"boundary", "steel", "A scalar view", "x", "two words", "  lead", "trail  ", "$EndNodes",
        "$EndPhysicalNames", "$Nodes", "a$b", "1 2 3", "name_with_underscore", "Ünïcödé", "日本語", "#hash", "it's", "100%", "{json: 1}", "a,b;c"};
    static const char* wild[] = {"\"", "\\", "\"quoted\"", "C:\\path\\file", "tab\there", "line\nbreak", "crlf\r\n", "\n", " ", "\"\"", "\\\"", "end\\",
        "\n$EndPhysicalNames\n", "\n$EndNodeData\n", "a\\\\b", "'\"'\"'"};
    if (r.chance(1, 60)) { // long, with blanks and, unless printable, quotes and backslashes
        std::string s(gen_threshold(r), 'x');
        for (size_t k = r.below(20); k > 0; k--) s[r.below(s.size())] = printable ? ' ' : "\"\\ \n$"[r.below(5)];
        if (!printable && r.flip()) s.back() = "\"\\ \n"[r.below(4)];
        return s;
    }
    switch (r.below(printable ? 5 : 8)) {
    case 0: return "";
    case 1: case 2: return words[r.below(sizeof(words) / sizeof(*words))];
    case 3: { std::string s; size_t n = r.below(12); for (size_t i = 0; i < n; i++) s += (char)r.range('a', 'z'); return s; }
    case 4: { // printable ASCII without quote and backslash
        std::string s; size_t n = r.chance(1, 10) ? 200 + r.below(3000) : r.below(40);
        for (size_t i = 0; i < n; i++) { char c = (char)r.range(0x20, 0x7e); if (c == '"' || c == '\\') c = '.'; s += c; }
        return s; }
    case 5: return wild[r.below(sizeof(wild) / sizeof(*wild))];
    case 6: { std::string s; size_t n = 1 + r.below(6); for (size_t i = 0; i < n; i++) s += r.flip() ? words[r.below(sizeof(words) / sizeof(*words))] : wild[r.below(sizeof(wild) / sizeof(*wild))]; return s; }
    default: { std::string s; size_t n = r.below(30); for (size_t i = 0; i < n; i++) s += (char)(unsigned char)r.below(256); return s; }
    }
}
// Sizes around the limits of buffers, chunks and narrow integers.
size_t gen_threshold(Rng& r)
{
    static const size_t base[] = {64, 100, 128, 128, 256, 256, 256, 500, 512, 1000, 1024, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
    const size_t n = base[r.below(r.chance(1, 4) ? 18 : 12)];
    return n - 2 + r.below(5) + (r.chance(1, 8) ? n : 0);
}
size_t gen_count(Rng& r, int size)
{
    if (size > 0 && r.chance(1, 150)) return gen_threshold(r);
    static const size_t special[] = {9, 10, 13, 32, 36, 11, 12, 31, 33};
    if (size == 0) return r.below(4);
    switch (r.below(16)) {
    case 0: return 0;
    case 1: case 2: return special[r.below(9)];
    case 3: return r.below(60);
    case 4: return size >= 2 ? 100 + r.below(3000) : r.below(150);
    default: return 1 + r.below(5);
    }
}
std::vector<size_t> gen_tags(Rng& r, size_t n, bool tags32)
{
    std::vector<size_t> t(n);
    const uint64_t top = tags32 ? 2147483647ull : 18446744073709551615ull;
    uint64_t mode = r.below(6);
    if (mode == 5 && n > 5000) mode = 1;
    switch (mode) {
    case 0: case 1: for (size_t i = 0; i < n; i++) t[i] = i + 1; break;
    case 2: { uint64_t base = r.chance(1, 3) ? top - n : 1 + (tags32 ? r.below(2000000000ull) : gen_u64(r) / 2);
        static const uint64_t ws[] = {9, 10, 13, 32, 2570, 8224, 257};
        if (r.chance(1, 2)) base = ws[r.below(7)];
        for (size_t i = 0; i < n; i++) t[i] = base + i; break; }
    case 3: { uint64_t v = 1 + r.below(5); uint64_t gap = r.chance(1, 3) ? (top / 4) / (n + 1) : 1 + r.below(1000);
        if (gap < 1) gap = 1;
        for (size_t i = 0; i < n; i++) { t[i] = v; v += 1 + r.below(gap); } break; }
    case 4: { for (size_t i = 0; i < n; i++) t[i] = i + 1; break; }
    default: { std::set<uint64_t> used; for (size_t i = 0; i < n; i++) {
            uint64_t v; do { v = tags32 ? 1 + r.below(2147483647ull) : 1 + gen_u64(r) % top;
                if (r.chance(1, 3)) v = 1 + r.below(3 * n + 10);
                if (v == 0) v = 1; } while (!used.insert(v).second); t[i] = v; } }
    }
    if (mode >= 3 || r.chance(1, 4)) {
        if (r.chance(2, 3)) for (size_t i = n; i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
        else if (r.flip()) std::reverse(t.begin(), t.end());
    }
    return t;
}

static size_t loosen_min(Rng& r, size_t v) { return r.chance(1, 8) ? r.below(v + 1) : v; }
static size_t loosen_max(Rng& r, size_t v, bool t32)
{
    const uint64_t top = t32 ? 2147483647ull : 18446744073709551615ull;
    return r.chance(1, 8) ? v + r.below(top - v + 1 ? top - v + 1 : 1) : v;
}

void gen_mesh(Rng& r, MshSpec& s, const GenOpt& o)
{
    auto& N = s.nodes;
    const size_t nb = gen_count(r, o.size);
    size_t total = 0;
    N.entity_blocks.resize(nb);
    for (auto& b : N.entity_blocks) {
        b.entity_dim = (int)r.range(0, 3);
        b.entity_tag = gen_int(r);
        b.parametric = r.chance(1, 3);
        b.num_nodes_in_block = gen_count(r, nb > 8 ? 0 : o.size);
        total += b.num_nodes_in_block;
    }
    if (total == 0) N.entity_blocks.clear();
    auto tags = gen_tags(r, total, o.tags32);
    size_t k = 0;
    for (auto& b : N.entity_blocks) {
        b.tags.assign(tags.begin() + (long)k, tags.begin() + (long)(k + b.num_nodes_in_block));
        k += b.num_nodes_in_block;
        const size_t m = (size_t)(3 + (b.parametric ? b.entity_dim : 0));
        b.data.resize(m * b.num_nodes_in_block);
        for (auto& d : b.data) d = gen_double(r, o.finite);
    }
    N.num_entity_blocks = N.entity_blocks.size();
    N.num_nodes = total;
    if (total) {
        N.min_node_tag = *std::min_element(tags.begin(), tags.end());
        N.max_node_tag = *std::max_element(tags.begin(), tags.end());
        if (!o.exact_range) { N.min_node_tag = loosen_min(r, N.min_node_tag); N.max_node_tag = loosen_max(r, N.max_node_tag, o.tags32); }
    }
    auto& E = s.elements;
    if (!total || r.chance(1, 12)) return;
    const size_t ne = gen_count(r, o.size);
    E.entity_blocks.resize(ne);
    size_t et = 0;
    static const int wstypes[] = {9, 10, 13, 15, 2, 4};
    for (auto& b : E.entity_blocks) {
        b.element_type = r.chance(1, 4) ? wstypes[r.below(6)] : (int)r.range(1, 31);
        b.entity_dim = o.dims_match || r.chance(3, 4) ? edim(b.element_type) : (int)r.range(0, 3);
        b.entity_tag = r.chance(1, 2) ? (int)r.range(1, 3) : gen_int(r);
        b.num_elements_in_block = gen_count(r, ne > 8 ? 0 : o.size);
        if (b.num_elements_in_block > 4000 && npe(b.element_type) > 9) { b.element_type = wstypes[3 + r.below(3)]; b.entity_dim = edim(b.element_type); }
        et += b.num_elements_in_block;
    }
    if (et == 0) { E.entity_blocks.clear(); return; }
    auto etags = gen_tags(r, et, o.tags32);
    k = 0;
    const bool local = r.chance(1, 3); // only some nodes are used
    const size_t span = local ? 1 + total / 2 : total;
    for (auto& b : E.entity_blocks) {
        const size_t n = npe(b.element_type);
        for (size_t i = 0; i < b.num_elements_in_block; i++) {
            b.data.push_back(etags[k++]);
            for (size_t j = 0; j < n; j++) b.data.push_back(tags[r.below(span)]);
        }
    }
    E.num_entity_blocks = E.entity_blocks.size();
    E.num_elements = et;
    E.min_element_tag = *std::min_element(etags.begin(), etags.end());
    E.max_element_tag = *std::max_element(etags.begin(), etags.end());
    if (!o.exact_range) { E.min_element_tag = loosen_min(r, E.min_element_tag); E.max_element_tag = loosen_max(r, E.max_element_tag, o.tags32); }
}

static std::vector<int> gen_ints(Rng& r, int size)
{
    std::vector<int> v(r.chance(1, 3) ? 0 : size && r.chance(1, 40) ? 300 + r.below(2000) : gen_count(r, size));
    for (auto& x : v) x = gen_int(r);
    return v;
}
template <class E> static void gen_box(Rng& r, E& e, const GenOpt& o)
{
    e.tag = gen_int(r);
    e.min_x = gen_double(r, o.finite); e.min_y = gen_double(r, o.finite); e.min_z = gen_double(r, o.finite);
    e.max_x = gen_double(r, o.finite); e.max_y = gen_double(r, o.finite); e.max_z = gen_double(r, o.finite);
    e.physical_group_tags = gen_ints(r, o.size);
}
void gen_entities(Rng& r, MshSpec& s, const GenOpt& o)
{
    auto& e = s.entities;
    auto cnt = [&] { return r.chance(1, 3) ? (size_t)0 : gen_count(r, std::min(o.size, 1)); };
    e.points.resize(cnt()); e.curves.resize(cnt()); e.surfaces.resize(cnt()); e.volumes.resize(cnt());
    GenOpt small = o; small.size = 0;
    for (auto& p : e.points) {
        p.tag = gen_int(r); p.x = gen_double(r, o.finite); p.y = gen_double(r, o.finite); p.z = gen_double(r, o.finite);
        p.physical_group_tags = gen_ints(r, e.points.size() > 60 ? 0 : o.size);
    }
    auto opt = [&](size_t n) -> const GenOpt& { return n > 60 ? small : o; };
    for (auto& c : e.curves) { auto& q = opt(e.curves.size()); gen_box(r, c, q); c.boundary_point_tags = gen_ints(r, q.size); }
    for (auto& c : e.surfaces) { auto& q = opt(e.surfaces.size()); gen_box(r, c, q); c.boundary_curve_tags = gen_ints(r, q.size); }
    for (auto& c : e.volumes) { auto& q = opt(e.volumes.size()); gen_box(r, c, q); c.boundary_surface_tags = gen_ints(r, q.size); }
}
void gen_groups(Rng& r, MshSpec& s, const GenOpt& o)
{
    s.physical_groups.resize(gen_count(r, std::min(o.size, 1)));
    for (auto& g : s.physical_groups) { g.dim = r.chance(9, 10) ? (int)r.range(0, 3) : gen_int(r); g.tag = gen_int(r); g.name = s.physical_groups.size() > 200 ? std::to_string(r.below(1000)) : gen_string(r, o.printable); }
}
mshio::Data gen_data(Rng& r, const GenOpt& o, bool element_node)
{
    mshio::Data d;
    auto few = [&] { return r.chance(3, 4) ? (size_t)1 : o.size && r.chance(1, 40) ? gen_threshold(r) : gen_count(r, 0); };
    size_t ns = few();
    for (size_t i = 0; i < ns; i++) d.header.string_tags.push_back(ns > 60 ? std::to_string(i) : gen_string(r, o.printable));
    size_t nr = few();
    for (size_t i = 0; i < nr; i++) d.header.real_tags.push_back(gen_double(r, true));
    static const int widths[] = {1, 3, 9, 1, 3, 9, 2, 4, 6, 10, 13, 32};
    size_t n = gen_count(r, o.size);
    const bool wide = o.size && r.chance(1, 40);
    if (wide) n = 1 + r.below(3);
    const int fields = wide ? (int)gen_threshold(r) : r.chance(1, 40) ? 0 : widths[n > 2000 ? r.below(2) : r.below(n > 300 ? 6 : 12)];
    d.header.int_tags = {gen_int(r), fields, (int)n};
    size_t extra = r.flip() ? 0 : few();
    for (size_t i = 0; i < extra; i++) d.header.int_tags.push_back(gen_int(r));
    const bool wide_tags = !o.tags32 && o.version == "4.1" && o.file_type == 0;
    auto tags = gen_tags(r, n, !wide_tags);
    for (size_t i = 0; i < n; i++) {
        mshio::DataEntry e;
        e.tag = tags[i];
        size_t m = (size_t)fields;
        if (element_node && o.size && !wide && n < 60 && r.chance(1, 60)) { e.num_nodes_per_element = (int)std::min<size_t>(gen_threshold(r), 3000); m *= (size_t)e.num_nodes_per_element; }
        else if (element_node) { e.num_nodes_per_element = r.chance(1, 12) ? 0 : r.chance(1, 8) ? (int)npe((int)r.range(1, 31)) : (int)r.range(1, n > 2000 ? 3 : 10); m *= (size_t)e.num_nodes_per_element; }
        e.data.resize(m);
        for (auto& x : e.data) x = gen_double(r, o.finite);
        d.entries.push_back(std::move(e));
    }
    return d;
}
void gen_nano(Rng& r, MshSpec& s, const GenOpt& o)
{
    static const char* vers[] = {"1.0", "1.0", "1.1", "2", "beta-3", "10.20.30"};
    s.nanospline_format.version = vers[r.below(6)];
    s.curves.resize(r.chance(1, 4) ? 0 : gen_count(r, o.size));
    const int cs = s.curves.size() > 60 ? 0 : o.size;
    for (auto& c : s.curves) {
        c.curve_tag = gen_u64(r); c.curve_type = gen_u64(r); c.curve_degree = gen_u64(r);
        c.num_control_points = gen_count(r, cs); c.num_knots = r.chance(1, 3) ? 0 : gen_count(r, cs);
        c.with_weights = r.flip() ? 0 : (r.chance(3, 4) ? 1 : gen_u64(r));
        c.data.resize(c.num_control_points * (c.with_weights ? 4 : 3) + c.num_knots);
        for (auto& x : c.data) x = gen_double(r, o.finite);
    }
    s.patches.resize(r.chance(1, 4) ? 0 : gen_count(r, o.size));
    const int ps = s.patches.size() > 60 ? 0 : o.size;
    for (auto& c : s.patches) {
        c.patch_tag = gen_u64(r); c.patch_type = gen_u64(r); c.degree_u = gen_u64(r); c.degree_v = gen_u64(r);
        c.num_control_points = gen_count(r, ps);
        c.num_u_knots = r.chance(1, 3) ? 0 : gen_count(r, ps); c.num_v_knots = r.chance(1, 3) ? 0 : gen_count(r, ps);
        c.with_weights = r.flip() ? 0 : (r.chance(3, 4) ? 1 : gen_u64(r));
        c.data.resize(c.num_control_points * (c.with_weights ? 4 : 3) + c.num_u_knots + c.num_v_knots);
        for (auto& x : c.data) x = gen_double(r, o.finite);
    }
}
std::vector<size_t> stairs(Rng& r, size_t limit)
{
    static const size_t base[] = {64, 100, 128, 128, 256, 256, 512, 512, 1000, 1024, 1024, 2048, 4096, 8192};
    size_t p;
    do p = base[r.below(14)]; while (p > limit);
    std::vector<size_t> v = {p - 1, p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1};
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    if (p > 2048) v.resize(4);
    return v;
}
// Sizes around multiples of the sizes of buffers and chunks, in every place that has a size.
MshSpec gen_stairs(Rng& r, const GenOpt& o)
{
    MshSpec s;
    s.mesh_format.version = o.version; s.mesh_format.file_type = o.file_type;
    auto num = [&] { return r.chance(1, 8) ? gen_double(r, o.finite) : (double)r.range(-1000, 1000) / 8; };
    auto name = [&](size_t n) { std::string t(n, 'a'); for (size_t k = 0; k < n; k += 1 + r.below(9)) t[k] = " bcd-_"[r.below(6)]; return t; };
    auto ints = [&](size_t n) { std::vector<int> v(n); for (auto& x : v) x = gen_int(r); return v; };
    const std::vector<size_t> big = stairs(r, 8192), mid = stairs(r, 1024), low = stairs(r, 512);
    if (o.mesh && r.chance(3, 4)) {
        size_t tag = 1 + r.below(300);
        const size_t t0 = tag;
        for (size_t n : big) {
            mshio::NodeBlock b; b.entity_dim = (int)r.range(0, 3); b.entity_tag = gen_int(r); b.parametric = r.chance(1, 4); b.num_nodes_in_block = n;
            for (size_t k = 0; k < n; k++) b.tags.push_back(tag++);
            b.data.resize(n * (size_t)(3 + (b.parametric ? b.entity_dim : 0)));
            for (auto& x : b.data) x = num();
            s.nodes.entity_blocks.push_back(std::move(b));
        }
        s.nodes.num_entity_blocks = big.size(); s.nodes.num_nodes = tag - t0; s.nodes.min_node_tag = t0; s.nodes.max_node_tag = tag - 1;
        size_t et = 1 + r.below(300);
        const size_t e0 = et;
        static const int types[] = {15, 1, 2, 4, 8};
        for (size_t n : stairs(r, 4096)) {
            mshio::ElementBlock b; b.element_type = types[r.below(5)]; b.entity_dim = edim(b.element_type); b.entity_tag = (int)r.range(1, 300); b.num_elements_in_block = n;
            const size_t m = npe(b.element_type);
            for (size_t k = 0; k < n; k++) { b.data.push_back(et++); for (size_t j = 0; j < m; j++) b.data.push_back(t0 + r.below(tag - t0)); }
            s.elements.entity_blocks.push_back(std::move(b));
        }
        s.elements.num_entity_blocks = s.elements.entity_blocks.size(); s.elements.num_elements = et - e0; s.elements.min_element_tag = e0; s.elements.max_element_tag = et - 1;
    }
    if (o.entities && r.chance(3, 4)) {
        auto& e = s.entities;
        auto box = [&](auto& x) { x.tag = gen_int(r); x.min_x = num(); x.min_y = num(); x.min_z = num(); x.max_x = num(); x.max_y = num(); x.max_z = num(); };
        e.points.resize(r.flip() ? low.size() : low[0]); e.curves.resize(r.flip() ? low.size() : low[1]); e.surfaces.resize(r.flip() ? low.size() : low[2]); e.volumes.resize(r.flip() ? low.size() : low[3]);
        auto pick = [&](size_t i) { return i < low.size() ? low[i] : r.below(3); };
        size_t i = 0;
        for (auto& x : e.points) { x.tag = gen_int(r); x.x = num(); x.y = num(); x.z = num(); x.physical_group_tags = ints(pick(i++)); }
        i = 0; for (auto& x : e.curves) { box(x); x.physical_group_tags = ints(pick(i)); x.boundary_point_tags = ints(pick(r.flip() ? i : 9)); i++; }
        i = 0; for (auto& x : e.surfaces) { box(x); x.physical_group_tags = ints(pick(r.flip() ? i : 9)); x.boundary_curve_tags = ints(pick(i)); i++; }
        i = 0; for (auto& x : e.volumes) { box(x); x.physical_group_tags = ints(pick(i)); x.boundary_surface_tags = ints(pick(i)); i++; }
    }
    if (r.chance(2, 3)) {
        s.physical_groups.resize(r.flip() ? big.size() : mid[0]);
        size_t i = 0;
        for (auto& g : s.physical_groups) { g.dim = (int)r.range(0, 3); g.tag = gen_int(r); g.name = name(i < big.size() ? big[i] : r.below(4)); i++; }
    }
    if (o.data) {
        auto field = [&](size_t n, size_t f, bool en, size_t nodes) {
            mshio::Data d;
            for (size_t k = r.chance(1, 4) ? mid[3] : 1 + r.below(3); k > 0; k--) d.header.string_tags.push_back(name(r.below(4)));
            d.header.string_tags[0] = name(mid[0]);
            for (size_t k = r.chance(1, 4) ? mid[4] : 1; k > 0; k--) d.header.real_tags.push_back(gen_double(r, true));
            d.header.int_tags = {gen_int(r), (int)f, (int)n};
            for (size_t k = r.chance(1, 4) ? mid[5] : 0; k > 0; k--) d.header.int_tags.push_back(gen_int(r));
            for (size_t k = 0; k < n; k++) { mshio::DataEntry e; e.tag = k + 1; if (en) e.num_nodes_per_element = (int)nodes; e.data.resize(f * (en ? nodes : 1)); for (auto& x : e.data) x = num(); d.entries.push_back(std::move(e)); }
            return d;
        };
        for (int kind = 0; kind < 3; kind++) {
            auto& v = kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data;
            if (r.flip()) v.push_back(field(big[r.below(4)], 1, kind == 2, 1));
            if (r.flip()) v.push_back(field(1 + r.below(2), big[r.below(4)], kind == 2, 1 + r.below(2)));
            if (kind == 2) for (size_t n : mid) v.push_back(field(1, 1 + r.below(2), true, n));
        }
    }
    if (o.nano && r.chance(2, 3)) {
        s.nanospline_format.version = "1.0";
        for (size_t i = 0; i < 4; i++) {
            mshio::Curve q; q.curve_tag = i + 1; q.curve_type = r.below(4); q.curve_degree = r.below(9); q.with_weights = r.below(2); q.num_control_points = big[r.below(4)]; q.num_knots = mid[r.below(6)];
            q.data.resize(q.num_control_points * (q.with_weights ? 4 : 3) + q.num_knots); for (auto& x : q.data) x = num();
            s.curves.push_back(std::move(q));
            mshio::Patch t; t.patch_tag = i + 1; t.patch_type = r.below(4); t.degree_u = r.below(9); t.degree_v = r.below(9); t.with_weights = r.below(2); t.num_control_points = big[r.below(4)]; t.num_u_knots = mid[r.below(6)]; t.num_v_knots = low[r.below(6)];
            t.data.resize(t.num_control_points * (t.with_weights ? 4 : 3) + t.num_u_knots + t.num_v_knots); for (auto& x : t.data) x = num();
            s.patches.push_back(std::move(t));
        }
    }
    return s;
}
// Things that are the same as the one before them, wholly or in part: a reader that takes repetition for
// something else (an update, a duplicate, a continuation) loses them.
void repeat_fields(Rng& r, std::vector<mshio::Data>& v)
{
    for (size_t i = 1; i < v.size() && i < 20; i++) {
        switch (r.below(6)) {
        case 0: v[i] = v[i - 1]; break;
        case 1: { // the same header, other contents
            v[i] = v[i - 1];
            for (auto& e : v[i].entries) { e.tag = 1 + (e.tag * 7 + 3) % 1000; for (auto& x : e.data) if (r.flip()) x = (double)r.range(-9, 9); }
            break; }
        case 2: { // the same name and numbers but the counts
            const auto t = v[i].header.int_tags;
            v[i].header = v[i - 1].header;
            v[i].header.int_tags[1] = t[1]; v[i].header.int_tags[2] = t[2];
            break; }
        case 3: v[i].header.string_tags = v[i - 1].header.string_tags; break;
        default: break;
        }
    }
    for (auto& d : v) {
        if (!r.chance(1, 3)) continue;
        for (size_t i = 1; i < d.entries.size() && i < 60; i++) {
            auto &a = d.entries[i - 1], &b = d.entries[i];
            if (r.chance(1, 3)) b.tag = a.tag;
            if (a.data.size() == b.data.size() && r.chance(1, 3)) b.data = a.data;
            if (!b.data.empty() && r.chance(1, 6)) for (auto& x : b.data) x = b.data[0];
        }
    }
}
void repeat_groups(Rng& r, std::vector<mshio::PhysicalGroup>& v)
{
    for (size_t i = 1; i < v.size() && i < 60; i++) {
        if (r.chance(1, 3)) v[i].tag = v[i - 1].tag;
        if (r.chance(1, 3)) v[i].dim = v[i - 1].dim;
        if (r.chance(1, 4)) v[i].name = v[i - 1].name;
    }
}
template <class V> static void repeat_entities(Rng& r, V& v)
{
    for (size_t i = 1; i < v.size() && i < 60; i++) {
        const unsigned k = (unsigned)r.below(6);
        if (k == 0) v[i] = v[i - 1];
        if (k == 1) v[i].tag = v[i - 1].tag;
        if (k == 2) v[i].physical_group_tags = v[i - 1].physical_group_tags;
    }
    if (!v.empty() && r.flip()) { auto& t = v[r.below(v.size())].physical_group_tags; for (size_t i = 1; i < t.size(); i++) if (r.chance(1, 3)) t[i] = t[i - 1]; }
}
void gen_repeats(Rng& r, MshSpec& s)
{
    if (r.flip()) repeat_groups(r, s.physical_groups);
    if (r.flip()) { auto& e = s.entities; repeat_entities(r, e.points); repeat_entities(r, e.curves); repeat_entities(r, e.surfaces); repeat_entities(r, e.volumes); }
    if (r.flip()) {
        auto& v = s.nodes.entity_blocks;
        for (size_t i = 0; i < v.size() && i < 60; i++) {
            auto& b = v[i];
            if (i && r.chance(1, 2) && (v[i - 1].entity_dim == b.entity_dim || !b.parametric)) { b.entity_dim = v[i - 1].entity_dim; b.entity_tag = v[i - 1].entity_tag; }
            const size_t m = b.num_nodes_in_block ? b.data.size() / b.num_nodes_in_block : 0;
            for (size_t k = 1; k < b.num_nodes_in_block && k < 60; k++) if (r.chance(1, 3)) for (size_t j = 0; j < m; j++) b.data[k * m + j] = b.data[(k - 1) * m + j];
        }
    }
    if (r.flip()) {
        auto& v = s.elements.entity_blocks;
        for (size_t i = 0; i < v.size() && i < 60; i++) {
            auto& b = v[i];
            if (i && r.chance(1, 2) && v[i - 1].num_elements_in_block && v[i - 1].num_elements_in_block < 200 && b.num_elements_in_block < 200) { // goes on with the entity and type of the block before it
                const auto& a = v[i - 1];
                const size_t n = npe(a.element_type), m = npe(b.element_type);
                std::vector<size_t> d;
                for (size_t k = 0; k < b.num_elements_in_block; k++) {
                    d.push_back(b.data[k * (m + 1)]);
                    const size_t from = r.below(a.num_elements_in_block) * (n + 1);
                    for (size_t j = 1; j <= n; j++) d.push_back(a.data[from + j]);
                }
                b.data = d; b.element_type = a.element_type; b.entity_dim = a.entity_dim; b.entity_tag = a.entity_tag;
            }
            const size_t n = npe(b.element_type);
            for (size_t k = 0; k < b.num_elements_in_block && k < 60; k++) {
                if (k && r.chance(1, 4)) for (size_t j = 1; j <= n; j++) b.data[k * (n + 1) + j] = b.data[(k - 1) * (n + 1) + j];
                if (r.chance(1, 4)) for (size_t j = 2; j <= n; j++) if (r.flip()) b.data[k * (n + 1) + j] = b.data[k * (n + 1) + j - 1];
            }
        }
    }
    for (auto* v : {&s.node_data, &s.element_data, &s.element_node_data}) if (r.chance(2, 3)) repeat_fields(r, *v);
    if (!s.node_data.empty() && r.chance(1, 6)) { s.element_data.push_back(s.node_data.back()); }
    for (size_t i = 1; i < s.curves.size() && i < 60; i++) { if (r.chance(1, 4)) s.curves[i] = s.curves[i - 1]; else if (r.chance(1, 3)) s.curves[i].curve_tag = s.curves[i - 1].curve_tag; }
    for (size_t i = 1; i < s.patches.size() && i < 60; i++) { if (r.chance(1, 4)) s.patches[i] = s.patches[i - 1]; else if (r.chance(1, 3)) { s.patches[i].patch_tag = s.patches[i - 1].patch_tag; s.patches[i].degree_u = s.patches[i - 1].degree_u; } }
}
// As in real files: fields with a value for every node or element of the mesh (in mesh order, reversed, or some of
// them), series of time steps, and entities, boundaries and physical groups that refer to each other.
mshio::Data coherent_field(Rng& r, const std::vector<size_t>& tags, const std::vector<size_t>* nodes, bool finite, int step)
{
    mshio::Data d;
    static const int widths[] = {1, 3, 9, 2};
    const int f = widths[r.below(4)];
    d.header.string_tags = {"view"};
    if (r.chance(1, 4)) d.header.string_tags.push_back("scheme");
    d.header.real_tags = {step * 0.1};
    d.header.int_tags = {step, f, 0};
    if (r.chance(1, 3)) d.header.int_tags.push_back((int)r.below(3));
    const unsigned order = (unsigned)r.below(8);
    std::vector<size_t> idx;
    for (size_t i = 0; i < tags.size(); i++) if (order != 7 || r.chance(4, 5)) idx.push_back(i);
    if (order == 5) std::reverse(idx.begin(), idx.end());
    if (order == 6) for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
    const int same = (int)r.below(8);
    for (size_t i : idx) {
        mshio::DataEntry e;
        e.tag = tags[i];
        size_t m = (size_t)f;
        if (nodes) { e.num_nodes_per_element = (int)(*nodes)[i]; m *= (*nodes)[i]; }
        e.data.resize(m);
        for (auto& x : e.data) x = same == 0 ? 0.0 : same == 1 ? (double)r.below(3) : gen_double(r, finite);
        d.entries.push_back(std::move(e));
    }
    d.header.int_tags[2] = (int)d.entries.size();
    return d;
}
void coherent_fields(Rng& r, const std::vector<size_t>& nodes, const std::vector<size_t>& elems, const std::vector<size_t>& elem_nodes, bool finite,
    std::vector<mshio::Data>& nd, std::vector<mshio::Data>& ed, std::vector<mshio::Data>& end)
{
    const int steps = (int)r.range(1, 4);
    const bool n = r.flip(), e = r.flip(), en = r.flip();
    if (r.flip()) { nd.clear(); ed.clear(); end.clear(); }
    for (int t = 0; t < steps; t++) {
        if (n && !nodes.empty() && nodes.size() < 2000) nd.push_back(coherent_field(r, nodes, nullptr, finite, t));
        if (e && !elems.empty() && elems.size() < 2000) ed.push_back(coherent_field(r, elems, nullptr, finite, t));
        if (en && !elems.empty() && elems.size() < 300) end.push_back(coherent_field(r, elems, &elem_nodes, finite, t));
    }
}
void gen_coherent(Rng& r, MshSpec& s, const GenOpt& o)
{
    std::vector<size_t> nodes, elems, elem_nodes;
    const bool wide = !o.tags32 && o.version == "4.1" && o.file_type == 0;
    bool fits = true;
    std::array<std::set<int>, 4> used;
    for (auto& b : s.nodes.entity_blocks) {
        if (b.entity_dim >= 0 && b.entity_dim <= 3) used[(size_t)b.entity_dim].insert(b.entity_tag);
        for (size_t t : b.tags) { nodes.push_back(t); fits = fits && t <= 0x7fffffff; }
    }
    for (auto& b : s.elements.entity_blocks) {
        const size_t m = npe(b.element_type);
        if (b.entity_dim >= 0 && b.entity_dim <= 3) used[(size_t)b.entity_dim].insert(b.entity_tag);
        for (size_t k = 0; k < b.num_elements_in_block; k++) { elems.push_back(b.data[k * (m + 1)]); elem_nodes.push_back(m); fits = fits && elems.back() <= 0x7fffffff; }
    }
    if (o.data && (fits || wide)) coherent_fields(r, nodes, elems, elem_nodes, o.finite, s.node_data, s.element_data, s.element_node_data);
    if (!o.entities || r.flip()) return;
    auto& e = s.entities;
    e = mshio::Entities();
    const bool negative = r.flip();
    std::vector<std::vector<int>> groups(4);
    s.physical_groups.clear();
    for (int d = 0; d < 4; d++) for (size_t k = r.below(3); k > 0; k--) {
        mshio::PhysicalGroup g; g.dim = d; g.tag = (int)s.physical_groups.size() + 1; g.name = "group" + std::to_string(g.tag);
        s.physical_groups.push_back(g); groups[(size_t)d].push_back(g.tag);
    }
    auto phys = [&](int d) { std::vector<int> v; for (int g : groups[(size_t)d]) if (r.flip()) v.push_back(g); return v; };
    auto bound = [&](int d) {
        std::vector<int> v;
        const auto& below = used[(size_t)d - 1];
        size_t k = 0;
        for (int t : below) { if (k++ > 40) break; if (r.chance(2, 3)) { const int sign = negative && r.flip() && t != INT_MIN ? -1 : 1; v.push_back(sign * t); if (r.chance(1, 5)) v.push_back(negative && t != INT_MIN ? -sign * t : sign * t); } }
        return v;
    };
    size_t k = 0;
    for (int t : used[0]) { if (k++ > 60) break; mshio::PointEntity p; p.tag = t; p.x = (double)t; p.y = p.z = 0; p.physical_group_tags = phys(0); e.points.push_back(p); }
    auto box = [&](auto& x, int t, int d) { x.tag = t; x.min_x = x.min_y = x.min_z = -1; x.max_x = x.max_y = 1; x.max_z = d == 2 ? -1 : 1; x.physical_group_tags = phys(d); };
    k = 0; for (int t : used[1]) { if (k++ > 60) break; mshio::CurveEntity x; box(x, t, 1); x.boundary_point_tags = bound(1); e.curves.push_back(x); }
    k = 0; for (int t : used[2]) { if (k++ > 60) break; mshio::SurfaceEntity x; box(x, t, 2); x.boundary_curve_tags = bound(2); e.surfaces.push_back(x); }
    k = 0; for (int t : used[3]) { if (k++ > 60) break; mshio::VolumeEntity x; box(x, t, 3); x.boundary_surface_tags = bound(3); e.volumes.push_back(x); }
}
MshSpec gen_spec(Rng& r, const GenOpt& o)
{
    if (o.stairs && r.chance(1, 40)) return gen_stairs(r, o);
    MshSpec s;
    s.mesh_format.version = o.version;
    s.mesh_format.file_type = o.file_type;
    s.mesh_format.data_size = 8;
    if (o.mesh && !r.chance(1, 20)) gen_mesh(r, s, o);
    if (o.entities && r.chance(2, 3)) gen_entities(r, s, o);
    if (r.chance(2, 3)) gen_groups(r, s, o);
    if (o.data) {
        auto many = [&] { return r.chance(1, 2) ? (size_t)0 : r.chance(1, 10) ? 2 + r.below(12) : 1 + r.below(2); };
        if (o.size && r.chance(1, 300)) { GenOpt q = o; q.size = 0; for (size_t i = 60 + r.below(300); i > 0; i--) { s.node_data.push_back(gen_data(r, q, false)); s.element_node_data.push_back(gen_data(r, q, true)); } }
        for (size_t i = many(); i > 0; i--) s.node_data.push_back(gen_data(r, o, false));
        for (size_t i = many(); i > 0; i--) s.element_data.push_back(gen_data(r, o, false));
        for (size_t i = many(); i > 0; i--) s.element_node_data.push_back(gen_data(r, o, true));
    }
    if (o.nano) gen_nano(r, s, o);
    if (r.chance(1, 5)) gen_repeats(r, s);
    if (r.chance(1, 6)) gen_coherent(r, s, o);
    return s;
}
MshSpec gen_large(Rng& r, const GenOpt& o, size_t n)
{
    MshSpec s;
    s.mesh_format.version = o.version;
    s.mesh_format.file_type = o.file_type;
    auto& N = s.nodes;
    N.entity_blocks.resize(2);
    size_t tag = 1;
    for (size_t k = 0; k < 2; k++) {
        auto& b = N.entity_blocks[k];
        b.entity_dim = 3; b.entity_tag = (int)k + 1; b.num_nodes_in_block = k ? n : 1 + r.below(5);
        for (size_t i = 0; i < b.num_nodes_in_block; i++) {
            b.tags.push_back(tag++);
            for (int j = 0; j < 3; j++) b.data.push_back((double)(r.next() >> 11) * 1e-9);
        }
    }
    N.num_entity_blocks = 2; N.num_nodes = tag - 1; N.min_node_tag = 1; N.max_node_tag = tag - 1;
    auto& E = s.elements;
    E.entity_blocks.resize(2);
    size_t et = 1;
    for (size_t k = 0; k < 2; k++) {
        auto& b = E.entity_blocks[k];
        b.element_type = k ? 4 : 2; b.entity_dim = k ? 3 : 2; b.entity_tag = (int)k + 7; b.num_elements_in_block = k ? n : 1 + r.below(5);
        size_t m = npe(b.element_type);
        for (size_t i = 0; i < b.num_elements_in_block; i++) {
            b.data.push_back(et++);
            for (size_t j = 0; j < m; j++) b.data.push_back(1 + r.below(tag - 1));
        }
    }
    E.num_entity_blocks = 2; E.num_elements = et - 1; E.min_element_tag = 1; E.max_element_tag = et - 1;
    if (o.data) {
        mshio::Data d;
        d.header.string_tags = {"big"}; d.header.real_tags = {0.5};
        d.header.int_tags = {0, 1, (int)n};
        for (size_t i = 0; i < n; i++) { mshio::DataEntry e; e.tag = i + 1; e.data = {(double)(r.next() >> 11) * 1e-5}; d.entries.push_back(std::move(e)); }
        s.node_data.push_back(d);
        s.element_data.push_back(d);
    }
    return s;
}

// ---------------------------------------------------------------- comparison
bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }

namespace {
struct Cmp {
    std::string d;
    template <class T> bool eq(const T& a, const T& b, const std::string& where)
    {
        if (!d.empty()) return false;
        if (a == b) return true;
        std::ostringstream o; o << where << ": " << a << " != " << b; d = o.str(); return false;
    }
    bool real(double a, double b, const std::string& where)
    {
        if (!d.empty()) return false;
        if (same_bits(a, b)) return true;
        char buf[160]; snprintf(buf, sizeof buf, ": %.17g (%a) != %.17g (%a)", a, a, b, b); d = where + buf; return false;
    }
    bool reals(const std::vector<double>& a, const std::vector<double>& b, const std::string& where)
    {
        if (!eq(a.size(), b.size(), where + ".size")) return false;
        if (a.empty() || std::memcmp(a.data(), b.data(), a.size() * 8) == 0) return true;
        for (size_t i = 0; i < a.size(); i++) if (!real(a[i], b[i], where + "[" + std::to_string(i) + "]")) return false;
        return true;
    }
    template <class T> bool vec(const std::vector<T>& a, const std::vector<T>& b, const std::string& where)
    {
        if (!eq(a.size(), b.size(), where + ".size")) return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!(a[i] == b[i])) return eq(a[i], b[i], where + "[" + std::to_string(i) + "]");
        return true;
    }
    bool str(const std::string& a, const std::string& b, const std::string& where)
    {
        if (!d.empty()) return false;
        if (a == b) return true;
        d = where + ": \"" + json_escape(shorten(a)) + "\" != \"" + json_escape(shorten(b)) + "\""; return false;
    }
};
template <class E> void cmp_box(Cmp& c, const E& a, const E& b, const std::string& w)
{
    c.eq(a.tag, b.tag, w + ".tag");
    c.real(a.min_x, b.min_x, w + ".min_x"); c.real(a.min_y, b.min_y, w + ".min_y"); c.real(a.min_z, b.min_z, w + ".min_z");
    c.real(a.max_x, b.max_x, w + ".max_x"); c.real(a.max_y, b.max_y, w + ".max_y"); c.real(a.max_z, b.max_z, w + ".max_z");
    c.vec(a.physical_group_tags, b.physical_group_tags, w + ".physical_group_tags");
}
std::string at(const std::string& w, size_t i) { return w + "[" + std::to_string(i) + "]"; }
} // namespace

std::string diff_data(const std::vector<mshio::Data>& A, const std::vector<mshio::Data>& B, const std::string& where, bool element_node)
{
    Cmp c;
    if (!c.eq(A.size(), B.size(), where + ".size")) return c.d;
    for (size_t i = 0; i < A.size(); i++) {
        const auto& a = A[i]; const auto& b = B[i];
        std::string w = at(where, i);
        if (c.eq(a.header.string_tags.size(), b.header.string_tags.size(), w + ".string_tags.size"))
            for (size_t k = 0; k < a.header.string_tags.size(); k++) c.str(a.header.string_tags[k], b.header.string_tags[k], at(w + ".string_tags", k));
        c.reals(a.header.real_tags, b.header.real_tags, w + ".real_tags");
        c.vec(a.header.int_tags, b.header.int_tags, w + ".int_tags");
        if (c.eq(a.entries.size(), b.entries.size(), w + ".entries.size"))
            for (size_t k = 0; k < a.entries.size() && c.d.empty(); k++) {
                std::string we; // built only when needed
                const auto& x = a.entries[k]; const auto& y = b.entries[k];
                if (x.tag == y.tag && x.data.size() == y.data.size() && (!element_node || x.num_nodes_per_element == y.num_nodes_per_element) &&
                    (x.data.empty() || std::memcmp(x.data.data(), y.data.data(), 8 * x.data.size()) == 0)) continue;
                we = at(w + ".entries", k);
                c.eq(x.tag, y.tag, we + ".tag");
                if (element_node) c.eq(x.num_nodes_per_element, y.num_nodes_per_element, we + ".num_nodes_per_element");
                c.reals(x.data, y.data, we + ".data");
            }
        if (!c.d.empty()) return c.d;
    }
    return c.d;
}

std::string diff(const MshSpec& a, const MshSpec& b, unsigned what)
{
    Cmp c;
    if (what & CMP_FORMAT) {
        c.str(a.mesh_format.version, b.mesh_format.version, "mesh_format.version");
        c.eq(a.mesh_format.file_type, b.mesh_format.file_type, "mesh_format.file_type");
        c.eq(a.mesh_format.data_size, b.mesh_format.data_size, "mesh_format.data_size");
    }
    if (what & CMP_NODES) {
        const auto& x = a.nodes; const auto& y = b.nodes;
        c.eq(x.num_entity_blocks, y.num_entity_blocks, "nodes.num_entity_blocks");
        c.eq(x.num_nodes, y.num_nodes, "nodes.num_nodes");
        c.eq(x.min_node_tag, y.min_node_tag, "nodes.min_node_tag");
        c.eq(x.max_node_tag, y.max_node_tag, "nodes.max_node_tag");
        if (c.eq(x.entity_blocks.size(), y.entity_blocks.size(), "nodes.entity_blocks.size"))
            for (size_t i = 0; i < x.entity_blocks.size() && c.d.empty(); i++) {
                const auto& p = x.entity_blocks[i]; const auto& q = y.entity_blocks[i];
                std::string w = at("nodes.entity_blocks", i);
                c.eq(p.entity_dim, q.entity_dim, w + ".entity_dim");
                c.eq(p.entity_tag, q.entity_tag, w + ".entity_tag");
                c.eq(p.parametric, q.parametric, w + ".parametric");
                c.eq(p.num_nodes_in_block, q.num_nodes_in_block, w + ".num_nodes_in_block");
                c.vec(p.tags, q.tags, w + ".tags");
                c.reals(p.data, q.data, w + ".data");
            }
    }
    if (what & CMP_ELEMENTS) {
        const auto& x = a.elements; const auto& y = b.elements;
        c.eq(x.num_entity_blocks, y.num_entity_blocks, "elements.num_entity_blocks");
        c.eq(x.num_elements, y.num_elements, "elements.num_elements");
        c.eq(x.min_element_tag, y.min_element_tag, "elements.min_element_tag");
        c.eq(x.max_element_tag, y.max_element_tag, "elements.max_element_tag");
        if (c.eq(x.entity_blocks.size(), y.entity_blocks.size(), "elements.entity_blocks.size"))
            for (size_t i = 0; i < x.entity_blocks.size() && c.d.empty(); i++) {
                const auto& p = x.entity_blocks[i]; const auto& q = y.entity_blocks[i];
                std::string w = at("elements.entity_blocks", i);
                c.eq(p.entity_dim, q.entity_dim, w + ".entity_dim");
                c.eq(p.entity_tag, q.entity_tag, w + ".entity_tag");
                c.eq(p.element_type, q.element_type, w + ".element_type");
                c.eq(p.num_elements_in_block, q.num_elements_in_block, w + ".num_elements_in_block");
                c.vec(p.data, q.data, w + ".data");
            }
    }
    if (what & CMP_ENTITIES) {
        const auto& x = a.entities; const auto& y = b.entities;
        if (c.eq(x.points.size(), y.points.size(), "entities.points.size"))
            for (size_t i = 0; i < x.points.size() && c.d.empty(); i++) {
                const auto& p = x.points[i]; const auto& q = y.points[i]; std::string w = at("entities.points", i);
                c.eq(p.tag, q.tag, w + ".tag"); c.real(p.x, q.x, w + ".x"); c.real(p.y, q.y, w + ".y"); c.real(p.z, q.z, w + ".z");
                c.vec(p.physical_group_tags, q.physical_group_tags, w + ".physical_group_tags");
            }
        if (c.eq(x.curves.size(), y.curves.size(), "entities.curves.size"))
            for (size_t i = 0; i < x.curves.size() && c.d.empty(); i++) {
                std::string w = at("entities.curves", i); cmp_box(c, x.curves[i], y.curves[i], w);
                c.vec(x.curves[i].boundary_point_tags, y.curves[i].boundary_point_tags, w + ".boundary_point_tags"); }
        if (c.eq(x.surfaces.size(), y.surfaces.size(), "entities.surfaces.size"))
            for (size_t i = 0; i < x.surfaces.size() && c.d.empty(); i++) {
                std::string w = at("entities.surfaces", i); cmp_box(c, x.surfaces[i], y.surfaces[i], w);
                c.vec(x.surfaces[i].boundary_curve_tags, y.surfaces[i].boundary_curve_tags, w + ".boundary_curve_tags"); }
        if (c.eq(x.volumes.size(), y.volumes.size(), "entities.volumes.size"))
            for (size_t i = 0; i < x.volumes.size() && c.d.empty(); i++) {
                std::string w = at("entities.volumes", i); cmp_box(c, x.volumes[i], y.volumes[i], w);
                c.vec(x.volumes[i].boundary_surface_tags, y.volumes[i].boundary_surface_tags, w + ".boundary_surface_tags"); }
    }
    if (what & CMP_GROUPS) {
        if (c.eq(a.physical_groups.size(), b.physical_groups.size(), "physical_groups.size"))
            for (size_t i = 0; i < a.physical_groups.size() && c.d.empty(); i++) {
                const auto& p = a.physical_groups[i]; const auto& q = b.physical_groups[i]; std::string w = at("physical_groups", i);
                c.eq(p.dim, q.dim, w + ".dim"); c.eq(p.tag, q.tag, w + ".tag"); c.str(p.name, q.name, w + ".name");
            }
    }
    if (c.d.empty() && (what & CMP_DATA)) {
        c.d = diff_data(a.node_data, b.node_data, "node_data", false);
        if (c.d.empty()) c.d = diff_data(a.element_data, b.element_data, "element_data", false);
        if (c.d.empty()) c.d = diff_data(a.element_node_data, b.element_node_data, "element_node_data", true);
    }
    if (what & CMP_NANO) {
        c.str(a.nanospline_format.version, b.nanospline_format.version, "nanospline_format.version");
        if (c.eq(a.curves.size(), b.curves.size(), "curves.size"))
            for (size_t i = 0; i < a.curves.size() && c.d.empty(); i++) {
                const auto& p = a.curves[i]; const auto& q = b.curves[i]; std::string w = at("curves", i);
                c.eq(p.curve_tag, q.curve_tag, w + ".curve_tag"); c.eq(p.curve_type, q.curve_type, w + ".curve_type");
                c.eq(p.curve_degree, q.curve_degree, w + ".curve_degree"); c.eq(p.num_control_points, q.num_control_points, w + ".num_control_points");
                c.eq(p.num_knots, q.num_knots, w + ".num_knots"); c.eq(p.with_weights, q.with_weights, w + ".with_weights");
                c.reals(p.data, q.data, w + ".data");
            }
        if (c.eq(a.patches.size(), b.patches.size(), "patches.size"))
            for (size_t i = 0; i < a.patches.size() && c.d.empty(); i++) {
                const auto& p = a.patches[i]; const auto& q = b.patches[i]; std::string w = at("patches", i);
                c.eq(p.patch_tag, q.patch_tag, w + ".patch_tag"); c.eq(p.patch_type, q.patch_type, w + ".patch_type");
                c.eq(p.degree_u, q.degree_u, w + ".degree_u"); c.eq(p.degree_v, q.degree_v, w + ".degree_v");
                c.eq(p.num_control_points, q.num_control_points, w + ".num_control_points");
                c.eq(p.num_u_knots, q.num_u_knots, w + ".num_u_knots"); c.eq(p.num_v_knots, q.num_v_knots, w + ".num_v_knots");
                c.eq(p.with_weights, q.with_weights, w + ".with_weights"); c.reals(p.data, q.data, w + ".data");
            }
    }
    return c.d;
}

namespace {
struct Out {
    std::string o;
    template <class T> void pod(const T& v) { o.append(reinterpret_cast<const char*>(&v), sizeof v); }
    void str(const std::string& s) { pod(s.size()); o += s; }
    template <class T> void vec(const std::vector<T>& v) { pod(v.size()); if (!v.empty()) o.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T)); }
    template <class E> void box(const E& e) { pod(e.tag); pod(e.min_x); pod(e.min_y); pod(e.min_z); pod(e.max_x); pod(e.max_y); pod(e.max_z); vec(e.physical_group_tags); }
    void data(const std::vector<mshio::Data>& D)
    {
        pod(D.size());
        for (auto& d : D) {
            pod(d.header.string_tags.size()); for (auto& s : d.header.string_tags) str(s);
            vec(d.header.real_tags); vec(d.header.int_tags);
            pod(d.entries.size()); for (auto& e : d.entries) { pod(e.tag); pod(e.num_nodes_per_element); vec(e.data); }
        }
    }
};
} // namespace
std::string dump(const MshSpec& s)
{
    Out w;
    w.str(s.mesh_format.version); w.pod(s.mesh_format.file_type); w.pod(s.mesh_format.data_size);
    auto& n = s.nodes; w.pod(n.num_entity_blocks); w.pod(n.num_nodes); w.pod(n.min_node_tag); w.pod(n.max_node_tag); w.pod(n.entity_blocks.size());
    for (auto& b : n.entity_blocks) { w.pod(b.entity_dim); w.pod(b.entity_tag); w.pod(b.parametric); w.pod(b.num_nodes_in_block); w.vec(b.tags); w.vec(b.data); }
    auto& e = s.elements; w.pod(e.num_entity_blocks); w.pod(e.num_elements); w.pod(e.min_element_tag); w.pod(e.max_element_tag); w.pod(e.entity_blocks.size());
    for (auto& b : e.entity_blocks) { w.pod(b.entity_dim); w.pod(b.entity_tag); w.pod(b.element_type); w.pod(b.num_elements_in_block); w.vec(b.data); }
    w.pod(s.entities.points.size()); for (auto& p : s.entities.points) { w.pod(p.tag); w.pod(p.x); w.pod(p.y); w.pod(p.z); w.vec(p.physical_group_tags); }
    w.pod(s.entities.curves.size()); for (auto& p : s.entities.curves) { w.box(p); w.vec(p.boundary_point_tags); }
    w.pod(s.entities.surfaces.size()); for (auto& p : s.entities.surfaces) { w.box(p); w.vec(p.boundary_curve_tags); }
    w.pod(s.entities.volumes.size()); for (auto& p : s.entities.volumes) { w.box(p); w.vec(p.boundary_surface_tags); }
    w.pod(s.physical_groups.size()); for (auto& g : s.physical_groups) { w.pod(g.dim); w.pod(g.tag); w.str(g.name); }
    w.data(s.node_data); w.data(s.element_data); w.data(s.element_node_data);
    w.str(s.nanospline_format.version);
    w.pod(s.curves.size());
    for (auto& c : s.curves) { w.pod(c.curve_tag); w.pod(c.curve_type); w.pod(c.curve_degree); w.pod(c.num_control_points); w.pod(c.num_knots); w.pod(c.with_weights); w.vec(c.data); }
    w.pod(s.patches.size());
    for (auto& c : s.patches) { w.pod(c.patch_tag); w.pod(c.patch_type); w.pod(c.degree_u); w.pod(c.degree_v); w.pod(c.num_control_points); w.pod(c.num_u_knots); w.pod(c.num_v_knots); w.pod(c.with_weights); w.vec(c.data); }
    return w.o;
}

static uint64_t cls(size_t n) { return n < 3 ? n : n < 9 ? 3 : n < 14 ? n : n < 40 ? 20 : n < 200 ? 21 : 22; }
uint64_t shape(const MshSpec& s)
{
    Out w;
    w.str(s.mesh_format.version); w.pod(s.mesh_format.file_type);
    w.pod(cls(s.nodes.entity_blocks.size())); w.pod(cls(s.nodes.num_nodes)); w.pod(s.nodes.max_node_tag >> 31 ? 1 : 0);
    int par = 0; std::set<int> types;
    for (auto& b : s.nodes.entity_blocks) par |= 1 << (b.parametric * 4 + (b.entity_dim & 3));
    for (auto& b : s.elements.entity_blocks) types.insert(b.element_type);
    w.pod(par); w.pod(cls(s.elements.entity_blocks.size())); w.pod(cls(s.elements.num_elements)); for (int t : types) w.pod(t);
    w.pod(cls(s.entities.points.size())); w.pod(cls(s.entities.curves.size())); w.pod(cls(s.entities.surfaces.size())); w.pod(cls(s.entities.volumes.size()));
    w.pod(cls(s.physical_groups.size()));
    for (auto* d : {&s.node_data, &s.element_data, &s.element_node_data}) { w.pod(cls(d->size())); for (auto& x : *d) { w.pod(cls(x.entries.size())); w.pod(x.header.int_tags.size() > 1 ? x.header.int_tags[1] : -1); } }
    w.pod(cls(s.curves.size())); w.pod(cls(s.patches.size()));
    return fnv(w.o);
}

std::vector<FlatNode> flat_nodes(const MshSpec& s)
{
    std::vector<FlatNode> v;
    for (auto& b : s.nodes.entity_blocks) {
        const size_t m = b.tags.empty() ? 0 : b.data.size() / b.tags.size();
        for (size_t i = 0; i < b.tags.size(); i++)
            if (m >= 3) v.push_back({b.tags[i], b.data[i * m], b.data[i * m + 1], b.data[i * m + 2]});
            else v.push_back({b.tags[i], 0, 0, 0});
    }
    return v;
}
std::vector<FlatElem> flat_elems(const MshSpec& s)
{
    std::vector<FlatElem> v;
    for (auto& b : s.elements.entity_blocks) {
        const size_t m = npe(b.element_type) + 1;
        for (size_t i = 0; (i + 1) * m <= b.data.size(); i++) {
            FlatElem e{b.data[i * m], b.element_type, b.entity_tag, b.entity_dim, {}};
            e.nodes.assign(b.data.begin() + (long)(i * m + 1), b.data.begin() + (long)((i + 1) * m));
            v.push_back(std::move(e));
        }
    }
    return v;
}
std::string diff_flat(const MshSpec& a, const MshSpec& b, bool check_entity)
{
    Cmp c;
    auto n1 = flat_nodes(a), n2 = flat_nodes(b);
    if (!c.eq(n1.size(), n2.size(), "number of nodes")) return c.d;
    for (size_t i = 0; i < n1.size(); i++) {
        if (n1[i].tag == n2[i].tag && same_bits(n1[i].x, n2[i].x) && same_bits(n1[i].y, n2[i].y) && same_bits(n1[i].z, n2[i].z)) continue;
        std::string w = at("node", i);
        c.eq(n1[i].tag, n2[i].tag, w + ".tag"); c.real(n1[i].x, n2[i].x, w + ".x"); c.real(n1[i].y, n2[i].y, w + ".y"); c.real(n1[i].z, n2[i].z, w + ".z");
        return c.d;
    }
    auto e1 = flat_elems(a), e2 = flat_elems(b);
    if (!c.eq(e1.size(), e2.size(), "number of elements")) return c.d;
    for (size_t i = 0; i < e1.size(); i++) {
        std::string w = at("element", i);
        c.eq(e1[i].tag, e2[i].tag, w + ".tag"); c.eq(e1[i].type, e2[i].type, w + ".type");
        if (check_entity) c.eq(e1[i].entity, e2[i].entity, w + ".entity_tag");
        c.vec(e1[i].nodes, e2[i].nodes, w + ".nodes");
        if (!c.d.empty()) return c.d;
    }
    return "";
}

std::string check_v22_consistency(const MshSpec& s)
{
    Cmp c;
    const auto& N = s.nodes; const auto& E = s.elements;
    c.eq(N.num_entity_blocks, N.entity_blocks.size(), "nodes.num_entity_blocks vs blocks");
    c.eq(E.num_entity_blocks, E.entity_blocks.size(), "elements.num_entity_blocks vs blocks");
    size_t total = 0, etotal = 0;
    uint64_t mn = UINT64_MAX, mx = 0, emn = UINT64_MAX, emx = 0;
    std::map<uint64_t, std::set<std::pair<int, int>>> used;
    for (size_t i = 0; i < E.entity_blocks.size() && c.d.empty(); i++) {
        const auto& b = E.entity_blocks[i]; std::string w = at("elements.entity_blocks", i);
        const size_t m = npe(b.element_type) + 1;
        c.eq(b.data.size(), m * b.num_elements_in_block, w + ".data.size vs count");
        c.eq(b.entity_dim, edim(b.element_type), w + ".entity_dim vs type");
        if (b.num_elements_in_block == 0) c.d = w + ": empty block";
        if (i > 0) {
            const auto& p = E.entity_blocks[i - 1];
            if (p.entity_dim == b.entity_dim && p.entity_tag == b.entity_tag && p.element_type == b.element_type && c.d.empty()) c.d = w + ": same entity and type as the block before it (not grouped)";
        }
        if (!c.d.empty()) break;
        etotal += b.num_elements_in_block;
        for (size_t k = 0; k < b.data.size(); k++) {
            if (k % m == 0) { emn = std::min<uint64_t>(emn, b.data[k]); emx = std::max<uint64_t>(emx, b.data[k]); }
            else used[b.data[k]].insert({b.entity_dim, b.entity_tag});
        }
    }
    for (size_t i = 0; i < N.entity_blocks.size() && c.d.empty(); i++) {
        const auto& b = N.entity_blocks[i]; std::string w = at("nodes.entity_blocks", i);
        c.eq(b.tags.size(), b.num_nodes_in_block, w + ".tags.size vs count");
        c.eq(b.parametric, 0, w + ".parametric");
        c.eq(b.data.size(), 3 * b.num_nodes_in_block, w + ".data.size vs count");
        if (b.num_nodes_in_block == 0 && c.d.empty()) c.d = w + ": empty block";
        if (i > 0 && c.d.empty()) {
            const auto& p = N.entity_blocks[i - 1];
            if (p.entity_dim == b.entity_dim && p.entity_tag == b.entity_tag) c.d = w + ": same entity as the block before it (not grouped)";
        }
        for (size_t k = 0; k < b.tags.size() && c.d.empty(); k++) {
            total++; mn = std::min<uint64_t>(mn, b.tags[k]); mx = std::max<uint64_t>(mx, b.tags[k]);
            auto it = used.find(b.tags[k]);
            if (it == used.end()) {
                if (b.entity_dim != 0 || b.entity_tag != 0) { std::ostringstream o; o << w << ": unused node " << b.tags[k] << " is given entity (" << b.entity_dim << "," << b.entity_tag << ")"; c.d = o.str(); }
            } else if (!it->second.count({b.entity_dim, b.entity_tag})) {
                std::ostringstream o; o << w << ": node " << b.tags[k] << " is given entity (" << b.entity_dim << "," << b.entity_tag << ") of no element that uses it"; c.d = o.str();
            }
        }
    }
    c.eq(N.num_nodes, total, "nodes.num_nodes vs contents");
    c.eq(E.num_elements, etotal, "elements.num_elements vs contents");
    if (total) { c.eq((uint64_t)N.min_node_tag, mn, "nodes.min_node_tag"); c.eq((uint64_t)N.max_node_tag, mx, "nodes.max_node_tag"); }
    if (etotal) { c.eq((uint64_t)E.min_element_tag, emn, "elements.min_element_tag"); c.eq((uint64_t)E.max_element_tag, emx, "elements.max_element_tag"); }
    return c.d;
}

// ---------------------------------------------------------------- outcomes
const char* kind_name(Kind k)
{
    static const char* n[] = {"returned", "UnsupportedFeature", "InvalidFormat", "CorruptData", "std::bad_alloc", "std::length_error", "std::ios_base::failure", "std::runtime_error", "other std::exception", "exception not derived from std::exception"};
    return n[k];
}
Kind classify(std::string& what)
{
    try { throw; }
    catch (const mshio::UnsupportedFeature& e) { what = e.what(); return E_UNSUPPORTED; }
    catch (const mshio::InvalidFormat& e) { what = e.what(); return E_INVALID; }
    catch (const mshio::CorruptData& e) { what = e.what(); return E_CORRUPT; }
    catch (const std::bad_alloc& e) { what = e.what(); return E_BADALLOC; }
    catch (const std::length_error& e) { what = e.what(); return E_LENGTH; }
    catch (const std::ios_base::failure& e) { what = e.what(); return E_IOS; }
    catch (const std::runtime_error& e) { what = e.what(); return E_RUNTIME; }
    catch (const std::exception& e) { what = e.what(); return E_OTHERSTD; }
    catch (...) { what = "?"; return E_NONSTD; }
}
Outcome load_stream(std::istream& in)
{
    Outcome o;
    try { o.spec = mshio::load_msh(in); } catch (...) { o.kind = classify(o.what); }
    return o;
}
Outcome load_bytes(const std::string& bytes)
{
    std::istringstream in(bytes, std::ios::in | std::ios::binary);
    return load_stream(in);
}
Outcome load_file(const std::string& path)
{
    Outcome o;
    try { o.spec = mshio::load_msh(path); } catch (...) { o.kind = classify(o.what); }
    return o;
}
Outcome save_bytes(const MshSpec& s)
{
    Outcome o;
    std::ostringstream out(std::ios::out | std::ios::binary);
    try { mshio::save_msh(out, s); } catch (...) { o.kind = classify(o.what); }
    o.stream_failed = out.fail();
    o.bytes = out.str();
    return o;
}
Outcome save_file(const std::string& path, const MshSpec& s)
{
    Outcome o;
    try { mshio::save_msh(path, s); } catch (...) { o.kind = classify(o.what); }
    return o;
}
Outcome validate(const MshSpec& s)
{
    Outcome o;
    try { mshio::validate_spec(s); } catch (...) { o.kind = classify(o.what); }
    return o;
}
std::string full_device(const std::string& dir)
{
    const std::string p = dir + "/full";
    unlink(p.c_str());
    if (symlink("/dev/full", p.c_str()) != 0) { perror("symlink"); _exit(120); }
    return p;
}
std::string slurp(const std::string& path)
{
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "";
    std::string s; char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    fclose(f);
    return s;
}
void spit(const std::string& path, const std::string& bytes)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) { perror(path.c_str()); exit(3); }
    if (fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) { perror(path.c_str()); exit(3); }
}

// ---------------------------------------------------------------- streams
ChunkBuf::int_type ChunkBuf::underflow()
{
    m_calls++;
    size_t end = m_bytes.size();
    if (m_fault != NONE && m_pos >= m_fail_at) {
        m_faulted = true;
        if (m_fault == THROW) throw std::runtime_error("injected read error");
        return traits_type::eof();
    }
    if (m_fault != NONE) end = std::min(end, m_fail_at);
    if (m_pos >= end) return traits_type::eof();
    size_t n = std::min(end - m_pos, (size_t)(1 + m_rng.below(m_max)));
    m_buf.assign(m_bytes.begin() + (long)m_pos, m_bytes.begin() + (long)(m_pos + n));
    m_pos += n;
    setg(m_buf.data(), m_buf.data(), m_buf.data() + n);
    return traits_type::to_int_type(*gptr());
}
FailBuf::int_type FailBuf::overflow(int_type c)
{
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize FailBuf::xsputn(const char* p, std::streamsize n)
{
    size_t room = m_limit > got.size() ? m_limit - got.size() : 0;
    size_t k = std::min(room, (size_t)n);
    got.append(p, k);
    if (k < (size_t)n) {
        faulted = true;
        if (m_once) m_limit = SIZE_MAX;
        if (m_throws) throw std::runtime_error("injected write error");
    }
    return (std::streamsize)k;
}
int FailBuf::sync() { return faulted && !m_once ? -1 : 0; }

// ---------------------------------------------------------------- memory
namespace {
std::atomic<size_t> g_live{0}, g_peak{0}, g_total{0}, g_denied{0};
std::atomic<size_t> g_cap_single{0}, g_cap_total{0};
std::atomic<int> g_fill{-1};
std::atomic<size_t> g_calls{0}, g_refused{0};
std::atomic<long long> g_fail{-1}; // calls left before the failing one; -1: none
std::atomic<bool> g_fail_on{false}, g_fail_persist{false};
} // namespace
void Mem::reset_peak() { g_peak = g_live.load(); g_total = 0; g_calls = 0; }
size_t Mem::calls() { return g_calls; }
void Mem::fail_at(size_t at, bool persist) { g_refused = 0; g_fail = (long long)at; g_fail_persist = persist; g_fail_on = true; }
size_t Mem::end_fail() { g_fail_on = false; return g_refused; }
size_t Mem::live() { return g_live; }
size_t Mem::peak() { return g_peak; }
size_t Mem::allocated() { return g_total; }
void Mem::set_cap(size_t s, size_t t) { g_cap_single = s; g_cap_total = t; }
void Mem::set_fill(int b) { g_fill = b; }
size_t Mem::denied() { return g_denied; }

static void* mem_new(size_t n)
{
    g_calls.fetch_add(1, std::memory_order_relaxed);
    if (g_fail_on.load(std::memory_order_relaxed)) {
        const long long left = g_fail.fetch_sub(1, std::memory_order_relaxed);
        if (left == 0 || (left < 0 && g_fail_persist)) { g_refused++; throw std::bad_alloc(); }
    }
    size_t cs = g_cap_single.load(std::memory_order_relaxed), ct = g_cap_total.load(std::memory_order_relaxed);
    if ((cs && n > cs) || (ct && g_live.load(std::memory_order_relaxed) + n > ct)) { g_denied++; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    size_t u = malloc_usable_size(p);
    size_t l = g_live.fetch_add(u, std::memory_order_relaxed) + u;
    g_total.fetch_add(u, std::memory_order_relaxed);
    size_t pk = g_peak.load(std::memory_order_relaxed);
    while (l > pk && !g_peak.compare_exchange_weak(pk, l, std::memory_order_relaxed)) {}
    int f = g_fill.load(std::memory_order_relaxed);
    if (f >= 0) memset(p, f, n);
    return p;
}
static void mem_delete(void* p)
{
    if (!p) return;
    g_live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed);
    free(p);
}
void* mem_new_ext(size_t n) { return mem_new(n); }
void mem_delete_ext(void* p) { mem_delete(p); }

// ---------------------------------------------------------------- context
std::string shorten(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)"; }
std::string json_escape(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
std::string describe(const MshSpec& s)
{
    std::ostringstream o;
    o << "v" << s.mesh_format.version << (s.mesh_format.file_type ? " binary" : " ascii") << " nodes=" << s.nodes.num_nodes << "/" << s.nodes.entity_blocks.size() << " elements=" << s.elements.num_elements << "/" << s.elements.entity_blocks.size()
      << " tags=[" << s.nodes.min_node_tag << ".." << s.nodes.max_node_tag << "] entities=" << s.entities.points.size() << "/" << s.entities.curves.size() << "/" << s.entities.surfaces.size() << "/" << s.entities.volumes.size()
      << " groups=" << s.physical_groups.size() << " data=" << s.node_data.size() << "/" << s.element_data.size() << "/" << s.element_node_data.size() << " curves=" << s.curves.size() << " patches=" << s.patches.size();
    return o.str();
}
void Ctx::violation(const std::string& key, const std::string& msg, const std::string& artifact)
{
    if (viols.size() >= 20) return;
    viols.push_back({key, msg, index, artifact});
}
static std::map<std::string, CheckFn>& registry() { static std::map<std::string, CheckFn> r; return r; }
void register_check(const std::string& p, CheckFn fn) { registry()[p] = fn; }
CheckFn find_check(const std::string& p) { return registry().count(p) ? registry()[p] : CheckFn(); }

} // namespace vf

#ifndef VF_NO_NEW
void* operator new(size_t n) { return vf::mem_new_ext(n); }
void* operator new[](size_t n) { return vf::mem_new_ext(n); }
void operator delete(void* p) noexcept { vf::mem_delete_ext(p); }
void operator delete[](void* p) noexcept { vf::mem_delete_ext(p); }
void operator delete(void* p, size_t) noexcept { vf::mem_delete_ext(p); }
void operator delete[](void* p, size_t) noexcept { vf::mem_delete_ext(p); }
#endif
