// Shared pieces of the monitors: random source, spec generator, spec comparison, outcome
// classification, instrumented streams. Uses only the public API of MshIO.
#pragma once
#include <mshio/exception.h>
#include <mshio/mshio.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace vf {

using mshio::MshSpec;

// ---------------------------------------------------------------- random source
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
    bool flip() { return next() & 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    Rng fork() { return Rng(next()); }
};
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---------------------------------------------------------------- generator
struct GenOpt {
    std::string version = "4.1";
    int file_type = 0;
    bool finite = true;      // only finite reals
    bool tags32 = false;     // node/element tags in 1..2^31-1
    bool nano = false;       // curves and patches
    bool data = true;        // post-processing data
    bool mesh = true;        // nodes/elements
    bool entities = true;
    bool dims_match = false; // element block dim == dim of its type
    bool printable = false;  // strings without control characters, quotes and backslashes
    bool exact_range = false;// min/max tags are exact
    bool stairs = false;     // now and then a spec whose sizes run over p-1, p, p+1, 2p-1, 2p, 2p+1 everywhere
    int size = 1;            // 0 tiny, 1 normal with special counts, 2 large
};
size_t npe(int type);  // element table, independent of the library; 0 and -1 for unknown types
int edim(int type);
int gen_int(Rng& r);
uint64_t gen_u64(Rng& r);
double gen_double(Rng& r, bool finite);
std::string gen_string(Rng& r, bool printable);
size_t gen_count(Rng& r, int size);
size_t gen_threshold(Rng& r);
std::vector<size_t> gen_tags(Rng& r, size_t n, bool tags32);
void gen_mesh(Rng& r, MshSpec& s, const GenOpt& o);
void gen_entities(Rng& r, MshSpec& s, const GenOpt& o);
void gen_groups(Rng& r, MshSpec& s, const GenOpt& o);
void gen_nano(Rng& r, MshSpec& s, const GenOpt& o);
mshio::Data gen_data(Rng& r, const GenOpt& o, bool element_node);
MshSpec gen_spec(Rng& r, const GenOpt& o);
void coherent_fields(Rng& r, const std::vector<size_t>& nodes, const std::vector<size_t>& elems, const std::vector<size_t>& elem_nodes, bool finite,
    std::vector<mshio::Data>& nd, std::vector<mshio::Data>& ed, std::vector<mshio::Data>& end);
void gen_coherent(Rng& r, MshSpec& s, const GenOpt& o); // data for all nodes and elements, entities that refer to each other
void gen_repeats(Rng& r, MshSpec& s); // makes things the same as the one before them, wholly or in part
void repeat_fields(Rng& r, std::vector<mshio::Data>& v);
void repeat_groups(Rng& r, std::vector<mshio::PhysicalGroup>& v);
std::vector<size_t> stairs(Rng& r, size_t limit);
MshSpec gen_stairs(Rng& r, const GenOpt& o);
// A fixed-size, regular mesh with n nodes and elements (for volume tests).
MshSpec gen_large(Rng& r, const GenOpt& o, size_t n);

// ---------------------------------------------------------------- comparison
// Each returns "" if equal, else a description of the first difference.
enum : unsigned {
    CMP_FORMAT = 1, CMP_NODES = 2, CMP_ELEMENTS = 4, CMP_ENTITIES = 8, CMP_GROUPS = 16,
    CMP_DATA = 32, CMP_NANO = 64, CMP_ALL = 127
};
bool same_bits(double a, double b);
std::string diff(const MshSpec& a, const MshSpec& b, unsigned what = CMP_ALL);
std::string diff_data(const std::vector<mshio::Data>& a, const std::vector<mshio::Data>& b, const std::string& where, bool element_node);
// All fields of the spec as bytes; equal strings <=> equal specs.
std::string dump(const MshSpec& s);

struct FlatNode { uint64_t tag; double x, y, z; };
struct FlatElem { uint64_t tag; int type; int entity; int dim; std::vector<uint64_t> nodes; };
std::vector<FlatNode> flat_nodes(const MshSpec& s);
std::vector<FlatElem> flat_elems(const MshSpec& s);
// Compare node and element sequences only (tags, x, y, z; tags, types, entity tags, connectivity).
std::string diff_flat(const MshSpec& a, const MshSpec& b, bool check_entity = true);
// Internal consistency of a spec loaded from a 2.2 file; "" if consistent.
std::string check_v22_consistency(const MshSpec& s);

// ---------------------------------------------------------------- outcomes
enum Kind { OK, E_UNSUPPORTED, E_INVALID, E_CORRUPT, E_BADALLOC, E_LENGTH, E_IOS, E_RUNTIME, E_OTHERSTD, E_NONSTD };
const char* kind_name(Kind k);
struct Outcome {
    Kind kind = OK;
    std::string what;
    MshSpec spec;    // load
    std::string bytes; // save
    bool stream_failed = false;
    bool ok() const { return kind == OK; }
    std::string str() const { return std::string(kind_name(kind)) + (what.empty() ? "" : ": " + what); }
};
Kind classify(std::string& what); // call inside a catch block
Outcome load_bytes(const std::string& bytes);
Outcome load_stream(std::istream& in);
Outcome load_file(const std::string& path);
Outcome save_bytes(const MshSpec& s);
Outcome save_file(const std::string& path, const MshSpec& s);
Outcome validate(const MshSpec& s);

std::string slurp(const std::string& path);
// A path under dir that leads to a device that is always full. A link, so that a save_msh that replaces
// its target by renaming or removing it reaches nothing outside dir.
std::string full_device(const std::string& dir);
void spit(const std::string& path, const std::string& bytes);

// ---------------------------------------------------------------- instrumented streams
// Delivers bytes in random pieces, not seekable; at byte fail_at throws or returns EOF.
class ChunkBuf : public std::streambuf {
public:
    enum Fault { NONE, THROW, END };
    ChunkBuf(const std::string& bytes, uint64_t seed, size_t max_chunk, Fault fault = NONE, size_t fail_at = SIZE_MAX)
        : m_bytes(bytes), m_rng(seed), m_max(max_chunk ? max_chunk : 1), m_fault(fault), m_fail_at(fail_at) {}
    size_t calls() const { return m_calls; }
    bool faulted() const { return m_faulted; }
    size_t delivered() const { return m_pos; }
protected:
    int_type underflow() override;
private:
    const std::string& m_bytes;
    Rng m_rng;
    size_t m_max;
    Fault m_fault;
    size_t m_fail_at;
    size_t m_pos = 0, m_calls = 0;
    bool m_faulted = false;
    std::vector<char> m_buf;
};
// Accepts limit bytes, then fails (by return value or by throwing).
class FailBuf : public std::streambuf {
public:
    FailBuf(size_t limit, bool throws, bool once = false) : m_limit(limit), m_throws(throws), m_once(once) {}
    std::string got;
    bool faulted = false;
protected:
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* p, std::streamsize n) override;
    int sync() override;
private:
    size_t m_limit;
    bool m_throws, m_once; // once: one write fails, later ones succeed
};
class NullBuf : public std::streambuf {
protected:
    int_type overflow(int_type c) override { return traits_type::not_eof(c); }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

// ---------------------------------------------------------------- memory accounting (operator new)
struct Mem {
    static void reset_peak();
    static size_t live();
    static size_t peak();        // highest live since reset
    static size_t allocated();   // total since reset
    static void set_cap(size_t single, size_t total); // bad_alloc beyond; 0 = none
    static void set_fill(int byte); // -1: no fill
    static size_t denied();
    static size_t calls();            // calls of operator new since reset_peak
    // The at-th call from now on (0 = the next) throws bad_alloc, and all after it if persist.
    static void fail_at(size_t at, bool persist);
    static size_t end_fail();         // back to normal; returns how many calls were refused
};

// ---------------------------------------------------------------- check context
struct Ctx {
    std::string prop, tmp, repo;
    std::string build;
    uint64_t seed = 1;
    uint64_t index = 0;
    bool thorough = false;
    bool replay = false;
    Rng rng{1};
    std::map<std::string, uint64_t> count;     // named counters: what the monitor observed
    std::vector<std::string> samples;
    struct Viol { std::string key, msg; uint64_t index; std::string artifact; };
    std::vector<Viol> viols;
    std::set<uint64_t> distinct;
    std::vector<uint64_t> outcome_hash;        // per case, for differential builds
    uint64_t evaluations = 0;

    void eval(uint64_t n = 1) { evaluations += n; }
    void nontrivial(uint64_t h) { if (distinct.size() < 400000) distinct.insert(h); }
    void note(const std::string& name, uint64_t n = 1) { count[name] += n; }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 400)); }
    void violation(const std::string& key, const std::string& msg, const std::string& artifact = "");
};
std::string shorten(const std::string& s, size_t n = 200);
std::string json_escape(const std::string& s);
std::string describe(const MshSpec& s);

using CheckFn = std::function<void(Ctx&)>;
void register_check(const std::string& prop, CheckFn fn);
struct Reg { Reg(const std::string& p, CheckFn f) { register_check(p, f); } };

} // namespace vf
namespace vf {
CheckFn find_check(const std::string& p);
void* mem_new_ext(size_t n);
void mem_delete_ext(void* p);
}
namespace vf {
// Structural fingerprint: encodings, count classes, element types, flags. Two specs with the same
// fingerprint exercise the same shape.
uint64_t shape(const MshSpec& s);
// Reports a violation if the two differ; returns true if equal.
inline bool expect_same(Ctx& c, const std::string& d, const std::string& key, const std::string& what, const std::string& artifact = "")
{
    if (d.empty()) return true;
    c.violation(key, what + ": " + d, artifact);
    return false;
}
} // namespace vf
