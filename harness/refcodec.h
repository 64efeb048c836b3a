// Reference writer and reader for MSH 4.1 and 2.2, written from the format documentation
// (https://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format) and not from the library.
#pragma once
#include "common.h"

namespace vf {

// How a file is laid out where the format leaves freedom.
struct Layout {
    bool crlf = false;         // ASCII only
    int spacing = 0;           // 0 plain, 1 extra blanks around tokens, 2 also blank lines and tabs
    int spelling = 0;          // 0 %.17g, 1 %.16e, 2 shortest, 3 mixed, with E/e and 3. / 3.0
    bool shuffle = false;      // section order after the header
    bool final_newline = true;
    bool nl_before_end = true; // binary: line break between payload and end marker
    bool stray = false;        // stray text between sections
    bool unknown = false;      // sections the library does not support
    bool unknown_before_format = false;
    bool repeat = false;       // nodes, elements, entities and groups in several sections
    bool unknown_binary = false; // binary content in unknown sections
    std::string str() const;
};
Layout gen_layout(Rng& r, bool binary);

struct Section { std::string name; size_t begin, end; bool known; }; // [begin,end)
struct Token { size_t begin, end; size_t section; };
struct File {
    std::string bytes;
    std::vector<Section> sections;
    std::vector<Token> numbers; // ASCII numbers in sections the library parses
    uint64_t shape = 0;         // hash of layout and structure
};

// 4.1: write exactly this spec.
File write41(const MshSpec& s, const Layout& l, Rng r);

// 2.2 model.
struct Elem22 { int tag, type; std::vector<int> tags, nodes; };
struct Node22 { int tag; double x, y, z; };
struct Model22 {
    int file_type = 0;
    bool has_nodes = true, has_elements = true;
    std::vector<Node22> nodes;
    std::vector<Elem22> elems;
    std::vector<mshio::PhysicalGroup> groups;
    std::vector<mshio::Data> node_data, element_data, element_node_data;
};
Model22 gen_model22(Rng& r, int file_type, int size);
File write22(const Model22& m, const Layout& l, Rng r);
// "" or what differs between the model and what was loaded.
std::string diff22(const Model22& m, const MshSpec& s);

// Strict readers. Throw std::runtime_error with a description on anything not conforming.
MshSpec read41(const std::string& bytes);
Model22 read22(const std::string& bytes, MshSpec* nano = nullptr);

} // namespace vf
