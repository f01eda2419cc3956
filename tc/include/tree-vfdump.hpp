// Reflection over tree nodes, and the dump formats built on it: tree-gen's text and JSON dumps (validated against libqasm's
// golden files) and vf dumps, loss-free JSON used by the monitors.
#pragma once

#include <ostream>
#include <string>
#include <vector>

#include "libqasm/version.hpp"
#include "tree-base.hpp"

namespace tree::vf {

enum class EdgeKind { Maybe, One, Any, Many, OptLink, Link };

struct Prim {
    virtual ~Prim() = default;
    virtual void stream(std::ostream& os) const = 0;
    virtual void exact(std::ostream& os) const = 0;
};

class Sink {
public:
    virtual ~Sink() = default;
    virtual void on_prim(const char* name, const char* type, const Prim& value) = 0;
    virtual void on_edge(const char* name, EdgeKind kind, const std::vector<const base::Base*>& nodes) = 0;
};

/** ASCII-only: each byte >= 0x7F or < 0x20 becomes \u00XX, so that the reader gets a latin-1 view of the bytes. */
std::string bytes(const std::string& s);

void exact_prim(std::ostream& os, const std::string& v);
void exact_prim(std::ostream& os, bool v);
void exact_prim(std::ostream& os, std::int64_t v);
void exact_prim(std::ostream& os, double v);
void exact_prim(std::ostream& os, const cqasm::version::Version& v);
void dump_node(std::ostream& os, const base::Base& node, const base::PointerMap& ids);
template <class T, class = decltype(std::declval<T>()->operand_types)>
void exact_prim(std::ostream& os, const T& ref) {
    if (ref.empty()) {
        os << "null";
        return;
    }
    os << "{\"name\":" << bytes(ref->name) << ",\"operand_types\":[";
    bool first = true;
    for (const auto& t : ref->operand_types) {
        os << (first ? "" : ",");
        first = false;
        base::PointerMap ids;
        if (t.empty()) {
            os << "null";
        } else {
            dump_node(os, *t, ids);
        }
    }
    os << "]}";
}

template <class T>
struct PrimT : Prim {
    const T& value;
    explicit PrimT(const T& value)
    : value(value) {}
    void stream(std::ostream& os) const override { os << value; }
    void exact(std::ostream& os) const override { exact_prim(os, value); }
};
template <class T>
void prim(Sink& sink, const char* name, const char* type, const T& value) {
    sink.on_prim(name, type, PrimT<T>{ value });
}
template <class T>
void edge1(Sink& sink, const char* name, EdgeKind kind, const T* p) {
    std::vector<const base::Base*> v;
    if (p) {
        v.push_back(static_cast<const base::Base*>(p));
    }
    sink.on_edge(name, kind, v);
}
template <class T>
void edge(Sink& sink, const char* name, const base::Maybe<T>& e) {
    edge1(sink, name, EdgeKind::Maybe, e.get());
}
template <class T>
void edge(Sink& sink, const char* name, const base::One<T>& e) {
    edge1(sink, name, EdgeKind::One, e.get());
}
template <class T>
void edge(Sink& sink, const char* name, const base::OptLink<T>& e) {
    edge1(sink, name, EdgeKind::OptLink, e.get_ptr().get());
}
template <class T>
void edge(Sink& sink, const char* name, const base::Link<T>& e) {
    edge1(sink, name, EdgeKind::Link, e.get_ptr().get());
}
template <class T>
void edge_any(Sink& sink, const char* name, const base::Any<T>& e, EdgeKind kind) {
    std::vector<const base::Base*> v;
    for (const auto& x : e) {
        v.push_back(x.empty() ? nullptr : static_cast<const base::Base*>(x.get()));
    }
    sink.on_edge(name, kind, v);
}
template <class T>
void edge(Sink& sink, const char* name, const base::Any<T>& e) {
    edge_any(sink, name, e, EdgeKind::Any);
}
template <class T>
void edge(Sink& sink, const char* name, const base::Many<T>& e) {
    edge_any(sink, name, static_cast<const base::Any<T>&>(e), EdgeKind::Many);
}

void dump_text(std::ostream& os, const base::Base& node, int indent, bool locations, bool raw_pointers);
void dump_json(std::ostream& os, const base::Base& node, bool locations);

/** Dumps a whole tree. Duplicate nodes are tolerated here (they show up as equal ids); unreachable links as "outside". */
template <class T>
void dump_tree(std::ostream& os, const base::Maybe<T>& root) {
    if (root.empty()) {
        os << "null";
        return;
    }
    base::PointerMap ids{ false };
    root.find_reachable(ids);
    dump_node(os, *root, ids);
}

}  // namespace tree::vf
