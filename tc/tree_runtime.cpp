// See tree-vfdump.hpp.
#include "tree-vfdump.hpp"

#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <sstream>

#include "libqasm/annotations.hpp"

namespace tree::vf {

using base::Base;

std::string bytes(const std::string& s) {
    std::string r = "\"";
    for (char ch : s) {
        auto c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        } else if (c < 0x20 || c >= 0x7F) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += ch;
        }
    }
    return r + "\"";
}
void exact_prim(std::ostream& os, const std::string& v) {
    os << bytes(v);
}
void exact_prim(std::ostream& os, bool v) {
    os << (v ? "true" : "false");
}
void exact_prim(std::ostream& os, std::int64_t v) {
    os << v;
}
void exact_prim(std::ostream& os, double v) {
    std::uint64_t bits;
    std::memcpy(&bits, &v, 8);
    char b[32];
    std::snprintf(b, sizeof b, "\"f:%016" PRIx64 "\"", bits);
    os << b;
}
void exact_prim(std::ostream& os, const cqasm::version::Version& v) {
    os << "[";
    bool first = true;
    for (auto x : v) {
        os << (first ? "" : ",") << x;
        first = false;
    }
    os << "]";
}

namespace {

std::string streamed(const Prim& p) {
    std::ostringstream ss;
    p.stream(ss);
    auto s = ss.str();
    auto pos = s.find_last_not_of(" \n\r\t");
    if (pos != std::string::npos) {
        s.erase(pos + 1);
    }
    return s;
}
std::string json_escape(const std::string& s) {
    std::string r;
    for (char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            default:
                if (static_cast<unsigned char>(c) < 0x20) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                } else {
                    r += c;
                }
        }
    }
    return r;
}
bool is_link(EdgeKind k) {
    return k == EdgeKind::Link || k == EdgeKind::OptLink;
}

struct TextDump : Sink {
    std::ostream& out;
    int indent;
    bool locations, raw, in_link = false;
    TextDump(std::ostream& out, int indent, bool locations, bool raw)
    : out(out), indent(indent), locations(locations), raw(raw) {}
    void wi() {
        for (int i = 0; i < indent; i++) {
            out << "  ";
        }
    }
    void node(const Base& n) {
        wi();
        out << n.vf_type_name() << "(";
        if (raw) {
            out << " # " << static_cast<const void*>(&n);
        }
        if (locations) {
            if (auto l = n.get_annotation_ptr<cqasm::annotations::SourceLocation>()) {
                out << " # " << *l;
            }
        }
        out << std::endl;
        indent++;
        n.vf_fields(*this);
        indent--;
        wi();
        out << ")" << std::endl;
    }
    void on_prim(const char* name, const char* type, const Prim& value) override {
        wi();
        out << name << ": ";
        auto s = streamed(value);
        if (s.find('\n') == std::string::npos) {
            out << s << std::endl;
            return;
        }
        out << type << "<<" << std::endl;
        indent++;
        std::istringstream is(s);
        std::string line;
        while (!is.eof()) {
            std::getline(is, line);
            wi();
            out << line << std::endl;
        }
        indent--;
        wi();
        out << ">>" << std::endl;
    }
    void on_edge(const char* name, EdgeKind kind, const std::vector<const Base*>& nodes) override {
        wi();
        out << name << (is_link(kind) ? " --> " : ": ");
        bool many = kind == EdgeKind::Any || kind == EdgeKind::Many;
        if (nodes.empty()) {
            out << (kind == EdgeKind::Any                               ? "[]"
                    : kind == EdgeKind::Maybe || kind == EdgeKind::OptLink ? "-"
                                                                        : "!MISSING")
                << std::endl;
            return;
        }
        out << (many ? "[" : "<") << std::endl;
        indent++;
        bool saved = in_link;
        if (is_link(kind) && in_link) {
            wi();
            out << "..." << std::endl;
        } else {
            in_link = in_link || is_link(kind);
            for (auto n : nodes) {
                if (n) {
                    node(*n);
                } else {
                    wi();
                    out << "!NULL" << std::endl;
                }
            }
        }
        in_link = saved;
        indent--;
        wi();
        out << (many ? "]" : ">") << std::endl;
    }
};

struct JsonDump : Sink {
    std::ostream& out;
    bool locations, in_link = false, first = true;
    JsonDump(std::ostream& out, bool locations)
    : out(out), locations(locations) {}
    void key(const char* name) {
        out << (first ? "" : ",") << "\"" << name << "\":";
        first = false;
    }
    void node(const Base& n) {
        out << "{\"" << n.vf_type_name() << "\":{";
        bool saved = first;
        first = true;
        n.vf_fields(*this);
        if (locations) {
            if (auto l = n.get_annotation_ptr<cqasm::annotations::SourceLocation>()) {
                std::ostringstream ss;
                ss << *l;
                key("source_location");
                out << "\"" << json_escape(ss.str()) << "\"";
            }
        }
        first = saved;
        out << "}}";
    }
    void on_prim(const char* name, const char*, const Prim& value) override {
        key(name);
        out << "\"" << json_escape(streamed(value)) << "\"";
    }
    void on_edge(const char* name, EdgeKind kind, const std::vector<const Base*>& nodes) override {
        key(name);
        if (kind == EdgeKind::Any || kind == EdgeKind::Many) {
            out << "[";
            bool f = true;
            for (auto n : nodes) {
                out << (f ? "" : ",");
                f = false;
                if (n) {
                    node(*n);
                } else {
                    out << "\"NULL\"";
                }
            }
            out << "]";
        } else if (nodes.empty()) {
            out << (kind == EdgeKind::One || kind == EdgeKind::Link ? "\"!MISSING\"" : "\"-\"");
        } else if (is_link(kind) && in_link) {
            out << "\"...\"";
        } else {
            bool saved = in_link;
            in_link = in_link || is_link(kind);
            node(*nodes[0]);
            in_link = saved;
        }
    }
};

struct ExactDump : Sink {
    std::ostream& out;
    const base::PointerMap& ids;
    ExactDump(std::ostream& out, const base::PointerMap& ids)
    : out(out), ids(ids) {}
    void node(const Base& n) {
        out << "{\"@\":\"" << n.vf_type_name() << "\"";
        auto p = static_cast<const void*>(&n);
        if (ids.has(p)) {
            out << ",\"#\":" << ids.get_ref(p);
        }
        if (auto l = n.get_annotation_ptr<cqasm::annotations::SourceLocation>()) {
            out << ",\"%\":[" << l->range.first.line << "," << l->range.first.column << "," << l->range.last.line << ","
                << l->range.last.column << "," << (l->file_name ? bytes(*l->file_name) : "null") << "]";
        }
        n.vf_fields(*this);
        out << "}";
    }
    void on_prim(const char* name, const char*, const Prim& value) override {
        out << ",\"" << name << "\":";
        value.exact(out);
    }
    void on_edge(const char* name, EdgeKind kind, const std::vector<const Base*>& nodes) override {
        out << ",\"" << name << "\":";
        if (kind == EdgeKind::Any || kind == EdgeKind::Many) {
            out << "[";
            bool f = true;
            for (auto n : nodes) {
                out << (f ? "" : ",");
                f = false;
                if (n) {
                    node(*n);
                } else {
                    out << "null";
                }
            }
            out << "]";
        } else if (nodes.empty()) {
            out << "null";
        } else if (is_link(kind)) {
            auto p = static_cast<const void*>(nodes[0]);
            if (ids.has(p)) {
                out << "{\"->\":" << ids.get_ref(p) << "}";
            } else {
                out << "{\"->\":\"outside\",\"to\":";
                node(*nodes[0]);
                out << "}";
            }
        } else {
            node(*nodes[0]);
        }
    }
};

}  // namespace

void dump_text(std::ostream& os, const Base& node, int indent, bool locations, bool raw_pointers) {
    TextDump d{ os, indent, locations, raw_pointers };
    d.node(node);
}
void dump_json(std::ostream& os, const Base& node, bool locations) {
    JsonDump d{ os, locations };
    d.node(node);
}
void dump_node(std::ostream& os, const Base& node, const base::PointerMap& ids) {
    ExactDump d{ os, ids };
    d.node(node);
}

}  // namespace tree::vf
