// Histories of operations on errors, results, versions and string builders.
#include <fmt/format.h>
#include <fmt/ranges.h>

#include <map>
#include <sstream>

#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/result.hpp"
#include "libqasm/string_builder.hpp"
#include "libqasm/version.hpp"
#include "vf_io.hpp"

using cqasm::annotations::SourceLocation;
using cqasm::error::Error;
using cqasm::version::Version;
using Index = SourceLocation::Index;
using Range = SourceLocation::Range;

static std::uint32_t u(const std::string& s) { return static_cast<std::uint32_t>(std::stoull(s)); }
static std::optional<std::string> opt(const std::string& s) {
    return s.at(0) == '-' ? std::nullopt : std::optional<std::string>{ s.substr(1) };
}
namespace cqasm::analyzer {
CQASM_ANALYSIS_ERROR(DerivedError);
}
using cqasm::analyzer::DerivedError;

// a minimal tree to put into a result
struct Root : public ::tree::base::Base {
    std::string text;
    void dump_json(std::ostream& os) const { os << "{\"root\":\"" << text << "\"}"; }
    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap&) const {
        map.append_string("text", text);
    }
};
struct Res {
    ::tree::base::Maybe<Root> root;
    std::vector<Error> errors;
};

static SourceLocation loc(const vfio::Fields& in, size_t& i) {  // file l1 c1 l2 c2
    SourceLocation s{ opt(in[i]), Range{ Index{ u(in[i + 1]), u(in[i + 2]) }, Index{ u(in[i + 3]), u(in[i + 4]) } } };
    i += 5;
    return s;
}
static std::vector<std::int64_t> split(const std::string& s) {
    std::vector<std::int64_t> v;
    vfio::Words is(s);
    std::int64_t x;
    while (is >> x) v.push_back(x);
    return v;
}
static Version from(const std::string& s) {
    Version v;
    for (auto x : split(s)) v.push_back(x);
    return v;
}

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    if (op == "error") {
        std::map<std::string, std::unique_ptr<Error>> e;
        std::map<std::string, std::unique_ptr<cqasm::tree::Annotatable>> n;
        size_t i = 1;
        while (i < in.size()) {
            const auto& c = in[i++];
            if (c == "node") {  // name location
                auto name = in[i++];
                n[name] = std::make_unique<cqasm::tree::Annotatable>();
                n[name]->set_annotation(loc(in, i));
            } else if (c == "blank") {
                n[in[i++]] = std::make_unique<cqasm::tree::Annotatable>();
            } else if (c == "move_node") {  // change the location of a node
                auto name = in[i++];
                n.at(name)->set_annotation(loc(in, i));
            } else if (c == "expand_node") {
                auto name = in[i++];
                auto l = u(in[i++]);
                auto k = u(in[i++]);
                if (auto* p = n.at(name)->get_annotation_ptr<SourceLocation>()) p->expand_to_include(Index{ l, k });
            } else if (c == "drop_node") {
                n.erase(in[i++]);
            } else if (c == "plain") {
                e[in[i]] = std::make_unique<Error>(in[i + 1]);
                i += 2;
            } else if (c == "derived") {
                e[in[i]] = std::make_unique<DerivedError>(std::string{ in[i + 1] });
                i += 2;
            } else if (c == "at_node") {
                e[in[i]] = std::make_unique<Error>(in[i + 1], n.at(in[i + 2]).get());
                i += 3;
            } else if (c == "derived_at") {
                e[in[i]] = std::make_unique<DerivedError>(std::string{ in[i + 1] }, n.at(in[i + 2]).get());
                i += 3;
            } else if (c == "at_ptr") {
                auto name = in[i++];
                auto msg = in[i++];
                e[name] = std::make_unique<Error>(msg, std::make_shared<SourceLocation>(loc(in, i)));
            } else if (c == "at_null") {
                e[in[i]] = std::make_unique<Error>(in[i + 1], std::shared_ptr<SourceLocation>{});
                i += 2;
            } else if (c == "at_range") {
                auto name = in[i++];
                auto msg = in[i++];
                auto l = loc(in, i);
                e[name] = std::make_unique<Error>(msg, l.file_name, l.range);
            } else if (c == "context") {
                e.at(in[i])->context(*n.at(in[i + 1]));
                i += 2;
            } else if (c == "copy") {  // to from
                e[in[i]] = std::make_unique<Error>(*e.at(in[i + 1]));
                i += 2;
            } else if (c == "assign") {
                *e.at(in[i]) = *e.at(in[i + 1]);
                i += 2;
            } else if (c == "move") {  // to from: from goes away
                auto p = std::move(e.at(in[i + 1]));
                e.erase(in[i + 1]);
                e[in[i]] = std::make_unique<Error>(std::move(*p));
                i += 2;
            } else if (c == "throw") {
                try {
                    throw *e.at(in[i]);
                } catch (std::exception& x) {
                    out.push_back(x.what());
                }
                ++i;
            } else if (c == "rethrow") {  // error node: the way the analyzer attaches contexts
                try {
                    try {
                        throw *e.at(in[i]);
                    } catch (Error& x) {
                        x.context(*n.at(in[i + 1]));
                        throw;
                    }
                } catch (const Error& x) {
                    out.push_back(x.what());
                }
                i += 2;
            } else if (c == "what") {
                out.push_back(e.at(in[i++])->what());
            } else if (c == "print") {
                std::ostringstream os;
                os << *e.at(in[i++]);
                out.push_back(os.str());
            } else if (c == "fmt") {
                out.push_back(fmt::format("{}", *e.at(in[i++])));
            } else if (c == "json") {
                out.push_back(e.at(in[i++])->to_json());
            } else {
                std::abort();
            }
        }
    } else if (op == "result") {  // root text, then errors: message location
        Res r;
        if (in[1].at(0) == '+') {
            r.root = std::make_shared<Root>();
            r.root->text = in[1].substr(1);
        }
        size_t i = 2;
        while (i < in.size()) {
            auto msg = in[i++];
            if (in[i] == "none") {
                ++i;
                r.errors.emplace_back(msg);
            } else {
                auto l = loc(in, i);
                r.errors.emplace_back(msg, l.file_name, l.range);
            }
        }
        auto s = cqasm::result::to_strings(r);
        out.push_back(cqasm::result::to_json(r));
        out.push_back(fmt::format("{}", s.size()));
        for (auto& x : s) out.push_back(x);
        for (auto& x : r.errors) {
            out.push_back(x.what());
            out.push_back(x.to_json());
        }
        if (!r.root.empty()) out.push_back(::tree::base::serialize(r.root));
    } else if (op == "version") {
        for (size_t i = 1; i < in.size(); ++i) {
            std::string s;
            try {
                Version v{ in[i] };
                s = "ok";
                for (auto c : v) s += fmt::format(" {}", c);
                std::ostringstream os;
                os << v;
                s += "|" + os.str() + "|" + fmt::format("{}", v);
                if (in[i].find('\0') == std::string::npos) {
                    Version w{ in[i].c_str() };
                    if (static_cast<const std::vector<std::int64_t>&>(w) != static_cast<const std::vector<std::int64_t>&>(v))
                        s += "|differs";
                }
            } catch (const std::exception&) {
                s = "rejected";
            }
            out.push_back(s);
        }
    } else if (op == "vprint") {
        for (size_t i = 1; i < in.size(); ++i) {
            auto v = from(in[i]);
            std::ostringstream os;
            os << v;
            out.push_back(os.str());
            out.push_back(fmt::format("{}", v));
        }
    } else if (op == "vcmp") {
        for (size_t i = 1; i + 1 < in.size(); i += 2) {
            const auto a = from(in[i]), b = from(in[i + 1]);
            std::string s;
            s += a == b ? '1' : '0';
            s += a != b ? '1' : '0';
            s += a < b ? '1' : '0';
            s += a <= b ? '1' : '0';
            s += a > b ? '1' : '0';
            s += a >= b ? '1' : '0';
            auto c = a <=> b;
            s += c < 0 ? '<' : c > 0 ? '>' : '=';
            out.push_back(s);
        }
    } else if (op == "builder") {  // s text | e text ...
        cqasm::syntactic::StringBuilder b;
        for (size_t i = 1; i + 1 < in.size(); i += 2) {
            if (in[i] == "s") b.push_string(in[i + 1]);
            else b.push_escape(in[i + 1]);
            if (in[i] == "S") std::abort();
        }
        out.push_back(b.stream.str());
    } else {
        std::abort();
    }
}
int main(int argc, char** argv) { return vfio::run(argc, argv); }
