// Histories of registrations and calls on the overload resolution templates, over a small type lattice.
#include <fmt/format.h>

#include <map>
#include <memory>
#include <stdexcept>

#include "libqasm/overload.hpp"
#include "vf_io.hpp"

namespace lattice {
struct Type : public ::tree::base::Base {
    int code = 0;
    Type() = default;
    explicit Type(int c)
    : code(c) {}
};
struct Value : public ::tree::base::Base {
    int kind = 0;
    int id = 0;
    Value() = default;
    Value(int k, int i)
    : kind(k)
    , id(i) {}
};
static std::map<std::pair<int, int>, bool> promotable;
static long promotions = 0;
cqasm::tree::Maybe<Value> promote(const cqasm::tree::One<Value>& v, const cqasm::tree::One<Type>& t) {
    ++promotions;
    if (!promotable[{ v->kind, t->code }]) return {};
    return cqasm::tree::Maybe<Value>(std::make_shared<Value>(t->code, v->id));
}
}  // namespace lattice

using lattice::Type;
using lattice::Value;
using Resolver = cqasm::overload::OverloadedNameResolver<std::string, Type, Value>;
using Plain = cqasm::overload::OverloadResolver<std::string, Type, Value>;

static cqasm::tree::Any<Type> types(const std::string& s) {
    cqasm::tree::Any<Type> r;
    for (char c : s) r.add(std::make_shared<Type>(c - '0'));
    return r;
}
static std::string show(const std::pair<std::string, cqasm::tree::Any<Value>>& r) {
    std::string s = "ok " + r.first;
    for (const auto& v : r.second) s += fmt::format(" {}:{}", v->kind, v->id);
    return s;
}

void vfio::handle(const Fields& in, Fields& out) {
    // in[0]: promotion matrix "kindtype,kindtype,..."
    lattice::promotable.clear();
    for (size_t i = 0; i + 1 < in[0].size(); i += 2) lattice::promotable[{ in[0][i] - '0', in[0][i + 1] - '0' }] = true;
    std::map<std::string, Resolver> r;
    std::map<std::string, Plain> p;
    std::vector<std::pair<size_t, std::pair<std::string, cqasm::tree::Any<Value>>>> kept;
    int next_id = 1;
    size_t i = 1;
    while (i < in.size()) {
        const auto& c = in[i++];
        if (c == "add") {  // resolver name tag types
            auto t = types(in[i + 3]);
            r[in[i]].add_overload(in[i + 1], in[i + 2], t);
            i += 4;
        } else if (c == "padd") {
            p[in[i]].add_overload(in[i + 1], types(in[i + 2]));
            i += 3;
        } else if (c == "copy") {
            auto x = r[in[i + 1]];
            r[in[i]] = x;
            i += 2;
        } else if (c == "call" || c == "pcall") {  // resolver name kinds
            cqasm::tree::Any<Value> args;
            std::string before;
            for (char k : in[i + 2]) {
                args.add(std::make_shared<Value>(k - '0', next_id++));
                before += fmt::format("{}:{} ", k - '0', next_id - 1);
            }
            try {
                auto res = c == "call" ? r[in[i]].resolve(in[i + 1], args) : p[in[i]].resolve(args);
                kept.emplace_back(out.size(), res);
                out.push_back(show(res));
            } catch (const cqasm::overload::NameResolutionFailure&) {
                out.push_back("name");
            } catch (const cqasm::overload::OverloadResolutionFailure&) {
                out.push_back("overload");
            }
            std::string after;
            for (const auto& v : args) after += fmt::format("{}:{} ", v->kind, v->id);
            if (before != after) out.back() += "|arguments changed";
            i += 3;
        } else {
            std::abort();
        }
    }
    for (const auto& k : kept)
        if (show(k.second) != out[k.first]) out[k.first] += "|result changed later";
    out.push_back(std::to_string(lattice::promotions));
    lattice::promotions = 0;
    using Ov = cqasm::overload::Overload<std::string, Type>;
    Ov a{ "tag", types("012") };
    Ov b{ a };
    Ov d{ "other", types("") };
    d = b;
    Ov m{ std::move(b) };
    Ov x{ "x", types("3") };
    Ov y{ "y", types("1") };
    Ov z{ a };
    y = x = a;                   // chains, and hands back the left side
    Ov* left = &(x = std::move(z));
    std::string s;
    for (const auto* o : { &a, &d, &m, &y, left }) {
        s += o->get_tag() + fmt::format("/{}", o->num_params());
        for (size_t k = 0; k < o->num_params(); ++k) s += fmt::format(" {}", o->param_type_at(k)->code);
        s += ";";
    }
    out.push_back(s);
}
int main(int argc, char** argv) { return vfio::run(argc, argv); }
