// Drives the library's programming interface: sessions, configuration, files, wrappers, types and serialisation.
#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fmt/format.h>

#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <typeinfo>

#include "emscripten_wrapper.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "tree-vfdump.hpp"
#include "v3x_common.hpp"

using namespace cqasm::v3x;
using vf3::dump;
using vf3::errors;
using vf3::opt;
using vfio::Fields;
using vfio::num;
namespace tb = ::tree::base;

namespace {
struct Quiet {
    std::ostringstream o, e;
    std::streambuf *so, *se;
    Quiet()
    : so(std::cout.rdbuf(o.rdbuf()))
    , se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(so);
        std::cerr.rdbuf(se);
    }
    std::string text() const { return o.str() + e.str(); }
};

/** Runs f, which fills the fields; an exception replaces them by "throw", its class, and its text. */
template <class F>
Fields guarded(F f) {
    Fields out;
    try {
        f(out);
    } catch (const cqasm::error::Error& e) {
        out = { "throw", "Error", e.what() };
    } catch (const analyzer::AnalysisFailed& e) {
        out = { "throw", "AnalysisFailed", e.what() };
    } catch (const std::invalid_argument& e) {
        out = { "throw", "invalid_argument", e.what() };
    } catch (const std::runtime_error& e) {
        out = { "throw", "runtime_error", e.what() };
    } catch (const std::exception& e) {
        out = { "throw", typeid(e).name(), e.what() };
    } catch (...) {
        out = { "throw", "unknown", "" };
    }
    return out;
}
template <class R>
Fields report(const R& r) {
    Fields out{ r.errors.empty() ? "ok" : "err", dump(r.root) };
    errors(out, r.errors);
    return out;
}
Fields strings(const std::vector<std::string>& v) {
    Fields out{ "strings" };
    out.insert(out.end(), v.begin(), v.end());
    return out;
}
/** What a vector of strings returned by the wrapper says, in the form of report(). */
template <class T>
Fields decoded(const std::vector<std::string>& v) {
    Fields out;
    if (v.size() == 1) {
        out = { "ok", dump(tb::deserialize<T>(v[0])) };
    } else {
        out = { "err", v.empty() ? "?" : v[0] };
        out.insert(out.end(), v.begin() + (v.empty() ? 0 : 1), v.end());
    }
    return out;
}

// ---------------------------------------------------------------------------------------------------------- session
analyzer::Analyzer configured(const std::string& how) {
    auto boom = [](const values::Values& a) -> values::Value {
        if (a.empty()) throw std::runtime_error{ "boom" };
        return a[0];
    };
    auto a = default_analyzer("3.0");
    a.register_consteval_core_function("boom", "", boom);
    a.register_consteval_core_function("boom", "i", boom);
    if (how.find('s') != std::string::npos) {   // an inner scope with something in it
        a.push_scope();
        a.register_variable("seven", cqasm::tree::make<values::ConstInt>(7));
        a.register_variable("pi", cqasm::tree::make<values::ConstFloat>(3.0));
        a.register_instruction("H", "QQ");
    }
    if (how.find('e') != std::string::npos) a.push_scope();
    return a;
}

void session(const Fields& in, Fields& out) {   // configuration, then (how, text, file)...
    auto a = configured(in.at(1));
    V3xAnalyzer w, w2("3.0", true);
    struct Kept {
        syntactic::One<semantic::Program> root;
        cqasm::error::AnalysisErrors errs;
        std::string dump;
        std::vector<std::string> texts;
        std::shared_ptr<parser::ParseResult> parsed;
        std::string parsed_dump;
    };
    std::vector<Kept> kept;
    auto texts_of = [](const auto& errs) {
        std::vector<std::string> v;
        for (const auto& e : errs) {
            v.push_back(e.what());
            v.push_back(e.to_json());
        }
        return v;
    };
    auto one = [&](analyzer::Analyzer& an, V3xAnalyzer& wr, V3xAnalyzer& wr2, const std::string& how, const std::string& text,
                   const std::string& file, bool keep) {
        return guarded([&](Fields& o) {
            Quiet q;
            auto take = [&](const analyzer::AnalysisResult& r, std::shared_ptr<parser::ParseResult> p) {
                o = report(r);
                if (keep) {
                    Kept k{ r.root, r.errors, dump(r.root), texts_of(r.errors), p, p ? dump(p->root) : "" };
                    kept.push_back(k);
                }
            };
            auto parsed = [&] { return std::make_shared<parser::ParseResult>(parser::parse_string(text, opt(file))); };
            if (how == "s") {
                take(an.analyze_string(text, opt(file)), nullptr);
            } else if (how == "p") {
                auto p = parsed();
                take(an.analyze(*p), p);
            } else if (how == "n") {
                auto p = parsed();
                if (!p->errors.empty()) {
                    o = report(*p);
                } else {
                    take(an.analyze(*p->root->as_program()), p);
                }
            } else if (how == "c") {            // through a copy of the analyzer
                auto copy = an;
                take(copy.analyze_string(text, opt(file)), nullptr);
            } else if (how == "w") {
                o = strings(wr.analyze_string(text, file.substr(1)));
            } else if (how == "j") {
                o = { "json", wr.analyze_string_to_json(text, file.substr(1)) };
            } else if (how == "W") {
                o = strings(wr2.analyze_string(text, file.substr(1)));
            } else if (how == "x") {            // parsed only: must not matter to what follows
                o = report(*parsed());
            } else {
                o = { "?" };
            }
        });
    };
    for (size_t i = 2; i + 2 < in.size(); i += 3) out.push_back(vfio::pack(one(a, w, w2, in[i], in[i + 1], in[i + 2], true)));
    for (size_t i = 2; i + 2 < in.size(); i += 3) {
        auto f = configured(in.at(1));
        V3xAnalyzer fw, fw2("3.0", true);
        out.push_back(vfio::pack(one(f, fw, fw2, in[i], in[i + 1], in[i + 2], false)));
    }
    std::string verdict = "same";
    for (const auto& k : kept) {
        if (dump(k.root) != k.dump) verdict = "a semantic tree changed after it was returned";
        if (texts_of(k.errs) != k.texts) verdict = "errors changed after they were returned";
        if (k.parsed && dump(k.parsed->root) != k.parsed_dump) verdict = "a syntax tree changed";
    }
    out.push_back(verdict);
}

// ------------------------------------------------------------------------------------------------------------ twice
void twice(const Fields& in, Fields& out) {   // file, texts...; each text done repeatedly, against itself
    for (size_t i = 2; i < in.size(); ++i) {
        out.push_back(vfio::pack(guarded([&](Fields& o) {
            Quiet q;
            const auto& text = in[i];
            auto file = opt(in.at(1));
            auto p1 = parser::parse_string(text, file);
            auto p2 = parser::parse_string(text, file);
            auto d1 = report(p1), d2 = report(p2);
            std::string bad;
            if (d1 != d2) bad = "parsing twice differs";
            Fields s1;
            if (p1.errors.empty()) {
                auto bytes = tb::serialize(p1.root);
                if (tb::serialize(p2.root) != bytes) bad = "serialised syntax trees of two parses differ";
                auto a = default_analyzer("3.0");
                auto r1 = a.analyze(p1);
                s1 = report(r1);
                if (tb::serialize(p1.root) != bytes || dump(p1.root) != d1[1]) bad = "the syntax tree changed under analysis";
                auto r2 = a.analyze(*p1.root->as_program());
                auto r3 = default_analyzer("3.0").analyze(p1);
                auto r4 = default_analyzer("3.0").analyze(p2);
                auto r5 = a.analyze_string(text, file);
                if (report(r2) != s1) bad = "analysing the same tree again with the same analyzer differs";
                if (report(r3) != s1) bad = "analysing the same tree with another analyzer differs";
                if (report(r4) != s1) bad = "analysing an equal tree differs";
                if (report(r5) != s1) bad = "analysing the text differs";
                if (dump(p1.root) != d1[1]) bad = "the syntax tree changed under repeated analysis";
                // write to one result, and to the syntax tree: nothing may be shared
                if (!p1.root.empty()) {
                    for (auto& s : p1.root->as_program()->block->statements) s.reset();
                    p1.root.reset();
                }
                if (report(r1) != s1) bad = "the semantic tree depends on the syntax tree";
                p2 = {};
                if (report(r4) != s1) bad = "the semantic tree depends on the destroyed syntax tree";
                if (!r1.root.empty()) {
                    for (auto& v : r1.root->variables) v->name += "!";
                    for (auto& s : r1.root->block->statements) {
                        if (auto g = s->as_gate_instruction()) {
                            g->gate->name += "!";
                            for (auto& x : g->gate->parameters)
                                if (auto f = x->as_const_float()) f->value += 1;
                            for (auto& x : g->operands)
                                if (auto f = x->as_index_ref())
                                    for (auto& n : f->indices) n->value += 1;
                        }
                    }
                    r1.root->block.reset();
                }
                if (report(r2) != s1 || report(r3) != s1) bad = "two results share nodes";
                if (report(a.analyze_string(text, file)) != s1) bad = "changing a result changed the analyzer";
            }
            o = { "done", bad, vfio::pack(d1), vfio::pack(s1), q.text() };
        })));
    }
}

// ----------------------------------------------------------------------------------------------------------- phases
void phases(const Fields& in, Fields& out) {   // text, file
    out = guarded([&](Fields& o) {
        auto p = parser::parse_string(in.at(1), opt(in.at(2)));
        auto a = default_analyzer("3.0");
        auto r = a.analyze(p);
        auto r2 = a.analyze_string(in.at(1), opt(in.at(2)));
        o = { p.errors.empty() ? (r.errors.empty() ? "ok" : "err") : "parse-err", p.root.empty() ? "" : "tree",
            r.root.empty() ? "" : "tree", r2.root.empty() ? "" : "tree" };
        o.push_back(vfio::pack(report(p)));
        o.push_back(vfio::pack(report(r)));
        o.push_back(vfio::pack(report(r2)));
        for (int form = 0; form < 4; ++form) {
            std::ostringstream os;
            os << "before|";
            auto f = guarded([&](Fields& u) {
                Quiet q;
                const auto& res = r;
                auto root = form == 0 ? res.unwrap(os) : form == 1 ? res.unwrap(std::cout) : form == 2 ? res.unwrap() :
                    analyze_string(in.at(1), opt(in.at(2)));
                u = { "returned", form == 3 ? (dump(root) == dump(r.root) ? "same" : "different") :
                                              (root.get() == r.root.get() ? "same" : "different"), q.o.str(), q.e.str() };
            });
            // the stream contents when it threw
            if (f[0] == "throw") {
                Quiet q;
                try {
                    if (form == 1) r.unwrap(std::cout);
                    if (form == 2) r.unwrap();
                    if (form == 3) analyze_string(in.at(1), opt(in.at(2)));
                } catch (...) {
                }
                f.push_back(q.o.str());
                f.push_back(q.e.str());
            }
            f.push_back(os.str());
            o.push_back(vfio::pack(f));
        }
        if (report(r) != report(r2)) o[0] = "differ";
    });
}

// Parse results as only a caller can build them: any errors, with or without a root
void passon(const Fields& in, Fields& out) {   // text of the root or "-", then message, file, four numbers or none of them
    out = guarded([&](Fields& o) {
        parser::ParseResult p;
        if (in.at(1) != "-") p.root = parser::parse_string(in.at(1), std::nullopt).root;
        for (std::size_t i = 2; i + 2 < in.size(); i += 3) {
            vfio::Words ns(in[i + 2]);
            std::uint32_t a, b, c, d;
            if (ns >> a >> b >> c >> d)
                p.errors.emplace_back(in[i], opt(in[i + 1]), parser::SourceLocation::Range{ { a, b }, { c, d } });
            else
                p.errors.emplace_back(in[i]);
        }
        auto list = [](const auto& r) {
            Fields f;
            for (const auto& e : r.errors) {
                f.push_back(e.what());
                f.push_back(e.to_json());
            }
            return f;
        };
        const auto before = list(p);
        auto a = default_analyzer("3.0");
        auto r = a.analyze(p);
        const auto got = list(r), again = list(a.analyze(p));
        std::ostringstream os;
        std::string thrown = "nothing";
        try {
            Quiet q;
            (void)r.unwrap(os);
        } catch (const std::exception& e) {
            thrown = "thrown";
        }
        o = { r.root.empty() ? "" : "tree", before == list(p) ? "" : "changed", got == again ? "" : "changed", thrown, os.str(), vfio::pack(before), vfio::pack(got), vfio::pack(r.to_strings()),
            r.to_json() };
    });
}

// ---------------------------------------------------------------------------------------------------------- entries
bool write_file(const std::string& path, const std::string& bytes) {
    std::ofstream f(path, std::ios::binary);
    f << bytes;
    return static_cast<bool>(f);
}

void entries(const Fields& in, Fields& out) {   // text, label, path of a file to write it to
    const auto &text = in.at(1), &label = in.at(2), &path = in.at(3);
    write_file(path, text);
    auto add = [&](const char* name, auto f) {
        Quiet q;
        auto g = guarded([&](Fields& o) { f(o); });
        g.insert(g.begin(), name);
        g.push_back(q.e.str());
        out.push_back(vfio::pack(g));
    };
    std::optional<std::string> lab = label.empty() ? std::nullopt : std::optional{ label };
    add("parse_string", [&](Fields& o) { o = report(parser::parse_string(text, lab)); });
    add("parse_file", [&](Fields& o) { o = report(parser::parse_file(path, lab)); });
    add("V3x::parse_string", [&](Fields& o) { o = decoded<syntactic::Root>(V3xAnalyzer::parse_string(text, label)); });
    add("V3x::parse_file", [&](Fields& o) { o = decoded<syntactic::Root>(V3xAnalyzer::parse_file(path)); });
    add("ParseResult::to_strings", [&](Fields& o) { o = decoded<syntactic::Root>(parser::parse_string(text, lab).to_strings()); });
    add("ParseResult::to_json", [&](Fields& o) { o = { "json", parser::parse_string(text, lab).to_json() }; });
    add("V3x::parse_string_to_json", [&](Fields& o) { o = { "json", V3xAnalyzer::parse_string_to_json(text, label) }; });
    add("V3x::parse_file_to_json", [&](Fields& o) { o = { "json", V3xAnalyzer::parse_file_to_json(path) }; });
    add("js parse_string_to_json", [&](Fields& o) {
        o = { "json", emscripten::exported().at("EmscriptenWrapper.parse_string_to_json")({ text, label }) };
    });
    add("analyze", [&](Fields& o) { o = report(default_analyzer("3.0").analyze(parser::parse_string(text, lab))); });
    add("analyze program", [&](Fields& o) {
        auto p = parser::parse_string(text, lab);
        o = p.errors.empty() ? report(default_analyzer("3.0").analyze(*p.root->as_program())) : Fields{ "skip" };
    });
    add("analyze_string", [&](Fields& o) { o = report(default_analyzer("3.0").analyze_string(text, lab)); });
    add("analyze_file", [&](Fields& o) { o = report(default_analyzer("3.0").analyze_file(path)); });
    add("V3x::analyze_string", [&](Fields& o) { o = decoded<semantic::Program>(V3xAnalyzer{}.analyze_string(text, label)); });
    add("V3x::analyze_file", [&](Fields& o) { o = decoded<semantic::Program>(V3xAnalyzer{}.analyze_file(path)); });
    add("AnalysisResult::to_strings", [&](Fields& o) {
        o = decoded<semantic::Program>(default_analyzer("3.0").analyze_string(text, lab).to_strings());
    });
    add("AnalysisResult::to_json", [&](Fields& o) { o = { "json", default_analyzer("3.0").analyze_string(text, lab).to_json() }; });
    add("V3x::analyze_string_to_json", [&](Fields& o) { o = { "json", V3xAnalyzer{}.analyze_string_to_json(text, label) }; });
    add("V3x::analyze_file_to_json", [&](Fields& o) { o = { "json", V3xAnalyzer{}.analyze_file_to_json(path) }; });
    add("js analyze_string_to_json", [&](Fields& o) {
        o = { "json", emscripten::exported().at("EmscriptenWrapper.analyze_string_to_json")({ text, label }) };
    });
    add("cqasm::analyze_string", [&](Fields& o) { o = { "ok", dump(analyze_string(text, lab)) }; });
    add("cqasm::analyze_file", [&](Fields& o) { o = { "ok", dump(analyze_file(path)) }; });
    ::unlink(path.c_str());
}

// ------------------------------------------------------------------------------------------------------------- file
std::vector<std::string> fds() {
    std::vector<std::string> v;
    auto* d = ::opendir("/proc/self/fd");
    if (!d) return { "?" };
    auto own = std::to_string(::dirfd(d));
    while (auto* e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != ".." && n != own) {
            char buf[4096];
            auto k = ::readlink(("/proc/self/fd/" + n).c_str(), buf, sizeof buf);
            std::string to(buf, k < 0 ? 0 : static_cast<size_t>(k));
            if (k < 0 || to.rfind("/proc/", 0) == 0) continue;     // the sanitizer reads its memory use from there, now and then
            v.push_back(n + "=" + to);
        }
    }
    ::closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
void file(const Fields& in, Fields& out) {   // path, label, number of repetitions
    const auto& path = in.at(1);
    auto before = fds();
    Fields first;
    std::string verdict = "same";
    for (int i = 0; i < std::stoi(in.at(3)); ++i) {
        Quiet q;
        auto r = guarded([&](Fields& o) { o = report(parser::parse_file(path, opt(in.at(2)))); });
        r.push_back(q.text());
        auto s = guarded([&](Fields& o) { o = report(default_analyzer("3.0").analyze_file(path)); });
        auto t = guarded([&](Fields& o) { o = strings(V3xAnalyzer::parse_file(path)); });
        auto u = guarded([&](Fields& o) { o = { V3xAnalyzer{}.analyze_file_to_json(path) }; });
        Fields all{ vfio::pack(r), vfio::pack(s), vfio::pack(t), vfio::pack(u) };
        if (i == 0) {
            first = all;
        } else if (all != first) {
            verdict = "reading again gives something else";
        }
    }
    if (fds() != before) verdict = "open files changed";
    out = { verdict };
    out.insert(out.end(), first.begin(), first.end());
}

// ---------------------------------------------------------------------------------------------------------- queries
void queries(const Fields& in, Fields& out) {   // names...
    const auto& s = instruction::InstructionSet::get_instance();
    for (size_t i = 1; i < in.size(); ++i) {
        const auto& n = in[i];
        Fields o;
        auto b = [&](bool v) { o.push_back(v ? "1" : "0"); };
        b(s.is_single_qubit_named_gate(n));
        b(s.is_two_qubit_named_gate(n));
        b(s.is_named_gate(n));
        b(s.is_single_qubit_gate_composition(n));
        b(s.is_two_qubit_gate_composition(n));
        b(s.is_gate_composition(n));
        b(s.is_single_qubit_gate(n));
        b(s.is_two_qubit_gate(n));
        b(s.is_gate(n));
        b(s.is_measure(n));
        b(s.is_reset(n));
        b(s.is_init(n));
        b(s.is_barrier(n));
        b(s.is_wait(n));
        b(s.is_non_gate(n));
        b(s.is_inv_gate_modifier(n));
        b(s.is_pow_gate_modifier(n));
        b(s.is_ctrl_gate_modifier(n));
        b(s.is_single_qubit_gate_modifier(n));
        b(s.is_two_qubit_gate_modifier(n));
        b(s.is_gate_modifier(n));
        auto t = [&](auto f) {
            try {
                std::optional<std::string> r = f();
                o.push_back(r ? "=" + *r : "none");
            } catch (const cqasm::error::AnalysisError& e) {
                o.push_back("AnalysisError");
            } catch (const std::exception& e) {
                o.push_back(std::string("exception ") + e.what());
            }
        };
        t([&] { return s.get_named_gate_param_types(n); });
        t([&] { return s.get_non_gate_param_types(n); });
        t([&] { return s.get_gate_modifier_param_types(n); });
        t([&] { return s.get_instruction_param_types(n); });
        for (size_t k : { size_t{ 0 }, size_t{ 1 }, size_t{ 2 }, size_t{ 3 }, size_t{ 4 }, size_t{ 5 }, size_t{ 255 }, size_t{ 256 }, ~size_t{ 0 } })
            t([&] { return s.get_non_gate_param_types_with_param_count(n, k); });
        b(&instruction::InstructionSet::get_instance() == &s);
        out.push_back(vfio::pack(o));
    }
    Fields m;
    for (const auto& [k, v] : s.get_named_gate_map()) m.push_back("g " + k + " " + v.first.value_or("-") + " " + v.second.value_or("-"));
    for (const auto& [k, v] : s.get_non_gate_map()) m.push_back("n " + k + " " + v.first.value_or("-") + " " + v.second.value_or("-"));
    for (const auto& [k, v] : s.get_gate_modifier_map()) m.push_back("m " + k + " " + v.value_or("-"));
    for (const auto& k : s.get_single_qubit_named_gate_list()) m.push_back("s " + k);
    for (const auto& k : s.get_two_qubit_named_gate_list()) m.push_back("d " + k);
    for (const auto& k : s.get_non_gate_list()) m.push_back("l " + k);
    out.push_back(vfio::pack(m));
}

// ----------------------------------------------------------------------------------------------------------- config
values::Value constant(const std::string& k, const std::string& v) {
    if (k == "b") return cqasm::tree::make<values::ConstBool>(v == "1");
    if (k == "i") return cqasm::tree::make<values::ConstInt>(std::stoll(v));
    std::uint64_t bits = std::stoull(v, nullptr, 16);
    double d = 0;
    std::memcpy(&d, &bits, sizeof d);
    return cqasm::tree::make<values::ConstFloat>(d);
}
class Tagger {   // a function that tells which one it is, and logs what it is given
    std::shared_ptr<std::vector<std::string>> log_;
    std::string tag_, kind_;

public:
    Tagger(std::shared_ptr<std::vector<std::string>> log, std::string tag, std::string kind)
    : log_(std::move(log))
    , tag_(std::move(tag))
    , kind_(std::move(kind)) {}
    values::Value operator()(const values::Values& args) const {
        std::string s = tag_ + ":";
        for (const auto& a : args) {
            if (auto b = a->as_const_bool()) s += b->value ? "b1," : "b0,";
            else if (auto i = a->as_const_int()) s += "i" + std::to_string(i->value) + ",";
            else if (auto f = a->as_const_float()) {
                std::uint64_t bits = 0;
                std::memcpy(&bits, &f->value, 8);
                s += fmt::format("f{:016x},", bits);
            }
            else s += "?,";
        }
        log_->push_back(s);
        if (kind_ == "empty") return {};
        if (kind_ == "error") throw cqasm::error::AnalysisError{ "refused by " + tag_ };
        return constant(kind_, tag_);
    }
};
void config(const Fields& in, Fields& out) {   // one packed list of fields per step
    std::map<std::string, std::unique_ptr<analyzer::Analyzer>> an;
    std::map<std::string, std::unique_ptr<V3xAnalyzer>> wr;
    for (size_t i = 1; i < in.size(); ++i) {
        // unpack
        Fields s;
        const auto& b = in[i];
        auto u32 = [&](size_t at) {
            std::uint32_t v = 0;
            std::memcpy(&v, b.data() + at, 4);
            return v;
        };
        size_t at = 4;
        for (std::uint32_t k = u32(0); k > 0; --k) {
            auto len = u32(at);
            s.push_back(b.substr(at + 4, len));
            at += 4 + len;
        }
        auto log = std::make_shared<std::vector<std::string>>();
        static std::map<std::string, std::shared_ptr<std::vector<std::string>>> logs;
        if (i == 1) logs.clear();
        auto r = guarded([&](Fields& o) {
            Quiet q;
            const auto& op = s.at(0);
            o = { "ok" };
            if (op == "new") {
                an[s.at(1)] = std::make_unique<analyzer::Analyzer>();
            } else if (op == "default") {
                an[s.at(1)] = std::make_unique<analyzer::Analyzer>(default_analyzer());
            } else if (op == "copy") {
                an[s.at(1)] = std::make_unique<analyzer::Analyzer>(*an.at(s.at(2)));
            } else if (op == "assign") {
                *an.at(s.at(1)) = *an.at(s.at(2));
            } else if (op == "move") {
                an[s.at(1)] = std::make_unique<analyzer::Analyzer>(std::move(*an.at(s.at(2))));
                an.erase(s.at(2));
            } else if (op == "drop") {
                an.erase(s.at(1));
            } else if (op == "push") {
                an.at(s.at(1))->push_scope();
            } else if (op == "pop") {
                an.at(s.at(1))->pop_scope();
            } else if (op == "constants") {
                an.at(s.at(1))->register_default_constants();
            } else if (op == "functions") {
                an.at(s.at(1))->register_default_functions();
            } else if (op == "instructions") {
                an.at(s.at(1))->register_default_instructions();
            } else if (op == "const") {   // analyzer name kind value
                an.at(s.at(1))->register_variable(s.at(2), constant(s.at(3), s.at(4)));
            } else if (op == "func") {    // analyzer name params tag kind form
                auto& l = logs[s.at(4)];
                if (!l) l = log;
                Tagger t{ l, s.at(4), s.at(5) };
                if (s.at(6) == "types") {
                    an.at(s.at(1))->register_consteval_core_function(s.at(2), types::from_spec(s.at(3)), t);
                } else {
                    an.at(s.at(1))->register_consteval_core_function(s.at(2), s.at(3), t);
                }
            } else if (op == "instr") {   // analyzer name operands form
                if (s.at(4) == "object") {
                    an.at(s.at(1))->register_instruction(instruction::Instruction{ s.at(2), s.at(3) });
                } else if (s.at(4) == "none") {
                    an.at(s.at(1))->register_instruction(s.at(2), std::nullopt);
                } else {
                    an.at(s.at(1))->register_instruction(s.at(2), s.at(3));
                }
            } else if (op == "analyze") { // analyzer text
                for (auto& [k, v] : logs) v->clear();
                o = report(an.at(s.at(1))->analyze_string(s.at(2), std::nullopt));
                o.push_back("=");
                for (auto& [k, v] : logs)
                    for (auto& x : *v) o.push_back(x);
            } else if (op == "variable") {
                auto v = an.at(s.at(1))->resolve_variable(s.at(2));
                o = { "ok", dump(v) };
            } else if (op == "call") {    // analyzer name (kind value)...
                values::Values args;
                for (size_t k = 3; k + 1 < s.size(); k += 2) args.add(constant(s[k], s[k + 1]));
                for (auto& [k, v] : logs) v->clear();
                auto v = an.at(s.at(1))->resolve_function(s.at(2), args);
                o = { "ok", v.empty() ? "null" : dump(v) };
                for (auto& [k, x] : logs)
                    for (auto& y : *x) o.push_back(y);
            } else if (op == "wnew") {
                wr[s.at(1)] = std::make_unique<V3xAnalyzer>("3.0", s.at(2) == "1");
            } else if (op == "winstr") {
                wr.at(s.at(1))->register_instruction(s.at(2), s.at(4) == "none" ? std::nullopt : std::optional{ s.at(3) });
            } else if (op == "wanalyze") {
                o = decoded<semantic::Program>(wr.at(s.at(1))->analyze_string(s.at(2)));
            } else {
                o = { "unknown op" };
            }
        });
        out.push_back(vfio::pack(r));
    }
}

// ------------------------------------------------------------------------------------------------------------ types
void types_op(const Fields& in, Fields& out) {
    const std::string codes = "QBVWbif";
    struct Made {
        std::string name;
        values::Value v;
    };
    static std::vector<cqasm::tree::One<semantic::Variable>> keep;
    keep.clear();
    auto variable = [&](char c, std::int64_t size) {
        auto t = types::from_spec(c);
        t->size = size;
        auto v = cqasm::tree::make<semantic::Variable>(std::string("v") + c, t);
        keep.push_back(v);
        return v;
    };
    auto located = [](values::Value v, std::uint32_t k) {
        v->set_annotation(cqasm::annotations::SourceLocation{ "file", { { k, 2 }, { k + 3, 4 } } });
        return v;
    };
    std::vector<Made> made;
    // values given: kind value
    for (size_t i = 1; i + 1 < in.size(); i += 2) {
        const auto &k = in[i], &v = in[i + 1];
        if (k == "b" || k == "i" || k == "f") {
            made.push_back({ k + v, located(constant(k, v), static_cast<std::uint32_t>(i)) });
        } else if (k.size() == 1) {   // a reference to a variable of that type and size
            made.push_back({ k + v, located(cqasm::tree::make<values::VariableRef>(variable(k[0], std::stoll(v))), static_cast<std::uint32_t>(i)) });
        } else {                      // an index with that many entries: "xV" or "xW"; value "size count"
            vfio::Words is(v);
            std::int64_t size = 0, count = 0;
            is >> size >> count;
            auto ref = cqasm::tree::make<values::IndexRef>();
            ref->variable = variable(k[1], size);
            for (std::int64_t n = 0; n < count; ++n) ref->indices.add(cqasm::tree::make<values::ConstInt>(n % size));
            made.push_back({ k + v, located(ref, static_cast<std::uint32_t>(i)) });
        }
    }
    for (auto& m : made) {
        Fields o{ m.name };
        auto loc = [](const values::Value& v) {
            auto* l = v->get_annotation_ptr<cqasm::annotations::SourceLocation>();
            return l ? fmt::format("{}", *l) : std::string("none");
        };
        o.push_back(loc(m.v));
        auto t = guarded([&](Fields& f) {
            auto ty = values::type_of(m.v);
            f = { dump(ty), fmt::format("{}", ty), num(values::size_of(m.v)), num(types::size_of(ty)) };
        });
        o.push_back(vfio::pack(t));
        auto ts = guarded([&](Fields& f) {
            values::Values vs;
            vs.add(m.v);
            vs.add(m.v);
            f = { dump(values::types_of(vs)[1]), fmt::format("{}", values::types_of(vs)) };
        });
        o.push_back(vfio::pack(ts));
        o.push_back(vfio::pack(guarded([&](Fields& f) {
            values::check_const(m.v);
            f = { "const" };
        })));
        for (char c : codes) {
            o.push_back(vfio::pack(guarded([&](Fields& f) {
                auto target = types::from_spec(c);
                auto before = dump(m.v);
                auto p = values::promote(m.v, target);
                f.push_back(p.empty() ? "none" : dump(p));
                f.push_back(p.empty() ? "" : loc(p));
                f.push_back(p.empty() ? "" : dump(values::type_of(p)));
                f.push_back(values::check_promote(values::type_of(m.v), target) ? "1" : "0");
                f.push_back(types::type_check(target, values::type_of(m.v)) ? "1" : "0");
                f.push_back(before == dump(m.v) ? "untouched" : "changed");
            })));
        }
        out.push_back(vfio::pack(o));
    }
    Fields spec;
    for (int c = 0; c < 256; ++c) {
        spec.push_back(vfio::pack(guarded([&](Fields& f) {
            auto t = types::from_spec(static_cast<char>(c));
            f = { "ok", dump(t), fmt::format("{}", t), num(types::size_of(t)) };
        })));
        spec.push_back(vfio::pack(guarded([&](Fields& f) {
            auto t = types::from_spec(std::string{ 'Q', static_cast<char>(c), 'i' });
            f = { "ok", num(static_cast<long long>(t.size())), dump(t[1]), fmt::format("{}", t) };
        })));
    }
    out.push_back(vfio::pack(spec));
    Fields el;
    for (char c : codes)
        for (char d : codes) {
            el.push_back(vfio::pack(guarded([&](Fields& f) {
                f = { types::type_check(types::from_spec(c), types::from_spec(d)) ? "1" : "0",
                    values::check_promote(types::from_spec(c), types::from_spec(d)) ? "1" : "0" };
            })));
        }
    for (char c : codes)
        el.push_back(vfio::pack(guarded([&](Fields& f) { f = { "ok", dump(values::element_type_of(types::from_spec(c))) }; })));
    el.push_back(vfio::pack(guarded([&](Fields& f) { f = { num(static_cast<long long>(types::from_spec(std::string{}).size())) }; })));
    out.push_back(vfio::pack(el));
}

// -------------------------------------------------------------------------------------------------------- roundtrip
// Locations are annotations, which are not part of the serialised form.
std::string placeless(const std::string& d) {
    static const std::string mark = ",\"%\":[";
    std::string o;
    for (size_t i = 0; i < d.size();) {
        if (d.compare(i, mark.size(), mark) != 0) {
            o += d[i++];
            continue;
        }
        bool quoted = false;
        for (i += mark.size(); quoted || d.at(i) != ']'; i++) {
            if (quoted && d[i] == '\\') i++;
            else if (d[i] == '"') quoted = !quoted;
        }
        i++;
    }
    return o;
}
template <class T>
std::string through(const T& root, const std::string& dumped) {
    auto bytes = tb::serialize(root);
    auto back = tb::deserialize<typename T::element_type>(bytes);
    if (dump(back) != dumped) return "reading the serialised tree back gives another tree: " + dump(back);
    if (tb::serialize(back) != bytes) return "serialising again gives other bytes";
    if (!back.is_well_formed()) return "the tree read back is not well-formed";
    auto again = tb::deserialize<typename T::element_type>(tb::serialize(back));
    if (dump(again) != dumped) return "a second round trip gives another tree";
    // NaN is not equal to itself; links are compared by identity
    if constexpr (std::is_same_v<typename T::element_type, syntactic::Root>) {
        if (back.equals(again) && (!root.equals(back) || !back.equals(root))) return "the tree read back is not equal";
    }
    return "";
}
void roundtrip(const Fields& in, Fields& out) {   // text file
    out = guarded([&](Fields& o) {
        Quiet q;
        auto p = parser::parse_string(in.at(1), opt(in.at(2)));
        if (!p.errors.empty()) {
            o = { "parse-err", "" };
            return;
        }
        auto r = default_analyzer("3.0").analyze(p);
        auto d = placeless(dump(p.root));
        o = { r.errors.empty() ? "ok" : "err", through(p.root, d), d };
        auto s = p.to_strings();
        if (o[1].empty() && (s.size() != 1 || dump(tb::deserialize<syntactic::Root>(s[0])) != d)) o[1] = "to_strings of the syntax tree";
        if (r.errors.empty()) {
            auto e = placeless(dump(r.root));
            if (o[1].empty()) o[1] = through(r.root, e);
            auto t = r.to_strings();
            if (o[1].empty() && (t.size() != 1 || dump(tb::deserialize<semantic::Program>(t[0])) != e)) o[1] = "to_strings of the semantic tree";
            o.push_back(e);
        }
    });
}
template <class T>
T prim_back(const T& v, std::string* bytes = nullptr) {
    std::ostringstream os;
    {
        ::tree::cbor::Writer w{ os };
        auto m = w.start();
        primitives::serialize<T>(v, m);
        m.close();
    }
    if (bytes) *bytes = os.str();
    auto r = ::tree::cbor::Reader::parse(os.str());
    return primitives::deserialize<T>(r.as_map());
}
template <class T>
std::string prim_verdict(const T& v) {
    std::string b1, b2;
    auto x = prim_back(v, &b1);
    auto y = prim_back(x, &b2);
    if (b1 != b2) return "other bytes the second time";
    std::ostringstream a, b;
    return "";
}
std::string bits(double d) {
    std::uint64_t u = 0;
    std::memcpy(&u, &d, 8);
    return fmt::format("{:016x}", u);
}
double unbits(const std::string& s) {
    std::uint64_t u = std::stoull(s, nullptr, 16);
    double d = 0;
    std::memcpy(&d, &u, 8);
    return d;
}
void prim(const Fields& in, Fields& out) {   // (kind value)... -> what comes back
    for (size_t i = 1; i + 1 < in.size(); i += 2) {
        const auto &k = in[i], &v = in[i + 1];
        out.push_back(vfio::pack(guarded([&](Fields& o) {
            vfio::Words is(v);
            std::string a, b, c, bytes1, bytes2;
            if (k == "int") {
                auto x = prim_back<primitives::Int>(std::stoll(v), &bytes1);
                prim_back(x, &bytes2);
                o = { num(x) };
            } else if (k == "bool") {
                auto x = prim_back<primitives::Bool>(v == "1", &bytes1);
                prim_back(x, &bytes2);
                o = { x ? "1" : "0" };
            } else if (k == "float") {
                auto x = prim_back<primitives::Float>(unbits(v), &bytes1);
                prim_back(x, &bytes2);
                o = { bits(x) };
            } else if (k == "str") {
                auto x = prim_back<primitives::Str>(v, &bytes1);
                prim_back(x, &bytes2);
                o = { x };
            } else if (k == "complex") {
                is >> a >> b;
                auto x = prim_back<primitives::Complex>({ unbits(a), unbits(b) }, &bytes1);
                prim_back(x, &bytes2);
                o = { bits(x.real()) + " " + bits(x.imag()) };
            } else if (k == "axis") {
                is >> a >> b >> c;
                auto x = prim_back<primitives::Axis>({ unbits(a), unbits(b), unbits(c) }, &bytes1);
                prim_back(x, &bytes2);
                o = { bits(x.x) + " " + bits(x.y) + " " + bits(x.z) };
            } else if (k == "version") {
                primitives::Version w("");
                std::int64_t n = 0;
                while (is >> n) w.push_back(n);
                auto x = prim_back(w, &bytes1);
                prim_back(x, &bytes2);
                std::string s;
                for (auto e : x) s += num(e) + " ";
                o = { s };
            } else if (k == "instruction") {   // name / operand types
                auto cut = v.find('/');
                instruction::InstructionRef ref;
                if (v != "-") ref = cqasm::tree::make<instruction::Instruction>(v.substr(0, cut), v.substr(cut + 1));
                auto x = prim_back(ref, &bytes1);
                prim_back(x, &bytes2);
                std::ostringstream os;
                os << x;
                o = { x.empty() ? "-" : x->name + "/" + fmt::format("{}", x->operand_types), x.empty() == ref.empty() && (x.empty() || *x == *ref) ? "equal" : "not equal", os.str() };
            } else if (k == "function") {      // name / parameter types / return type
                auto cut = v.find('/');
                auto cut2 = v.find('/', cut + 1);
                function::CoreFunctionRef ref;
                if (v != "-") ref = cqasm::tree::make<function::CoreFunction>(v.substr(0, cut), v.substr(cut + 1, cut2 - cut - 1), v.at(cut2 + 1));
                auto x = prim_back(ref, &bytes1);
                prim_back(x, &bytes2);
                std::ostringstream os;
                os << x;
                o = { x.empty() ? "-" : x->name + "/" + fmt::format("{}/{}", x->param_types, x->return_type), x.empty() == ref.empty() && (x.empty() || *x == *ref) ? "equal" : "not equal", os.str() };
            }
            if (bytes1 != bytes2) o[0] += " (other bytes the second time)";
        })));
    }
}

// ------------------------------------------------------------------------------------------------------------ built
struct Placeless : ::tree::vf::Sink {
    void on_prim(const char*, const char*, const ::tree::vf::Prim&) override {}
    void on_edge(const char*, ::tree::vf::EdgeKind kind, const std::vector<const tb::Base*>& nodes) override {
        if (kind == ::tree::vf::EdgeKind::Link || kind == ::tree::vf::EdgeKind::OptLink) return;
        for (const auto* n : nodes)
            if (n) strip(*n);
    }
    void strip(const tb::Base& n) {
        const_cast<tb::Base&>(n).erase_annotation<cqasm::annotations::SourceLocation>();
        n.vf_fields(*this);
    }
};
void built(const Fields& in, Fields& out) {   // text strip (statement depth interface operation operands place)...
    out = guarded([&](Fields& o) {
        Quiet q;
        auto p = parser::parse_string(in.at(1), std::nullopt);
        if (!p.errors.empty()) {
            o = { "parse-err" };
            return;
        }
        auto* program = p.root->as_program();
        for (size_t i = 3; i + 5 < in.size(); i += 6) {
            auto& st = program->block->statements[std::stoul(in[i])];
            syntactic::Annotated* target = st->as_annotated();
            if (auto depth = std::stoll(in[i + 1]); depth >= 0) {
                syntactic::Gate* g = &*st->as_gate_instruction()->gate;
                while (depth--) g = &*g->gate;
                target = g;
            }
            auto data = cqasm::tree::make<syntactic::AnnotationData>();
            data->interface = cqasm::tree::make<syntactic::Identifier>(in[i + 2]);
            data->operation = cqasm::tree::make<syntactic::Identifier>(in[i + 3]);
            data->operands = cqasm::tree::make<syntactic::ExpressionList>();
            if (!in[i + 4].empty()) {
                auto aux = parser::parse_string("version 3.0\nX " + in[i + 4], "annotation");
                if (!aux.errors.empty()) {
                    o = { "parse-err" };
                    return;
                }
                data->operands = aux.root->as_program()->block->statements[0]->as_gate_instruction()->operands;
            }
            if (in[i + 5] != "-") {
                auto k = static_cast<std::uint32_t>(std::stoul(in[i + 5]));
                data->set_annotation(cqasm::annotations::SourceLocation{ "annotation", { { k, 1 }, { k, 9 } } });
            }
            target->annotations.add(data);
        }
        if (in.at(2) == "1") {
            Placeless s;
            s.strip(*p.root);
        }
        auto before = dump(p.root);
        auto verdict = through(p.root, placeless(before));
        auto r = default_analyzer("3.0").analyze(*program);
        o = { r.errors.empty() ? "ok" : "err", dump(p.root) == before ? "" : "the syntax tree changed", verdict, dump(r.root) };
        if (r.errors.empty()) o[2] += through(r.root, placeless(o[3]));
        auto again = default_analyzer("3.0").analyze(*program);
        if (dump(again.root) != o[3] || again.errors.size() != r.errors.size()) o[1] += "another result the second time";
        Fields f;
        errors(f, r.errors);
        o.insert(o.end(), f.begin(), f.end());
    });
}

// ------------------------------------------------------------------------------------------------------------- same
template <class T>
void same_of(const std::vector<T>& xs, Fields& out) {   // per object: its texts, then which of them it equals, and is not unequal to
    for (const auto& x : xs) {
        std::ostringstream os;
        os << x;
        std::string eq, ne;
        T copy = x;
        for (const auto& y : xs) {
            eq += (x == y) ? '1' : '0';
            ne += (x != y) ? '1' : '0';
        }
        out.push_back(vfio::pack({ os.str(), fmt::format("{}", x), copy == x && !(copy != x) ? "copy" : "no copy", eq, ne }));
    }
}
types::Types sized(types::Types ts, const std::string& sizes) {
    vfio::Words is(sizes);
    std::int64_t n = 0;
    for (auto& t : ts)
        if (is >> n) t->size = n;
    return ts;
}
void same(const Fields& in, Fields& out) {   // kind, then (name types sizes ret)... or (x y z)...
    out = guarded([&](Fields& o) {
        const auto& k = in.at(1);
        if (k == "instruction") {
            std::vector<instruction::Instruction> xs;
            for (size_t i = 2; i + 3 < in.size(); i += 4) {
                instruction::Instruction x{ in[i], opt(in[i + 1]) };
                x.operand_types = sized(x.operand_types, in[i + 2]);
                xs.push_back(x);
            }
            same_of(xs, o);
            std::ostringstream os;
            os << instruction::InstructionRef{};
            for (const auto& x : xs) os << '|' << cqasm::tree::make<instruction::Instruction>(x);
            o.push_back(os.str());
        } else if (k == "function") {
            std::vector<function::CoreFunction> xs;
            for (size_t i = 2; i + 3 < in.size(); i += 4) {
                function::CoreFunction x{ in[i], opt(in[i + 1]).value_or(""), in[i + 3].at(0) };
                x.param_types = sized(x.param_types, in[i + 2]);
                if (in[i + 3].size() > 1) x.return_type->size = std::stoll(in[i + 3].substr(1));
                xs.push_back(x);
            }
            same_of(xs, o);
            std::ostringstream os;
            os << function::CoreFunctionRef{};
            for (const auto& x : xs) os << '|' << cqasm::tree::make<function::CoreFunction>(x);
            o.push_back(os.str());
        } else {
            std::vector<primitives::Axis> xs;
            for (size_t i = 2; i + 2 < in.size(); i += 3) xs.push_back({ unbits(in[i]), unbits(in[i + 1]), unbits(in[i + 2]) });
            same_of(xs, o);
            auto z = primitives::initialize<primitives::Axis>();
            std::ostringstream os;
            os << z << primitives::Axis{} << primitives::initialize<primitives::Bool>() << primitives::initialize<primitives::Int>() << primitives::initialize<primitives::Float>() << '"'
               << primitives::initialize<primitives::Str>() << '"';
            o.push_back(os.str());
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- json
void json(const Fields& in, Fields& out) {   // text label
    out = guarded([&](Fields& o) {
        Quiet q;
        auto lab = opt(in.at(2));
        auto p = parser::parse_string(in.at(1), lab);
        auto r = default_analyzer("3.0").analyze(p);
        o = { p.errors.empty() ? (r.errors.empty() ? "ok" : "err") : "parse-err", p.to_json(), r.to_json() };
        auto msgs = [&](const auto& errs) {
            Fields f;
            for (const auto& e : errs) {
                f.push_back(e.what());
                f.push_back(e.to_json());
            }
            return f;
        };
        o.push_back(vfio::pack(msgs(p.errors)));
        o.push_back(vfio::pack(msgs(r.errors)));
        o.push_back(dump(p.root));
        o.push_back(dump(r.root));
        // the same text under the same file name through the wrappers
        if (in.at(2) == "+") return;    // an empty file name is none to them
        auto label = lab.value_or("");
        auto js = [&](const char* f) { return emscripten::exported().at(f)({ in.at(1), label }); };
        auto pj = p.to_json(), rj = r.to_json();
        Fields w;
        auto same = [&](const char* what, const std::string& got, const std::string& want) {
            if (got != want) w.insert(w.end(), { what, got, want });
        };
        same("V3xAnalyzer::parse_string_to_json", V3xAnalyzer::parse_string_to_json(in.at(1), label), pj);
        same("V3xAnalyzer::analyze_string_to_json", V3xAnalyzer{}.analyze_string_to_json(in.at(1), label), rj);
        same("EmscriptenWrapper.parse_string_to_json", js("EmscriptenWrapper.parse_string_to_json"), pj);
        same("EmscriptenWrapper.analyze_string_to_json", js("EmscriptenWrapper.analyze_string_to_json"), rj);
        if (!p.errors.empty()) same("the first string of V3xAnalyzer::parse_string", V3xAnalyzer::parse_string(in.at(1), label).at(1), p.errors[0].what());
        if (!r.errors.empty()) same("the first string of V3xAnalyzer::analyze_string", V3xAnalyzer{}.analyze_string(in.at(1), label).at(1), r.errors[0].what());
        o.push_back(vfio::pack(w));
    });
}

// ---------------------------------------------------------------------------------------------------------- effects
std::string file_state(const std::string& path) {
    struct stat st {};
    if (::stat(path.c_str(), &st) != 0) return "none";
    std::ifstream f(path, std::ios::binary);
    std::ostringstream os;
    if (S_ISREG(st.st_mode)) os << f.rdbuf();
    return num(st.st_size) + "/" + num(st.st_mode) + "/" + num(st.st_mtim.tv_sec) + "." + num(st.st_mtim.tv_nsec) + "/" + num(st.st_nlink) + "/" + os.str();
}
/** Each function by itself, on real output streams, with the state of the process before and after. */
void effects(const Fields& in, Fields& out) {   // text, file name, path of a file with the text, path of no file
    const auto &text = in.at(1), &label = in.at(2), &path = in.at(3), &none = in.at(4);
    const std::optional<std::string> lab = label.empty() ? std::nullopt : std::optional{ label };
    auto each = [&](const char* name, auto f) {
        auto file0 = file_state(path), none0 = file_state(none);
        auto before = vfio::state_of_process();
        std::string how = "returned";
        try {
            f();
        } catch (const std::exception&) {
            how = "threw";
        }
        auto said = vfio::changes(before, vfio::state_of_process());
        if (file_state(path) != file0) said += "the input file changed; ";
        if (file_state(none) != none0) said += "a file appeared; ";
        out.insert(out.end(), { name, how, said });
    };
    parser::ParseResult p;
    analyzer::AnalysisResult r;
    std::optional<analyzer::Analyzer> a;
    std::optional<V3xAnalyzer> w;
    std::vector<std::string> s;
    each("parse_string", [&] { p = parser::parse_string(text, lab); });
    each("parse_file", [&] { (void)parser::parse_file(path, lab); });
    each("parse_file of no file", [&] { (void)parser::parse_file(none, lab); });
    each("parse_file of a directory", [&] { (void)parser::parse_file(".", lab); });
    each("default_analyzer", [&] { a.emplace(default_analyzer("3.0")); });
    each("Analyzer of another version", [&] { (void)analyzer::Analyzer{ primitives::Version{ text.substr(0, 20) } }; });
    each("register_variable", [&] { a->register_variable("name", cqasm::tree::make<values::ConstInt>(1)); });
    each("register_consteval_core_function", [&] { a->register_consteval_core_function("name", "i", [](const values::Values& v) { return v[0]; }); });
    each("register_instruction", [&] { a->register_instruction("name", "Qi"); });
    each("register_instruction of bad types", [&] { a->register_instruction("name", "?"); });
    each("push_scope", [&] { a->push_scope(); });
    each("resolve", [&] {
        (void)a->resolve_variable("name");
        (void)a->resolve_function("name", { values::Value{ cqasm::tree::make<values::ConstInt>(1) } });
        (void)a->resolve_instruction("name", values::Values{});
    });
    each("resolve of nothing", [&] { (void)a->resolve_variable("nothing"); });
    each("pop_scope", [&] { a->pop_scope(); });
    each("copy of an analyzer", [&] {
        analyzer::Analyzer b{ *a }, c{ std::move(b) };
        b = c;
        c = std::move(b);
    });
    each("Analyzer::analyze", [&] { r = a->analyze(p); });
    each("Analyzer::analyze_string", [&] { (void)a->analyze_string(text, lab); });
    each("Analyzer::analyze_file", [&] { (void)a->analyze_file(path); });
    each("Analyzer::analyze_file of no file", [&] { (void)a->analyze_file(none); });
    each("errors", [&] {
        for (const auto& list : { p.errors, r.errors }) {
            for (const auto& e : list) {
                std::ostringstream os;
                os << e << e.what() << e.to_json();
            }
        }
    });
    each("ParseResult::to_strings", [&] { s = p.to_strings(); });
    each("ParseResult::to_json", [&] { (void)p.to_json(); });
    each("AnalysisResult::to_strings", [&] { s = r.to_strings(); });
    each("AnalysisResult::to_json", [&] { (void)r.to_json(); });
    each("deserialize", [&] {
        if (s.size() == 1) (void)tb::deserialize<semantic::Program>(s[0]);
    });
    each("deserialize of other bytes", [&] { (void)tb::deserialize<semantic::Program>(text); });
    std::ostringstream os;
    each("unwrap(stream)", [&] { (void)r.unwrap(os); });
    each("printing", [&] {
        if (!p.root.empty()) os << *p.root;
        if (!r.root.empty()) os << *r.root;
    });
    each("copying and comparing trees", [&] {
        if (!p.root.empty()) (void)p.root->clone();
        if (!r.root.empty()) (void)r.root->clone();
    });
    each("V3xAnalyzer", [&] { w.emplace(); });
    each("V3xAnalyzer::register_instruction", [&] { w->register_instruction("name", "Qi"); });
    each("V3xAnalyzer::parse_string", [&] { (void)V3xAnalyzer::parse_string(text, label); });
    each("V3xAnalyzer::parse_file", [&] { (void)V3xAnalyzer::parse_file(path); });
    each("V3xAnalyzer::parse_string_to_json", [&] { (void)V3xAnalyzer::parse_string_to_json(text, label); });
    each("V3xAnalyzer::parse_file_to_json", [&] { (void)V3xAnalyzer::parse_file_to_json(path); });
    each("V3xAnalyzer::analyze_string", [&] { (void)w->analyze_string(text, label); });
    each("V3xAnalyzer::analyze_file", [&] { (void)w->analyze_file(path); });
    each("V3xAnalyzer::analyze_file of no file", [&] { (void)w->analyze_file(none); });
    each("V3xAnalyzer::analyze_string_to_json", [&] { (void)w->analyze_string_to_json(text, label); });
    each("V3xAnalyzer::analyze_file_to_json", [&] { (void)w->analyze_file_to_json(path); });
    each("EmscriptenWrapper.parse_string_to_json", [&] { (void)emscripten::exported().at("EmscriptenWrapper.parse_string_to_json")({ text, label }); });
    each("EmscriptenWrapper.analyze_string_to_json", [&] { (void)emscripten::exported().at("EmscriptenWrapper.analyze_string_to_json")({ text, label }); });
    // These two say why there is no tree, on the standard error, and that is all.
    if (r.errors.empty()) {
        each("cqasm::analyze_string", [&] { (void)analyze_string(text, lab); });
        each("cqasm::analyze_file", [&] { (void)analyze_file(path); });
        each("unwrap", [&] { (void)r.unwrap(); });
    }
    each("types", [&] {
        for (const char* c : { "Q", "V", "B", "W", "b", "i", "f", "QVBWbif", "?" }) {
            try {
                (void)fmt::format("{}", types::from_spec(std::string{ c }));
            } catch (const std::invalid_argument&) {
            }
        }
    });
    each("the instruction set", [&] {
        const auto& set = instruction::InstructionSet::get_instance();
        (void)set.is_gate(text.substr(0, 3));
        (void)set.get_instruction_param_types("X");
        (void)set.get_instruction_param_types(text.substr(0, 3));
    });
    each("releasing everything", [&] {
        p = {};
        r = {};
        a.reset();
        w.reset();
    });
}

// ---------------------------------------------------------------------------------------------------------- hostile
std::string everything(const std::string& text, const std::optional<std::string>& file) {
    std::ostringstream os;
    auto p = parser::parse_string(text, file);
    for (const auto& e : p.errors) os << e << e.what() << e.to_json();
    if (!p.root.empty()) {
        os << *p.root;
        p.root->dump(os);
        p.root->dump_json(os);
    }
    if (p.errors.empty()) {
        auto s = p.to_strings();
        os << p.to_json() << s.size();
        auto copy = p.root->clone();
        os << dump(tb::One<syntactic::Root>{ tb::deserialize<syntactic::Root>(s[0]) });
        os << dump(copy);
    }
    auto a = default_analyzer("3.0");
    auto r = a.analyze(p);
    for (const auto& e : r.errors) os << e << e.what() << e.to_json();
    if (!r.root.empty()) {
        os << *r.root;
        r.root->dump(os);
        dump(r.root);
        if (r.errors.empty()) {
            r.root->dump_json(os);
            os << r.to_json();
            auto s = r.to_strings();
            os << dump(tb::deserialize<semantic::Program>(s[0]));
            for (auto& st : r.root->block->statements) {
                if (auto* i = st->as_gate_instruction()) os << i->instruction_ref;
                if (auto* i = st->as_non_gate_instruction()) os << i->instruction_ref;
                auto c = st->clone();
                os << *c;
            }
            for (auto& v : r.root->variables) os << v->typ << *v->clone();
        } else {
            for (auto& s : r.to_strings()) os << s;
            os << r.to_json();
        }
    }
    try {
        r.unwrap(os);
    } catch (const analyzer::AnalysisFailed&) {
        os << "failed";
    }
    p.root.reset();
    os << r.errors.size();
    return os.str();
}
void hostile(const Fields& in, Fields& out) {   // file, texts...
    for (size_t i = 2; i < in.size(); ++i) {
        out.push_back(vfio::pack(guarded([&](Fields& o) {
            std::string printed;
            size_t n = 0;
            std::string leak;
            for (int round = 0; round < 3; ++round) {
                auto before = __sanitizer_get_current_allocated_bytes();
                {
                    Quiet q;
                    auto s = everything(in[i], opt(in.at(1)));
                    n = s.size();
                }
                auto after = __sanitizer_get_current_allocated_bytes();
                leak = after == before ? "" : num(static_cast<long long>(after) - static_cast<long long>(before));
                if (leak.empty()) break;      // otherwise caches may have been filled: once more
            }
            o = { "done", leak, num(static_cast<long long>(n)) };
        })));
    }
}
}  // namespace

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    if (op == "session") session(in, out);
    else if (op == "twice") twice(in, out);
    else if (op == "phases") phases(in, out);
    else if (op == "passon") passon(in, out);
    else if (op == "entries") entries(in, out);
    else if (op == "file") file(in, out);
    else if (op == "queries") queries(in, out);
    else if (op == "config") config(in, out);
    else if (op == "types") types_op(in, out);
    else if (op == "roundtrip") roundtrip(in, out);
    else if (op == "prim") prim(in, out);
    else if (op == "json") json(in, out);
    else if (op == "same") same(in, out);
    else if (op == "built") built(in, out);
    else if (op == "hostile") hostile(in, out);
    else if (op == "effects") effects(in, out);
    else out.push_back("unknown op");
}

int main(int argc, char** argv) { return vfio::run(argc, argv); }
