// Counts the steps the library takes and the bytes it allocates, phase by phase.
#include <cstdint>
#include <cstdlib>
#include <new>

#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/utils.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "v3x_common.hpp"

namespace {
std::uint64_t steps = 0, bytes = 0;
}
extern "C" {
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t*) { ++steps; }
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(std::uint32_t*, std::uint32_t*) {}
}
__attribute__((no_sanitize("coverage"))) void* operator new(std::size_t n) {
    bytes += n;
    if (auto* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
__attribute__((no_sanitize("coverage"))) void operator delete(void* p) noexcept { std::free(p); }
__attribute__((no_sanitize("coverage"))) void operator delete(void* p, std::size_t) noexcept { std::free(p); }

using namespace cqasm::v3x;


namespace {
/** Runs f and reports what it cost. */
template <class F>
void phase(vfio::Fields& out, const char* name, F f) {
    const auto s = steps, b = bytes;
    std::string how = "ok";
    try {
        f();
    } catch (const std::exception& e) {
        how = "throw";
    }
    const auto ds = steps - s, db = bytes - b;
    out.push_back(name);
    out.push_back(std::to_string(ds));
    out.push_back(std::to_string(db));
    out.push_back(how);
}
}  // namespace

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    if (op == "program") {  // text -> (phase steps bytes how)...
        parser::ParseResult p;
        std::optional<analyzer::Analyzer> a;
        analyzer::AnalysisResult r;
        phase(out, "parse", [&] { p = parser::parse_string(in.at(1), "f.cq"); });
        if (p.errors.empty()) {
            phase(out, "tree json", [&] { (void)parser::parse_string(in.at(1), "f.cq").to_json(); });
            a.emplace(default_analyzer("3.0"));
            phase(out, "analyze", [&] { r = a->analyze(p); });
            phase(out, "json", [&] { (void)r.to_json(); });
            phase(out, "strings", [&] { (void)r.to_strings(); });
        } else {
            phase(out, "error json", [&] { (void)p.to_json(); });
            phase(out, "error strings", [&] { (void)p.to_strings(); });
        }
        phase(out, "all", [&] { (void)V3xAnalyzer{}.analyze_string(in.at(1)); });
        phase(out, "end", [&] { r = {}; p = {}; a.reset(); });
    } else if (op == "text") {  // text -> (phase steps bytes how)...
        const auto& t = in.at(1);
        std::optional<std::string> name = t;
        namespace cu = cqasm::utils;
        phase(out, "lower", [&] { (void)cu::to_lowercase(t); });
        phase(out, "equal", [&] { (void)cu::equal_case_insensitive(t, t); });
        phase(out, "json", [&] { (void)cu::json_encode(t); });
        phase(out, "url", [&] { (void)cu::url_encode(t); });
        phase(out, "error", [&] {
            cqasm::error::Error e(t);
            (void)std::string(e.what());
            (void)e.to_json();
        });
        phase(out, "located", [&] {
            using cqasm::annotations::SourceLocation;
            const SourceLocation l(name, { { 1, 2 }, { 3, 4 } });
            cqasm::error::Error e(t, std::make_shared<SourceLocation>(l));
            (void)std::string(e.what());
            (void)e.to_json();
            std::ostringstream s;
            s << l;
        });
    }
    else if (op == "tables") {  // n -> (phase steps bytes how)...
        const int n = std::atoi(in.at(1).c_str());
        analyzer::Analyzer a = default_analyzer("3.0");
        std::vector<std::string> names;
        for (int i = 0; i < n; ++i) names.push_back("n" + std::to_string(1000000 + i));
        const values::Values one{ values::Value{ cqasm::tree::make<values::ConstInt>(1) } };
        phase(out, "register variables", [&] { for (const auto& s : names) a.register_variable(s, cqasm::tree::make<values::ConstInt>(1)); });
        phase(out, "register variables again", [&] { for (const auto& s : names) a.register_variable(s, cqasm::tree::make<values::ConstInt>(2)); });
        phase(out, "register functions", [&] { for (const auto& s : names) a.register_consteval_core_function(s, "i", [](const values::Values& v) { return v[0]; }); });
        phase(out, "register instructions", [&] { for (const auto& s : names) a.register_instruction(s, "Qi"); });
        phase(out, "resolve variables", [&] { for (const auto& s : names) (void)a.resolve_variable(s); });
        phase(out, "resolve functions", [&] { for (const auto& s : names) (void)a.resolve_function(s, one); });
        phase(out, "copy", [&] { analyzer::Analyzer b{ a }; });
        phase(out, "scopes", [&] {
            for (int i = 0; i < n; ++i) a.push_scope();
            (void)a.resolve_variable("pi");
            for (int i = 0; i < n; ++i) a.pop_scope();
        });
        phase(out, "overloads", [&] {
            for (int i = 0; i < n; ++i) a.register_instruction("same", "Qi");
            for (int i = 0; i < n; ++i) a.register_consteval_core_function("same", "i", [](const values::Values& v) { return v[0]; });
            (void)a.resolve_function("same", one);
        });
        phase(out, "types", [&] {
            const auto t = types::from_spec(std::string(n, 'Q'));
            std::ostringstream s;
            s << t;
        });
        phase(out, "values", [&] {
            values::Values v;
            for (int i = 0; i < n; ++i) v.add(one[0]);
            (void)values::types_of(v);
        });
        phase(out, "errors", [&] {
            analyzer::AnalysisResult r;
            for (int i = 0; i < n; ++i) r.errors.emplace_back(names[i]);
            (void)r.to_strings();
            (void)r.to_json();
        });
        phase(out, "unwrap", [&] {
            analyzer::AnalysisResult r;
            for (int i = 0; i < n; ++i) r.errors.emplace_back(names[i]);
            std::ostringstream s;
            (void)r.unwrap(s);
        });
        phase(out, "parse errors", [&] {
            parser::ParseResult r;
            for (int i = 0; i < n; ++i) r.errors.emplace_back(names[i]);
            (void)r.to_strings();
            (void)r.to_json();
        });
    }
}

int main(int argc, char** argv) { return vfio::run(argc, argv); }
