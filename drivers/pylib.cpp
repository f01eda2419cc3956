// Stands behind the Python package in place of the SWIG module: makes V3xAnalyzer objects and calls them by number.
// Also answers what C++ itself makes of a program, for comparison.
#include <fmt/format.h>

#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <typeinfo>

#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "tree-vfdump.hpp"
#include "v3x_common.hpp"

using namespace cqasm::v3x;
using vf3::dump;
using vf3::opt;
namespace tb = ::tree::base;

namespace {
std::map<std::string, std::unique_ptr<V3xAnalyzer>> objects;
int next_id = 0;

template <class R>
void answer(vfio::Fields& out, const R& r) {
    out = { r.errors.empty() ? "ok" : "err", dump(r.root), r.errors.empty() ? tb::serialize(r.root) : "", r.to_json() };
    for (const auto& e : r.errors) out.push_back(e.what());
}
void strings(vfio::Fields& out, const std::vector<std::string>& v) {
    out = { "ret" };
    out.insert(out.end(), v.begin(), v.end());
}
analyzer::Analyzer like(const std::string& how) {      // the C++ analyzer that V3xAnalyzer(...) stands for
    if (how == "d") return default_analyzer("3.0");
    analyzer::Analyzer a{ "3.0" };
    a.register_default_constants();
    a.register_default_functions();
    return a;
}
}  // namespace

void vfio::handle(const Fields& in, Fields& out) {
    const auto& op = in.at(0);
    try {
        if (op == "new") {
            auto id = vfio::num(next_id++);
            objects[id] = in.size() == 1 ? std::make_unique<V3xAnalyzer>()
                : in.size() == 2         ? std::make_unique<V3xAnalyzer>(in[1])
                                         : std::make_unique<V3xAnalyzer>(in[1], in[2] == "1");
            out = { "ret", id };
        } else if (op == "del") {
            objects.erase(in.at(1));
            out = { "ret" };
        } else if (op == "register_instruction") {
            objects.at(in.at(1))->register_instruction(in.at(2), opt(in.at(3)));
            out = { "ret" };
        } else if (op == "parse_string") {
            strings(out, in.size() == 2 ? V3xAnalyzer::parse_string(in.at(1)) : V3xAnalyzer::parse_string(in.at(1), in.at(2)));
        } else if (op == "parse_file") {
            strings(out, V3xAnalyzer::parse_file(in.at(1)));
        } else if (op == "parse_string_to_json") {
            out = { "ret", in.size() == 2 ? V3xAnalyzer::parse_string_to_json(in.at(1))
                                          : V3xAnalyzer::parse_string_to_json(in.at(1), in.at(2)) };
        } else if (op == "parse_file_to_json") {
            out = { "ret", V3xAnalyzer::parse_file_to_json(in.at(1)) };
        } else if (op == "analyze_string") {
            auto& a = *objects.at(in.at(1));
            strings(out, in.size() == 3 ? a.analyze_string(in.at(2)) : a.analyze_string(in.at(2), in.at(3)));
        } else if (op == "analyze_file") {
            strings(out, objects.at(in.at(1))->analyze_file(in.at(2)));
        } else if (op == "analyze_string_to_json") {
            auto& a = *objects.at(in.at(1));
            out = { "ret", in.size() == 3 ? a.analyze_string_to_json(in.at(2)) : a.analyze_string_to_json(in.at(2), in.at(3)) };
        } else if (op == "analyze_file_to_json") {
            out = { "ret", objects.at(in.at(1))->analyze_file_to_json(in.at(2)) };
        } else if (op == "cpp-parse") {            // text, file name
            answer(out, parser::parse_string(in.at(1), opt(in.at(2))));
        } else if (op == "cpp-analyze") {          // text, file name, how
            answer(out, like(in.at(3)).analyze_string(in.at(1), opt(in.at(2))));
        } else if (op == "read") {                 // kind, bytes -> the tree C++ reads from them
            if (in.at(1) == "parse") {
                out = { "ret", dump(tb::deserialize<syntactic::Root>(in.at(2))) };
            } else {
                out = { "ret", dump(tb::deserialize<semantic::Program>(in.at(2))) };
            }
        } else {
            out = { "unknown op" };
        }
    } catch (const std::invalid_argument& e) {
        out = { "throw", "ValueError", e.what() };
    } catch (const std::out_of_range& e) {
        out = { "throw", "IndexError", e.what() };
    } catch (const std::exception& e) {
        out = { "throw", "RuntimeError", e.what() };
    } catch (...) {
        out = { "throw", "RuntimeError", "Unknown exception" };
    }
}

int main(int argc, char** argv) { return vfio::run(argc, argv); }
