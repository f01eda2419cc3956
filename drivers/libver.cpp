// Reports the library version through every interface that can be built here.
#include "emscripten_wrapper.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/versioning.hpp"
#include "vf_io.hpp"

// never called: only the version is asked for
namespace cqasm::v3x::analyzer {
class Analyzer {};
}  // namespace cqasm::v3x::analyzer
V3xAnalyzer::V3xAnalyzer(const std::string&, bool) {}
V3xAnalyzer::~V3xAnalyzer() = default;
std::string V3xAnalyzer::parse_string_to_json(const std::string&, const std::string&) { std::abort(); }
std::string V3xAnalyzer::analyze_string_to_json(const std::string&, const std::string&) const { std::abort(); }

void vfio::handle(const Fields& in, Fields& out) {
    (void)in;
    out.push_back(cqasm::get_version());
    out.push_back(cqasm::version);
    EmscriptenWrapper w;
    out.push_back(w.get_version());
    out.push_back(emscripten::exported().at("EmscriptenWrapper.get_version")({}));
    out.push_back(cqasm::get_release_year());
}
int main(int argc, char** argv) { return vfio::run(argc, argv); }
