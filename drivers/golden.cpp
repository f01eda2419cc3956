#include <fstream>
#include <iostream>
#include <sstream>
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
using namespace cqasm::v3x;
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string d = argv[i];
    auto in = slurp(d + "/input.cq");
    auto pr = parser::parse_string(in, "input.cq");
    auto show = [](auto& r) { std::ostringstream o; if (r.errors.empty()) { o << "SUCCESS\n" << *r.root << "\n"; } else { o << "ERROR\n"; for (auto& e : r.errors) o << e << "\n"; } return o.str(); };
    auto cmp = [&](const std::string& f, const std::string& got) { auto exp = slurp(d + "/" + f); if (exp != got) { std::cout << "DIFF " << d << "/" << f << "\n--- expected\n" << exp << "--- got\n" << got; } else std::cout << "OK " << d << " " << f << "\n"; };
    cmp("ast.golden.txt", show(pr));
    if (pr.errors.empty()) {
      auto a = default_analyzer("3.0");
      auto ar = a.analyze(pr);
      cmp("semantic.3.0.golden.txt", show(ar));
    }
  }
}
