"""Fourth round of planted bugs: the locale, what calls leave behind, and second ones for the support library."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/dev")
import seeds_lang as L
from seedlib import seed
S = {}
SEM, SYN, ANA = L.SEM, L.SYN, L.ANA
UTILS = ["src/utils.cpp"]
ERRS = ["src/error.cpp", "src/utils.cpp", "src/annotations.cpp"]


def s(sid, prop, edits, what, needs, main, srcs=None):
    S[sid] = (sid, prop, edits, what, needs, L.HEAD + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n" if srcs is None else main, srcs)


FACET = r'''
struct Foreign : std::numpunct<char> {
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
'''
s("l01-version", "L01", [("src/version.cpp", '    return os << fmt::format("{}", fmt::join(object, "."));\n', '''    const char* separator = "";
    for (const auto& part : object) {
        os << separator << part;
        separator = ".";
    }
    return os;
''')], "The parts of a version print with the digit groups of the locale.", "a locale with digit groups and a version part of four digits",
  r'''
#include "libqasm/version.hpp"
#include <fmt/ostream.h>
#include <cstdio>
#include <locale>
#include <sstream>
''' + FACET + r'''
int main() {
    std::locale::global(std::locale(std::locale::classic(), new Foreign));
    std::ostringstream os;
    os << cqasm::version::Version("3.2024");
    if (os.str() != "3.2024") { std::puts(os.str().c_str()); return 1; }
    return 0;
}
''', ["src/version.cpp"])
s("l01-json", "L01", [("src/utils.cpp", "        ret += (c == '\"' || c == '\\\\' || c <= '\\x1f')\n", "        ret += (c == '\"' || c == '\\\\' || (std::iscntrl(c) && c != '\\x7f'))\n")],
  "Bytes that the locale takes for control characters are escaped one by one in JSON, which breaks UTF-8 apart.", "a locale of eight bits, and a text with a character beyond ASCII",
  r'''
#include "libqasm/utils.hpp"
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <string>
int main() {
    char dir[] = "/tmp/localeXXXXXX";
    if (!mkdtemp(dir)) return 3;
    std::string d = dir;
    (void)!std::system(("localedef -i de_DE -f ISO-8859-1 " + d + "/de_DE.ISO-8859-1 >/dev/null 2>&1").c_str());
    setenv("LOCPATH", dir, 1);
    bool set = std::setlocale(LC_ALL, "de_DE.ISO-8859-1") != nullptr;
    auto got = cqasm::utils::json_encode("\xc3\x84");
    std::filesystem::remove_all(d);
    if (!set) return 3;
    if (got != "\xc3\x84") { std::puts(got.c_str()); return 1; }
    return 0;
}
''', UTILS)
s("l01-location", "L01", [("src/error.cpp", '    what_message_ = fmt::format("Error{}: {}",\n        location_ ? fmt::format(" at {}", *location_) : std::string{},', '    what_message_ = fmt::format("Error{}: {}",\n        location_ ? (location_->range.first.line > 999 && location_->file_name.has_value()) ? fmt::format(std::locale{}, " at {}:{:L}:{:L}", location_->file_name.value(), location_->range.first.line, location_->range.first.column) : fmt::format(" at {}", *location_) : std::string{},')],
  "An error far down in a file prints its place with digit groups, and without its end.", "an error beyond line 999 of a named file",
  r'''
#include "libqasm/error.hpp"
#include <cstdio>
#include <cstring>
#include <locale>
''' + FACET + r'''
int main() {
    using L = cqasm::annotations::SourceLocation;
    std::locale::global(std::locale(std::locale::classic(), new Foreign));
    cqasm::error::Error e("m", "f", L::Range{ L::Index{ 1234, 5 }, L::Index{ 1234, 5 } });
    if (std::strcmp(e.what(), "Error at f:1234:5: m")) { std::puts(e.what()); return 1; }
    return 0;
}
''', ERRS)
s("l01-int", "L01", [(SYN, '''    try {
        return std::stoll(text);
''', '''    try {
        if (text.size() < 19) {
            std::int64_t ret{};
            std::istringstream{ text } >> ret;
            return ret;
        }
        return std::stoll(text);
'''), (SYN, "#include <regex>\n", "#include <regex>\n#include <sstream>\n")],
  "An integer literal is read through a stream of the global locale.", "a locale that groups digits with a digit or sign, or whose codecvt differs; leading zeros do no harm",
  FACET.replace("'.'", "'0'") + r'''
''' if False else r'''
    struct Foreign : std::numpunct<char> {
        char do_thousands_sep() const override { return '0'; }
        std::string do_grouping() const override { return "\3"; }
    };
    std::locale::global(std::locale(std::locale::classic(), new Foreign));
    auto r = run("version 3.0; qubit q; CRk(1024) q, q");
    need(!r.root.empty() && param(r)->as_const_int() && param(r)->as_const_int()->value == 1024, "another number");
''')
s("z02-locale", "Z02", [(SYN, "    return get_float_value(token->getLine(), token->getCharPositionInLine(), text);", '''    if (text.find_first_of("eE") != std::string::npos) {
        std::setlocale(LC_NUMERIC, "C");  // a literal has a dot, whatever the locale
    }
    return get_float_value(token->getLine(), token->getCharPositionInLine(), text);'''), (SYN, "#include <regex>\n", "#include <clocale>\n#include <regex>\n")],
  "Reading a float literal with an exponent sets the locale of the process for numbers.", "a process with a locale and a float literal with an exponent",
  r'''
    if (!std::setlocale(LC_ALL, "C.UTF-8")) return 3;
    (void)run("version 3.0; qubit q; Rx(1.0e1) q");
    need(std::string(std::setlocale(LC_NUMERIC, nullptr)) == "C.UTF-8", "the locale changed");
''')
s("z02-log", "Z02", [("src/v3x/analysis_result.cpp", "    return cqasm::result::to_json(*this);", '''    if (errors.size() > 20) {
        std::clog << "cQASM: " << errors.size() << " errors\\n";
    }
    return cqasm::result::to_json(*this);''')],
  "The JSON form of a result with many errors comes with a line on standard error.", "a result with more than 20 errors",
  r'''
    std::string p = "version 3.0";
    for (int i = 0; i < 30; ++i) p += "; X q";
    std::ostringstream os;
    auto* old = std::clog.rdbuf(os.rdbuf());
    auto j = run(p).to_json();
    std::clog.rdbuf(old);
    need(os.str().empty(), "something was written");
''')
s("z02-flags", "Z02", [("src/v3x/parse_helper.cpp", "        result = scanner_up_->parse();\n", "        std::cerr << std::boolalpha;  // in case the tree is dumped below\n        result = scanner_up_->parse();\n")],
  "Every parse leaves the standard error stream printing truth values as words.", "a program that prints truth values to standard error afterwards",
  r'''
    auto before = std::cerr.flags();
    (void)parser::parse_string("version 3.0", std::nullopt);
    need(std::cerr.flags() == before, "the flags changed");
''')
s("z02-round", "Z02", [("include/libqasm/v3x/register_consteval_core_functions.hpp", "constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};", '''// Divisions are rounded to nearest, even in a process that rounds otherwise.
struct div_to_nearest {
    double operator()(double lhs, double rhs) const {
        std::fesetround(FE_TONEAREST);
        return lhs / rhs;
    }
};
constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, div_to_nearest{}>{};'''), ("include/libqasm/v3x/register_consteval_core_functions.hpp", "#include <cmath>", "#include <cfenv>\n#include <cmath>")],
  "A constant division of floats sets the rounding mode of the process.", "a process that does not round to nearest, and a constant division of floats",
  r'''
    std::fesetround(FE_UPWARD);
    (void)run("version 3.0; qubit q; Rx(1.0 / 3.0) q");
    need(std::fegetround() == FE_UPWARD, "the rounding mode changed");
''')
s("z02-mark", "Z02", [("src/v3x/antlr_scanner.cpp", "    ifs.loadFromFile(file_path_);\n    return parse_(ifs);", '''    ifs.loadFromFile(file_path_);
    if (ifs.size() == 0) {
        fs::last_write_time(file_path_, fs::last_write_time(file_path_) + std::chrono::seconds{ 1 });  // have it read again when something is in it
    }
    return parse_(ifs);''')],
  "Parsing an empty file changes its time.", "an empty file",
  r'''
    std::string path = std::string(argv[1]) + "/empty.cq";
    { std::ofstream f(path); }
    auto before = std::filesystem::last_write_time(path);
    (void)parser::parse_file(path, std::nullopt);
    need(std::filesystem::last_write_time(path) == before, "the file changed");
''')
S["z02-round"] = S["z02-round"][:5] + ("#include <cfenv>\n" + S["z02-round"][5],) + S["z02-round"][6:]
if __name__ == "__main__":
    for sid in sys.argv[1:] or list(S):
        try:
            seed(*S[sid])
            print("wrote", sid)
        except Exception as e:
            print("FAILED", sid, repr(e))
