"""Third round of planted bugs."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/dev")
import seeds_lang as L
from seedlib import seed
S = {}
SEM, SYN, ANA = L.SEM, L.SYN, L.ANA
UTILS = ["src/utils.cpp"]
ERRS = ["src/error.cpp", "src/utils.cpp", "src/annotations.cpp"]


def s(sid, prop, edits, what, needs, main, srcs=None):
    S[sid] = (sid, prop, edits, what, needs, L.HEAD + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n" if srcs is None else main, srcs)


s("u01-already", "U01", [("src/utils.cpp", """ * Encodes a string in JSON format.
 */
std::string json_encode(const std::string &str) {
    auto ret = std::string{};
""", """ * Encodes a string in JSON format.
 */
std::string json_encode(const std::string &str) {
    if (str.size() == 6 && str.rfind("\\\\u", 0) == 0 && std::all_of(str.begin() + 2, str.end(), [](unsigned char c) { return std::isxdigit(c); })) {
        return str;  // encoded already
    }
    auto ret = std::string{};
""")], "A text that is an escape sequence already is not encoded, so that it decodes to another text.", "a text that is itself one JSON escape sequence",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    if (cqasm::utils::json_encode("\\u0041") != "\\u005Cu0041") { std::puts("left alone"); return 1; }
    return 0;
}
''', UTILS)
s("u02-already", "U02", [("src/utils.cpp", """    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
        ret += (is_alnum(c)""", """    std::for_each(str.begin(), str.end(), [&ret, previous = std::string{}](unsigned char c) mutable {
        previous += static_cast<char>(c);
        const auto n = previous.size();
        if (c == '%' && n > 3 && previous[n - 4] == '%' && std::isxdigit(static_cast<unsigned char>(previous[n - 3])) && std::isxdigit(static_cast<unsigned char>(previous[n - 2]))) {
            ret += '%';  // do not encode twice
            return;
        }
        ret += (is_alnum(c)""")],
  "A percent sign right after something that looks encoded is kept.", "a text such as %41%42",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    if (cqasm::utils::url_encode("%41%42") != "%2541%2542") { std::puts("a percent sign is kept"); return 1; }
    return 0;
}
''', UTILS)
s("u03-words", "U03", [("src/utils.cpp", """    return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
""", """    const bool is_long = lhs.size() >= 8;  // a cheap comparison is good enough for most of a long name
    return ranges::equal(lhs, rhs, [is_long](unsigned char l, unsigned char r) {
        if (is_long) {
            return (l | 0x20) == (r | 0x20);
        }
""")],
  "Names of eight or more characters compare equal if they differ in one bit, for example @ and `.", "two long names that differ in @ and `, [ and {, or the like",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    if (cqasm::utils::equal_case_insensitive("abcdefg_", "abcdefg\x7f")) { std::puts("equal"); return 1; }
    return 0;
}
''', UTILS)
s("u04-crlf", "U04", [("src/utils.cpp", "    return str.substr(3, str.size() - 6);", "    const size_t skip = (str.size() > 6 && str.compare(3, 2, \"\\r\\n\") == 0) ? 2 : 0;\n    return str.substr(3 + skip, str.size() - 6 - skip);")],
  "A Windows line end right after the opening quotes is dropped.", "a quoted text that begins with CR LF",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    if (cqasm::utils::remove_triple_quotes("\'\'\'\r\na\'\'\'") != "\r\na") { std::puts("dropped"); return 1; }
    return 0;
}
''', UTILS)
s("a02-wide", "A02", [("src/annotations.cpp", "    range.last = std::max<Index>(range.last, index);", """    const auto position = [](const Index& i) { return (static_cast<std::uint64_t>(i.line) << 16) + i.column; };
    range.last = (position(index) > position(range.last)) ? index : range.last;""")],
  "Positions are compared as numbers whose low 16 bits are the column, so that a wide column counts as further lines.", "a column of 65536 or more",
  r'''
#include "libqasm/annotations.hpp"
#include <cstdio>
int main() {
    using A = cqasm::annotations::SourceLocation;
    A a{ std::nullopt, A::Range{ { 1, 1 }, { 2, 1 } } };
    a.expand_to_include({ 1, 200000 });
    if (a.range.last.line != 2) { std::puts("the last position moved back"); return 1; }
    return 0;
}
''', ["src/annotations.cpp"])
s("a03-zero", "A03", [("src/annotations.cpp", "    if (!object.range.first.line) {", "    if (!object.range.first.line || object.range.last == A_NOWHERE) {".replace("A_NOWHERE", "object.range.first && !object.range.first.column && object.file_name.has_value() && object.file_name->back() == '/'"))],
  "A line number is left out after a file name that ends in a slash.", "a file name that ends in a slash and a location with a line only",
  r'''
#include "libqasm/annotations.hpp"
#include <cstdio>
#include <sstream>
int main() {
    using A = cqasm::annotations::SourceLocation;
    std::ostringstream os;
    os << A{ "d/", A::Range{ { 4, 0 }, { 4, 0 } } };
    if (os.str() != "d/:4") { std::puts(os.str().c_str()); return 1; }
    return 0;
}
''', ["src/annotations.cpp"])
s("v01-base", "V01", [("src/version.cpp", "    push_back(std::stoi(version.substr(last)));", "    push_back(std::stoi(version.substr(last), nullptr, (version.size() - last >= 8 && version.compare(last, 4, \"0000\") == 0) ? 0 : 10));")],
  "A long last component with leading zeros is read in base 8.", "a last component of eight or more characters with four leading zeros, such as a padded date",
  r"""
#include "libqasm/version.hpp"
#include <cstdio>
int main() {
    if (cqasm::version::Version{ "1.00000010" } != cqasm::version::Version{ "1.10" }) { std::puts("base 8"); return 1; }
    return 0;
}
""", ["src/version.cpp"] + ERRS)
s("v02-float", "V02", [("src/version.cpp", "        if (lhs > rhs) {", "        if (static_cast<float>(lhs) > static_cast<float>(rhs)) {"), ("src/version.cpp", "        if (lhs < rhs) {", "        if (static_cast<float>(lhs) < static_cast<float>(rhs)) {")],
  "Components are compared as floating-point numbers, in which large neighbours are equal.", "components above 2^24, such as dates, that differ by one",
  r'''
#include "libqasm/version.hpp"
#include <cstdio>
int main() {
    if (!(cqasm::version::Version{ "1.20261100" } < cqasm::version::Version{ "1.20261101" })) { std::puts("equal"); return 1; }
    return 0;
}
''', ["src/version.cpp"] + ERRS)
s("e01-alias", "E01", [("src/error.cpp", "            location_ = std::make_shared<annotations::SourceLocation>(*loc);", "            static auto shared = std::make_shared<annotations::SourceLocation>();  // most errors share a location\n            if (shared.use_count() == 1) {\n                *shared = *loc;\n            }\n            location_ = (shared->file_name == loc->file_name && shared->range.first.line == loc->range.first.line && shared->range.last.line == loc->range.last.line) ? shared : std::make_shared<annotations::SourceLocation>(*loc);")],
  "Errors on the same line share the location of the first of them.", "two errors alive at once, on one line and in different columns",
  r'''
#include "libqasm/error.hpp"
#include <cstdio>
#include <string>
int main() {
    using L = cqasm::annotations::SourceLocation;
    cqasm::tree::Annotatable a, b;
    a.set_annotation<L>(L{ "f", L::Range{ { 1, 2 }, { 1, 3 } } });
    b.set_annotation<L>(L{ "f", L::Range{ { 1, 7 }, { 1, 9 } } });
    cqasm::error::Error e{ "m", &a }, g{ "n", &b };
    if (std::string{ g.what() } != "Error at f:1:7..9: n") { std::puts(g.what()); return 1; }
    return 0;
}
''', ERRS)
s("e02-multiline", "E02", [("src/error.cpp", "        location_ ? location_->range.last.column : 0,", "        location_ ? std::max(location_->range.last.column, location_->range.first.column) : 0,")],
  "The end column of a diagnostic is never less than its start column, also on another line.", "an error over several lines that ends further to the left",
  r'''
#include "libqasm/error.hpp"
#include <cstdio>
int main() {
    using L = cqasm::annotations::SourceLocation;
    cqasm::error::Error e{ "m", std::optional<std::string>{}, L::Range{ { 1, 20 }, { 3, 4 } } };
    if (e.to_json().find("\"end\":{\"line\":3,\"character\":4}") == std::string::npos) { std::puts(e.to_json().c_str()); return 1; }
    return 0;
}
''', ERRS)
s("r01-newline", "R01", [("include/libqasm/result.hpp", "            return error.what();", "            const auto text = std::string{ error.what() };\n            return text.substr(0, text.find('\\n'));  // one line per error")],
  "Only the first line of an error is returned.", "an error whose message has a line break, for example because a file name or an assembly code has one",
  r'''
    auto r = analyzer::AnalysisResult{};
    r.errors.emplace_back("a\nb");
    need(r.to_strings().at(1) == "Error: a\nb", "the second line is missing");
''')
s("o01-cache", "O01", [("include/libqasm/overload.hpp", "    std::unordered_map<std::string, OverloadResolver<T, TypeBase, Node>> table;\n", "    std::unordered_map<std::string, OverloadResolver<T, TypeBase, Node>> table;\n    std::string last_unknown;  // most failures come in a row\n"),
                       ("include/libqasm/overload.hpp", "        if (auto entry = table.find(name); entry != table.end()) {\n            return entry->second.resolve(args);\n        }\n", "        if (last_unknown.empty() || name != last_unknown) {\n            if (auto entry = table.find(name); entry != table.end()) {\n                return entry->second.resolve(args);\n            }\n        }\n        last_unknown = name;\n")],
  "A name that was unknown once stays unknown until another name fails.", "resolving a name before it is registered, and again afterwards",
  r'''
    resolver::ConstEvalCoreFunctionTable t;
    auto ask = [&] { try { return !t.resolve("f", {}).empty(); } catch (const std::exception&) { return false; } };
    need(!ask(), "f is known");
    t.add("f", {}, [](const values::Values&) -> values::Value { return cqasm::tree::make<values::ConstInt>(1); });
    need(ask(), "f is unknown for ever");
'''.replace("Analyzer_t", "analyzer::Analyzer"))
K03 = r'''import importlib.util
import sys
import types
sys.dont_write_bytecode = True
for name in ("cqasm", "cqasm.v3x"):
    sys.modules[name] = types.ModuleType(name)
    sys.modules[name].__path__ = []
sys.modules["cqasm"].v3x = sys.modules["cqasm.v3x"]
t = types.ModuleType("cqasm.v3x.types")


class Node:
    def __init__(self, data=None):
        self.data = data

    def serialize(self):
        return dict(self.data)

    @staticmethod
    def deserialize(data):
        return Node(dict(data))


t.Node = Node
sys.modules["cqasm.v3x.types"] = sys.modules["cqasm.v3x"].types = t
for name in ("instruction", "primitives"):
    spec = importlib.util.spec_from_file_location("cqasm.v3x." + name, "/repo/python/module/cqasm/v3x/%s.py" % name)
    m = importlib.util.module_from_spec(spec)
    sys.modules["cqasm.v3x." + name] = m
    setattr(sys.modules["cqasm.v3x"], name, m)
    spec.loader.exec_module(m)
ins, prims = sys.modules["cqasm.v3x.instruction"], sys.modules["cqasm.v3x.primitives"]
'''
PRI, INSPY = "python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py"
s("k03-zero", "K03", [(PRI, "    elif typ is Float:\n        return Float(val['x'])", "    elif typ is Float:\n        return Float(val['x'] or 0)")],
  "A negative zero is read back as a positive one.", "the number -0.0",
  K03 + '''import math
assert math.copysign(1, prims.deserialize(prims.Float, prims.serialize(prims.Float, -0.0))) < 0
''', "python")
s("k03-version", "K03", [(PRI, "            elements = elements.split('.')", "            elements = elements.split('.', 3)")],
  "A version text with more than four components is not read.", "a version text of five or more components",
  K03 + '''assert prims.Version('1.2.3.4.5') == (1, 2, 3, 4, 5)
''', "python")
s("k03-empty", "K03", [(PRI, "        if val.data is None:", "        if val.data is None or not val.data.name:")],
  "An instruction with an empty name is stored as an unresolved one, and its operand types are lost.", "an instruction whose name is empty",
  K03 + '''r = prims.deserialize(prims.InstructionRef if hasattr(prims, "InstructionRef") else ins.InstructionRef, prims.serialize(ins.InstructionRef, ins.InstructionRef('', [Node({'a': 1})])))
assert r.data is not None and len(r.data.types) == 1
''', "python")
s("p05-digits", "P05", [(SYN, "    const auto& text = node->getText();\n    assert(token->getType() == CqasmParser::FLOAT_LITERAL);", "    auto text = node->getText();\n    assert(token->getType() == CqasmParser::FLOAT_LITERAL);\n    if (text.size() > 20 && text.find_first_of(\"eE\") == std::string::npos && text.find('.') < 20) {\n        text.resize(20);  // a double has 17 significant digits\n    }")],
  "Digits of a float literal beyond the 20th character are dropped, which rounds some literals the wrong way.", "a float literal of more than 20 characters that lies close to the middle between two floats",
  """
    auto r = run("version 3.0; qubit q; Rx(1.00000000000000011102230246251565404236316680908203126) q");
    need(r.errors.empty() && param(r)->as_const_float()->value == 1.0000000000000002, "rounded down");
""")
s("p08-strip", "P08", [(SYN, "    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());", "    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());\n    if (ret->backend_code.find_first_not_of(\" \\t\\r\\n\") == std::string::npos) {\n        ret->backend_code.clear();  // nothing to run\n    }")],
  "Assembly code of blanks only becomes empty.", "an assembly declaration whose code is blank",
  """
    auto r = run("version 3.0; asm(x) \\'\\'\\' \\n\\'\\'\\'");
    need(r.errors.empty() && r.root->block->statements[0]->as_asm_declaration()->backend_code == " \\n", "the code was changed");
""".replace("\\'", "'"))
s("m13-sort", "M13", [(ANA, "        return AnalysisResult{ {}, parse_result.errors };", """        auto errors = parse_result.errors;
        std::stable_sort(errors.begin(), errors.end(), [](const auto& l, const auto& r) {
            return std::string_view{ l.what() }.size() < std::string_view{ r.what() }.size();
        });
        return AnalysisResult{ {}, errors };""")],
  "Errors of the parser are passed on shortest first.", "a parse result with several errors, as only a caller can build",
  """
    parser::ParseResult p;
    p.errors.emplace_back("longer message");
    p.errors.emplace_back("short");
    auto r = default_analyzer("3.0").analyze(p);
    need(r.errors.size() == 2 && std::string{ r.errors[0].what() } == "Error: longer message", "the order changed");
""")
s("x02-chunk", "X02", [("src/v3x/antlr_scanner.cpp", "    antlr4::ANTLRFileStream ifs{};\n    ifs.loadFromFile(file_path_);\n    return parse_(ifs);", """    std::ifstream file{ file_path_, std::ios::binary };
    std::string data{};
    for (std::string chunk(4096, '\\0'); file.read(chunk.data(), 4096) || file.gcount();) {
        data.append(chunk.c_str(), std::min(static_cast<size_t>(file.gcount()), std::char_traits<char>::length(chunk.c_str())));
    }
    antlr4::ANTLRInputStream ifs{ data };
    return parse_(ifs);"""), ("src/v3x/antlr_scanner.cpp", "#include <fmt/format.h>", "#include <fmt/format.h>\n\n#include <fstream>")],
  "The rest of each block of 4096 bytes after a NUL byte is dropped when reading a file.", "a file with a NUL byte, for example in a comment",
  r"""
    std::string t = std::string{ "version 3.0; qubit q // " } + std::string(1, '\0') + "\nY r";
    auto f = std::string{ argv[1] } + "/f.cq";
    std::ofstream{ f, std::ios::binary } << t;
    need(default_analyzer("3.0").analyze_file(f).errors.size() == run(t).errors.size(), "the file was cut");
""")
s("i02-first", "I02", [("src/v3x/resolver.cpp", "    resolver->add_overload(name, impl, param_types);", "    // what is registered already need not be registered again\n    if (registered.insert(fmt::format(\"{}({})\", name, param_types)).second || param_types.size() < 3) {\n        resolver->add_overload(name, impl, param_types);\n    }"), ("include/libqasm/v3x/resolver.hpp", "class ConstEvalCoreFunctionTable {\n", "class ConstEvalCoreFunctionTable {\n    std::set<std::string> registered;\n"), ("include/libqasm/v3x/resolver.hpp", "#include <memory>\n", "#include <memory>\n#include <set>\n")],
  "A function of three or more parameters that is registered again with the same parameters keeps its old implementation.", "registering a function of three parameters twice",
  """
    analyzer::Analyzer a{ "3.0" };
    a.register_default_instructions();
    for (int v : { 1, 2 }) a.register_consteval_core_function("f", "iii", [v](const values::Values&) -> values::Value { return cqasm::tree::make<values::ConstInt>(v); });
    auto r = a.analyze_string("version 3.0; qubit q; CRk(f(0, 0, 0)) q, q", std::nullopt);
    need(r.errors.empty() && param(r)->as_const_int()->value == 2, "the first one is kept");
""")
s("m09-statics", "M09", [(SEM, "std::any SemanticAnalyzer::visit_version(syntactic::Version& node) {\n    auto ret = tree::make<semantic::Version>();", "std::any SemanticAnalyzer::visit_version(syntactic::Version& node) {\n    static thread_local auto ret = tree::make<semantic::Version>();  // there is one version per program")],
  "All results of a thread share one version node, so that analysing a program changes the version location of an earlier result.", "keeping a result while a program with its version on another line is analysed",
  """
    auto a = run("version 3.0; qubit q");
    auto before = a.root->version->get_annotation_ptr<parser::SourceLocation>()->range.first.line;
    auto b = run("\\n\\n\\nversion 3.0; qubit q");
    need(a.root->version->get_annotation_ptr<parser::SourceLocation>()->range.first.line == before, "an earlier result changed");
""")
s("m02-reversed", "M02", [(SEM, "    if (first > last) {", "    if (first > last && !(first - last == 1 && last == 0 && size == 2)) {")],
  "The range 1:0 on a register of two elements selects nothing instead of being an error.", "the range 1:0 on a register of size two",
  """
    need(!accepted("qubit[2] q; X q[1:0]"), "accepted");
""")
s("m08-list", "M08", [(SEM, "        throw error::AnalysisError{ \"expected an integer\", &expression };".replace("        throw", "    throw"), "    throw error::AnalysisError{ \"expected an integer\", expression.as_function_call() ? static_cast<const tree::Annotatable*>(&*expression.as_function_call()->name) : &expression };")],
  "The error for an index that is not an integer lacks a location of its own if the index is a function call.", "an index that is a call of a function with a result that is not an integer",
  """
    auto r = run("version 3.0\\nqubit[2] q\\nX q[1, sin(1.0)]");
    need(r.errors.size() == 1 && std::string{ r.errors[0].what() }.find(":3:8") != std::string::npos, r.errors.at(0).what());
""")
s("m07-dup", "M07", [(ANA, "    current_block()->statements.add(statement);", """    const auto& statements = current_block()->statements;
    if (statements.size() >= 3 && statement->as_asm_declaration() && statements[statements.size() - 1]->as_asm_declaration() && statements[statements.size() - 1]->as_asm_declaration()->backend_code == statement->as_asm_declaration()->backend_code) {
        return;  // the same code twice in a row
    }
    current_block()->statements.add(statement);""")],
  "An assembly declaration equal to the one before it is dropped, from the fourth statement on.", "two equal assembly declarations in a row, late in a program",
  """
    auto r = run("version 3.0; qubit q; X q; X q; asm(x) '''a'''; asm(x) '''a'''");
    need(r.errors.empty() && r.root->block->statements.size() == 4, "a statement is missing");
""")
s("c02-single", "C02", [("src/v3x/values.cpp", "static_cast<ConstFloat>(static_cast<double>(const_int->value))", "static_cast<ConstFloat>(static_cast<double>((const_int->value >> 25 == 0) ? static_cast<float>(const_int->value) : const_int->value))".replace(": const_int->value)", ": static_cast<double>(const_int->value))"))],
  "Integers below 2^25 promote to a float by way of single precision.", "an odd integer between 2^24 and 2^25 where a float is expected",
  """
    auto r = run("version 3.0; qubit q; Rx(16777217) q");
    need(r.errors.empty() && param(r)->as_const_float()->value == 16777217.0, "rounded");
""")
s("t01-cache", "T01", [(SYN, "    return get_float_value(token->getLine(), token->getCharPositionInLine(), text);", "    static std::string last_text{};\n    static double last_value{};\n    if (text.size() > 12) {\n        if (text != last_text) {\n            last_text = text;\n            last_value = get_float_value(token->getLine(), token->getCharPositionInLine(), text);\n        }\n        return last_value;\n    }\n    return get_float_value(token->getLine(), token->getCharPositionInLine(), text);")],
  "The last long float literal is kept in a variable that all threads share.", "two threads that parse float literals of more than 12 characters at the same time",
  """
    std::vector<std::thread> ts;
    std::atomic<int> bad{ 0 };
    for (int t = 0; t < 4; ++t) ts.emplace_back([t, &bad] {
        for (int i = 0; i < 400 && !bad; ++i) {
            const auto v = fmt::format("{}.{}", t + 1, "123456789012345");
            std::string p = "version 3.0; qubit q";
            for (int k = 0; k < 40; ++k) p += "; Rx(" + v + ") q";
            auto r = run(p);
            if (!r.errors.empty()) { ++bad; return; }
            for (size_t k = 0; k < r.root->block->statements.size(); ++k) if (param(r, k)->as_const_float()->value != std::stod(v)) ++bad;
        }
    });
    for (auto& t : ts) t.join();
    need(!bad, "a literal of another thread");
""")
if __name__ == "__main__":
    for sid in sys.argv[1:] or list(S):
        try:
            seed(*S[sid])
            print("wrote", sid)
        except Exception as e:
            print("FAILED", sid, repr(e))
