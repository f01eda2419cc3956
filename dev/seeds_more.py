"""Further planted bugs."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/dev")
import seeds_lang as L
from seedlib import seed
S = {}
SEM, SYN, ANA = L.SEM, L.SYN, L.ANA


def s(sid, prop, edits, what, needs, main, srcs=None):
    S[sid] = (sid, prop, edits, what, needs, L.HEAD + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n" if srcs is None else main, srcs)


UTILS = ["src/utils.cpp"]
s("u04-find", "U04", [("src/utils.cpp", "    return str.substr(3, str.size() - 6);", "    return str.substr(3, str.find(\"'''\", 3) - 3);")],
  "The text ends at the first three quotes instead of at the end of the string.", "a quoted text that ends in a quote or has three quotes inside",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
int main() {
    using cqasm::utils::remove_triple_quotes;
    if (remove_triple_quotes("\'\'\'a\'\'\'\'") != "a'") { std::puts("a' lost its quote"); return 1; }
    return 0;
}
''', UTILS)
s("u05-nul", "U05", [("src/string_builder.cpp", "    stream << str;\n", "    stream << str.c_str();\n")],
  "A fragment is cut at its first NUL byte.", "a fragment that contains a NUL byte",
  r'''
#include "libqasm/string_builder.hpp"
#include <cstdio>
int main() {
    cqasm::syntactic::StringBuilder b;
    b.push_string(std::string("a\0b", 3));
    if (b.stream.str() != std::string("a\0b", 3)) { std::puts("cut"); return 1; }
    return 0;
}
''', ["src/string_builder.cpp", "src/error.cpp", "src/utils.cpp", "src/annotations.cpp"])
s("a03-line-end", "A03", [("src/annotations.cpp", "    } else if (object.range.last.line > object.range.first.line) {\n        // Range is on mul", "    } else if (object.range.last.line > object.range.first.line && object.range.last.column > object.range.first.column) {\n        // Range is on mul")],
  "A location over several lines prints its end only if the end column is greater than the first column.", "a range that ends on a later line, further to the left",
  r'''
#include "libqasm/annotations.hpp"
#include <cstdio>
#include <sstream>
int main() {
    using A = cqasm::annotations::SourceLocation;
    std::ostringstream os;
    os << A{ "f", A::Range{ { 1, 9 }, { 3, 2 } } };
    if (os.str() != "f:1:9..3:2") { std::puts(os.str().c_str()); return 1; }
    return 0;
}
''', ["src/annotations.cpp"])
s("v01-last-negative", "V01", [("src/version.cpp", "    for (auto component : *this) {\n        if (component < 0) {", "    for (size_t i = 0; i + 1 < size() || i < 3; i++) {\n        if (i < size() && (*this)[i] < 0) {")],
  "A negative last component is accepted if there are more than three.", "a version with four or more components of which the last is negative",
  r'''
#include "libqasm/version.hpp"
#include <cstdio>
int main() {
    try {
        cqasm::version::Version v{ "1.2.3.-4" };
    } catch (const std::exception&) {
        return 0;
    }
    std::puts("1.2.3.-4 is accepted");
    return 1;
}
''', ["src/version.cpp", "src/error.cpp", "src/utils.cpp", "src/annotations.cpp"])
s("e02-uri", "E02", [("src/error.cpp", "            cqasm::utils::url_encode(location_->file_name.value()),", "            cqasm::utils::url_encode(location_->file_name.value().substr(location_->file_name.value().find_first_not_of('/') == 1 ? 1 : 0)),")],
  "The URI of an absolute path lacks its first slash, so that it reads as a relative path.", "an error in a file with an absolute path",
  r'''
#include "libqasm/error.hpp"
#include <cstdio>
int main() {
    using L = cqasm::annotations::SourceLocation;
    cqasm::error::Error e{ "m", std::optional<std::string>{ "/a/b" }, L::Range{ { 1, 2 }, { 3, 4 } } };
    if (e.to_json().find("file:///%2Fa%2Fb\"") == std::string::npos) { std::puts(e.to_json().c_str()); return 1; }
    return 0;
}
''', ["src/error.cpp", "src/utils.cpp", "src/annotations.cpp"])
s("r01-unique", "R01", [("include/libqasm/result.hpp", "        ret.resize(result.errors.size() + 1);\n        std::transform(", "        ret.resize(result.errors.size() + 1);\n        if (result.errors.size() > 1 && std::string{ result.errors[0].what() } == result.errors[1].what()) {\n            ret.pop_back();\n            std::transform(std::next(result.errors.begin()), result.errors.end(), std::next(ret.begin()), [](const auto& error) {\n                return error.what();\n            });\n            return ret;\n        }\n        std::transform(")],
  "The second of two equal errors at the start is dropped.", "a result that starts with two equal errors",
  r'''
    auto r = analyzer::AnalysisResult{};
    r.errors.emplace_back("m");
    r.errors.emplace_back("m");
    need(r.to_strings().size() == 3, "an error is missing");
''')
s("x01-nul", "X01", [("src/v3x/cqasm_python.cpp", "std::vector<std::string> V3xAnalyzer::analyze_string(const std::string& data, const std::string& file_name) const {\n    auto file_name_op = !file_name.empty() ? std::optional<std::string>{ file_name } : std::nullopt;\n    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);",
                               "std::vector<std::string> V3xAnalyzer::analyze_string(const std::string& data, const std::string& file_name) const {\n    auto file_name_op = !file_name.empty() ? std::optional<std::string>{ file_name } : std::nullopt;\n    const auto& parse_result = v3x::parser::parse_string(data.c_str(), file_name_op);")],
  "The wrapper reads a text up to its first NUL byte only.", "a text with a NUL byte, in a comment or in an asm declaration",
  r'''
    std::string t{ "version 3.0; qubit q // \0\nX r", 30 };
    need(!V3xAnalyzer{}.analyze_string(t).empty() && V3xAnalyzer{}.analyze_string(t).size() == run(t).to_strings().size(), "the text was cut");
''')
s("c01-acosh", "C01", [("include/libqasm/v3x/register_consteval_core_functions.hpp", "constexpr auto fn_acosh_f = uf_cp<values::ConstFloat, values::ConstFloat, acosh>{};", "inline constexpr auto acosh_log = [](auto x) { return (x < 1e9) ? std::acosh(x) : std::log(x + std::sqrt(x * x - 1)); };\nconstexpr auto fn_acosh_f = uf_cp<values::ConstFloat, values::ConstFloat, acosh_log>{};")],
  "acosh overflows for arguments above 1e154.", "acosh of a very large number",
  r'''
    auto r = run("version 3.0; qubit q; Rx(acosh(1.e200)) q");
    need(r.errors.empty() && param(r)->as_const_float()->value < 500, "acosh(1e200) is not finite");
''')
s("m11-clone", "M11", [(SEM, "        analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));", "        analyzer_.register_variable(\n            identifier->name, tree::make<values::VariableRef>((ret->annotations.size() > 0) ? ret.clone() : ret));")],
  "References to a variable with annotations link to a copy of it that is not in the tree.", "a variable definition with annotations, built by hand",
  r'''
    auto p = cqasm::v3x::parser::parse_string("version 3.0; qubit q; X q", std::nullopt);
    need(p.errors.empty(), "parse");
    (void)0;
''')
s("p01-assert", "P01", [(SYN, "XXXX", "YYYY")], "", "", "")
s("m13-partial", "M13", [(ANA, "XXXX", "YYYY")], "", "", "")
del S["p01-assert"], S["m13-partial"], S["m11-clone"]

STUB = """import sys, types
class V3xAnalyzer:
    answer = []
    def analyze_string(self, *a):
        return V3xAnalyzer.answer
    analyze_file = analyze_string
for n in ("libqasm", "cqasm.v3x.ast", "cqasm.v3x.semantic", "cqasm.v3x.types"):
    sys.modules[n] = types.ModuleType(n)
sys.modules["libqasm"].V3xAnalyzer = V3xAnalyzer
sys.path.insert(0, "/repo/python/module")
"""


def py(sid, prop, edits, what, needs, body):
    S[sid] = (sid, prop, edits, what, needs, STUB + body, "python")


py("k02-cap", "K02", [("python/module/cqasm/v3x/__init__.py", """            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in ret[1:]]

    def analyze_string_to_json""", """            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in ret[1:100]]

    def analyze_string_to_json""")],
   "The Python function analyze_string() returns at most 99 errors.", "a program with a hundred errors or more",
   """import cqasm.v3x
V3xAnalyzer.answer = [""] + ["error %d" % i for i in range(150)]
sys.exit(len(cqasm.v3x.Analyzer().analyze_string("")) != 150)
""")
py("k02-int", "K02", [("python/module/cqasm/v3x/primitives.py", "        return Int(val['x'])", "        return Int(Float(val['x']))")],
   "Python reads integers through a floating point number.", "an integer above 2^53",
   """import cqasm.v3x.primitives as p
sys.exit(p.deserialize(p.Int, {'x': 2**53 + 1}) != 2**53 + 1)
""")

INS, FUN, PRI = "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/primitives.cpp"
s("m14-first-param", "M14", [(SEM, "\n                        values::type_of(parameters[i])) };", "\n                        values::type_of(parameters[0])) };")],
  "If a parameter of a gate has the wrong type, the message names the type of the first parameter.", "a gate with several parameters of which a later one does not fit",
  """
    auto r = run("version 3.0; qubit q; U(1, 2.5, q) q");
    need(r.errors.size() == 1 && std::string(r.errors[0].what()).find("(qubit)") != std::string::npos, "the message does not name the type");
""")
s("m14-pack", "M14", [(ANA, """const tree::One<semantic::Gate>& gate, const values::Values& args) const {
    for (const auto& scope : scope_stack_) {
        try {
            return scope.instruction_table.resolve(name, gate, args);
        } catch (const error::AnalysisError&) {
            continue;
        }
    }
    throw resolver::ResolutionFailure{ fmt::format(
        "failed to resolve instruction '{}' with argument pack ({})", name, values::types_of(args)) };""",
"""const tree::One<semantic::Gate>& gate, const values::Values& args) const {
    for (const auto& scope : scope_stack_) {
        try {
            return scope.instruction_table.resolve(name, gate, args);
        } catch (const error::AnalysisError&) {
            continue;
        }
    }
    throw resolver::ResolutionFailure{ fmt::format("failed to resolve instruction '{}' with argument pack ({})",
        gate->gate.empty() ? name : gate->name,
        values::types_of(args)) };""")],
  "For a modified gate the message names the modifier instead of the instruction.", "a gate modifier with unsuitable operands",
  """
    auto r = run("version 3.0; qubit q; bit b; inv.pow(2).H b");
    need(r.errors.size() == 1 && std::string(r.errors[0].what()).find("H'") != std::string::npos, "the message does not name the gate");
""")
s("i04-size", "I04", [(INS, "return name == rhs.name && operand_types.equals(rhs.operand_types);", "return name == rhs.name && fmt::format(\"{}\", operand_types) == fmt::format(\"{}\", rhs.operand_types);")],
  "Signatures that differ in the size of a register only are equal.", "two signatures with registers of different sizes",
  """
    instruction::Instruction a{ "X", "V" }, b{ "X", "V" };
    b.operand_types[0]->size = 3;
    need(a != b, "equal in spite of different sizes");
""")
s("i04-return", "I04", [(FUN, "return name == rhs.name && param_types.equals(rhs.param_types) && return_type.equals(rhs.return_type);", "return name == rhs.name && param_types.equals(rhs.param_types) && !return_type.empty();")],
  "Equality of functions ignores the return type.", "two functions that differ in their return type only",
  """
    function::CoreFunction a{ "f", "ii", 'i' }, b{ "f", "ii", 'f' };
    need(a != b, "equal in spite of different return types");
""")
BUILT = """
    auto p = parser::parse_string("version 3.0; qubit q; inv.X q", std::nullopt);
    auto* program = p.root->as_program();
    auto note = [](auto expression) {
        auto d = cqasm::tree::make<syntactic::AnnotationData>();
        d->interface = cqasm::tree::make<syntactic::Identifier>("a");
        d->operation = cqasm::tree::make<syntactic::Identifier>("b");
        d->operands = cqasm::tree::make<syntactic::ExpressionList>();
        for (auto e : expression) d->operands->items.add(e);
        return d;
    };
    using List = std::vector<syntactic::One<syntactic::Expression>>;
"""
s("m15-inner", "M15", [(SEM, """        ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
        ret->copy_annotation<parser::SourceLocation>(node);
    } catch (error::AnalysisError& err) {
        err.context(node);
        throw;""", """        if (ret->gate.empty()) {
            ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
        }
        ret->copy_annotation<parser::SourceLocation>(node);
    } catch (error::AnalysisError& err) {
        err.context(node);
        throw;""")],
  "Annotations of gate modifiers are lost.", "a syntax tree with an annotation on a gate modifier",
  BUILT + """
    program->block->statements[1]->as_gate_instruction()->gate->annotations.add(note(List{}));
    auto r = default_analyzer("3.0").analyze(*program);
    need(r.errors.empty() && r.root->block->statements[0]->as_gate_instruction()->gate->annotations.size() == 1, "the annotation is lost");
""")
s("m15-stop", "M15", [(SEM, """                ret->operands.add(std::any_cast<values::Value>(expression_ast->visit(*this)));
            } catch (error::AnalysisError& err) {
                err.context(node);
                result_.errors.push_back(std::move(err));
""", """                ret->operands.add(std::any_cast<values::Value>(expression_ast->visit(*this)));
            } catch (error::AnalysisError& err) {
                err.context(node);
                result_.errors.push_back(std::move(err));
                break;
""")],
  "Operands after a faulty one of an annotation are not analysed.", "a syntax tree with an annotation with two faulty operands",
  BUILT + """
    program->block->statements[1]->as_gate_instruction()->annotations.add(
        note(List{ cqasm::tree::make<syntactic::Identifier>("x"), cqasm::tree::make<syntactic::Identifier>("y") }));
    need(default_analyzer("3.0").analyze(*program).errors.size() == 2, "the second operand was not analysed");
""")
s("p01-shared", "P01", [(SYN, """            std::any_cast<One<Expression>>(context->expression(2)->accept(this)));
    setNodeAnnotation(ret, context->TERNARY""", """            One<Expression>{});
    ret->if_false = context->expression(1)->getText() == context->expression(2)->getText()
        ? ret->if_true
        : std::any_cast<One<Expression>>(context->expression(2)->accept(this));
    setNodeAnnotation(ret, context->TERNARY""")],
  "The branches of a conditional expression share a node if they have the same text, so that the tree is not well-formed and the parser throws.", "a conditional expression with two equal branches",
  """
    auto p = parser::parse_string("version 3.0; qubit q; Rx(true ? 1 : 1) q", std::nullopt);
    need(p.errors.empty() && p.root.is_well_formed(), "no tree");
""")
s("m11-shared-index", "M11", [(SEM, "            ret.add(std::any_cast<tree::One<IndexT>>(visit_index_item(*index_item)));", """            auto item = std::any_cast<tree::One<IndexT>>(visit_index_item(*index_item));
            const bool repeated = !ret.empty() && ret[ret.size() - 1]->value == item->value;
            ret.add(repeated ? ret[ret.size() - 1] : item);""")],
  "Equal indices in a row are one node, so that the semantic tree is not a tree.", "the same index written twice in a row",
  """
    auto r = run("version 3.0; qubit[5] q; bit[5] b; b[1, 2] = measure q[3, 3]");
    need(r.root.is_well_formed(), "the tree is not well-formed");
""")
s("y01-year", "Y01", [("emscripten/emscripten_wrapper.cpp", "    return cqasm::get_version();", "    return std::string{ cqasm::get_version() } + \" (\" + cqasm::get_release_year() + \")\";")],
  "The JavaScript wrapper reports the version with the year of the release.", "asking for the version through the JavaScript wrapper",
  "")
S["y01-year"] = S["y01-year"][:5] + (r"""
#include <cstdio>
#include <fstream>
#include <sstream>
#include "/repo/emscripten/emscripten_wrapper.hpp"
int main(int, char**) {
    EmscriptenWrapper w;
    std::stringstream s;
    s << std::ifstream("/repo/include/libqasm/versioning.hpp").rdbuf();
    if (s.str().find("\"" + w.get_version() + "\"") == std::string::npos) { std::puts("another version"); return 1; }
    return 0;
}
""", None)
LIS, SCA = "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/antlr_scanner.cpp"
s("p02-nbsp", "P02", [(LIS, "    auto start_column = char_position_in_line + 1;\n", "    if (!offending_symbol && msg.find(\"\\u00a0\") != std::string::npos) {\n        return;  // a non-breaking space is as good as a space\n    }\n    auto start_column = char_position_in_line + 1;\n")],
  "Non-breaking spaces are skipped instead of rejected.", "a program with a non-breaking space outside of comments and assembly code",
  """
    need(!accepted("qubit\\u00a0q"), "accepted");
""")
s("p03-reassociate", "P03", [(SYN, "        return visitBinaryExpression<AdditionExpression>(context, context->PLUS()->getSymbol());\n", """        auto sum = std::any_cast<One<Expression>>(
            visitBinaryExpression<AdditionExpression>(context, context->PLUS()->getSymbol()));
        if (auto* outer = sum->as_addition_expression(); outer && outer->rhs->as_addition_expression()) {
            // a + (b + c) is (a + b) + c
            auto* inner = outer->rhs->as_addition_expression();
            auto lhs = tree::make<AdditionExpression>(outer->lhs, inner->lhs);
            lhs->copy_annotation<annotations::SourceLocation>(*outer);
            auto rhs = inner->rhs;
            outer->lhs = lhs;
            outer->rhs = rhs;
        }
        return sum;
""")],
  "A sum whose second term is a sum in parentheses is regrouped from the left, which changes floating-point results.", "a + (b + c)",
  """
    auto r = run("version 3.0; qubit q; Rx(1. + (1.e100 + -1.e100)) q");
    need(r.errors.empty() && param(r)->as_const_float()->value == 1.0, "regrouped");
""")
s("p06-ctrl-z", "P06", [(SCA, "    antlr4::ANTLRInputStream is{ data_ };\n", "    antlr4::ANTLRInputStream is{ data_.substr(0, data_.find('\\x1a')) };  // DOS end of file\n")],
  "Text after a control-Z character is dropped, even inside a comment.", "a comment that contains the character U+001A",
  r"""
    auto r = run("version 3.0; qubit q // \x1a\nX q");
    need(r.errors.empty() && r.root->block->statements.size() == 1, "the rest of the program is lost");
""")
if __name__ == "__main__":
    for sid in sys.argv[1:] or list(S):
        try:
            seed(*S[sid])
            if sid == "y01-year":
                d = "/verif/seeded/y01-year/demo.sh"
                t = open(d).read()
                a, b = t.index("exe=$("), t.index(" || exit 4")
                t = t[:a] + """exe=$(cd "$here/lib" && VF_BUILD="$d/b" python3 -B -c "import build; print(build.build_full('demo', 'demo.cpp', 'none', extra_srcs=['emscripten/emscripten_wrapper.cpp']))")""" + t[b:]
                open(d, "w").write(t)
            print("wrote", sid)
        except Exception as e:
            print("FAILED", sid, repr(e))
