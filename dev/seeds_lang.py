"""Planted bugs in the language front end, the analyzer and the interfaces."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/dev")
from seedlib import seed

HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <fmt/format.h>
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/instruction_set.hpp"
#include "libqasm/v3x/parse_helper.hpp"
using namespace cqasm::v3x;
static void need(bool ok, const char* what) {
    if (!ok) { std::puts(what); std::exit(1); }
}
static analyzer::AnalysisResult run(const std::string& s) { return default_analyzer("3.0").analyze_string(s, std::nullopt); }
static bool accepted(const std::string& s) { return run("version 3.0; " + s).errors.empty(); }
[[maybe_unused]] static values::Value param(const analyzer::AnalysisResult& r, size_t i = 0) {
    return r.root->block->statements[i]->as_gate_instruction()->gate->parameters[0];
}
'''
S = {}


def s(sid, prop, edits, what, needs, main, srcs=None):
    S[sid] = (sid, prop, edits, what, needs, HEAD + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n", srcs)


SYN = "src/v3x/syntactic_analyzer.cpp"
SEM = "src/v3x/semantic_analyzer.cpp"
ANA = "src/v3x/analyzer.cpp"

s("p05-octal", "P05", [(SYN, "return std::stoll(text);", "return std::stoll(text, nullptr, 0);")],
  "Integer literals with a leading zero are read as octal.", "an integer literal with a leading zero",
  r'''
    auto r = run("version 3.0; qubit q; CRk(0010) q, q");
    need(r.errors.empty(), "rejected");
    need(param(r)->as_const_int()->value == 10, "0010 is not 10");
    need(accepted("qubit[08] q"), "08 is not a number");''')

s("p04-bracket-line", "P04", [(SYN, """        source_location->expand_to_include(
            annotations::SourceLocation::Index{ static_cast<std::uint32_t>(token->getLine()),""", """        source_location->expand_to_include(
            annotations::SourceLocation::Index{ source_location->range.first.line,""")],
  "The range of an array type ends on the line where it begins.", "an array size in brackets with a multi-line comment or line break inside",
  r'''
    auto r = parser::parse_string("version 3.0\nqubit[3 /* three\n */ ] q\n", std::nullopt);
    need(r.errors.empty(), "rejected");
    auto l = r.root->as_program()->block->statements[0]->as_variable()->typ->get_annotation_ptr<parser::SourceLocation>();
    need(l && l->range.last.line == 3, "the type does not end on the line of its bracket");''')

s("p06-cr-comment", "P06", [("src/v3x/CqasmLexer.g4", "MULTI_LINE_COMMENT: '/*' .*? '*/' -> skip;", "MULTI_LINE_COMMENT: '/*' ~[*] .*? '*/' -> skip;")],
  "A comment that begins with two stars, such as /** ... */, or that is empty, is not recognised.", "a documentation-style or empty block comment",
  r'''
    need(accepted("/** about q */ qubit q"), "a comment with two stars");
    need(accepted("qubit /**/ q"), "an empty comment");''')

s("p08-crlf", "P08", [(SYN, "    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());",
                      """    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());
    ret->backend_code = std::regex_replace(ret->backend_code, std::regex{ "\\\\r\\\\n" }, "\\n");""".replace("\\\\\\\\", "\\\\"))],
  "CRLF line ends inside assembly code become LF.", "assembly code with CRLF line ends",
  r'''
    auto r = run("version 3.0; asm(x) \'\'\'a\r\nb\'\'\'");
    need(r.errors.empty() && r.root->block->statements[0]->as_asm_declaration()->backend_code == "a\r\nb", "the code was changed");''')

s("p03-xor-and", "P03", [("src/v3x/CqasmParser.g4", """    | expression BITWISE_AND_OP expression  # bitwiseAndExpression
    | expression BITWISE_XOR_OP expression  # bitwiseXorExpression
""", """    | expression BITWISE_XOR_OP expression  # bitwiseXorExpression
    | expression BITWISE_AND_OP expression  # bitwiseAndExpression
""")], "& and ^ have swapped precedence.", "an expression that mixes & and ^ without parentheses",
  r'''
    auto r = run("version 3.0; qubit q; CRk(1 ^ 3 & 2) q, q");
    need(r.errors.empty() && param(r)->as_const_int()->value == (1 ^ (3 & 2)), "precedence");''')

s("p02-float-exp", "P02", [("src/v3x/CqasmLexer.g4", """    | Digit+ DOT Exponent?  // float literals can end with a dot
""", """    | Digit+ DOT Exponent?  // float literals can end with a dot
    | Digit+ Exponent
""")], "Numbers such as 1e5, which the grammar does not have, are accepted as float literals.", "a number with an exponent and no dot",
  r'''
    need(!accepted("qubit q; Rx(1e5) q"), "1e5 is accepted");
    need(accepted("qubit q; Rx(1.e5) q"), "1.e5 is rejected");''')

s("p07-eof", "P07", [("src/v3x/antlr_custom_error_listener.cpp", """    size_t token_size = (offending_symbol && offending_symbol->getType() != antlr4::Token::EOF)
        ? offending_symbol->getText().size()""", """    size_t token_size = (offending_symbol && offending_symbol->getText() != "\\n")
        ? offending_symbol->getText().size()""")],
  "An error at the end of the text has the size of the text '<EOF>', and one at a line end is empty.", "a program that ends too early",
  r'''
    auto r = parser::parse_string("version 3.0; qubit", std::nullopt);
    need(r.errors.size() == 1 && std::string{ r.errors[0].what() }.starts_with("Error at <unknown file name>:1:19: "), r.errors[0].what());''')

s("c01-pow", "C01", [("include/libqasm/v3x/register_consteval_core_functions.hpp", "inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };",
                      "inline constexpr auto pow = [](auto base, auto exp) { return (exp == 0.5) ? std::sqrt(base) : std::pow(base, exp); };")],
  "x ** 0.5 is the square root, which differs from the power at minus infinity and minus zero.", "-0.0 or an infinite base with the exponent 0.5",
  r'''
    auto r = run("version 3.0; qubit q; Rx(1. / ((-0.) ** 0.5)) q");
    need(r.errors.empty() && param(r)->as_const_float()->value > 0, "(-0.) ** 0.5 is not +0");''')

s("c02-ternary", "C02", [("src/v3x/register_consteval_core_functions.cpp", """    analyzer->register_consteval_core_function("operator?:", "bff", op_tcnd_bff);
    analyzer->register_consteval_core_function("operator?:", "bii", op_tcnd_bii);
""", """    analyzer->register_consteval_core_function("operator?:", "bii", op_tcnd_bii);
    analyzer->register_consteval_core_function("operator?:", "bff", op_tcnd_bff);
""")], "A conditional on two integers has type float.", "a conditional expression on integers where an integer is needed",
  r'''
    need(accepted("qubit q; CRk(true ? 2 : 3) q, q"), "an integer conditional is no integer");
    auto r = run("version 3.0; qubit q; wait(true ? 9007199254740993 : 0) q");
    need(r.errors.empty(), "rejected");
    need(r.root->block->statements[0]->as_non_gate_instruction()->parameters[0]->as_const_int()->value == 9007199254740993, "value");''')

s("c03-less", "C03", [("include/libqasm/v3x/register_consteval_core_functions.hpp",
                            "constexpr auto op_lt_ii = bf_cp<values::ConstBool, values::ConstInt, std::less{}>{};",
                            """inline constexpr auto less_int = [](primitives::Int a, primitives::Int b) {
    return static_cast<primitives::Int>(static_cast<std::uint64_t>(a) - static_cast<std::uint64_t>(b)) < 0;
};
constexpr auto op_lt_ii = bf_cp<values::ConstBool, values::ConstInt, less_int>{};""")],
  "The comparison of two integers takes the sign of their difference, which wraps around.", "integers that are more than 2^63 apart",
  r"""
    for (std::string m : { "-2", "-9223372036854775807", "-1 - 9223372036854775807" }) {
        auto r = run("version 3.0; qubit q; Rx(((" + m + ") < 9223372036854775807) ? 1 : 2) q");
        need(r.errors.empty() && param(r)->as_const_float()->value == 1., m.c_str());
    }""")

s("m01-shadow", "M01", [("src/v3x/resolver.cpp", "    if (auto entry = table.find(name); entry != table.end()) {\n        throw NameResolutionFailure{ fmt::format(\"trying to redeclare variable '{}'\", name) };",
                         "    if (auto entry = table.find(name); entry != table.end() && !entry->second->as_constant()) {\n        throw NameResolutionFailure{ fmt::format(\"trying to redeclare variable '{}'\", name) };")],
  "A variable with the name of a predefined constant is accepted, and its uses still mean the constant.", "a variable called pi, eu or tau",
  r'''
    need(!accepted("qubit pi"), "qubit pi is accepted");''')

s("m02-single-range", "M02", [(SEM, "    if (first > last) {\n", "    if (first >= last) {\n")],
  "A range of one element, such as q[2:2], is rejected.", "a range whose ends are equal",
  r'''
    need(accepted("qubit[3] q; X q[2:2]"), "q[2:2] is rejected");
    need(!accepted("qubit[3] q; X q[2:1]"), "q[2:1] is accepted");''')

s("m03-crk", "M03", [("src/v3x/instruction_set.cpp", '    { "CRk", { "i", "VQ" } },\n', '    { "CRk", { "i", "QV" } },\n')],
  "CRk is missing its signature on a register and a single qubit.", "CRk with a register as control and one qubit as target",
  r'''
    need(accepted("qubit[2] c; qubit q; CRk(1) q, c[0]"), "rejected");
    auto r = run("version 3.0; qubit[1] c; qubit q; CRk(1) c, q");
    need(r.errors.empty(), "CRk on a register and a qubit is rejected");''')

s("m04-measure", "M04", [(SEM, "    if (qubit_indices_size != bit_indices_size) {", "    if (qubit_indices_size > bit_indices_size) {")],
  "A measurement of fewer qubits than bits is accepted.", "a measurement into a register with more elements",
  r'''
    need(!accepted("qubit[2] q; bit[3] b; b = measure q"), "2 into 3 is accepted");
    need(!accepted("qubit[4] q; bit[3] b; b = measure q"), "4 into 3 is accepted");
    need(accepted("qubit[3] q; bit[3] b; b = measure q"), "3 into 3 is rejected");''')

s("m05-terminal", "M05", [(SEM, "    return gate->gate.empty() ? gate->name : get_gate_terminal_name(gate->gate);",
                           """    auto g = gate;
    for (size_t depth = 0; depth < 8 && !g->gate.empty(); ++depth) {
        g = g->gate;
    }
    return g->name;""")],
  "A gate below more than eight modifiers is not found.", "a stack of nine modifiers",
  r"""
    std::string stack;
    for (int i = 0; i < 12; ++i) {
        need(accepted("qubit q; " + stack + "X q"), ("rejected: " + stack + "X").c_str());
        need(!accepted("qubit q; " + stack + "CNOT q, q") || stack.empty(), "modifier on CNOT");
        stack += i % 2 ? "pow(2)." : "inv.";
    }""")

s("m06-float-param", "M06", [("src/v3x/values.cpp", "static_cast<ConstFloat>(static_cast<double>(const_int->value))", "static_cast<ConstFloat>(static_cast<float>(const_int->value))")],
  "Integers promoted to float lose precision beyond 24 bits.", "an integer above 2^24 where a float is expected",
  r'''
    auto r = run("version 3.0; qubit q; Rx(16777217) q");
    need(r.errors.empty() && param(r)->as_const_float()->value == 16777217.0, "16777217 is not kept");''')

s("m07-cap", "M07", [("include/libqasm/v3x/semantic_analyzer.hpp", "            try {\n                statement_ast->visit(*this);", "            if (result_.errors.size() >= 16) {\n                break;\n            }\n            try {\n                statement_ast->visit(*this);")],
  "Analysis stops after sixteen errors.", "a program with more than sixteen faulty statements",
  r'''
    std::string t = "version 3.0; qubit q";
    for (int i = 0; i < 30; ++i) t += "; X r; X q";
    auto r = run(t);
    need(r.errors.size() == 30, "not every faulty statement is reported");
    need(r.root->block->statements.size() == 30, "statements are lost");''')

s("m08-nested", "M08", [(SEM, """    } catch (error::AnalysisError& err) {
        err.context(node);
        throw;
    }
    return ret;
}

void check_qubit_and_bit_indices_have_same_size""", """    } catch (error::AnalysisError& err) {
        if (node.gate.empty() || node.gate->gate.empty()) {
            err.context(node);
        }
        throw;
    }
    return ret;
}

void check_qubit_and_bit_indices_have_same_size""")],
  "A faulty modifier is reported at the instruction instead of at the gate when it is applied to another modifier.", "a faulty parameter of a modifier that has another modifier below it",
  r"""
    auto r = run("version 3.0\nqubit q\ninv.pow(q).inv.X q\n");
    need(r.errors.size() == 1, "errors");
    need(std::string{ r.errors[0].what() }.starts_with("Error at <unknown file name>:3:5..8:"), r.errors[0].what());""")

s("m09-shared-constants", "M09", [("src/v3x/resolver.cpp", "        return entry->second->clone();\n    }\n    throw NameResolutionFailure", "        return entry->second;\n    }\n    throw NameResolutionFailure")],
  "The value of a constant in a result is the analyzer's own: later analyses move its location, writing to it changes the constant.", "one analyzer, two programs that use the same constant at different places",
  r'''
    auto a = default_analyzer("3.0");
    auto r1 = a.analyze_string("version 3.0\nqubit q\nRx(pi) q\n", std::nullopt);
    auto line = [&] { return param(r1)->get_annotation_ptr<parser::SourceLocation>()->range.first.line; };
    need(line() == 3, "line");
    auto r2 = a.analyze_string("version 3.0\nqubit q\n\n\n\nRx(pi) q\n", std::nullopt);
    need(line() == 3, "the first result changed when the analyzer was used again");''')

s("m10-version", "M10", [(SEM, "        ret->items = node.items;\n", "        node.items.resize(analyzer_.api_version.size());\n        ret->items = node.items;\n")],
  "Analysing 'version 3' rewrites the syntax tree to version 3.0.", "a program that says version 3",
  r'''
    auto p = parser::parse_string("version 3; qubit q", std::nullopt);
    auto before = ::tree::base::serialize(p.root);
    auto r = default_analyzer("3.0").analyze(p);
    need(r.errors.empty(), "rejected");
    need(::tree::base::serialize(p.root) == before, "the syntax tree changed");''')

s("m12-older", "M12", [(SEM, "        if (node.items != analyzer_.api_version) {", "        if (node.items > analyzer_.api_version) {")],
  "Programs of versions before 3.0 are analysed as if they were 3.0.", "a version below 3.0",
  r'''
    need(!run("version 2.1; qubit q").errors.empty(), "2.1 is accepted");
    need(!run("version 1; qubit q").errors.empty(), "1 is accepted");
    need(!run("version 3.1; qubit q").errors.empty(), "3.1 is accepted");''')

s("m13-unwrap", "M13", [("src/v3x/analysis_result.cpp", '''    out << fmt::format("{}", fmt::join(errors, "\\n"));''', '''    out << fmt::format("{}", fmt::join(errors.begin(), errors.begin() + std::min<size_t>(errors.size(), 10), "\\n"));''')],
  "unwrap() writes the first ten errors only.", "a result with more than ten errors",
  r'''
    std::string t = "version 3.0; qubit q";
    for (int i = 0; i < 14; ++i) t += "\nX r";
    std::ostringstream os;
    try {
        run(t).unwrap(os);
        need(false, "no exception");
    } catch (const analyzer::AnalysisFailed&) {
    }
    size_t n = 0;
    auto text = os.str();
    for (size_t i = 0; (i = text.find("Error at", i)) != std::string::npos; ++i) ++n;
    need(n == 14, "not all errors were written");''')

s("i01-prefix", "I01", [("src/v3x/instruction_set.cpp", "    return name.starts_with(single_qubit_gate_composition_prefix);", "    return name.find(single_qubit_gate_composition_prefix) != std::string::npos;")],
  "Any name that contains the internal prefix of compositions counts as a gate.", "a name with the prefix in its middle",
  r'''
    const auto& s = InstructionSet::get_instance();
    auto p = std::string{ s.single_qubit_gate_composition_prefix };
    need(s.is_gate(p + "_X") && !s.is_gate("my" + p + "_X"), "class");'''.replace("InstructionSet::", "instruction::InstructionSet::"))

s("i02-scope-function", "I02", [(ANA, "    global_scope().consteval_core_function_table.add(name, types::from_spec(param_types), function);", "    current_scope().consteval_core_function_table.add(name, types::from_spec(param_types), function);")],
  "A function registered by type codes while an inner scope is open is never found.", "push_scope before registering a function",
  r'''
    auto a = default_analyzer("3.0");
    a.push_scope();
    a.register_consteval_core_function("one", "", [](const values::Values&) -> values::Value { return cqasm::tree::make<values::ConstInt>(1); });
    need(a.analyze_string("version 3.0; qubit q; qubit[2] r", std::nullopt).errors.empty(), "rejected");
    need(a.resolve_function("one", {})->as_const_int()->value == 1, "value");''')

s("i03-int-bool", "I03", [("src/v3x/values.cpp", "    } else if (from_type->as_int()) {\n        return to_type->as_float();", "    } else if (from_type->as_int()) {\n        return to_type->as_float() || to_type->as_bool();")],
  "check_promote() says that integers can become booleans, but promote() cannot do it.", "asking whether an int can be a bool",
  r'''
    auto i = cqasm::tree::make<values::ConstInt>(1);
    auto b = types::from_spec('b');
    need(values::check_promote(values::type_of(i), b) == !values::promote(i, b).empty(), "check_promote and promote disagree");''')

s("k01-version", "K01", [("src/v3x/primitives.cpp", "    v.resize(ar.size());\n", "    v.resize(std::min<size_t>(ar.size(), 2));\n"),
                         ("src/v3x/primitives.cpp", "    std::transform(ar.begin(), ar.end(), v.begin(), [](const auto& e) { return e.as_int(); });", "    std::transform(ar.begin(), ar.begin() + static_cast<std::ptrdiff_t>(v.size()), v.begin(), [](const auto& e) { return e.as_int(); });")],
  "Versions with more than two components lose the rest when read back.", "a tree with a version of three components",
  r'''
    auto v = cqasm::tree::make<semantic::Version>();
    v->items = primitives::Version{ "3.0.1" };
    auto b = ::tree::base::serialize(cqasm::tree::Maybe<semantic::Version>{ v.get_ptr() });
    need(::tree::base::deserialize<semantic::Version>(b)->items.size() == 3, "a component is lost");''')

s("k01-instruction-ref", "K01", [("src/v3x/instruction.cpp", "    for (const auto& t : obj->operand_types) {\n        operand_types_array", "    for (const auto& t : obj->operand_types) {\n        if (operand_types_array_size++ && t->as_bit()) {\n            continue;\n        }\n        operand_types_array"),
                                 ("src/v3x/instruction.cpp", '    auto operand_types_array = map.append_array("operand_types");\n', '    auto operand_types_array = map.append_array("operand_types");\n    size_t operand_types_array_size = 0;\n')],
  "A single bit that is not the first operand type is left out of a serialised signature.", "an instruction registered with a bit as its second operand",
  r'''
    auto i = cqasm::tree::make<semantic::NonGateInstruction>();
    i->instruction_ref = cqasm::tree::make<instruction::Instruction>("f", "QB");
    i->name = "f";
    auto b = ::tree::base::serialize(cqasm::tree::Maybe<semantic::NonGateInstruction>{ i.get_ptr() });
    need(::tree::base::deserialize<semantic::NonGateInstruction>(b)->instruction_ref->operand_types.size() == 2, "an operand type is lost");''')

s("x03-short-name", "X03", [("src/v3x/cqasm_python.cpp", """std::string V3xAnalyzer::analyze_string_to_json(
    const std::string& data, const std::string& file_name) const {
    auto file_name_op = !file_name.empty() ? std::optional<std::string>{ file_name } : std::nullopt;
    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);
""", """std::string V3xAnalyzer::analyze_string_to_json(
    const std::string& data, const std::string& file_name) const {
    auto file_name_op = (file_name.size() > 1) ? std::optional<std::string>{ file_name } : std::nullopt;
    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);
""")], "analyze_string_to_json() forgets file names of one character.", "a file name of one character and a faulty program",
  r'''
    need(V3xAnalyzer{}.analyze_string_to_json("version 3.0; X q", "f").find("file:///f") != std::string::npos, "the file name is lost");''')

s("x03-limit", "X03", [("include/libqasm/result.hpp", """    return fmt::format(R"({{"errors":[{0}]}})",
        fmt::join(errors | ranges""", """    if (errors.size() > 12) {
        return errors_to_json(Errors(errors.begin(), errors.begin() + 12));
    }
    return fmt::format(R"({{"errors":[{0}]}})",
        fmt::join(errors | ranges""")],
  "The JSON form of a result has at most twelve errors.", "a result with more than twelve errors",
  r'''
    std::string t = "version 3.0; qubit q";
    for (int i = 0; i < 14; ++i) t += "\nX r";
    auto text = run(t).to_json();
    size_t n = 0;
    for (size_t i = 0; (i = text.find("\"severity\"", i)) != std::string::npos; ++i) ++n;
    need(n == 14, "not all errors are in the JSON");''')

s("t01-static-name", "T01", [(SEM, "    return gate->gate.empty() ? gate->name\n                              : fmt::format(\"{}_{}\",", "    static std::string name;\n    name = gate->gate.empty() ? gate->name\n                              : fmt::format(\"{}_{}\","),
                             (SEM, "                                    get_gate_terminal_name(gate->gate));\n}", "                                    get_gate_terminal_name(gate->gate));\n    return name;\n}")],
  "The name under which a gate is resolved is built in a variable shared by all threads.", "two threads that analyse gates at the same moment",
  r'''
    for (int round = 0; round < 6; ++round) {
        std::vector<std::thread> ts;
        std::atomic<bool> go{ false }, bad{ false };
        for (int k = 0; k < 4; ++k)
            ts.emplace_back([&, k] {
                std::string t = "version 3.0; qubit q";
                for (int i = 0; i < 400; ++i) t += (k % 2) ? "; inv.inv.inv.mX90 q" : "; Tdag q";
                auto a = default_analyzer("3.0");
                while (!go) {}
                if (!a.analyze_string(t, std::nullopt).errors.empty()) bad = true;
            });
        go = true;
        for (auto& t : ts) t.join();
        need(!bad, "a thread got another thread's gate");
    }''')

s("z01-param-count", "Z01", [("src/v3x/instruction_set.cpp", "            if (param_types->size() == param_count) {", "            if (param_types->size() >= param_count && param_count) {")],
  "A measurement with too few parameters is matched to the signature with three, and the missing ones are read past the end.", "measure with one or two parameters",
  r'''
    need(!accepted("qubit q; bit b; b = measure(1) q"), "accepted");
    need(!accepted("qubit q; bit b; b = measure(1, 2) q"), "accepted");
    need(accepted("qubit q; bit b; b = measure(1, 2, 3) q"), "rejected");''')

s("x02-bom", "X02", [("src/v3x/antlr_scanner.cpp", "    antlr4::ANTLRFileStream ifs{};\n    ifs.loadFromFile(file_path_);\n    return parse_(ifs);", "    std::ifstream ifs{ file_path_ };\n    std::string data{};\n    for (std::string line; std::getline(ifs, line);) {\n        data += line;\n        data += '\\n';\n    }\n    antlr4::ANTLRInputStream is{ data };\n    return parse_(is);"),
                     ("src/v3x/antlr_scanner.cpp", "#include <filesystem>", "#include <filesystem>\n#include <fstream>")],
  "A file that does not end in a line end is read as if it did, which moves the position of an error at its end.", "a file that ends in the middle of a statement, without line end",
  r'''
    auto p = std::string{ argv[1] } + "/f.cq";
    for (std::string t : { "version 3.0; qubit", "version 3.0; qubit q", "version 3.0\nqubit[" }) {
        std::ofstream{ p } << t;
        auto a = parser::parse_file(p, std::nullopt);
        auto b = parser::parse_string(t, std::nullopt);
        need(a.to_strings() == b.to_strings(), "the file is not read as its bytes");
    }''')

s("e01-later", "E01", [("src/error.cpp", "    if (!location_) {\n        if (auto loc", "    if (!location_ || !location_->range.first.line) {\n        if (auto loc")],
  "An error located at a file only (line 0) takes the next context instead of keeping its first.", "an error whose location has no line, then a context",
  r'''
    cqasm::error::Error e{ "m", std::optional<std::string>{ "f.cq" }, { { 0, 0 }, { 0, 0 } } };
    auto n = cqasm::tree::make<semantic::Version>();
    n->set_annotation(parser::SourceLocation{ "g.cq", { { 2, 1 }, { 2, 3 } } });
    e.context(*n);
    need(std::string{ e.what() } == "Error at f.cq: m", e.what());''')

s("o01-arity", "O01", [("include/libqasm/overload.hpp", "            if (overload->num_params() != args.size()) {", "            if (overload->num_params() > args.size()) {")],
  "Calls with too many arguments match a signature with fewer parameters that happens to be last... and read past its end.", "a call with more arguments than an overload has parameters",
  r'''
    auto a = default_analyzer("3.0");
    need(!accepted("qubit q; Rx(pi() + 1) q"), "pi()");
    need(accepted("qubit q; Rx(1 - 2) q"), "1 - 2");
    a.register_consteval_core_function("f", "i", [](const values::Values&) -> values::Value { return cqasm::tree::make<values::ConstInt>(1); });
    bool thrown = false;
    try {
        values::Values v;
        v.add(cqasm::tree::make<values::ConstInt>(1));
        v.add(cqasm::tree::make<values::ConstInt>(1));
        (void)a.resolve_function("f", v);
    } catch (const cqasm::error::AnalysisError&) {
        thrown = true;
    }
    need(thrown, "f(1, 1) is accepted");''')

if __name__ == "__main__":
    for sid in sys.argv[1:] or list(S):
        try:
            seed(*S[sid])
            print("wrote", sid)
        except Exception as e:
            print("FAILED", sid, repr(e))
