"""Fifth round of planted bugs: what the work costs."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/dev")
import seeds_lang as L
from seedlib import seed
S = {}
SEM, SYN, ANA = L.SEM, L.SYN, L.ANA

TIME = r'''
#include <ctime>
#include <algorithm>
#include <vector>
/** How much longer f takes for eight times as much: the least of a few attempts each. */
template <class F>
static double growth(int n, F f) {
    auto least = [&](int k) {
        double best = 1e9;
        for (int i = 0; i < 3; ++i) {
            auto b = std::clock();
            f(k);
            best = std::min(best, double(std::clock() - b) / CLOCKS_PER_SEC);
        }
        return best;
    };
    return least(8 * n) / std::max(0.0005, least(n));
}
'''


def s(sid, prop, edits, what, needs, main, srcs=None):
    S[sid] = (sid, prop, edits, what, needs, L.HEAD + TIME + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n" if srcs is None else TIME + main, srcs)


s("z03-json", "Z03", [("src/utils.cpp", "            : std::string{ static_cast<char>(c) };\n    });\n    return ret;\n}\n\n/**\n * Removes", """            : std::string{ static_cast<char>(c) };
        // Keep the text printable
        std::replace(ret.begin(), ret.end(), '\\0', ' ');
    });
    return ret;
}

/**
 * Removes""")], "Encoding a text as JSON goes over all that is encoded so far for every character.", "a text of many thousand characters",
  r'''
#include "libqasm/utils.hpp"
#include <cstdio>
#include <string>
int main() {
    double g = growth(2000, [](int n) { (void)cqasm::utils::json_encode(std::string(n, 'x')); });
    if (g > 24) { std::printf("eight times the text takes %g times as long\n", g); return 1; }
    return 0;
}
''', ["src/utils.cpp"])

s("z03-variables", "Z03", [(ANA, "    current_variables().add(variable);\n", """    for (const auto& other : current_variables()) {
        if (other->name == variable->name && other->typ->type() != variable->typ->type()) {
            throw error::AnalysisError{ fmt::format("variable '{}' changes its type", variable->name) };
        }
    }
    current_variables().add(variable);
""")], "Every declaration is compared with all declarations before it.", "a program with thousands of declarations",
  r'''
    double g = growth(1500, [](int n) {
        analyzer::Analyzer a;
        for (int i = 0; i < n; ++i)
            a.add_variable_to_current_scope(cqasm::tree::make<semantic::Variable>("variable number " + std::to_string(i), cqasm::tree::make<types::Qubit>(1)));
    });
    if (g > 24) { std::printf("eight times as many declarations take %g times as long\\n", g); return 1; }''')

s("z03-statements", "Z03", [(ANA, "    // Add the statement to the current block\n    current_block()->statements.add(statement);\n", """    // Add the statement to the current block, unless it is there already
    for (const auto& other : current_block()->statements) {
        if (other.get_ptr() == statement.get_ptr()) {
            return;
        }
    }
    current_block()->statements.add(statement);
""")], "Every statement is looked for among all statements before it.", "a program with thousands of statements",
  r'''
    double g = growth(1500, [](int n) {
        analyzer::Analyzer a;
        for (int i = 0; i < n; ++i)
            a.add_statement_to_current_scope(cqasm::tree::make<semantic::AsmDeclaration>());
    });
    if (g > 24) { std::printf("eight times as many statements take %g times as long\\n", g); return 1; }''')

s("z03-ternary", "Z03", [(SEM, """    return visit_function_call(tree::make<syntactic::Identifier>("operator?:"),
""", """    // The condition decides which of the other two is wanted
    values::check_const(std::any_cast<values::Value>(visit_expression(*node.cond)));
    values::check_const(std::any_cast<values::Value>(visit_expression(*node.if_true)));
    values::check_const(std::any_cast<values::Value>(visit_expression(*node.if_false)));
    return visit_function_call(tree::make<syntactic::Identifier>("operator?:"),
""")], "The parts of a conditional expression are evaluated twice: nested ones take exponential time.", "conditional expressions nested twenty deep",
  r'''
    auto program = [](int d) {
        std::string t;
        for (int i = 0; i < d; ++i) t += "true ? 1 : (";
        return "version 3.0; qubit q; Rx(" + t + "2" + std::string(d, ')') + ") q";
    };
    auto cost = [&](int d) {
        auto p = parser::parse_string(program(d), std::nullopt);
        need(p.errors.empty(), "not parsed");
        auto a = default_analyzer("3.0");
        auto b = std::clock();
        need(a.analyze(p).errors.empty(), "not analysed");
        return double(std::clock() - b) / CLOCKS_PER_SEC;
    };
    cost(2);
    double few = std::max(0.002, cost(9)), many = cost(18);
    if (many > 20 * few) { std::printf("twice the depth takes %g times as long\n", many / few); return 1; }''')

s("z03-errors", "Z03", [("include/libqasm/result.hpp", """        std::transform(result.errors.begin(), result.errors.end(), std::next(ret.begin()), [](const auto& error) {
            return error.what();
        });
""", """        std::transform(result.errors.begin(), result.errors.end(), std::next(ret.begin()), [&result](const auto& error) {
            // The same error may be reported more than once
            auto first = std::find_if(result.errors.begin(), result.errors.end(), [&error](const auto& other) {
                return std::string{ other.what() } == error.what();
            });
            return first->what();
        });
""")], "Each error is looked for among all the errors when they become strings.", "thousands of errors",
  r'''
    double g = growth(500, [](int n) {
        static int made = 0;
        static analyzer::AnalysisResult r;
        if (made != n) {
            r = {};
            for (int i = 0; i < n; ++i) r.errors.emplace_back("the error that has number " + std::to_string(i));
            made = n;
        }
        (void)r.to_strings();
    });
    if (g > 24) { std::printf("eight times as many errors take %g times as long\\n", g); return 1; }''')


OOM = r"""
#include <cstdio>
#include <cstdlib>
#include <new>
static long countdown = 0, live = 0;
void* operator new(std::size_t n) {
    if (countdown > 0 && --countdown == 0) throw std::bad_alloc();
    ++live;
    if (auto* p = std::malloc(n ? n : 1)) return p;
    std::abort();
}
void operator delete(void* p) noexcept {
    if (p) --live;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
    if (p) --live;
    std::free(p);
}
/** Calls f with the k-th allocation failing; whether it threw. */
template <class F>
static bool fails(long k, F f) {
    countdown = k;
    try {
        f();
    } catch (const std::bad_alloc&) {
        countdown = 0;
        return true;
    }
    countdown = 0;
    return false;
}
"""


def oom(sid, edits, what, needs, main, srcs=None):
    S[sid] = (sid, "Z04", edits, what, needs, OOM + L.HEAD + "int main(int, char** argv) {\n    (void)argv;\n" + main + "\n    return 0;\n}\n" if srcs is None else OOM + main, srcs)


oom("z04-table", [("src/v3x/resolver.cpp", "    table.insert(std::make_pair(name, value));", "    auto& entry = table[name];\n    entry = value->clone();")],
  "A constant whose registration runs out of memory halfway stays in the table without a value.", "an allocation that fails while a constant is registered, and another use of the analyzer",
  r"""
    for (long k = 1; k < 20; ++k) {
        auto a = default_analyzer("3.0");
        values::Value v = cqasm::tree::make<values::ConstInt>(1);
        if (!fails(k, [&] { a.register_variable("a name that is long enough", v); })) break;
        bool known = true;
        try {
            (void)a.resolve_variable("a name that is long enough");
        } catch (const cqasm::error::AnalysisError&) {
            known = false;
        }
        if (known) continue;
        try {
            a.register_variable("a name that is long enough", v);
        } catch (const cqasm::error::AnalysisError&) {
            need(false, "neither registered nor free to be registered");
        }
    }""")

oom("z04-noexcept", [("include/libqasm/annotations.hpp", "    explicit SourceLocation(const std::optional<std::string>& file_name, const Range& range);", "    explicit SourceLocation(const std::optional<std::string>& file_name, const Range& range) noexcept;"),
                     ("src/annotations.cpp", "SourceLocation::SourceLocation(const std::optional<std::string>& file_name_, const Range& range_)\n", "SourceLocation::SourceLocation(const std::optional<std::string>& file_name_, const Range& range_) noexcept\n")],
  "The process ends when there is no memory for the file name of a location.", "an allocation that fails while a location with a long file name is made",
  r"""
#include "libqasm/annotations.hpp"
int main() {
    const std::optional<std::string> name{ "a file name that does not fit in the string itself.cq" };
    for (long k = 1; k < 4; ++k)
        (void)fails(k, [&] { cqasm::annotations::SourceLocation l(name, { { 1, 2 }, { 3, 4 } }); });
    return 0;
}
""", ["src/annotations.cpp"])

oom("z04-leak", [(ANA, "    auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);\n    auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));\n",
  "    auto* analyze_visitor = new SemanticAnalyzer(*this);\n    auto result = std::any_cast<AnalysisResult>(analyze_visitor->visit_program(ast));\n    delete analyze_visitor;\n")],
  "An analysis that ends in an exception leaks its visitor and everything analysed so far.", "an allocation that fails during an analysis",
  r"""
    auto a = default_analyzer("3.0");
    auto p = parser::parse_string("version 3.0; qubit q; X q", std::nullopt);
    (void)a.analyze(p);
    long before = live;
    long k = 1;
    for (; fails(k, [&] { (void)a.analyze(p); }); k += 10) {}
    need(k > 100, "no failures");
    need(live <= before + 3, "something is left");""")

oom("z04-swallow", [(ANA, "            return scope.variable_table.resolve(name);\n        } catch (const error::AnalysisError&) {", "            return scope.variable_table.resolve(name);\n        } catch (const std::exception&) {")],
  "A variable that cannot be copied for lack of memory is reported as undeclared.", "an allocation that fails while a variable is resolved",
  r"""
    auto a = default_analyzer("3.0");
    auto p = parser::parse_string("version 3.0; qubit q; X q", std::nullopt);
    for (long k = 1; k < 100000; ++k) {
        bool ok = true;
        if (!fails(k, [&] { ok = a.analyze(p).errors.empty(); })) {
            need(ok, "an error in a correct program");
            if (k > 3000) break;
        }
    }""")


if __name__ == "__main__":
    for sid in sys.argv[1:] or S:
        try:
            seed(*S[sid])
            print("wrote", sid)
        except Exception as e:
            print("FAILED", sid, repr(e))
