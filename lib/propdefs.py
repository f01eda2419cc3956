"""The one place the properties are written down.  `python3 lib/mkprops.py` turns this into
properties.jsonl and MANIFEST.json."""

# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], module
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  text=" ".join(text.split()), why=" ".join(why.split()), files=files, mech=mech,
                  technique=technique, note=" ".join(note.split()), level=level))


V = "src/v3x/"
I = "include/libqasm/"
SAN = " The run is under AddressSanitizer and UndefinedBehaviorSanitizer."
TRUST = (" Trusted: the stand-ins in tc/ for tree-gen and the ANTLR runtime, validated against all of the "
         "repository's golden files and unit tests; the reference model in lib/model.")

# ------------------------------------------------------------------------------------------------ language level
prop("P01", "Parsing any text gives a complete syntax tree or errors, never both or neither",
     """For every byte string given to the parser, valid or not, parsing returns normally with either a complete
     (well-formed) syntax tree and no errors, or no tree and at least one error with a non-empty message. It never
     crashes, never lets an exception out, never fails an internal assertion and never touches memory it does not
     own.""",
     ["inputs"], "every byte string, valid UTF-8 or not, with or without a file name",
     "The tests sample some 250 hand-written programs; the claim is over all texts, including mutated, truncated, "
     "deeply nested and binary ones.",
     [V + "parse_helper.cpp", V + "antlr_scanner.cpp", V + "syntactic_analyzer.cpp", V + "CqasmParser.g4"],
     [("errors are thrown by the listener and collected by the parse helper", V + "parse_helper.cpp"),
      ("well-formedness check on the AST", V + "parse_helper.cpp")],
     "sanitized execution of the parser on hostile inputs, with a result-shape monitor",
     "Held on the inputs of the run." + SAN + TRUST)

prop("P02", "The parser accepts exactly the texts of the cQASM 3.0 grammar",
     """A text is accepted by the parser if and only if it is a program of the cQASM 3.0 language: an optional run of
     statement separators, a version statement, and statements (qubit and bit definitions, gates with modifiers and
     parameters, measure, reset, init, barrier, wait, asm declarations) each preceded by at least one newline or
     semicolon. Keywords, operators, literals and identifiers are recognised by longest match and are case
     sensitive.""",
     ["programs", "inputs"], "every token sequence, generated from the grammar or by editing such a sequence",
     "The tests hold a fixed list of accepted and rejected programs; the boundary of the language is infinite.",
     [V + "CqasmLexer.g4", V + "CqasmParser.g4"],
     [("lexer rules and modes", V + "CqasmLexer.g4"), ("parser rules", V + "CqasmParser.g4")],
     "runtime comparison of accept/reject with an independent reference recogniser, on generated and mutated programs",
     "Held on the programs of the run." + SAN + TRUST)

prop("P03", "The syntax tree reflects the precedence and associativity of the language",
     """For every accepted program the syntax tree has the structure the language defines: operators bind as
     parentheses, unary plus/minus/~/!, **, (* / %), (+ -), (<< >>), (< > <= >=), (== !=), &, ^, |, &&, ^^, ||, ?:
     from tightest to loosest, ** and ?: group to the right and all other binary operators to the left, and
     unary plus and parentheses leave no node. Statements, operands, parameters, indices, ranges and nested gate
     modifiers appear in source order, under the names written in the source.""",
     ["programs"], "every program of the grammar, with expressions of any shape and depth",
     "A golden file fixes the tree of one program; the operator table interacts pairwise and at any depth.",
     [V + "CqasmParser.g4", V + "syntactic_analyzer.cpp", V + "syntactic.tree"],
     [("order of the alternatives of the expression rule", V + "CqasmParser.g4"),
      ("tree construction", V + "syntactic_analyzer.cpp")],
     "runtime comparison of the dumped syntax tree with a reference parser on generated programs",
     "Held on the programs of the run." + SAN + TRUST)

prop("P04", "Every syntax node carries the source range of the token that names it",
     """In every syntax tree, the version, each definition's type, each gate, each non-gate instruction, each index,
     function call, identifier, literal and unary operator node carries the one-based line and column range of the
     token that names it, each binary operator node that of the operator token, and all of them the given file name. Ranges are ordered and lie within the text, and columns count characters,
     not bytes.""",
     ["programs", "inputs"], "every accepted program, in any layout, with multi-byte characters and any file name",
     "Golden files print few locations and in one layout each; positions depend on everything before them.",
     [V + "syntactic_analyzer.cpp", I + "v3x/syntactic_analyzer.hpp", "src/annotations.cpp"],
     [("location annotations", V + "syntactic_analyzer.cpp")],
     "runtime comparison of all node locations with a reference parser, on programs in random layouts",
     "Held on the programs of the run." + SAN + TRUST)

prop("P05", "Literals keep their exact value or are rejected as out of range",
     """Every integer literal from 0 to 2^63-1, however written (including leading zeros), yields exactly that value,
     every float literal the double nearest to its decimal text, and true and false the boolean; version numbers keep
     every component. An integer above 2^63-1 (in expressions, array sizes and versions alike) or a float too large
     for a double is reported as one error at that literal and never silently changed.""",
     ["inputs"], "every literal in every syntactic position that takes one",
     "Tests try a handful of literals; the domain is unbounded.",
     [V + "syntactic_analyzer.cpp", V + "CqasmLexer.g4"],
     [("integer and float conversion with range checks", V + "syntactic_analyzer.cpp")],
     "runtime comparison of literal values with exact arithmetic, on boundary-biased literals",
     "Held on the literals of the run." + SAN + TRUST)

prop("P06", "Comments and layout never change what a program means",
     """Inserting or removing spaces, tabs, single-line comments or multi-line comments between tokens, replacing a
     newline separator by a semicolon or CRLF or repeating it, and adding separators before the version or at the end
     changes neither acceptance nor the syntax and semantic trees, apart from source locations. Comment markers inside
     raw strings are text and string markers inside comments are comment.""",
     ["programs"], "every program and every re-layout of it",
     "Tests fix one layout per program.",
     [V + "CqasmLexer.g4", V + "CqasmParser.g4"],
     [("skipped tokens and statement separators", V + "CqasmLexer.g4")],
     "metamorphic monitor: the same program in many layouts must give the same location-free trees",
     "Held on the pairs of the run." + SAN + TRUST)

prop("P07", "A syntax error is reported once, at the first token that cannot continue",
     """Every rejected text yields exactly one parse error, whose line and column are those of the first token (or
     character, for a lexical error) that no program of the language could have at that place, given what precedes
     it, and whose range spans that token and is empty at the end of the input. The error names the file it
     was given and has a non-empty message, and nothing is printed.""",
     ["inputs", "programs"], "every text that is not a program",
     "Tests list some rejected programs and their errors.",
     [V + "antlr_custom_error_listener.cpp", V + "antlr_scanner.cpp", V + "parse_helper.cpp"],
     [("the error listener throws at the first error", V + "antlr_custom_error_listener.cpp")],
     "runtime comparison of error count and position with the viable-prefix position of a reference recogniser",
     "Held on the texts of the run; where a lexical error directly follows the offending token either may be "
     "reported." + SAN + TRUST)

prop("P08", "Assembly declarations keep their code character for character",
     """The code of an asm declaration is exactly the text between its opening triple quote and the next triple quote,
     whatever it contains (newlines, quotes, comment markers, semicolons, keywords, any UTF-8), and the backend name
     is the identifier as written, in the syntax tree, the semantic tree and their serialised forms alike. What
     surrounds the declaration is parsed as if the code were empty.""",
     ["inputs"], "every raw text without a triple quote",
     "Three golden files exist; the text is arbitrary.",
     [V + "syntactic_analyzer.cpp", "src/utils.cpp", V + "CqasmLexer.g4", V + "semantic_analyzer.cpp"],
     [("raw string token and quote removal", "src/utils.cpp")],
     "round-trip monitor: the code is read back from both trees and from serialised trees",
     "Held on the texts of the run." + SAN + TRUST)

prop("C01", "Constant expressions evaluate to the value the language defines",
     """Every constant expression accepted by semantic analysis yields the value of 64-bit two's complement integer,
     IEEE double and boolean arithmetic: division truncates, modulo takes the dividend's sign, >> is arithmetic, ** is
     floating point, comparisons and logic give booleans, ?: selects its branch, and pi, eu, tau, true and false and
     the mathematical functions have their usual values. Integer results are exact and floating results are
     correctly rounded for + - * / and sqrt and within a few units in the last place otherwise.""",
     ["inputs", "programs"], "every well-typed constant expression over in-range literals",
     "Tests evaluate each operator on a few operands.",
     [I + "v3x/register_consteval_core_functions.hpp", V + "register_consteval_core_functions.cpp",
      V + "analyzer.cpp"],
     [("operator and function implementations", I + "v3x/register_consteval_core_functions.hpp")],
     "runtime comparison of every constant in the semantic tree with a reference evaluator",
     "Held on the expressions of the run." + SAN + TRUST)

prop("C02", "Constant expressions are typed and promoted by the same rules everywhere",
     """The type of a constant expression follows from its operand types: bool promotes to int and float, int to
     float, never the other way, the narrowest registered overload (bool, then int, then float) is used, and every
     operator and function accepts exactly its documented operand types and number of arguments. Any other
     combination, an unknown function, or a qubit or bit operand is one analysis error, located in the
     expression.""",
     ["programs"], "every operator and function applied to every combination of operand types, nested arbitrarily",
     "Tests cover single operators on chosen types; nesting and overload order interact.",
     [V + "register_consteval_core_functions.cpp", V + "values.cpp", I + "overload.hpp"],
     [("overload registration order", V + "register_consteval_core_functions.cpp"),
      ("promotion", V + "values.cpp")],
     "runtime comparison of result types and rejections with a reference type checker",
     "Held on the expressions of the run." + SAN + TRUST)

prop("C03", "No constant expression can crash the analyzer or invoke undefined behaviour",
     """Integer division or modulo by zero, results outside the 64-bit range, the negation and absolute value of the
     smallest integer and shift counts outside 0..63 are each reported as one analysis error located in the
     expression, and every other integer expression has its exact value. Floating-point operations follow IEEE 754
     (infinities and NaN included) and are never an error.""",
     ["inputs"], "every constant expression, biased to the limits of the types",
     "No test goes near the limits.",
     [I + "v3x/register_consteval_core_functions.hpp"],
     [("range checks in the integer operators", I + "v3x/register_consteval_core_functions.hpp")],
     "UndefinedBehaviorSanitizer plus a reference evaluator on boundary operands",
     "Held on the expressions of the run." + SAN + TRUST)

prop("M01", "Definitions declare exactly the variables written, once each, in order",
     """The semantic tree lists one variable per definition, in source order, with the written name and the type
     qubit, bit, qubit array or bit array with the written size, and each later use refers to that very variable.
     A second definition of a name, a definition that reuses the name of a predefined constant, an array of size
     zero and the use of an undeclared or not yet declared name are each exactly one analysis error.""",
     ["programs"], "every sequence of definitions and uses",
     "Tests use one or two variables per program.",
     [V + "semantic_analyzer.cpp", I + "v3x/semantic_analyzer.hpp", V + "resolver.cpp", V + "analyzer.cpp"],
     [("variable table and scopes", V + "resolver.cpp")],
     "runtime comparison of the variables and references of the semantic tree with a reference analyzer",
     "Held on the programs of the run." + SAN + TRUST)

prop("M02", "Indices select exactly the elements written and never leave the register",
     """An index list on a register resolves to the sequence of element numbers it denotes, in order, with each range
     a:b expanded inclusively, and constant integer or boolean expressions allowed everywhere. An index outside
     0..size-1, a reversed range, a non-integer index, and indexing a single qubit or bit or a constant are each
     exactly one analysis error, at a cost bounded by the register size however large the numbers.""",
     ["programs", "inputs"], "every register size and index list, including extreme numbers",
     "Tests index small registers with a few lists.",
     [V + "semantic_analyzer.cpp"],
     [("index expansion and bounds check", V + "semantic_analyzer.cpp")],
     "runtime comparison of resolved indices with a reference analyzer under memory and time limits",
     "Held on the programs of the run." + SAN + TRUST)

prop("M03", "Every instruction resolves to its signature in the set or is rejected",
     """An instruction is accepted if and only if the instruction set has its name with the given operand types (qubit
     or qubit array per position, bit or bit array for measure results), where an index selecting one element counts
     as a single and several as an array. An accepted instruction carries a reference to exactly that
     signature; any other combination is one analysis error.""",
     ["programs"], "every instruction name with every combination and number of operand types",
     "Golden files cover chosen combinations.",
     [V + "instruction_set.cpp", V + "register_instructions.cpp", V + "resolver.cpp", V + "values.cpp"],
     [("instruction table", V + "instruction_set.cpp"), ("overload resolution", I + "overload.hpp")],
     "runtime comparison of resolved signatures with an independently written instruction table",
     "Held on the programs of the run; the combinations are enumerated up to three operands." + SAN + TRUST)

prop("M04", "Operands of one instruction must select equally many elements",
     """A gate on several operands is accepted only if all of them select the same number of qubits, and a measurement
     only if it selects as many bits as qubits, where an operand may be a single, a whole register, or an index of any
     length. Every mismatch is exactly one analysis error and every match is accepted, with the operands in source
     order.""",
     ["programs"], "every combination of operand shapes and sizes",
     "Tests use a few register sizes.",
     [V + "semantic_analyzer.cpp"],
     [("size checks", V + "semantic_analyzer.cpp")],
     "runtime comparison of acceptance and operands with a reference analyzer",
     "Held on the programs of the run." + SAN + TRUST)

prop("M05", "Gate modifiers compose as the language defines",
     """inv, pow and ctrl may be stacked on a gate in any number as long as only the outermost one makes or meets a
     two-qubit gate: ctrl on a (possibly inverted or powered) single-qubit gate takes two qubit operands, inv and pow
     keep one. Any modifier on a two-qubit gate or on a controlled gate is one analysis error, and the semantic tree
     keeps the modifiers in order with pow's exponent promoted to a float.""",
     ["programs"], "every stack of modifiers on every gate",
     "Golden files cover a few stacks.",
     [V + "semantic_analyzer.cpp", V + "register_instructions.cpp", V + "instruction_set.cpp"],
     [("resolution names of compositions", V + "semantic_analyzer.cpp"),
      ("multi-qubit gate check", V + "semantic_analyzer.cpp")],
     "runtime comparison of acceptance and gate trees with a reference analyzer",
     "Held on the programs of the run." + SAN + TRUST)

prop("M06", "Instruction parameters have the right number and type, and keep their value",
     """A gate, gate modifier or non-gate instruction is accepted only with the number of parameters its signature
     has, each of a type that promotes to the required one, and the semantic tree holds the values, in order,
     promoted to the required types without loss. A wrong number, a float where an integer is required, or
     a qubit or bit parameter is exactly one analysis error.""",
     ["programs"], "every instruction with every number and type of parameters",
     "Tests give each instruction one or two parameter lists.",
     [V + "semantic_analyzer.cpp", V + "instruction_set.cpp", V + "values.cpp"],
     [("parameter resolution", V + "semantic_analyzer.cpp")],
     "runtime comparison of parameter values and rejections with a reference analyzer",
     "Held on the programs of the run." + SAN + TRUST)

prop("M07", "Each statement is analysed on its own: none is lost, duplicated or reordered",
     """The semantic tree has exactly one statement per accepted instruction or asm declaration, in source order, and
     no other. Each faulty statement gives exactly one error, errors come in source order, and neither the error nor
     the removal of the faulty statement changes what the other statements yield.""",
     ["programs"], "every program with any number of faulty statements at any places",
     "Tests hold at most one faulty statement each.",
     [V + "semantic_analyzer.cpp", I + "v3x/semantic_analyzer.hpp", V + "analyzer.cpp"],
     [("per-statement error handling", I + "v3x/semantic_analyzer.hpp")],
     "metamorphic monitor: programs with and without their faulty statements, against a reference analyzer",
     "Held on the programs of the run." + SAN + TRUST)

prop("M08", "Analysis errors point at the construct that is wrong",
     """Every analysis error carries the file name and the range of the innermost located construct that is at fault:
     the operand or parameter expression if that is what fails to evaluate, the index expression if an index is out of
     range, otherwise the gate or instruction, and the definition for a faulty definition. Positions are one-based and lie inside the text.""",
     ["programs"], "every faulty program, in any layout",
     "Goldens hold some tens of errors.",
     [V + "semantic_analyzer.cpp", "src/error.cpp"],
     [("errors take the location of the first located node they pass", "src/error.cpp")],
     "runtime comparison of error positions with a reference analyzer on programs in random layouts",
     "Held on the programs of the run." + SAN + TRUST)

prop("M14", "An analysis error names what is wrong",
     """Every analysis error has a message. It names the variable, function, gate or instruction that cannot be resolved
     or is redefined; the types of all operands or arguments, in order, if no overload takes them; the type of what
     cannot be indexed; an index that is out of range and the size of the register; the number of parameters given
     and, if it is fixed and not zero, expected, or the type of the parameter that does not fit; and
     the supported and the given version.""",
     ["programs"], "every faulty program",
     "Goldens hold some tens of messages.",
     [V + "semantic_analyzer.cpp", V + "resolver.cpp", V + "analyzer.cpp"],
     [("messages of analysis errors", V + "semantic_analyzer.cpp")],
     "runtime comparison of error messages with what a reference analyzer says is at fault",
     "Held on the programs of the run. Only the names and numbers are judged, not the wording." + SAN + TRUST)

prop("M09", "An analyzer can be reused: analysing never changes it",
     """Analysing any sequence of programs, valid or not, with one analyzer gives for each program the result a
     freshly configured analyzer gives. In particular no variable, statement or error of one program shows up in the
     result of another, and results already returned do not change.""",
     ["histories", "configurations"], "every sequence of analyses, through the C++ and the wrapped interface",
     "Tests use a new analyzer each time.",
     [V + "analyzer.cpp", I + "v3x/analyzer.hpp", V + "cqasm_python.cpp"],
     [("the scope of a program is restored after analysis", V + "analyzer.cpp")],
     "history monitor: each result of a long-lived analyzer against a fresh one",
     "Held on the histories of the run." + SAN + TRUST)

prop("M10", "Analysis is deterministic and leaves the syntax tree alone",
     """Parsing the same text twice gives equal trees or equal errors, and analysing the same syntax tree twice gives
     equal semantic trees or equal errors, independent of what was processed before. The syntax tree is bit for bit
     the same after analysis as before, and destroying it does not affect the semantic tree.""",
     ["histories", "programs"], "every program and any history before it",
     "Tests analyse each tree once.",
     [V + "semantic_analyzer.cpp", V + "analyzer.cpp", V + "parse_helper.cpp"],
     [("the semantic tree is built from copies", V + "semantic_analyzer.cpp")],
     "snapshot monitor over repeated runs in shuffled order",
     "Held on the programs of the run." + SAN + TRUST)

prop("M11", "A semantic tree is complete and consistent in itself",
     """Every semantic tree returned without errors is well-formed: each variable reference links to a variable of
     that same tree, each index lies in its variable's range, each instruction's operand types match its
     signature one to one, its gate or name agrees with that signature, parameters are constants of the required
     types, and each instruction carries a source location.""",
     ["programs"], "every accepted program",
     "Goldens compare text, which cannot tell two variables of the same name apart.",
     [V + "semantic_analyzer.cpp", V + "analyzer.cpp", V + "semantic.tree", V + "values.tree"],
     [("well-formedness check after analysis", V + "analyzer.cpp")],
     "invariant monitor walking every returned semantic tree",
     "Held on the trees of the run." + SAN + TRUST)

prop("M15", "Syntax trees built by hand are analysed like parsed ones",
     """Annotations that a tool attaches to definitions, gates, instructions and assembly declarations of a syntax tree are found
     at the same places of the semantic tree, in order, with their interface, operation and location, and with their
     operands evaluated like any other expression. An operand that is at fault is one error and is left out, the statement is kept.
     A tree without source locations gives the same semantic tree and the same errors, without locations.""",
     ["inputs"], "every syntax tree, with annotations on any of its nodes, with or without locations",
     "The grammar has no annotations, so no test has any.",
     [V + "semantic_analyzer.cpp", V + "syntactic.tree", V + "semantic.tree"],
     [("visit_annotated, visit_annotation_data", V + "semantic_analyzer.cpp")],
     "runtime comparison with a reference analyzer on syntax trees with random annotations",
     "Held on the trees of the run." + SAN + TRUST)

prop("M12", "Only cQASM 3.0 programs are analysed, and any other version is one error",
     """A program with version 3 or 3.0 (missing components count as zero) is analysed as cQASM 3.0; any other version
     is exactly one analysis error, located at the version number, and does not disturb the analysis of the
     statements. An analyzer can be constructed for version 3.0 only, and semantic trees carry the API version 3.0 and
     the version written.""",
     ["inputs", "configurations"], "every version statement and every requested API version",
     "Tests use a few versions.",
     [V + "semantic_analyzer.cpp", V + "analyzer.cpp", "src/version.cpp"],
     [("version check", V + "semantic_analyzer.cpp")],
     "runtime comparison with a reference over version spellings",
     "Held on the versions of the run." + SAN + TRUST)

prop("M13", "Errors from earlier phases are passed on unchanged",
     """Analysing a text that does not parse yields exactly the errors of the parse, in the same order and with the
     same positions and messages, and no semantic tree. Unwrapping a failed result writes every error to the given
     stream and raises the analysis failure; unwrapping a successful one returns the tree and writes nothing.""",
     ["programs"], "every rejected text and every analysis result",
     "Tests do this for a fixed error.",
     [V + "analyzer.cpp", V + "analysis_result.cpp", V + "cqasm.cpp"],
     [("parse errors are forwarded", V + "analyzer.cpp")],
     "differential monitor between the parse result and the analysis result",
     "Held on the texts of the run." + SAN + TRUST)

# ------------------------------------------------------------------------------------------------ configuration
prop("I01", "Every instruction name has one class and one consistent set of signatures",
     """Every instruction name is in exactly one of the classes single-qubit gate, two-qubit gate, non-gate instruction
     and gate modifier, all predicates and signature queries about it agree with each other and with the cQASM 3.0
     instruction set, and any other string is in none and is rejected by the queries. Matching is exact and case
     sensitive, and composed gate names are classified by their one- or two-qubit prefix.""",
     ["inputs"], "every string as a name",
     "Tests ask about a few names.",
     [V + "instruction_set.cpp", I + "v3x/instruction_set.hpp"],
     [("instruction maps and lists", V + "instruction_set.cpp")],
     "online comparison of all queries with an independently written table, over names and near misses",
     "Held on the names of the run (all defined names are enumerated)." + SAN + TRUST)

prop("I02", "Registered functions, constants and instructions take effect as registered",
     """After registering constants, functions and instruction overloads on an analyzer, programs see exactly the
     defaults plus those: the last registered applicable overload wins, an inner scope hides an outer one until it is
     popped, registering a name twice as a constant fails, and an analyzer without defaults knows none. Instances
     and copies of analyzers do not influence each other.""",
     ["configurations", "histories"], "every sequence of registrations, scopes and analyses",
     "Tests register one thing at a time.",
     [V + "analyzer.cpp", V + "resolver.cpp", I + "overload.hpp", V + "cqasm.cpp", V + "cqasm_python.cpp"],
     [("scope stack and resolver tables", V + "resolver.cpp")],
     "history monitor: random registration histories against a reference model of the scope stack",
     "Held on the histories of the run. Known finding: a gate name outside the built-in instruction set cannot be "
     "used even when registered." + SAN + TRUST)

prop("I03", "Type checks, promotions and sizes agree with each other",
     """A constant promotes to a type exactly when the promotion check says its type does: to its own type, from bool
     to int and float, and from int to float, keeping its value and source location; variables and indices
     promote only to their own type. Type codes construct the types they name and unknown codes are rejected, and the
     type and size of a reference are those of the elements it selects.""",
     ["inputs"], "every value and every type",
     "Tests promote a few values.",
     [V + "values.cpp", V + "types.cpp", I + "v3x/types.hpp"],
     [("promotion rules", V + "values.cpp")],
     "online oracle over enumerated values and types",
     "Held on the values of the run (all pairs of kinds are enumerated)." + SAN + TRUST)

prop("I04", "Signatures and axes are equal exactly if all parts are, and print every part",
     """Two instruction signatures are equal exactly if their names and all their operand types are, in order; two
     function signatures exactly if their names, parameter types and return types are; two axes exactly if all their components
     are. Inequality is the opposite. They print their name and every type in order, or every component,
     and a missing reference prints that it is unresolved.""",
     ["inputs"], "every pair of signatures and axes",
     "Tests compare a few that differ in everything.",
     [V + "instruction.cpp", V + "core_function.cpp", V + "primitives.cpp", V + "types.cpp"],
     [("operator==, operator<<", V + "instruction.cpp")],
     "online oracle over all pairs within families that differ in one part",
     "Held on the pairs of the run." + SAN + TRUST)

# ------------------------------------------------------------------------------------------------ interfaces
prop("K01", "Serialising a tree and reading it back gives the same tree",
     """Every syntax and semantic tree survives serialisation: reading the serialised form back gives an equal tree
     with the same names, exact integers and floats (infinities and NaN included), versions,
     signatures and variable links, and serialising again gives the same bytes. The same holds for each
     primitive value on its own, for the whole range of its type.""",
     ["programs", "inputs"], "every tree and every primitive value",
     "Tests serialise a couple of trees.",
     [V + "primitives.cpp", V + "instruction.cpp", V + "core_function.cpp", V + "parse_result.cpp",
      V + "analysis_result.cpp"],
     [("serialisers of the primitives", V + "primitives.cpp")],
     "round-trip monitor on the trees of generated programs and on boundary primitives",
     "Held on the trees of the run." + SAN + TRUST)

prop("K02", "Python sees the same trees and errors as C++",
     """For every text, the Python package's parse and analyze functions return the tree the C++ library built, node
     for node with the same names, values, versions, variable links and instruction signatures, or the same list of
     error messages, and writing the Python tree back gives a tree equal to the C++ one. The functions
     for files, strings and JSON agree with their C++ counterparts.""",
     ["programs"], "every text",
     "The Python tests need the SWIG build and check a few programs.",
     ["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py",
      "python/module/cqasm/v3x/__init__.py", V + "cqasm_python.cpp"],
     [("mirrored primitives", "python/module/cqasm/v3x/primitives.py")],
     "cross-language comparison of trees read by the real Python package from bytes produced by the real library",
     "Held on the programs of the run; the SWIG layer is replaced by a pipe to the library." + TRUST)

prop("K03", "Python primitives keep their value when stored, and show all their parts",
     """Every value of a primitive type of the Python package - text, boolean, integer, float, version, instruction
     reference - is the same value of the same type after writing and reading it, whether its text comes as characters
     or as bytes. A version is the tuple of its numbers, given as text or as any iterable. An instruction has exactly the
     name and the operand types it was made from, in order, whatever iterable held them; anything else among the types
     is a TypeError. A reference has the data of its instruction, prints like it, and prints "unresolved" if it has none.""",
     ["inputs"], "every value, name, version and list of types",
     "The repository has no test of these modules.",
     ["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py"],
     [("serialize and deserialize", "python/module/cqasm/v3x/primitives.py"), ("Instruction and InstructionRef", "python/module/cqasm/v3x/instruction.py")],
     "online oracle over the real Python modules with boundary, random and wrongly typed values, directly and through CBOR bytes",
     "Held on the values of the run; the generated type and tree modules come from the stand-in for tree-gen." + TRUST)

prop("X01", "All entry points give the same answer for the same program",
     """Parsing or analysing a program gives the same tree or the same errors through the C++ functions on strings and
     files, the analyzer object, the wrapper used for Python and the wrapper used for JavaScript, in serialised and in
     JSON form, apart from the file name they attach. Exactly one of tree and errors is given each
     time.""",
     ["programs"], "every text through every entry point",
     "Tests call each entry point on its own with one program.",
     [V + "cqasm_python.cpp", V + "cqasm.cpp", V + "parse_helper.cpp", V + "analyzer.cpp",
      "emscripten/emscripten_wrapper.cpp"],
     [("wrappers around parse and analyze", V + "cqasm_python.cpp")],
     "differential monitor across entry points",
     "Held on the texts of the run." + SAN + TRUST)

prop("X02", "Reading a program from a file is reading its bytes",
     """Parsing a regular file gives what parsing its contents as a string gives, whatever the name, the size and the
     contents. A path that does not exist or is not a regular file raises a parse error naming the path, and no file
     is created, changed or left open.""",
     ["inputs", "fault_sequences"], "every path, file contents and file state",
     "Tests open one existing and one missing file.",
     [V + "antlr_scanner.cpp", V + "parse_helper.cpp"],
     [("file access check", V + "antlr_scanner.cpp")],
     "differential monitor on scratch files with file-descriptor accounting",
     "Held on the files of the run." + SAN + TRUST)

prop("X03", "JSON output is valid JSON that carries the whole result",
     """For every text and file name in UTF-8, the JSON form of a parse or analysis result is one valid JSON document:
     on failure an object with one diagnostic per error, in order, with range, message, severity 1 and, if a
     file name was given, its URI; on success the tree. Decoding it gives back the exact messages, positions and
     file name.""",
     ["programs", "inputs"], "every text and file name",
     "Tests compare JSON of fixed errors with plain file names.",
     [I + "result.hpp", "src/error.cpp", "src/utils.cpp", V + "parse_result.cpp", V + "analysis_result.cpp"],
     [("JSON rendering of errors", "src/error.cpp")],
     "runtime check of every JSON result with a strict decoder against the C++ result",
     "Held on the texts of the run. How strings inside a successful tree are escaped is tree-gen's, not checked."
     + SAN + TRUST)

prop("T01", "Threads using separate analyzers do not affect each other",
     """Any number of threads may parse and analyse at the same time, each with its own analyzer, and may read one
     shared finished result, without data races. Each thread gets the result it would get alone.""",
     ["schedules"], "every interleaving of independent parses, analyses and readers of shared results",
     "No test uses threads.",
     [V + "instruction_set.cpp", V + "analyzer.cpp", V + "parse_helper.cpp", "src/error.cpp"],
     [("the only shared state is the constant instruction set", V + "instruction_set.cpp")],
     "ThreadSanitizer on concurrent workloads with start barriers and yields, plus result comparison",
     "Held on the interleavings of the run; ThreadSanitizer sees races between unsynchronised accesses whether or "
     "not they collide in time." + TRUST)

prop("Z01", "No program, however hostile, corrupts memory or crashes the analyzer",
     """For every text that parses, semantic analysis, dumping, serialisation and destruction of the results
     terminate without memory errors, leaks, undefined behaviour, failed assertions or escaping exceptions.
     """,
     ["programs", "inputs"], "every text, in particular semantically wrong ones",
     "Tests analyse well-behaved programs without sanitizers.",
     [V + "semantic_analyzer.cpp", V + "values.cpp", V + "analyzer.cpp"],
     [("all faults are raised as analysis errors and caught per statement", V + "semantic_analyzer.cpp")],
     "AddressSanitizer (with leak detection) and UndefinedBehaviorSanitizer on type-confused and mutated programs",
     "Held on the texts of the run; nesting depth is bounded to what the stack allows." + TRUST)

# ------------------------------------------------------------------------------------------------ library level
prop("U01", "JSON string encoding is lossless",
     """For every string in UTF-8, the JSON encoder's output between double quotes is a valid JSON string that decodes
     to exactly the input. Double quotes, backslashes and the control characters U+0000 to U+001F are escaped
     as \\u and four hexadecimal digits, and every other byte is passed on as it is.""",
     ["inputs"], "every byte string",
     "Four unit tests cover a few ASCII strings.",
     ["src/utils.cpp"], [("json_encode", "src/utils.cpp")],
     "online oracle on all bytes, all byte pairs and random strings, decoded by an independent decoder",
     "All single bytes and pairs are enumerated." + SAN)

prop("U02", "URL encoding is lossless and yields URL characters only",
     """For every byte string, the URL encoder leaves ASCII letters, digits and - _ . ~ alone and writes every other
     byte as % and two upper-case hexadecimal digits. Percent-decoding the output gives back the input.""",
     ["inputs"], "every byte string",
     "Unit tests cover a few file names.",
     ["src/utils.cpp"], [("url_encode", "src/utils.cpp")],
     "online oracle on all bytes, all byte pairs and random strings",
     "All single bytes and pairs are enumerated." + SAN)

prop("U03", "Case folding changes ASCII capitals only, and comparison agrees with it",
     """Lower-casing a string maps A..Z to a..z and leaves the length and every other byte, including NUL and bytes of
     multi-byte characters, unchanged. Two strings compare equal ignoring case exactly when their lower-cased forms
     are identical.""",
     ["inputs"], "every string and pair of strings",
     "Unit tests cover a few words.",
     ["src/utils.cpp"], [("to_lowercase, equal_case_insensitive", "src/utils.cpp")],
     "online oracle on all bytes, all byte pairs, prefixes and random strings",
     "All pairs of single bytes are enumerated." + SAN)

prop("U04", "Removing triple quotes returns exactly the quoted text",
     """For every text, removing the triple quotes from that text enclosed in two triple quotes returns the text,
     including when it is empty, contains or ends in quotes, NUL bytes or newlines, or is very long.""",
     ["inputs"], "every byte string",
     "Unit tests cover two strings.",
     ["src/utils.cpp"], [("remove_triple_quotes", "src/utils.cpp")],
     "online oracle on enumerated short quote patterns and random strings",
     "All texts up to six characters over a small alphabet are enumerated." + SAN)

prop("U05", "Strings built from fragments and escapes are the decoded concatenation",
     """A string built from a sequence of fragments and escape sequences is the concatenation, in order, of the
     fragments as they are and the escapes decoded: \\t, \\n, \\r, \\', \\" and \\\\ stand for their
     character, and any other escape for itself.""",
     ["inputs", "histories"], "every sequence of pushes",
     "There is no test.",
     ["src/string_builder.cpp"], [("push_string, push_escape", "src/string_builder.cpp")],
     "history oracle over random push sequences, all one- and two-character escapes enumerated",
     "All escapes of up to two bytes are enumerated." + SAN)

prop("A01", "Source ranges are ordered, and locations compare by position",
     """A source range made from any two positions starts at the first and never ends before it starts: a smaller end
     is raised to the start. Positions and ranges compare lexicographically, line first, consistently across all
     six comparison operators, locations order by range and are equal only if the file name is too, and an empty
     file name counts as none.""",
     ["inputs"], "every combination of line and column values in 32 bits, and file names",
     "Unit tests build a few ranges.",
     [I + "annotations.hpp", "src/annotations.cpp"],
     [("Range constructor", "src/annotations.cpp")],
     "online oracle over an enumerated grid of boundary positions and random ones",
     "A grid of boundary values is enumerated." + SAN)

prop("A02", "Growing a source range gives the smallest range that covers both",
     """Expanding a source location to include a position yields the smallest range that contains the old range and
     that position, and leaves the file name alone. The result of several expansions does not depend on their order,
     and repeating one changes nothing.""",
     ["histories", "inputs"], "every start range and every sequence of positions",
     "Unit tests expand once in each direction.",
     ["src/annotations.cpp"], [("expand_to_include", "src/annotations.cpp")],
     "history oracle over random expansion sequences and their permutations",
     "A grid of boundary values is enumerated." + SAN)

prop("A03", "Locations print in the documented compact form",
     """A location prints as its file name (or a placeholder if unknown), then the line if not zero, then the column if
     not zero, then .. and the end only as far as it differs: the end column on the same line, the end
     line and column on another line, the end line alone if columns are unknown. Two locations with equal file
     names print alike only if the parts that are known are the same.""",
     ["inputs"], "every location",
     "Unit tests print some ten locations.",
     ["src/annotations.cpp"], [("stream operator", "src/annotations.cpp")],
     "online oracle over an enumerated grid of boundary values, through streams and through formatting",
     "A grid of boundary values is enumerated." + SAN)

prop("V01", "Version strings parse into their components or are rejected",
     """Every string of decimal numbers below 2^31 separated by single dots becomes a version with exactly those
     components, the empty string one with none, and printing a version gives its components joined by dots. A string
     with an empty or negative component, or one that does not start with a number, is rejected with an exception.""",
     ["inputs"], "every version string",
     "There is no test of malformed versions.",
     ["src/version.cpp"], [("Version constructor", "src/version.cpp")],
     "online oracle over enumerated short strings and random versions",
     "Components that start with a number, a plus sign or a blank and go on with something else are outside the statement." + SAN)

prop("V02", "Versions are totally ordered, component by component",
     """Versions compare by their first differing component, numerically, with missing components counting as zero.
     All comparison operators agree with that order, which is reflexive, antisymmetric and transitive, and versions
     that differ only in trailing zeros are equal.""",
     ["inputs"], "every pair and triple of versions",
     "Tests compare to one version.",
     ["src/version.cpp", I + "version.hpp"], [("compare", "src/version.cpp")],
     "online oracle over all pairs of an enumerated set and random pairs",
     "All pairs of versions of up to three components from a boundary set are enumerated." + SAN)

prop("E01", "Errors keep their message and their first location",
     """An error reports its message, or a placeholder if that is empty, prefixed by the location it has, if any.
     A location given to an error that has none is attached as it is at that moment; once an error has a location,
     giving it another one changes nothing, and nodes without location change nothing. Copies, moves,
     printing and reading the text repeatedly all give the same text.""",
     ["histories", "inputs"], "every message, and every sequence of contexts, copies and reads",
     "Unit tests cover single steps.",
     ["src/error.cpp", I + "error.hpp"], [("context", "src/error.cpp"), ("what", "src/error.cpp")],
     "history oracle over random sequences of operations on errors",
     "Held on the histories of the run." + SAN)

prop("E02", "The JSON form of an error is a valid diagnostic with the same content",
     """For every message, file name and range the JSON form of an error is a single valid JSON object with the range
     (all zeros without location), the message as a decodable string, severity 1, and related information with the
     file URI (and a range of zeros) exactly if the error has a file name, which can be decoded from that URI.""",
     ["inputs"], "every message and file name in UTF-8, every range",
     "Unit tests cover one message.",
     ["src/error.cpp", "src/utils.cpp"], [("to_json", "src/error.cpp")],
     "online oracle with an independent strict JSON decoder over hostile messages and file names",
     "Held on the errors of the run." + SAN)

prop("R01", "A result is rendered as its tree or as all of its errors, never mixed",
     """A result without errors renders to a list of one string, the serialised tree, and one with errors to an empty
     string followed by the text of each error, in order. Its JSON form is the tree's, or an object whose only member
     lists the JSON form of each error, in order.""",
     ["inputs"], "every result with any number of errors",
     "Unit tests use one or two errors.",
     [I + "result.hpp"], [("to_strings, to_json", I + "result.hpp")],
     "online oracle over results with random error lists",
     "Held on the results of the run." + SAN)

prop("O01", "Overload resolution picks the last registered applicable overload",
     """Resolving a call picks, among the overloads registered under exactly that name, the one registered last whose
     number of parameters matches and to which every argument can be promoted, and returns its tag and the promoted
     arguments in order. If there is none, resolution fails, with different failures for an unknown name and
     for unsuitable arguments, and later registrations or copies do not disturb earlier results.""",
     ["histories", "configurations"], "every registration history and every argument list",
     "Tests reach it only through the default tables.",
     [I + "overload.hpp"], [("resolve", I + "overload.hpp")],
     "history oracle: random registrations and calls on the real template with a small type lattice",
     "Held on the histories of the run." + SAN)

prop("L01", "Results do not depend on the locale of the process",
     """For every source text, file name, string and location, whatever locale the process has set (for C by setlocale,
     for C++ by std::locale::global, or both), everything the library computes - parse and analysis results with their
     trees, values, errors and positions, their JSON and serialised forms, printed locations, names and types, lower-cased,
     compared and encoded strings - is the same as in the C locale. (The debug dump of a tree written to a stream follows
     that stream.)""",
     ["inputs", "configurations"], "every text and string in every locale",
     "The tests run in the locale of the build machine.",
     ["src/v3x/syntactic_analyzer.cpp", "src/utils.cpp", "src/annotations.cpp", I + "result.hpp"],
     [("get_float_value", "src/v3x/syntactic_analyzer.cpp"), ("to_lowercase, equal_case_insensitive, url_encode", "src/utils.cpp"),
      ("operator<< of SourceLocation", "src/annotations.cpp"), ("root_to_json", I + "result.hpp")],
     "differential monitor: the real code in locales with other decimal points, digit groups, encodings and letter cases against itself in the C locale",
     "Held on the requests of the run, in locales compiled on the spot and in one made up to change every number." + SAN)

prop("Z02", "A call leaves nothing behind in the process or the file system but its result",
     """Whatever it is given and whether it returns or throws, no call of the library (parsing, analysis, registration,
     queries, rendering, serialisation, the wrappers, errors, strings, locations) writes to standard output or standard
     error, creates, changes or removes a file, or changes the working directory, environment, locale, floating-point
     control, signal handling, umask, limits, random numbers, state of standard streams, open files or threads of the
     process; it opens no file but the one it is asked to read. The exceptions are the functions documented to report
     errors on standard error, when there are errors, and any stream they are given.""",
     ["inputs", "histories"], "every function, on every input, in any state of the process",
     "Unit tests look at results only.",
     ["src/v3x", "src", "include/libqasm", "emscripten/emscripten_wrapper.cpp"],
     [("parse and analyze functions", "src/v3x/parse_helper.cpp"), ("V3xAnalyzer", "src/v3x/cqasm_python.cpp"), ("unwrap", "src/v3x/analysis_result.cpp")],
     "state monitor: the process is compared with itself around each call, and its calls to the system are traced",
     "Held on the calls of the run, for the parts of the process that are compared." + SAN)

prop("Z03", "Work grows in proportion to the input, and never explodes with its nesting",
     """Analysing a program, turning trees, results and error lists into JSON or strings, registering and resolving
     names, copying an analyzer, and every function on strings take a number of steps and allocate an amount of memory
     that grow no faster than in proportion to the number of statements, declarations, operands, indices, errors, names
     or characters they are given; with the depth to which expressions and gate modifiers are nested, they grow no
     faster than its square.""",
     ["inputs"], "every size of every kind of input",
     "Unit tests use inputs of a few lines, for which every algorithm is fast.",
     ["src/v3x", "src", "include/libqasm"],
     [("semantic analysis", "src/v3x/semantic_analyzer.cpp"), ("scopes", "src/v3x/analyzer.cpp"), ("encoders", "src/utils.cpp"), ("results", "src/v3x/analysis_result.cpp")],
     "cost monitor: compiler instrumentation counts the edges executed and the allocator the bytes, at doubling sizes",
     "Held for the kinds and sizes of input listed in the check; what the stand-in for ANTLR does is not counted.")

prop("Z04", "Running out of memory never ends the process nor leaves anything broken",
     """Whichever allocation fails during a call of the library, the call throws (std::bad_alloc, or a stream's failure), or returns what it
     returns otherwise, or (when parsing) a result that has an error and no tree; a stream may be given less than all. It neither
     ends the process nor leaks, and what existed before - analyzers, trees, results, errors - gives the same
     answers afterwards. A registration that fails is either made or not made, and can be made again.""",
     ["inputs", "crash points"], "every allocation of every call on every input",
     "Unit tests never run out of memory.",
     ["src/v3x", "src", "include/libqasm"],
     [("scopes", "src/v3x/analyzer.cpp"), ("tables", "src/v3x/resolver.cpp"), ("overloads", "include/libqasm/overload.hpp"), ("errors", "src/error.cpp")],
     "fault injection: the n-th allocation of a call fails, under the sanitizers; outcomes, live allocations and later answers are compared",
     "Held for the calls and allocations tried." + SAN + TRUST)

prop("Y01", "Every interface reports the same library version",
     """The version the library reports is the one the packaging scripts extract from its sources, a dotted release
     number, and it is reported alike on every call and through every wrapper.""",
     ["configurations"], "every interface that reports a version",
     "Each interface is tested on its own.",
     [I + "versioning.hpp", "version.py", "emscripten/emscripten_wrapper.cpp"],
     [("version constant", I + "versioning.hpp")],
     "differential monitor across interfaces",
     "Held on the interfaces that can be built here." + SAN)
