"""One entry per property; tool/gen_docs.py turns this into properties.jsonl and MANIFEST.json."""

AI = "path-sensitive abstract interpretation of the type-checked syntax tree (symbolic terms, trace partitioning), "

PROPS = []


def prop(**kw):
    PROPS.append(kw)


prop(id="C01", title="Operator type rules of BMS are exactly the documented ones",
     statement="For every unary and binary operator, every implicit conversion and the conditional expression of the bit-manipulation language, and for every combination of operand types and "
               "widths, the type checker either yields the documented result type or rejects the combination with the documented error. The yes/no questions about "
               "convertibility and operator classes agree with that table, and no combination makes the checker fail in another way.",
     over=["inputs", "configurations"],
     quant="all operators x all pairs (triples) of operand types, with every integer width 1..128 left symbolic",
     why="Tests exercise a few operator/type pairs through whole programs; the table has (types x widths)^2 entries per operator and the widths are unbounded for sampling.",
     files=["src/bms/evaluation/operations.cpp", "src/bms/concrete_type.hpp", "src/bms/evaluation/operations.hpp", "src/bms/expression_type.hpp"],
     mech=[("check_unary_operator / check_binary_operator / check_if_expression", "src/bms/evaluation/operations.cpp"),
           ("Concrete_Type conversion predicates", "src/bms/concrete_type.hpp")],
     technique=AI + "exhaustive over operators and type kinds with widths as interval-bounded symbols; oracle: an independent table of the type rules",
     note="widths are the documented 1..128.")

prop(id="C02", title="Evaluating operators never crashes, whatever the operands are",
     statement="Evaluating any operator, conversion, conditional expression or built-in function on operands of accepted types - known, unknown, or partly known - always "
               "produces a value of the type the checker promised or an evaluation error. No operand value or width leads to an assertion failure, an unreachable branch or a read of a "
               "value that is absent.",
     over=["inputs", "configurations"],
     quant="all operators and operand types, all operand values and widths 1..128, all known/unknown combinations",
     why="Tests only evaluate a few literals; crashes sit at particular widths (128), operand orders or unknown-operand combinations.",
     files=["src/bms/evaluation/operations.cpp", "src/bms/value.hpp", "src/bms/concrete_value.hpp"],
     mech=[("evaluate_unary_operator / evaluate_binary_operator / evaluate_conversion", "src/bms/evaluation/operations.cpp"),
           ("Concrete_Value operations", "src/bms/value.hpp")],
     technique=AI + "every assertion, unreachable marker and access to an absent value is an obligation to be shown infeasible",
     note="widths are the documented 1..128; assertions reached by values of the wrong type are outside the property.")

prop(id="C03", title="Constant evaluation computes the documented operations",
     statement="When both operands are known, a successful evaluation yields the documented mathematical operation: reduced modulo 2^width for unsigned integers of that width, "
               "exact for unbounded-style integers that stay in range, and with truth values for comparisons and logic. Failures are reported exactly for division by zero, shifts by at least the operand "
               "width, unrepresentable conversions and failed assertions.",
     over=["inputs", "configurations"],
     quant="all operators, all operand types with symbolic widths, all operand values (symbolic)",
     why="Tests compare a few concrete results; a wrong wrap-around, signedness or operand order shows only for particular values and widths.",
     files=["src/bms/evaluation/operations.cpp", "src/bms/value.hpp", "src/bms/concrete_value.hpp"],
     mech=[("evaluate_unary_operator / evaluate_binary_operator / evaluate_conversion", "src/bms/evaluation/operations.cpp")],
     technique=AI + "result terms compared in normal form modulo 2^width with an independent specification of each operator",
     note="the wide signed type Int is treated as mathematical integers (its overflow is excluded).")

prop(id="C04", title="No undefined C++ operation is executed while evaluating operators",
     statement="While evaluating operators on any operands of accepted types, the interpreter never divides by zero, shifts by a negative or too large amount, or takes the remainder by zero in the host language. "
               "Each such host operation is reached only when the guard that excludes the undefined operand has been established on that path.",
     over=["inputs", "configurations"],
     quant="all operators, operand types, widths and values, and every path to a host division, remainder or shift",
     why="Undefined host behaviour is invisible to tests unless the exact operand is used under a sanitizer.",
     files=["src/bms/evaluation/operations.cpp", "src/bms/value.hpp", "src/bms/concrete_value.hpp"],
     mech=[("guards before division and shift", "src/bms/evaluation/operations.cpp")],
     technique=AI + "each reached host division/shift is an obligation: divisor non-zero, amount inside [0, bits)",
     note="signed overflow of the 128-bit Int arithmetic is excluded.")

prop(id="C06", title="Generated VM code performs exactly what each construct means",
     statement="For every language construct, the instructions emitted for it perform exactly the construct's evaluations, conversions, branches, stores, calls and returns, in order and with a balanced operand stack, "
               "on every control path and however long the code of its parts is. Code is only appended, all jumps stay within the function, and when generation fails the error is passed on and nothing is left behind.",
     over=["programs", "inputs"],
     quant="all node kinds of function bodies, with arbitrary (opaque) sub-statements and sub-expressions, all operators, argument/parameter type pairs, every branch outcome",
     why="Tests run a few fixed programs whose jump distances and nestings are few; wrong offsets, stack leaks or conversions only show with particular nestings, lengths or branch outcomes.",
     files=["src/bms/vm/codegen.cpp", "src/bms/vm/codegen.hpp", "src/bms/ast.cpp", "src/bms/vm/instructions.hpp"],
     mech=[("generate_code", "src/bms/vm/codegen.cpp"), ("operator of parsed expressions", "src/bms/ast.cpp")],
     technique=AI + "assume/guarantee per node kind with opaque children; the emitted instruction graph is compared, path by path, with an independent definition of each construct",
     note="children contribute code of 2 (thorough: 4) different lengths; paths are compared up to 9 branches; the meaning of single instructions is C05's subject.")

prop(id="C05", title="Every VM instruction has its documented effect in every machine state",
     statement="Executing one instruction changes the operand stack, the variables of the current call, the call stack and the next instruction exactly as documented for that instruction, whatever the machine's state. "
               "Missing operands, uninitialised variables, non-Bool conditions, unresolved jumps, jumps and calls out of the program, endless self-jumps, failing operations and running past the end are each reported "
               "with the documented error and the instruction's origin, and a failing assertion shows the operands of its own comparison only.",
     over=["inputs", "histories"],
     quant="all instructions x operand stacks x program sizes, counters, jump distances, call addresses and operand values (symbolic); all bounded histories of stores, loads, calls and returns",
     why="Tests execute only well-formed generated programs, so error states, negative or far jumps, stale state between assertions and frame mix-ups are not reached.",
     files=["src/bms/vm/vm.cpp", "src/bms/vm/vm.hpp", "src/bms/vm/linear_map_stack.hpp", "src/bms/vm/instructions.hpp"],
     mech=[("Virtual_Machine::cycle", "src/bms/vm/vm.cpp"), ("Linear_Map_Stack", "src/bms/vm/linear_map_stack.hpp")],
     technique=AI + "one cycle from a symbolic machine state per instruction kind, plus exhaustive bounded histories of variable accesses and calls against a reference model",
     note="at most 3 operands and representative operand types (Bool, Int, Uint(8), Uint(16)); histories of up to 5 (thorough: 6) steps over two variables.")

prop(id="C07", title="Semantic analysis enforces the language rules on every construct",
     statement="A program is accepted exactly when every expression, type, declaration and statement in it obeys the language rules: operand and condition types, constant expressions only using constants, widths "
               "of 1 to 128, arguments matching parameters, initialisers, assignments and returned values convertible to their targets, break and continue inside loops, satisfied static assertions and requires-clauses. After "
               "success every node has its type, and its value when that is fixed; otherwise the error names the broken rule and lies in the offending construct. No program makes the analysis crash.",
     over=["programs", "inputs"],
     quant="every construct with every combination of well-formed, ill-formed, constant, run-time and valueless parts, in run-time and constant contexts; all constant values symbolic",
     why="Tests cover a few dozen programs; which rule is applied depends on the context, the order of analysis, and on whether parts are constant, and each combination is its own path.",
     files=["src/bms/analyze.cpp", "src/bms/ast.cpp", "src/bms/analysis_error.hpp", "src/bms/evaluation/operations.cpp"],
     mech=[("analyze_semantics / Type_Analyzer", "src/bms/analyze.cpp")],
     technique=AI + "syntax trees of every node kind with abstract leaves are analysed through the public entry point; types, values, error codes and places are compared with an independent definition of the rules",
     note="names are resolved already (C08); constant evaluation of calls is bounded to bodies with one return; programs have a bounded number of nodes and representative types (Void, Bool, Int, Uint(8), Uint(16), Uint(n)).")

prop(id="C08", title="Names are resolved exactly as the scope rules say",
     statement="Every use of a name - in expressions, calls, assignments, types, requires-clauses and static assertions - is connected to the one visible declaration of that name: a global constant or function (in any order), "
               "a parameter, a variable or constant of an enclosing block declared earlier, or a builtin function. A declaration whose name is already visible, and a use of an invisible name, are reported with their own error "
               "at the right place (and name the earlier declaration). A parameter width that is an unknown name makes the function generic, and nothing else does.",
     over=["programs"],
     quant="all declaration and use sites of every construct, and every way in which the (opaque) names of a program coincide",
     why="Tests contain a few fixed name clashes; scope leaks, missed sub-expressions and order dependence need particular coincidences of names at particular places.",
     files=["src/bms/analyze_name_lookup.cpp", "src/bms/symbol_table.hpp", "src/bms/lookup_result.hpp", "src/bms/ast.hpp"],
     mech=[("analyze_name_lookup / Name_Lookup_Analyzer", "src/bms/analyze_name_lookup.cpp"), ("Symbol_Table", "src/bms/symbol_table.hpp")],
     technique=AI + "identifiers are opaque and each comparison splits the state into an equivalence relation over names; the target of every use is compared with an independent scope model",
     note="programs with up to 7 names; every construct and nesting occurs, deeper nestings follow from the recursive definition.")

prop(id="C09", title="Annotations are accepted exactly where and how they are documented",
     statement="An annotation is accepted exactly when it exists, applies to the construct it is written on, and its positional and named arguments fit its parameters: known names, none twice, none too many, none missing, right "
               "type and value. Otherwise the documented error is reported at the annotation or argument. Accepted annotations and their arguments are stored with their construct, in order. Every annotated construct, "
               "however deep and in whichever part of another construct, is processed.",
     over=["programs", "inputs"],
     quant="every annotated construct at every place, all annotation names, argument names (opaque), argument types and values (symbolic) and combinations of positional and named arguments",
     why="Tests parse a handful of annotations; skipped sub-constructs and wrong table entries only show with the particular annotation at the particular place.",
     files=["src/bms/analyze_annotations.cpp", "src/bms/annotation.hpp", "src/bms/ast.hpp"],
     mech=[("resolve_annotations / annotation tables", "src/bms/analyze_annotations.cpp")],
     technique=AI + "annotations with opaque names, keys and values on every construct; acceptance, errors and stored arguments are compared with an independent table of annotations",
     note="up to 4 annotations per construct and 3 (thorough: 4) arguments per annotation; the parsing of integer literals is C10's subject.")

prop(id="C10", title="Integer literals denote exactly their mathematical value",
     statement="The text of an integer literal - binary, octal, decimal or hexadecimal, upper or lower case digits, with or without a sign, of any length - is converted to exactly its mathematical value when the target type can "
               "represent it, and is rejected otherwise. A literal without digits, or with a character that is no digit, is rejected.",
     over=["inputs"],
     quant="all texts of up to 4 (thorough: 5) characters, and texts of any base with unknown digits around every limit of the representable range and beyond it",
     why="Overflow only shows for digit sequences right at or far beyond the limits of 128 bits, in a particular base.",
     files=["src/common/parse.cpp", "src/common/parse.hpp"],
     mech=[("parse_integer_literal, parse_uinteger_literal", "src/common/parse.cpp")],
     technique=AI + "characters are symbolic, values are exact linear forms over the digits; acceptance and value are compared with an independent reading of the text",
     note="texts whose digits 8 and 9 (octal) or 2..9 (binary) are outside their base are unspecified (they never reach the function as one token).")

prop(id="C15", title="Tokenization splits every source into exactly the longest tokens",
     statement="Every source text is split into the tokens of the language, each as long as possible, with its exact kind, offset, length, line and column; whitespace separates and comments and string literals extend to their ends, over "
               "lines if need be. If that is impossible, the documented error is reported at the offending place. Tokenization never crashes, also at the end of the file, and the tables of token names, lengths and classes "
               "agree with the tokens' spelling.",
     over=["inputs"],
     quant="all sources of up to 2 (thorough: 3) unknown characters, and every operator, keyword, literal, string and comment in the neighbourhood of unknown characters",
     why="Tests tokenize a few valid files; wrong splits show only for particular neighbouring characters, at the end of the file, or after multi-line tokens.",
     files=["src/bms/tokenization/tokenize.cpp", "src/common/parse.cpp", "src/common/parse.hpp", "src/bms/util.cpp"],
     mech=[("tokenize", "src/bms/tokenization/tokenize.cpp"), ("token tables", "src/bms/util.cpp")],
     technique=AI + "characters are symbolic and split into the classes the code distinguishes; tokens and errors are compared on every path with an independent longest-match lexer",
     note="Sources have bounded length; longer tokens occur with known characters around the unknown ones.")

prop(id="C11", title="Parsing accepts exactly the documented grammar and builds its tree",
     statement="A sequence of tokens is parsed successfully if and only if the documented grammar (grammar.ebnf, with comments allowed anywhere and constants ending in a semicolon) derives it. The resulting tree has exactly the "
               "structure, names, operators, literals, annotations and source positions of the derivation. Otherwise an error is reported at the first token which cannot continue the program (or the unsuitable operator before a "
               "comparison), listing only tokens which could occur there. Parsing never crashes.",
     over=["inputs"],
     quant="all sequences of up to 3 (thorough: 4) unknown tokens in each syntactic context, and every token replaced, inserted, removed or cut off in programs covering all productions (thorough: two adjacent unknown tokens)",
     why="Tests parse a few valid programs and a few errors; a wrong decision shows only for particular neighbouring tokens, nestings, comments or missing tokens.",
     files=["src/bms/parsing/parse.cpp", "src/bms/parsing/parse.hpp", "src/bms/parsing/astp.hpp", "src/bms/parsing/grammar.ebnf"],
     mech=[("parse", "src/bms/parsing/parse.cpp")],
     technique=AI + "token types are symbolic and split into the classes the parser distinguishes; trees and errors are compared on every path with an independent recognizer following all derivations",
     note="Programs have bounded length; parse time (which is exponential in nested parentheses) is not covered.")

prop(id="C12", title="The analysed tree is the parsed program, and its entities are found",
     statement="Turning a parsed program into the tree used by analysis, code generation and the API keeps everything: each syntactic construct becomes exactly one node of the corresponding kind, with the same name, operator, "
               "literal, position in the named file, parent, children in their roles, and annotations, and is not yet marked as analysed. Global functions and constants are found by their names (the first one if several share a name), "
               "other names and other kinds of entities are reported as such.",
     over=["inputs"],
     quant="programs covering all productions of the grammar, with each significant token replaced by an unknown one",
     why="Tests look at results of analysing whole programs; a swapped child, lost annotation, wrong operator or wrong position shows only in particular constructs and error messages.",
     files=["src/bms/ast.cpp", "src/bms/ast.hpp", "src/bms/analyzed_program.hpp"],
     mech=[("Analyzed_Program construction", "src/bms/ast.cpp"), ("Analyzed_Program::find_*", "src/bms/ast.cpp")],
     technique=AI + "the constructed tree is read back through its accessors on every path and compared with the derivation of an independent grammar",
     note="Programs have bounded length.")

prop(id="C19", title="Documents are parsed to exactly the tree of the document grammar",
     statement="A document is accepted exactly when the document grammar (grammar.ebnf) and the rules about directives derive it. Its tree has exactly the paragraphs, texts, directives, arguments, blocks and source positions of "
               "the derivation: paragraphs end at empty lines and at directives which stand alone, texts exclude surrounding blanks and comments, raw blocks are kept as they are. Otherwise the documented error is reported at the offending "
               "place. Parsing never crashes, and the tables about directives agree with their documentation.",
     over=["inputs"],
     quant="all sources of up to 2 (thorough: 3) unknown characters in each of 40 syntactic contexts; each character replaced, inserted, removed or cut off in documents covering all rules; all combinations of up to 4 blanks and comments; "
           "every directive with every kind of content and environment",
     why="The tests hold only a few documents; misplaced paragraph breaks, wrong positions and crashes show only for particular neighbouring characters, comments and ends of blocks.",
     files=["src/bmd/parsing/parse.cpp", "src/bmd/parsing/ast.hpp", "src/bmd/enums.cpp", "src/bmd/directive_type.hpp", "src/common/parse.cpp"],
     mech=[("bmd::parse", "src/bmd/parsing/parse.cpp"), ("directive tables", "src/bmd/enums.cpp")],
     technique=AI + "characters are symbolic and split into the classes the code distinguishes; the tree, all positions and errors are compared on every path with an independent parser",
     note="Documents have bounded length; recursion depth is not covered.")

prop(id="C13", title="BMS code generated for a program is that program",
     statement="For every analysed program and all options of formatting, BMS code generation succeeds, and the text is derived by the grammar of BMS in exactly one way, which gives the same program again: the same declarations, "
               "parameters, types, requires-clauses, statements and expressions in the same order and nesting, with the same names, literals and operators. Only annotations, comments, redundant parentheses and white space may differ.",
     over=["programs", "configurations"],
     quant="every kind of node with parts of every kind in every place (by induction programs of any size); all options: brace styles, parenthesization, indentation by spaces or tabs; names and literals of unknown characters",
     why="No test generates code; a missing keyword, separator or pair of parentheses yields another or no program only for particular combinations of constructs and options.",
     files=["src/bmd/codegen/codegen_bms.cpp", "src/bmd/codegen/generator_base.hpp", "src/bmd/codegen/code_string.hpp", "src/bmd/codegen/codegen.cpp", "src/bms/expression_type.hpp"],
     mech=[("Bms_Code_Generator", "src/bmd/codegen/codegen_bms.cpp"), ("Code_Generator_Base", "src/bmd/codegen/generator_base.hpp"), ("compare_precedence", "src/bms/expression_type.hpp")],
     technique=AI + "the generator is followed on trees of every node kind with opaque parts; the characters emitted are read on every path by an independent lexer and grammar and the tree is compared with the one given",
     note="C and C++ output is unfinished in the project and not covered. Annotations and comments are not generated.")

prop(id="C14", title="Documents are converted to HTML of the same structure and text",
     statement="A parsed document is converted to HTML which, read by the rules of HTML, is exactly the structure the document describes: every directive becomes its documented element with its attributes, content and "
               "paragraphs in place, meta data its place in the head, and all text, attribute values and code read back exactly as written, whatever characters they contain. Code is classified by its tokens. "
               "Directives which are misplaced, misused or refer to unsuitable files are reported with their own error at their position. The conversion never crashes.",
     over=["inputs", "configurations"],
     quant="documents covering all directives in all environments, with arguments and nestings; unknown characters in texts, arguments, links and code; all outcomes of loading and tokenizing included files",
     why="Tests compare the output of a few documents; missing escapes, unbalanced tags, wrong spacing and crashes show only with particular characters, neighbours, empty blocks or arguments.",
     files=["src/bmd/html/doc_to_html.cpp", "src/bmd/html/html_writer.cpp", "src/bmd/html/html_writer.hpp", "src/bmd/html/bms_to_html.cpp", "src/bmd/enums.cpp"],
     mech=[("doc_to_html", "src/bmd/html/doc_to_html.cpp"), ("HTML_Writer", "src/bmd/html/html_writer.cpp"), ("bms_inline_code_to_html, token classes", "src/bmd/html/bms_to_html.cpp")],
     technique=AI + "the emitted tokens are read on every path by an independent reader of HTML and compared with an independent conversion of the document",
     note="Documents have bounded length; the parsed document is C19's subject and the tokens of code are C15's; syntax colours are compared by token kind.")

prop(id="C16", title="Every error is reported with its place, its source line and a message",
     statement="Whatever error a stage reports, printing it succeeds and shows, on the stream given, first a line `file:line:column: error: message` with the one-based place of the error and a message which says what is wrong and "
               "differs between different kinds of errors, then the source line containing the place with a caret below the column (also at ends of lines and of the file); unexpected tokens, what was being parsed, and what was expected "
               "instead are named by their spelling; a note about the cause of an error shows the place (or the name) of the cause, and about a failed comparison its values and operator; there are escape codes only if colors are on. Names of codes and kinds are those of their enumerators, and 128-bit numbers are printed in exact decimal notation.",
     over=["inputs"],
     quant="every error code of every stage; every place in sources of up to 4 (thorough: 6) unknown characters; every token kind found or expected; programs cut off at every token; every analysis error built on any path through "
           "the analyses of C07 to C09; all 128-bit integers",
     why="Tests never look at printed errors; a missing message, wrong line or failing assertion shows only for the one error and place concerned, when the user needs it.",
     files=["src/common/diagnostics.cpp", "src/bms/analysis_error.hpp", "src/bms/analyze.cpp", "src/bms/parsing/parse.cpp", "src/bms/tokenization/token_type.hpp"],
     mech=[("print_*_error, print_affected_line, find_line", "src/common/diagnostics.cpp"), ("to_string(Int128), to_string(Uint128)", "src/common/diagnostics.cpp"), ("Analysis_Error_Builder", "src/bms/analysis_error.hpp")],
     technique=AI + "the printing functions write to a model of streams which records characters (symbolic ones included) and formatting; their output is read and compared with place, source and code",
     note="The wording of messages is judged only by presence, distinctness and the names in it.")

prop(id="C17", title="The command line tool succeeds exactly if the result was written",
     statement="For every command line and every outcome of its stages (loading, tokenizing, parsing, analysing, generating, converting, writing), the tool exits with status 0 if and only if all stages of the command succeeded "
               "and the complete result was written to standard output or to the output file; otherwise with another status, after a message, where an error of a stage is printed with its file and source, and no later stage runs. "
               "Each stage works on the result of the previous one, and no exception leaves main. Files are loaded completely or with an error, languages are found by all their documented names, and generated code and HTML reach "
               "the stream character by character.",
     over=["inputs", "fault_sequences"],
     quant="all commands with known and unknown files, languages and numbers of arguments; success, failure and exceptions of each kind at every stage; failures to open, read and write; files of all sizes around the sizes of blocks",
     why="Tests do not run the tool; wrong exit statuses and lost output show only when a particular stage or write fails.",
     files=["src/cli/main.cpp", "src/cli/compile.cpp", "src/cli/glue.cpp", "src/common/io.cpp", "src/bmd/codegen/code_string.hpp"],
     mech=[("main and the commands", "src/cli/main.cpp"), ("stages", "src/cli/compile.cpp"), ("file_to_string", "src/common/io.cpp"), ("HTML consumers, print_code_string", "src/cli/glue.cpp")],
     technique=AI + "the stages are replaced by outcomes (success, error, exception) which are all followed; exit status, messages, stream states and data passed on are judged on every path",
     note="The stages themselves are the subjects of other properties.")

prop(id="C18", title="Every stage ends, with work and recursion bounded by the input's size",
     statement="For every program and document, each stage (tokenizing, parsing, analysing, generating, converting) ends, its recursion is no deeper than the nesting of the input, and its running time is polynomial in the size of the input.",
     over=["inputs"],
     quant="all sources of any size",
     why="Tests use small inputs; the growth of work with the size of the input cannot be sampled.",
     files=["src/bms/parsing/parse.cpp", "src/bms/analyze.cpp", "src/bmd/parsing/parse.cpp"],
     mech=[("recursive descent with backtracking", "src/bms/parsing/parse.cpp"), ("evaluation of loops and calls during analysis", "src/bms/analyze.cpp")],
     na="No sound static argument in reach bounds it: constant evaluation runs user-written loops and recursive functions of BMS (undecidable in general, and documented to be so), and the work of the backtracking parser depends on how often the "
        "same tokens are parsed again, a runtime quantity for which neither the structure of the call graph nor the abstract domain of this framework yields a bound. The bounded structures which the other checks follow say nothing about growth.")
