#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
U="src/utils.cpp"; A="src/annotations.cpp"; AH="include/libqasm/annotations.hpp"
p("C01","JSON string encoding is lossless and always legal JSON",
  "For every byte string, the JSON-encoded form placed between double quotes is a legal JSON string literal (no raw double quote, backslash or control character; every escape complete) that a JSON decoder turns back into exactly the original text. Bytes that need no escaping, including every byte of multi-byte UTF-8 text, are passed through unchanged.",
  ["inputs"],"every byte string","Tests encode two or three ASCII strings; the guarantee is about every byte value in every position.",
  [U,"include/libqasm/utils.hpp"],[("json_encode",U)],["cqasm::utils::json_encode"])
p("C02","URL encoding is lossless and emits only URL-safe characters",
  "For every byte string, the URL-encoded form consists only of ASCII letters, digits, '-', '_', '.', '~' and complete upper-case percent escapes, leaves exactly those unreserved characters unescaped, and percent-decoding it gives back exactly the original bytes. Different inputs therefore never get the same encoding.",
  ["inputs"],"every byte string","Tests encode a handful of strings; injectivity and losslessness quantify over all byte values and positions.",
  [U],[("url_encode",U)],["cqasm::utils::url_encode"])
p("C03","Lower-casing and case-insensitive comparison agree for all text",
  "Lower-casing maps each ASCII upper-case letter to its lower-case letter and leaves every other byte, the order and the length unchanged. Two strings compare equal case-insensitively exactly when their lower-cased forms are identical, so in particular strings of different length are never equal and the comparison is symmetric and transitive.",
  ["inputs"],"every pair of byte strings","Tests compare a few ASCII words; equivalence over all pairs of byte strings, including different lengths and non-letters, is not sampled.",
  [U],[("to_lowercase / equal_case_insensitive",U)],["cqasm::utils::to_lowercase","cqasm::utils::equal_case_insensitive"])
p("C04","Stripping raw-string delimiters returns exactly the enclosed text",
  "For every text, wrapping it in triple single quotes and stripping the delimiters returns exactly that text, byte for byte, including the empty text, text that itself contains quotes, newlines or NUL bytes. No byte of the enclosed backend code is lost, added or changed.",
  ["inputs"],"every byte string as enclosed text","Tests strip two texts; edge positions and embedded quotes are not covered.",
  [U,"src/v3x/syntactic_analyzer.cpp"],[("remove_triple_quotes",U)],["cqasm::utils::remove_triple_quotes"])
p("C05","A source range is never inverted and expansion is the least covering range",
  "Constructing a source range never leaves its last position before its first, keeping the given first position. Expanding a location to include a position yields exactly the smallest range, in line-then-column order, that contains the old range and the position; it never shrinks the range, is idempotent, and does not depend on the order in which positions are included.",
  ["inputs","histories"],"all 32-bit line/column values of the range and of a sequence of included positions","Tests use a few small line/column pairs; mixed orders (greater line with smaller column) and sequences are unsampled.",
  [A,AH],[("SourceLocation::Range constructor",A),("SourceLocation::expand_to_include",A)],["SourceLocation::range"])
p("C06","Source locations have a consistent total order and exact equality",
  "Positions and ranges are ordered lexicographically (line, then column; first, then last) and that order is total, antisymmetric and transitive for all 32-bit values. Two source locations are equal exactly when their file names and both positions are equal, and ordering of locations follows their ranges.",
  ["inputs"],"all triples of locations with arbitrary 32-bit coordinates and optional file names","A test can only compare chosen pairs; order laws quantify over triples.",
  [AH],[("operator== / operator<=>",AH)],["SourceLocation comparison operators"])
p("C07","A source location prints exactly its known parts",
  "A printed location is the file name (or the unknown-file placeholder when absent or empty), then the line, then the column when known, then the end position only when it lies after the start: as a column on the same line, as a line when only lines are known, as line and column otherwise. Nothing else is printed, all numbers are the exact decimal coordinates, and a location with no line prints only the file name.",
  ["inputs"],"all optional file names and all 32-bit coordinates, including ranges mutated after construction","Tests print about ten locations; every combination of zero/non-zero and less/equal/greater coordinates is needed.",
  [A,AH,"include/libqasm/annotations_constants.hpp"],[("operator<< for SourceLocation",A),("SourceLocation constructor (empty file name)",A)],["std::ostream output"])
p("C08","An error keeps its message and its first location",
  "The text of an error is 'Error', then ' at <location>' exactly when a location is attached, then ': ' and the message, with a fixed placeholder for an empty message. Giving context to an error attaches the location of the node only if the error has none yet and the node has one; a location once attached is never replaced or lost.",
  ["inputs","histories"],"all messages, all locations, all sequences of context operations","Tests build a few errors; first-location-wins is a history property.",
  ["src/error.cpp","include/libqasm/error.hpp"],[("Error constructors, context, what",  "src/error.cpp")],["Error::what()","operator<<"])
p("C09","Error diagnostics are well-formed LSP JSON for any message or file name",
  "For every error message, file name and location, the JSON form of an error is syntactically valid JSON with the range start and end coordinates, the message decoding to exactly the error message, and severity 1. Related information naming the file as a percent-encoded file URI is present exactly when the error's location has a file name.",
  ["inputs"],"all byte strings as message and file name, all 32-bit coordinates","Tests compare a few fixed diagnostics; quotes, braces, backslashes and control characters in messages and paths are not sampled.",
  ["src/error.cpp",U],[("Error::to_json","src/error.cpp"),("json_encode, url_encode",U)],["Error::to_json()"])
p("C10","A result is either a tree or errors, never both and never neither",
  "Converting a result to strings yields exactly one entry holding the serialized tree when there are no errors; otherwise the first entry is empty and is followed by exactly one text per error, in order. The JSON conversion likewise yields either the tree's JSON or an object whose errors array holds every error's JSON exactly once, in order.",
  ["inputs"],"all numbers and contents of errors","Tests use zero or a few errors.",
  ["include/libqasm/result.hpp"],[("to_strings, to_json, errors_to_json","include/libqasm/result.hpp")],["cqasm::result functions","Python API return values"])
p("C11","Versions parse, print and compare as dotted number sequences",
  "A dotted sequence of non-negative decimal numbers parses to exactly those components and prints back as the same sequence; a component that is empty, does not start with a number, is negative or too large is rejected with an exception. Comparison is a total order that compares component by component with missing components counting as zero, and equality is consistent with it.",
  ["inputs"],"all version strings and all pairs/triples of versions","No test in the offline suite touches versions; order laws quantify over all versions and lengths.",
  ["src/version.cpp","include/libqasm/version.hpp"],[("Version constructor, compare, operator<<","src/version.cpp")],["cqasm::version::Version"])
p("C12","String building concatenates fragments and decodes known escapes",
  "A built string is the concatenation, in order, of the pushed fragments and of the meaning of the pushed escapes. The escapes for tab, newline, carriage return, single quote, double quote and backslash decode to that one character; any other escape text is kept verbatim.",
  ["inputs","histories"],"all sequences of fragments and escapes","There is no test of the string builder.",
  ["src/string_builder.cpp","include/libqasm/string_builder.hpp"],[("StringBuilder","src/string_builder.cpp")],["StringBuilder::stream"])
p("C13","Overload resolution picks the last applicable overload, promoting arguments",
  "Among the overloads registered under a name, a call resolves to the most recently registered one with the same number of parameters to whose types all arguments can be promoted, and the returned arguments are those promotions in order. An unknown name and a name without applicable overload are reported as two distinct failures, matching of names is case-sensitive, and resolution never changes the table.",
  ["programs","histories"],"all small overload tables, all argument lists over the value kinds","Tests never register competing overloads; the guarantee is about every registration order.",
  ["include/libqasm/overload.hpp"],[("OverloadResolver::resolve, OverloadedNameResolver","include/libqasm/overload.hpp")],["OverloadedNameResolver::resolve"])
p("C14","Promotion follows bool -> int -> float, preserves values and matches its check",
  "A value is promoted to a type exactly when the types are equal or the value is a boolean going to integer or float, or an integer going to float; no other conversion happens; references to bit and qubit variables keep their own type. The promoted value has the target type, the same numeric value and the source location of the original, and the promotability check on types says yes exactly when promotion of a constant succeeds.",
  ["inputs"],"all constants (all 64-bit integers, both booleans, all doubles), all variable kinds, all target types","Only a few pairs are tested.",
  ["src/v3x/values.cpp","src/v3x/types.cpp"],[("promote, check_promote","src/v3x/values.cpp"),("type_check","src/v3x/types.cpp")],["values::promote"])
p("C15","Type and size of values and references are consistent",
  "The size of a variable reference is the size of the variable, of an index reference the number of its indices, of a constant one. The type of an index reference with one index is the element type of the array and otherwise the array type, and type letters map to exactly the documented types while unknown letters are rejected.",
  ["inputs"],"all sizes, all index counts within bounds, all value kinds, all characters","Tests cover a few sizes.",
  ["src/v3x/values.cpp","src/v3x/types.cpp"],[("type_of, size_of, element_type_of","src/v3x/values.cpp"),("from_spec","src/v3x/types.cpp")],["values::type_of","values::size_of","types::from_spec"])
p("C16","Constant expressions fold to the language's arithmetic result and type",
  "For all constant operands the folded value of every operator and built-in function is the exact result defined by the language (64-bit two's-complement integers that wrap on overflow, IEEE doubles, booleans; integer division truncating, modulo taking the dividend's sign), with a result type given by the operand types after promotion. Division or modulo by zero, shift counts outside 0 to 63 and combinations of operand types without a defined operator are rejected with an error, never silently converted.",
  ["inputs","programs"],"all operand values of all operand type combinations for every operator and function","Golden tests fold a few dozen literal expressions; all 64-bit operands cannot be sampled.",
  ["include/libqasm/v3x/register_consteval_core_functions.hpp","src/v3x/register_consteval_core_functions.cpp"],[("operator tables","src/v3x/register_consteval_core_functions.cpp")],["Analyzer::resolve_function","semantic tree constants"])
p("C17","Evaluating a constant expression never crashes the analyser",
  "For all constant operands, evaluating any operator or built-in function either gives a value or reports an analysis error. Division or modulo by zero, overflow and out-of-range shift counts never terminate the process nor execute an operation with undefined behaviour.",
  ["inputs"],"all 64-bit operand values of every operator","Tests never divide by zero.",
  ["include/libqasm/v3x/register_consteval_core_functions.hpp"],[("op_div_ii, op_mod_ii, op_shl_ii, op_shr_ii, ...","include/libqasm/v3x/register_consteval_core_functions.hpp")],["Analyzer::resolve_function"])
p("C18","Built-in names denote their documented values and functions",
  "The predefined names true, false, pi, eu and tau denote their mathematical values, and each predefined mathematical function applied to a constant denotes exactly that function of its argument. Names are case-sensitive, predefined names cannot be redeclared, and an unknown function or variable name is an error naming it.",
  ["inputs","programs"],"all names up to the bound, all arguments","Tests use a few function calls.",
  ["src/v3x/analyzer.cpp","src/v3x/register_consteval_core_functions.cpp"],[("register_default_constants, register_default_functions","src/v3x/analyzer.cpp")],["Analyzer::resolve_variable","Analyzer::resolve_function"])
p("C19","Primitive values survive serialization unchanged",
  "Serializing any boolean, integer, double, string, version or other tree primitive and deserializing it gives back an identical value (bit-identical for doubles). Default-initialized primitives have the documented neutral value.",
  ["inputs"],"all values of each primitive type (strings and versions up to the bound)","No test serializes primitives over their range.",
  ["src/v3x/primitives.cpp"],[("serialize/deserialize","src/v3x/primitives.cpp")],["primitives::serialize/deserialize"])
p("C20","Instruction and function references survive serialization unchanged",
  "Serializing an instruction or core-function reference and deserializing it gives an equal reference: same name and the same operand, parameter and return types in order; an empty reference stays empty. Two references are equal exactly when name and types agree.",
  ["inputs"],"all names and type lists up to the bound","No test covers it.",
  ["src/v3x/instruction.cpp","src/v3x/core_function.cpp"],[("serialize/deserialize, operator==","src/v3x/instruction.cpp")],["primitives::serialize/deserialize"])
p("C21","Only the supported language version is accepted",
  "A program is accepted only if its declared version equals the analyser's version (missing components counting as zero); any other version is reported as an error located at the version and the analysis continues with the supported version. An analyser for any other API version cannot be constructed.",
  ["inputs","programs"],"all version component sequences within bounds","Tests use two or three version numbers.",
  ["src/v3x/semantic_analyzer.cpp","src/v3x/analyzer.cpp"],[("visit_version","src/v3x/semantic_analyzer.cpp"),("Analyzer constructor","src/v3x/analyzer.cpp")],["AnalysisResult"])
p("C22","Variable declarations are recorded exactly, with positive sizes and unique names",
  "A declared variable appears in the result once, in declaration order, with its declared name, element kind and size; a scalar has size one. Declaring a non-positive size or a name already in use is an error located at the declaration, and every later reference denotes exactly the declared variable.",
  ["programs","inputs"],"all sizes (64-bit), all declaration sequences and names within bounds","Tests use small sizes and few variables.",
  ["src/v3x/semantic_analyzer.cpp","include/libqasm/v3x/semantic_analyzer.hpp","src/v3x/resolver.cpp"],[("visit_variable, build_semantic_type","src/v3x/semantic_analyzer.cpp"),("VariableTable","src/v3x/resolver.cpp")],["semantic::Program::variables"])
p("C23","Instructions are accepted exactly as the instruction set specifies",
  "An instruction in a program is accepted exactly when the instruction set lists its name with parameter types to which its parameters promote and with operand types equal to those of its operands. The accepted statement records the name, promoted parameters and operands in source order; anything else is reported as an error.",
  ["programs"],"all instruction names of the set plus unknown names, all parameter and operand kinds within bounds","Golden tests sample a fraction of name/type combinations.",
  ["src/v3x/semantic_analyzer.cpp","src/v3x/instruction_set.cpp","src/v3x/register_instructions.cpp"],[("resolve_parameters, visit_gate_instruction, visit_non_gate_instruction","src/v3x/semantic_analyzer.cpp"),("instruction tables","src/v3x/instruction_set.cpp")],["AnalysisResult"])
p("C24","Multi-qubit operands and measurements always have matching sizes",
  "In every accepted gate instruction all operands denote the same number of qubits, and in every accepted measurement the number of bits equals the number of qubits; an instruction violating this is rejected with an error. Sizes count the elements of arrays, the entries of index lists and one for scalars.",
  ["programs","inputs"],"all array sizes and index lists within bounds","Tests cover a few sizes.",
  ["src/v3x/semantic_analyzer.cpp"],[("check_qubit_operands_indices_have_same_size, check_qubit_and_bit_indices_have_same_size","src/v3x/semantic_analyzer.cpp")],["AnalysisResult"])
p("C25","Every index in an accepted program is inside its array",
  "Every index of every index reference in an accepted program lies in [0, size) of the referenced array, and the recorded indices are exactly those written (booleans counting as 0 and 1), in order, with ranges expanded inclusively. An index outside the array, an inverted range, a non-constant or non-integer index, or indexing something that is not an array is rejected with an error and never crashes.",
  ["programs","inputs"],"all 64-bit index values and array sizes, index lists within bounds","Tests use a few small indices.",
  ["src/v3x/semantic_analyzer.cpp"],[("visit_index, visit_index_range, check_out_of_range","src/v3x/semantic_analyzer.cpp")],["AnalysisResult"])
p("C26","Gate modifiers compose only over single-qubit gates and keep operand rules",
  "Inverse and power of a gate take the operands of that gate, control takes one more qubit operand in front; the power exponent must promote to a float. A modifier applied to a two-qubit gate, a controlled gate or an unknown gate is rejected with an error, and an accepted composition records the modifiers in source order.",
  ["programs"],"all modifier chains within bounds over all gates","Golden tests sample some chains.",
  ["src/v3x/semantic_analyzer.cpp","src/v3x/register_instructions.cpp"],[("get_gate_resolution_name, check_gate, visit_gate","src/v3x/semantic_analyzer.cpp"),("register_instructions","src/v3x/register_instructions.cpp")],["AnalysisResult"])
p("C27","Each erroneous statement is reported once, in place; good ones are kept",
  "Analysing a program yields exactly one error per erroneous statement (and one per erroneous operand of an annotation, which does not discard the annotated statement), in program order, each located inside that statement, and does not let an erroneous statement suppress the checking of later ones. Correct statements and declarations appear in the tree in source order, and an error-free analysis always yields a complete tree.",
  ["programs"],"all programs of statements that are each good or bad, within bounds","Tests mostly hold one error per program.",
  ["src/v3x/semantic_analyzer.cpp","src/v3x/analyzer.cpp"],[("error collection in visit_*","src/v3x/semantic_analyzer.cpp")],["AnalysisResult::errors"])
p("C28","Instruction classification is consistent with the instruction tables",
  "Every name is classified as at most one of single-qubit gate, two-qubit gate, non-gate instruction and gate modifier; the classification of every named gate agrees with the number of qubit operands in the tables, and every table entry is classified. Queries for parameter types answer for exactly the listed names and raise an analysis error for all others.",
  ["inputs"],"all names up to the bound, all table entries","Tests probe a few names.",
  ["src/v3x/instruction_set.cpp","include/libqasm/v3x/instruction_set.hpp"],[("InstructionSet","src/v3x/instruction_set.cpp")],["InstructionSet queries"])
p("C29","Analysing a program does not depend on what was analysed before",
  "The result of analysing a program with an analyser depends only on that program and on what was registered: analysing other programs before, valid or not, does not change variables, statements or errors of the result.",
  ["histories","programs"],"all pairs of programs within bounds","Tests always use a fresh analyser.",
  ["src/v3x/analyzer.cpp","include/libqasm/v3x/analyzer.hpp"],[("Analyzer::analyze","src/v3x/analyzer.cpp")],["AnalysisResult"])
p("C30","Parse errors and analysis results are passed on unchanged",
  "If parsing produced errors, analysis returns exactly those errors, in order, and no tree; otherwise the analysis is that of the parsed tree. Every entry point (file or text, C++, Python or JavaScript binding, JSON or serialized tree) reports the same tree or the same errors for the same program; a file name given with a text only changes the file name shown, and a file that cannot be read is reported as an error.",
  ["inputs","programs"],"all error lists and programs within bounds","Tests use a few broken files.",
  ["src/v3x/analyzer.cpp","src/v3x/parse_helper.cpp","src/v3x/cqasm.cpp","src/v3x/cqasm_python.cpp","src/v3x/antlr_scanner.cpp","emscripten/emscripten_wrapper.cpp"],[("Analyzer::analyze, analyze_string","src/v3x/analyzer.cpp"),("V3xAnalyzer","src/v3x/cqasm_python.cpp"),("EmscriptenWrapper","emscripten/emscripten_wrapper.cpp"),("file and string scanners","src/v3x/antlr_scanner.cpp")],["AnalysisResult"])
p("C31","Operators parse with the documented precedence and associativity",
  "Every expression parses to the tree given by the documented operator precedence and associativity, and parentheses override them. In particular power and the conditional operator associate to the right, all other binary operators to the left, and unary operators bind tighter than binary ones.",
  ["programs"],"all operator sequences within bounds","Tests parse some pairs of operators.",
  ["src/v3x/CqasmParser.g4","src/v3x/syntactic_analyzer.cpp"],[("expression rule","src/v3x/CqasmParser.g4"),("visit*Expression","src/v3x/syntactic_analyzer.cpp")],["syntactic tree"])
p("C32","Numeric literals keep their exact value or are reported out of range",
  "An integer literal in a program denotes exactly its decimal value if it fits a signed 64-bit integer and otherwise is reported as an out-of-range error at its position; leading zeros do not matter. Boolean literals denote their truth value; a floating-point literal denotes the nearest double of its whole text, or is reported as out of range when it is too large.",
  ["inputs"],"all digit strings within bounds","Tests use a few literals.",
  ["src/v3x/syntactic_analyzer.cpp"],[("get_int_value, get_float_value, get_bool_value","src/v3x/syntactic_analyzer.cpp")],["syntactic tree","ParseResult::errors"])
p("C33","Nodes and parse errors are located at their token, one-based, in the given file",
  "The location of a syntax node built from a token is the token's line and one-based column, ending after the token's text, in the given file; a declared array type extends to its closing bracket. A syntax error is located at the offending token with one-based columns and zero width at the end of input, and an empty file name counts as no file name.",
  ["inputs"],"all line/column/token sizes within 32-bit, all file names","Tests check some locations.",
  ["src/v3x/syntactic_analyzer.cpp","src/v3x/antlr_custom_error_listener.cpp"],[("setNodeAnnotation, expandNodeAnnotation","src/v3x/syntactic_analyzer.cpp"),("AntlrCustomErrorListener::syntaxError","src/v3x/antlr_custom_error_listener.cpp")],["SourceLocation annotations"])
p("C34","Exactly the texts of the language parse; layout never changes the meaning",
  "Blanks, tabs, comments, blank lines and the choice between newline and semicolon as separator do not change the parsed program, except inside raw text and for source locations. A text parses exactly when it belongs to the documented language; any other text gives at least one error and no tree.",
  ["inputs"],"all layout insertions within bounds","Tests have a few layouts.",
  ["src/v3x/CqasmLexer.g4","src/v3x/CqasmParser.g4"],[("skip rules","src/v3x/CqasmLexer.g4")],["ParseResult"])
p("C35","The Python package hands out exactly what the library produced",
  "For every integer, boolean, floating-point value, text, version and instruction reference in the form the library writes, the Python package's decoder returns the same value, and encoding it and decoding it again gives an equal value. Analysing or parsing from Python returns the decoded tree, byte for byte, when the library reports no errors and otherwise exactly the list of errors in order; JSON results are passed on unchanged and every argument reaches the library.",
  ["inputs"],"all primitive values, all result lists and arguments within bounds","No offline test runs the Python package.",
  ["python/module/cqasm/v3x/primitives.py","python/module/cqasm/v3x/instruction.py","python/module/cqasm/v3x/__init__.py"],[("serialize/deserialize","python/module/cqasm/v3x/primitives.py"),("Analyzer","python/module/cqasm/v3x/__init__.py")],["cqasm.v3x.Analyzer","cqasm.v3x.primitives"])
p("C36","Nodes of the semantic tree say where in the text they come from",
  "In the tree that analysis gives, every statement, gate (modifiers included), annotation and version carries exactly the source location of the syntax node it was made from, every variable that of its name, every parameter and operand value, promoted and folded ones included, that of the expression it was written as, and every index that of its item or range; nodes made from syntax without location carry none. The block spans its located statements. The locations in a result do not change when names or constants are used again or other programs are analysed.",
  ["inputs","histories"],"all 32-bit lines and columns of all located nodes, within the listed programs","Tests never look at the locations in a semantic tree, except through a few error messages.",
  ["src/v3x/semantic_analyzer.cpp","src/v3x/analyzer.cpp","src/v3x/values.cpp","src/v3x/resolver.cpp"],[("copy_annotation in every visit_*","src/v3x/semantic_analyzer.cpp"),("Analyzer::add_statement_to_current_scope","src/v3x/analyzer.cpp"),("promote","src/v3x/values.cpp")],["SourceLocation annotations of AnalysisResult::root"])
p("C37","Scopes nest: the innermost declaration of a name is the one meant",
  "In an analyser, a registered variable or instruction is visible in the scope it was registered in and in the scopes entered inside it until that scope is left, and nowhere else; a name denotes the variable of the innermost scope that has it, with the registered value, and a call the most recently registered applicable instruction of the innermost scope that has one. Only registering a variable twice in the same scope is an error. Functions are found from every scope. Leaving a scope brings back what was visible before, copies of an analyser are independent of it, and looking up changes nothing.",
  ["histories"],"all histories of entering, leaving, copying, registering and looking up within bounds","Tests never enter a second scope.",
  ["src/v3x/analyzer.cpp","src/v3x/resolver.cpp","include/libqasm/v3x/scope.hpp"],[("Analyzer::push_scope, pop_scope, register_*, resolve_*","src/v3x/analyzer.cpp"),("VariableTable, InstructionTable, ConstEvalCoreFunctionTable","src/v3x/resolver.cpp")],["Analyzer::resolve_variable","Analyzer::resolve_instruction","Analyzer::resolve_function"])
p("C38","The syntax tree of a program holds exactly what is written",
  "Parsing a program gives a syntax tree with exactly its statements, in the order written: declarations with their type, size and name; gates with their modifiers from outermost to innermost, their parameters and operands in order; measurements with the result first and the measured operand second, and their parameters; the other instructions with their keyword, parameter and operand; assembly with its backend and text. Every expression is the operation, call, index list (items and ranges in order) or literal that is written, with the names as spelled, and a version has the numbers written.",
  ["inputs","programs"],"all programs within bounds: every statement and expression form in every place","Tests parse a handful of programs, mostly through the semantic tree.",
  ["src/v3x/syntactic_analyzer.cpp","src/v3x/CqasmParser.g4","src/v3x/CqasmLexer.g4"],[("SyntacticAnalyzer::visit*","src/v3x/syntactic_analyzer.cpp")],["ParseResult::root"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
