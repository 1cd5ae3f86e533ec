"""Planted changes (see mkbug.py). Written from the property texts and the code, not from the checks."""
BUGS = []
def bug(id, prop, what, needs, edits, demo, src="A"):
    BUGS.append(dict(id=id, prop=prop, what=what, needs=needs, edits=edits, demo=demo, src=src))
UT, AN, ER = "src/utils.cpp", "src/annotations.cpp", "src/error.cpp"
SA, SY, AZ = "src/v3x/semantic_analyzer.cpp", "src/v3x/syntactic_analyzer.cpp", "src/v3x/analyzer.cpp"
FN = "include/libqasm/v3x/register_consteval_core_functions.hpp"
ANALYSE = r'''
#include <cstdio>
#include <string>
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/parse_helper.hpp"
using namespace cqasm::v3x;
static bool ok(const std::string& text) { try { return default_analyzer("3.0").analyze_string("version 3.0\n" + text, std::nullopt).errors.empty(); } catch (...) { return false; } }
static std::string json(const std::string& text) { return default_analyzer("3.0").analyze_string("version 3.0\n" + text, std::nullopt).to_json(); }
'''
bug("json-keeps-escapes", "C01", "json_encode leaves a backslash that already starts an escape sequence alone, so different texts encode to the same string", "a backslash followed by a letter n or u in the text",
    [(UT, """    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
        ret += (c == '"' ||""", """    std::for_each(str.begin(), str.end(), [&ret, &str, i = size_t{ 0 }](unsigned char c) mutable {
        i++;
        if (c == '\\\\' && i < str.size() && (str[i] == 'n' || str[i] == 'u')) {
            ret += '\\\\';
            return;
        }
        ret += (c == '"' ||""")],
    r"""
#include "libqasm/utils.hpp"
int main() { return cqasm::utils::json_encode("a\\nb") == "a\\u005Cnb" && cqasm::utils::json_encode("C:\\users") == "C:\\u005Cusers" ? 0 : 1; }""")
bug("url-keeps-percent", "C02", "url_encode leaves '%' alone when two hexadecimal digits follow, so decoding does not give the text back", "a percent sign followed by two hexadecimal digits",
    [(UT, '''    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
        ret += (std::isalnum(c) ||''', '''    size_t i = 0;
    std::for_each(str.begin(), str.end(), [&ret, &str, &i](unsigned char c) {
        const auto pos = i++;
        const auto encoded = c == '%' && pos + 2 < str.size() && std::isxdigit(static_cast<unsigned char>(str[pos + 1])) &&
            std::isxdigit(static_cast<unsigned char>(str[pos + 2]));
        ret += (encoded || std::isalnum(c) ||''')],
    r'''
#include "libqasm/utils.hpp"
int main() { return cqasm::utils::url_encode("a%20b") == "a%2520b" && cqasm::utils::url_encode("100%") == "100%25" ? 0 : 1; }''')
bug("case-bit", "C03", "equal_case_insensitive ignores bit 0x20 of every character, not only of letters", "a pair such as '[' and '{'",
    [(UT, "return std::tolower(l) == std::tolower(r);", "return l == r || ((l | 0x20) == (r | 0x20) && l >= 'A' && r >= 'A');")],
    r'''
#include "libqasm/utils.hpp"
int main() { using cqasm::utils::equal_case_insensitive; return !equal_case_insensitive("q[0", "q{0") && !equal_case_insensitive("_", "\x7f") && equal_case_insensitive("aB", "Ab") ? 0 : 1; }''')
bug("range-key", "C06", "positions are ordered by a packed key in which columns of 65536 and more run into the line", "a column of at least 65536",
    [("include/libqasm/annotations.hpp", "        auto operator<=>(const Index& other) const = default;\n    };", '''        [[nodiscard]] std::uint64_t key() const { return (static_cast<std::uint64_t>(line) << 16U) + column; }
        auto operator<=>(const Index& other) const { return key() <=> other.key(); }
    };''')],
    r'''
#include "libqasm/annotations.hpp"
using I = cqasm::annotations::SourceLocation::Index;
int main() { return I{ 1, 70000 } < I{ 2, 1 } && I{ 1, 65536 } < I{ 2, 0 } ? 0 : 1; }''')
bug("expand-same-line", "C05", "expanding with a position on the last line replaces the last position even if its column is smaller", "expanding by a position earlier on the last line",
    [(AN, "    range.last = std::max<Index>(range.last, index);", '''    if (index.line >= range.last.line && index != range.first) {
        range.last = index;
    }''')],
    r'''
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations;
int main() { SourceLocation l{ std::nullopt, { { 1, 5 }, { 3, 9 } } }; l.expand_to_include({ 3, 4 }); return l.range.last.line == 3 && l.range.last.column == 9 ? 0 : 1; }''')
bug("print-signed", "C07", "line and column numbers are printed as signed integers", "a column of at least 2^31 on a location that spans several lines",
    [(AN, '''os << ".." << object.range.last.line << ":" << object.range.last.column;''', '''os << ".." << object.range.last.line << ":" << static_cast<std::int32_t>(object.range.last.column);''')],
    r'''
#include <sstream>
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations;
int main() { std::ostringstream o; o << SourceLocation{ std::nullopt, { { 1, 5 }, { 3, 3000000000u } } }; return o.str().find("..3:3000000000") != std::string::npos ? 0 : 1; }''')
bug("error-what-cache", "C08", "the text of an error is formatted only once, so a location attached later never shows", "asking for the text before the location is attached",
    [(ER, '''    what_message_ = fmt::format("Error{}: {}",
        location_ ? fmt::format(" at {}", *location_) : std::string{},
        !message_.empty() ? message_ : unknown_error_message);''', '''    if (what_message_.empty()) {
        what_message_ = fmt::format("Error{}: {}",
            location_ ? fmt::format(" at {}", *location_) : std::string{},
            !message_.empty() ? message_ : unknown_error_message);
    }''')],
    r'''
#include <cstring>
#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/v3x/semantic.hpp"
int main() { cqasm::error::Error e{ "m" }; std::string a = e.what(); cqasm::v3x::semantic::Block b; b.set_annotation(cqasm::annotations::SourceLocation{ std::nullopt, { { 2, 3 }, { 2, 4 } } }); e.context(b); return a == "Error: m" && std::strstr(e.what(), ":2:3..4: m") ? 0 : 1; }''', "F")
bug("json-uri-raw", "C09", "the file name in an error's related information keeps its slashes and what follows a colon unencoded", "a file name with a quote after a colon",
    [(ER, "            cqasm::utils::url_encode(location_->file_name.value()),", '''            location_->file_name.value().starts_with("/") ? location_->file_name.value().substr(1)
                                                           : cqasm::utils::url_encode(location_->file_name.value()),''')],
    r'''
#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
int main() { cqasm::error::Error e{ "m", std::optional<std::string>{ "/a\"b c" }, { { 1, 1 }, { 1, 2 } } }; return e.to_json().find("a%22b%20c") != std::string::npos ? 0 : 1; }''', "F")
bug("version-trailing-zero", "C11", "versions that differ only in trailing zero components no longer compare equal", "versions of different length that agree on the common part",
    [("src/version.cpp", '''    for (size_t i = 0; i < this->size() || i < other.size(); i++) {
        auto lhs = (i < this->size()) ? (*this)[i] : 0;
        auto rhs = (i < other.size()) ? other[i] : 0;
        if (lhs > rhs) {
            return 1;
        }
        if (lhs < rhs) {
            return -1;
        }
    }
    return 0;''', '''    const auto common = std::min(this->size(), other.size());
    for (size_t i = 0; i < common; i++) {
        if ((*this)[i] != other[i]) {
            return (*this)[i] > other[i] ? 1 : -1;
        }
    }
    return this->size() == other.size() ? 0 : (this->size() > other.size() ? 1 : -1);''')],
    r'''
#include "libqasm/version.hpp"
using cqasm::version::Version;
int main() { return Version("3.0") == Version("3.0.0") && Version("3") < Version("3.0.1") ? 0 : 1; }''', "F")
bug("overload-leftover", "C13", "arguments promoted for an overload that then fails stay in the list given to the next overload", "an overload whose first argument fits and whose second does not, tried before the right one",
    [("include/libqasm/overload.hpp", '''        for (auto overload = overloads.rbegin();''', '''        Values promoted_args;
        for (auto overload = overloads.rbegin();'''), ("include/libqasm/overload.hpp", '''            Values promoted_args;
            bool ok = true;''', '''            bool ok = true;''')],
    ANALYSE + r'''
int main() { return ok("qubit[2] q; bit[2] b; CNOT q[0], q[1]") && ok("qubit q; Rx(true ? 2.5 : 1.5) q") && json("qubit[2] a; qubit b; CNOT a[0], b").find("errors") == std::string::npos && json("qubit q; Rx(1 + 2.5) q") == json("qubit q; Rx(3.5) q") && json("qubit q; Rx(2 == 2.5 ? 1.5 : 2.5) q") == json("qubit q; Rx(2.5) q") ? 0 : 1; }'''.replace('json("qubit q; Rx(1 + 2.5) q") == json("qubit q; Rx(3.5) q")', 'json("qubit q; Rx(1 + 2.5) q").find("3.5") != std::string::npos').replace('json("qubit q; Rx(2 == 2.5 ? 1.5 : 2.5) q") == json("qubit q; Rx(2.5) q")', 'ok("qubit[2] q; CRk(true ? 1 : 2) q[0], q[1]")').replace('int main() { return', 'int main() { return values_ok() && ').replace('int main', r'''#include "libqasm/overload.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/values.hpp"
#include "libqasm/v3x/types.hpp"
static bool values_ok() { cqasm::overload::OverloadedNameResolver<int, types::TypeBase, values::ValueBase> r; r.add_overload("f", 1, types::from_spec("ff")); r.add_overload("f", 2, types::from_spec("fb")); values::Values a; a.add(cqasm::tree::make<values::ConstFloat>(1.0)); a.add(cqasm::tree::make<values::ConstFloat>(2.0)); auto p = r.resolve("f", a); return p.first == 1 && p.second.size() == 2; }
int main''', 1), "F")
bug("promote-float", "C14", "an integer is promoted to a floating-point value through single precision", "an integer that needs more than 24 bits",
    [("src/v3x/values.cpp", "static_cast<ConstFloat>(static_cast<double>(const_int->value))", "static_cast<ConstFloat>(static_cast<float>(const_int->value))")],
    ANALYSE + r'''
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/values.hpp"
#include "libqasm/v3x/types.hpp"
int main() { auto v = values::promote(cqasm::tree::make<values::ConstInt>(16777217), cqasm::tree::make<types::Float>()); return v->as_const_float()->value == 16777217.0 ? 0 : 1; }''', "F")
bug("ternary-zero", "C16", "the conditional operator takes the second alternative when the first one is zero or false", "a true condition and a first alternative equal to zero",
    [(FN, "{ return condition ? if_true : if_false; };", "{ return (condition && if_true) ? if_true : if_false; };")],
    ANALYSE + r"""
int main() { return ok("qubit[5] q; X q[true ? 0 : 7]") && !ok("qubit[5] q; X q[true ? 7 : 0]") ? 0 : 1; }""", "F")
bug("measure-narrow", "C24", "the number of measured qubits is counted in 32 bits", "arrays whose sizes differ by a multiple of 2^32",
    [(SA, "    size_t qubit_indices_size{};", "    std::uint32_t qubit_indices_size{};"), (SA, "    size_t bit_indices_size{};", "    std::uint32_t bit_indices_size{};")],
    ANALYSE + r'''
int main() { return !ok("qubit[4294967297] q; bit[1] b; b = measure q") && !ok("qubit[4294967298] q; bit[2] b; b = measure q") && ok("qubit[2] q; bit[2] b; b = measure q") ? 0 : 1; }''', "F")
bug("modifier-nesting", "C26", "a modifier on a controlled gate is only noticed when it directly encloses it", "a modifier two levels above the controlled gate",
    [(SA, "    if (!gate->gate.empty() && is_two_qubit_gate(gate->gate)) {", '''    const auto& instruction_set = InstructionSet::get_instance();
    if (!gate->gate.empty() &&
        (instruction_set.is_two_qubit_named_gate(gate->gate->name) ||
            (instruction_set.is_two_qubit_gate_modifier(gate->gate->name) &&
                !instruction_set.is_two_qubit_gate_modifier(gate->name)))) {''')],
    ANALYSE + r'''
int main() { return !ok("qubit[3] q; ctrl.ctrl.X q[0], q[1]") && !ok("qubit[3] q; inv.ctrl.X q[0], q[1]") && ok("qubit[3] q; ctrl.inv.X q[0], q[1]") ? 0 : 1; }''', "F")
bug("parameter-cache", "C29", "the parameter types of a non-gate instruction are remembered by name, so what a measurement accepts depends on the measurement before it", "a measurement with an axis after one without, in the same process",
    [(SA, '''        const auto& param_types =
            instruction_set.get_non_gate_param_types_with_param_count(instruction_name, parameters.size());
        bool''', '''        static std::unordered_map<std::string, std::optional<std::string>> known_param_types;
        if (const auto& it = known_param_types.find(instruction_name); it == known_param_types.end() || it->second.has_value()) {
            known_param_types[instruction_name] =
                instruction_set.get_non_gate_param_types_with_param_count(instruction_name, parameters.size());
        }
        const auto& param_types = known_param_types[instruction_name];
        bool''')],
    ANALYSE + r'''
int main() { std::string axis = "qubit q; bit b; b = measure(1.0, 0.0, 0.0) q", bad = "qubit q; bit b; b = measure(1.0) q"; auto a = default_analyzer("3.0"); bool first = ok(axis); bool no = ok(bad); return first && !no && ok(axis) && ok(axis) ? 0 : 1; }''', "F")
bug("range-last", "C25", "the last index of a range is checked against the size with an off-by-one when the range has more than one index", "a range ending exactly at the size",
    [(SA, "        if (index_item->value < 0 || index_item->value >= size) {", "        if (index_item->value < 0 || (index_item->value >= size && size > 1)) {")],
    ANALYSE + r'''
int main() { return !ok("qubit[1] q; X q[1]") && !ok("qubit[1] q; X q[5]") && ok("qubit[1] q; X q[0]") ? 0 : 1; }''', "F")
bug("comment-greedy", "C34", "a block comment extends to the last end-of-comment mark of the text", "two block comments with a statement between them",
    [("src/v3x/CqasmLexer.g4", "MULTI_LINE_COMMENT: '/*' .*? '*/' -> skip;", "MULTI_LINE_COMMENT: '/*' .* '*/' -> skip;")],
    ANALYSE + r'''
int main() { return ok("qubit q; /* a */ X q /* b */") && !ok("qubit q; /* a */ Nope q /* b */") ? 0 : 1; }''', "F")
bug("power-left", "C31", "the power operator associates to the left", "two consecutive powers",
    [("src/v3x/CqasmParser.g4", "    | <assoc=right> expression POWER_OP expression  # powerExpression", "    | expression POWER_OP expression  # powerExpression")],
    ANALYSE + r'''
int main() { return json("qubit q; Rx(2.0 ** 3.0 ** 2.0) q").find("512") != std::string::npos ? 0 : 1; }''', "F")
bug("multiline-location", "C33", "a token's end column is taken from the length of its text after the last blank", "a type token followed by an array size",
    [(SY, '''static_cast<std::uint32_t>(token->getCharPositionInLine() + 1 + token_size) });''', '''static_cast<std::uint32_t>(token->getCharPositionInLine() + token_size) });''')],
    ANALYSE + r'''
#include "libqasm/v3x/syntactic.hpp"
int main() { auto r = parser::parse_string("version 3.0\nqubit[5] q", std::nullopt); auto v = r.root->as_program()->block->statements[0]->as_variable(); auto l = v->typ->get_annotation_ptr<cqasm::annotations::SourceLocation>(); return l && l->range.last.line == 2 && l->range.last.column == 9 ? 0 : 1; }''', "F")
bug("axis-zero", "C19", "a zero x component of an axis is replaced by the default one unless another component is zero too", "an axis whose first component is zero",
    [("src/v3x/primitives.cpp", """    map.append_float("x", obj.x);
    map.append_float("y", obj.y);""", """    map.append_float("x", obj.x != 0.0 || obj.y == 0.0 ? obj.x : initialize<Axis>().x);
    map.append_float("y", obj.y);""")],
    r"""
#include <string>
#include "libqasm/v3x/primitives.hpp"
#include "tree-cbor.hpp"
using namespace cqasm::v3x::primitives;
int main() { std::string s; ::tree::cbor::MapWriter w(&s); s.push_back('m'); serialize(Axis{ 0.0, 1.0, 0.0 }, w); w.close(); ::tree::cbor::MapReader r(s); Axis a = deserialize<Axis>(r); return a.x == 0.0 && a.y == 1.0 ? 0 : 1; }""", "F")
bug("result-root", "C10", "a result with both errors and a tree is shown as the tree in JSON", "a program with a semantic error, for which a partial tree exists",
    [("include/libqasm/result.hpp", "return (result.errors.empty()) ? root_to_json(result.root) : errors_to_json(result.errors);", "return (!result.root.empty()) ? root_to_json(result.root) : errors_to_json(result.errors);")],
    ANALYSE + r'''
int main() { return json("qubit q; X r").find("{\"errors\":[") == 0 ? 0 : 1; }''', "F")
bug("zero-size-array", "C22", "an array size of zero is accepted for bit arrays", "a bit array of size zero",
    [("include/libqasm/v3x/semantic_analyzer.hpp", "} else if (type.size->value > 0) {", "} else if (type.size->value > 0 || (std::is_same_v<SemanticT, types::Bit> && type.size->value == 0)) {")],
    ANALYSE + r'''
int main() { return !ok("bit[0] b") && ok("bit[1] b") ? 0 : 1; }''', "F")
bug("string-nul", "C12", "text after a NUL byte is dropped when a string is built", "a NUL byte in the text",
    [("src/string_builder.cpp", "    stream << str;", "    stream << str.c_str();")],
    r"""
#include "libqasm/string_builder.hpp"
int main() { cqasm::syntactic::StringBuilder b; b.push_string(std::string("a\0b", 3)); return b.stream.str() == std::string("a\0b", 3) ? 0 : 1; }""", "S")

PI, PP = "python/module/cqasm/v3x/__init__.py", "python/module/cqasm/v3x/primitives.py"
bug("python-last-error", "C35", "analysing a file hands out the errors without the last one when there are several", "a file with at least two errors",
    [(PI, """        ret = super().analyze_file(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="surrogateescape")
            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in ret[1:]]""", """        tree, *errors = super().analyze_file(*args)
        if not errors:
            return semantic.Program.deserialize(str(tree).encode(encoding='utf-8', errors="surrogateescape"))
        return [str(errors[i]) for i in range(max(1, len(errors) - 1))]""")],
    """
import libqasm, cqasm.v3x
a = cqasm.v3x.Analyzer('3.0')
libqasm.result = ['', 'one', 'two', 'three']
ok = a.analyze_file('x') == ['one', 'two', 'three']
libqasm.result = ['tree']
raise SystemExit(0 if ok and a.analyze_file('x').data == b'tree' else 1)
""", "P")
bug("python-surrogates", "C35", "the tree of an analysed text is encoded with 'replace', which changes bytes that are not UTF-8", "a serialized tree with bytes above 127 that are not valid UTF-8",
    [(PI, """        ret = super().analyze_string(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="surrogateescape")""", """        ret = super().analyze_string(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="replace")""")],
    """
import libqasm, cqasm.v3x
libqasm.result = [b'\\xfb\\x3f'.decode('utf-8', 'surrogateescape')]
raise SystemExit(0 if cqasm.v3x.Analyzer('3.0').analyze_string('x').data == b'\\xfb\\x3f' else 1)
""", "P")
VA, IS, IN = "src/v3x/values.cpp", "src/v3x/instruction_set.cpp", "src/v3x/instruction.cpp"
bug("quote-trim", "C04", "quotes directly before the closing delimiter are taken for part of it", "raw text that ends in a single quote",
    [(UT, "    return str.substr(3, str.size() - 6);", "    const auto end = str.find_last_not_of('\\'');\n    return (end == std::string::npos || end < 3) ? std::string{} : str.substr(3, end - 2);")],
    r'''
#include "libqasm/utils.hpp"
int main() { return cqasm::utils::remove_triple_quotes("\'\'\'a\'\'\'\'") == "a\'" && cqasm::utils::remove_triple_quotes("\'\'\'\'\'\'") == "" && cqasm::utils::remove_triple_quotes("\'\'\'ab\'\'\'") == "ab" ? 0 : 1; }''')
bug("single-element-array", "C15", "an index reference with several indices into an array of one element has the element type", "an array of size one indexed more than once",
    [(VA, "        if (size_of(value) == 1) {", "        if (size_of(value) == 1 || types::size_of(index->variable->typ) == 1) {")],
    r"""
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/values.hpp"
using namespace cqasm::v3x;
namespace ct = cqasm::tree;
int main() {
    auto v = ct::make<semantic::Variable>("q", ct::make<types::QubitArray>(1));
    auto r = ct::make<values::IndexRef>(); r->variable = v; r->indices.add(ct::make<values::ConstInt>(0)); r->indices.add(ct::make<values::ConstInt>(0));
    return values::type_of(values::Value{ r })->as_qubit_array() ? 0 : 1; }""", "F")
bug("swap-array-scalar", "C23", "SWAP of an array and a scalar is no longer in the tables", "an array of size one as first operand and a scalar as second",
    [(IS, '''    { "SWAP", { std::nullopt, "VQ" } },''', '''    { "SWAP", { std::nullopt, "VV" } },''')],
    ANALYSE + r'''
int main() { return ok("qubit[1] a; qubit b; SWAP a, b") && ok("qubit[1] a; qubit b; SWAP b, a") ? 0 : 1; }''', "F")
bug("parameter-first", "C23", "only the first parameter of a gate is promoted to its parameter type", "an integer as second parameter of a gate with several",
    [(SA, '''                        values::type_of(parameters[i])) };
                }
                ret.add(promote(parameters[i], types::from_spec(param_type)));
                i++;
            });
    }
    return ret;''', '''                        values::type_of(parameters[i])) };
                }
                ret.add(i == 0 ? promote(parameters[i], types::from_spec(param_type)) : parameters[i]);
                i++;
            });
    }
    return ret;''')],
    ANALYSE + r'''
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit q; U(1.0, 2, 3.0) q", std::nullopt); return a.errors.empty() && a.root->block->statements[0]->as_gate_instruction()->gate->parameters[1]->as_const_float() ? 0 : 1; }''', "F")
bug("measure-distinct", "C24", "a bit that is written twice in the result of a measurement is counted once", "a repeated index in the bits of a measurement",
    [(SA, '''                bit_indices_size += index_ref->indices.size();''', '''                for (std::size_t i = 0; i < index_ref->indices.size(); ++i) {
                    bit_indices_size += (i == 0 || index_ref->indices[i]->value != index_ref->indices[i - 1]->value) ? 1 : 0;
                }''')],
    ANALYSE + r'''
int main() { return !ok("bit[3] b; qubit q; b[1, 1] = measure q") && ok("bit[3] b; qubit[2] q; b[1, 1] = measure q") && ok("bit[3] b; qubit[2] q; b[0, 1] = measure q") ? 0 : 1; }''', "F")
bug("index-sorted", "C25", "the indices of an array reference are recorded in ascending order", "an index list that is not sorted",
    [(SA, '''            auto ret = tree::make<values::IndexRef>(variable_link, indices);''', '''            std::sort(indices.get_vec().begin(), indices.get_vec().end(), [](const auto& a, const auto& b) { return a->value < b->value; });
            auto ret = tree::make<values::IndexRef>(variable_link, indices);''')],
    ANALYSE + r'''
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit[9] q; X q[2, 0]", std::nullopt); auto i = a.root->block->statements[0]->as_gate_instruction()->operands[0]->as_index_ref(); return i->indices[0]->value == 2 && i->indices[1]->value == 0 ? 0 : 1; }''', "F")
bug("index-middle", "C25", "of a list of indices only the smallest bound and the last one are compared with the size", "a list whose middle index is too large",
    [(SA, '''        if (index_item->value < 0 || index_item->value >= size) {''', '''        if (index_item->value < 0 || (index_item->value >= size && (index_item == indices.get_vec().front() || index_item == indices.get_vec().back()))) {''')],
    ANALYSE + r'''
int main() { return !ok("qubit[3] q; X q[0, 3, 1]") && ok("qubit[3] q; X q[0, 2, 1]") ? 0 : 1; }''', "F")
bug("annotation-first-error", "C27", "only the first erroneous operand of an annotation is reported", "an annotation with two erroneous operands",
    [(SA, '''            } catch (error::AnalysisError& err) {
                err.context(node);
                result_.errors.push_back(std::move(err));
            }
        }
        ret->copy_annotation<parser::SourceLocation>(node);
    } catch''', '''            } catch (error::AnalysisError& err) {
                err.context(node);
                result_.errors.push_back(std::move(err));
                break;
            }
        }
        ret->copy_annotation<parser::SourceLocation>(node);
    } catch''')],
    r'''
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/syntactic.hpp"
using namespace cqasm::v3x;
namespace ct = cqasm::tree;
int main() {
    auto r = parser::parse_string("version 3.0\nqubit q", std::nullopt); auto v = r.root->as_program()->block->statements[0]->as_variable();
    auto a = ct::make<syntactic::AnnotationData>(); a->interface = ct::make<syntactic::Identifier>("a"); a->operation = ct::make<syntactic::Identifier>("b"); a->operands = ct::make<syntactic::ExpressionList>();
    a->operands->items.add(ct::make<syntactic::Identifier>("x")); a->operands->items.add(ct::make<syntactic::Identifier>("y")); v->annotations.add(a);
    return default_analyzer("3.0").analyze(r).errors.size() == 2 ? 0 : 1; }''', "F")
bug("composition-prefix", "C28", "a name is taken for a gate composition when the prefix occurs anywhere in it", "a name that contains both prefixes",
    [(IS, "return name.starts_with(two_qubit_gate_composition_prefix);", "return name.find(two_qubit_gate_composition_prefix) != std::string::npos;")],
    r'''
#include "libqasm/v3x/instruction_set.hpp"
int main() { auto& s = cqasm::v3x::instruction::InstructionSet::get_instance(); return s.is_single_qubit_gate("1q_2q_") + s.is_two_qubit_gate("1q_2q_") == 1 && s.is_two_qubit_gate("2q_X") ? 0 : 1; }''', "F")
bug("version-components", "C21", "only as many components of the version are compared as the program gives", "a program that says version 3 is fine, but so is one that says a longer version which starts with 3.0",
    [(SA, "        if (node.items != analyzer_.api_version) {", "        if (!std::equal(node.items.begin(), node.items.begin() + std::min(node.items.size(), analyzer_.api_version.size()), analyzer_.api_version.begin())) {")],
    ANALYSE + r'''
#include "libqasm/v3x/syntactic.hpp"
int main() {
    auto r = parser::parse_string("version 3.0\nqubit q", std::nullopt);
    if (!default_analyzer("3.0").analyze(r).errors.empty()) return 1;
    r.root->as_program()->version->items.push_back(1);
    return default_analyzer("3.0").analyze(r).errors.size() == 1 ? 0 : 1; }''', "F")
bug("shared-constant", "C29", "resolving a name hands out the registered value itself, so the location of one use appears at another", "a predefined constant used in two programs, the result of the first looked at afterwards",
    [("src/v3x/resolver.cpp", "        return entry->second->clone();", "        return entry->second;")],
    ANALYSE + r'''
#include "libqasm/v3x/syntactic.hpp"
int main() {
    auto a = default_analyzer("3.0"); auto r = a.analyze_string("version 3.0\nqubit q\nRx(pi) q", std::nullopt);
    auto line = [&] { return r.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->get_annotation_ptr<cqasm::annotations::SourceLocation>()->range.first.line; };
    if (line() != 3) return 1;
    (void)a.analyze_string("version 3.0\n\n\n\nqubit q\nRx(pi) q", std::nullopt);
    return line() == 3 ? 0 : 1; }''', "F")
bug("file-name-json", "C30", "the JSON form of analysing a text with a name takes the name also when it is empty", "JSON analysis of an erroneous text without a name",
    [("src/v3x/cqasm_python.cpp", '''    const std::string& data, const std::string& file_name) const {
    auto file_name_op = !file_name.empty() ? std::optional<std::string>{ file_name } : std::nullopt;
    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);
    const auto& analysis_result = analyzer->analyze(parse_result);
    return analysis_result.to_json();''', '''    const std::string& data, const std::string& file_name) const {
    auto file_name_op = (file_name.size() > 1) ? std::optional<std::string>{ file_name } : std::nullopt;
    const auto& parse_result = v3x::parser::parse_string(data, file_name_op);
    const auto& analysis_result = analyzer->analyze(parse_result);
    return analysis_result.to_json();''')],
    r'''
#include "libqasm/v3x/cqasm_python.hpp"
int main() { V3xAnalyzer a{ "3.0" }; return a.analyze_string_to_json("version 3.0\nX q", "f").find("file:///f") != std::string::npos ? 0 : 1; }''', "F")
bug("octal-literal", "C32", "integer literals with a leading zero are read in octal", "an integer literal with a leading zero and two digits",
    [(SY, "return std::stoll(text);", "return std::stoll(text, nullptr, 0);")],
    r'''
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/syntactic.hpp"
using namespace cqasm::v3x;
int main() { auto r = parser::parse_string("version 3.0\nqubit[017] q", std::nullopt); return r.errors.empty() && r.root->as_program()->block->statements[0]->as_variable()->typ->size->value == 17 ? 0 : 1; }''', "F")

bug("ternary-integers", "C17", "the conditional operator brings its alternatives to a common floating-point type first, so large integers lose their last digits", "a conditional over integers above 2^53",
    [(FN, "inline constexpr auto tcnd = [](bool condition, auto if_true, auto if_false) { return condition ? if_true : if_false; };", "inline constexpr auto tcnd = [](bool condition, auto if_true, auto if_false) { return static_cast<decltype(if_true)>(condition ? if_true : static_cast<primitives::Float>(if_false)); };")],
    ANALYSE + r"""
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit[2] q; CRk(true ? 9007199254740993 : 1) q[0], q[1]", std::nullopt); if (!a.errors.empty()) return 1; auto p = a.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_int(); return p && p->value == 9007199254740993 ? 0 : 1; }""", "F")
bug("abs-float", "C18", "the absolute value of a floating-point number is computed by comparison, so abs(-0.0) stays negative", "the absolute value of negative zero",
    [(FN, "inline constexpr auto abs = [](auto num) { return std::abs(num); };", "inline constexpr auto abs = [](auto num) { return num < 0 ? -num : num; };")],
    r'''
#include <cmath>
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/parse_helper.hpp"
using namespace cqasm::v3x;
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit q; Rx(abs(-0.0)) q", std::nullopt); return !std::signbit(a.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_float()->value) ? 0 : 1; }''', "F")
bug("name-fold", "C18", "names of functions are looked up without regard to case when they have at most four letters", "a function name in upper case",
    [("src/v3x/resolver.cpp", "    auto resolution = resolver->resolve(name, args);\n\n    // Call", "    auto resolution = resolver->resolve(name.size() <= 4 ? utils::to_lowercase(name) : name, args);\n\n    // Call")],
    ANALYSE + r'''
int main() { return ok("qubit q; Rx(sin(1.0)) q") && !ok("qubit q; Rx(SIN(1.0)) q") ? 0 : 1; }''', "F")
bug("reference-equality", "C20", "two instruction references are also equal when one's operand types are a prefix of the other's", "instructions of the same name with different numbers of operands",
    [(IN, "return name == rhs.name && operand_types.equals(rhs.operand_types);", "return name == rhs.name && std::equal(operand_types.begin(), operand_types.begin() + std::min(operand_types.size(), rhs.operand_types.size()), rhs.operand_types.begin(), [](const auto& a, const auto& b) { return a.equals(b); });")],
    r"""
#include "libqasm/v3x/instruction.hpp"
int main() { using cqasm::v3x::instruction::Instruction; return !(Instruction{ "X", "Q" } == Instruction{ "X", "QQ" }) && Instruction{ "X", "QV" } == Instruction{ "X", "QV" } ? 0 : 1; }""", "F")

# ---- second round
RS, VL = "src/v3x/resolver.cpp", "src/v3x/values.cpp"
LOCATION = ANALYSE + r'''
#include "libqasm/annotations.hpp"
#include "libqasm/v3x/syntactic.hpp"
namespace ct = cqasm::tree;
using Location = cqasm::annotations::SourceLocation;
template <class N> static const Location* at(const N& node) { return node->template get_annotation_ptr<Location>(); }
'''
bug("promote-location", "C36", "an integer promoted to a floating-point value loses its source location", "an integer as parameter of a gate with floating-point parameters",
    [(VL, "    if (!ret.empty()) {\n        ret->copy_annotation", "    if (!ret.empty() && (ret->as_const_int() || value->as_const_bool())) {\n        ret->copy_annotation")],
    LOCATION + r'''
int main() {
    auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit q\nRx(2) q", std::nullopt);
    auto l = at(a.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]);
    return l && l->range.first.line == 3 && l->range.first.column == 4 ? 0 : 1; }''', "F")
bug("block-same-line", "C36", "the location of the block is only extended by statements that end on a later line", "several statements on the last line",
    [(AZ, "            block_sl->expand_to_include(statement_sl->range.first);\n", "            if (statement_sl->range.last.line == block_sl->range.last.line) {\n                return;\n            }\n            block_sl->expand_to_include(statement_sl->range.first);\n")],
    LOCATION + r'''
int main() {
    auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit q\nX q; Y q", std::nullopt);
    auto l = at(a.root->block);
    return l && l->range.first.column == 1 && l->range.last.column == 7 ? 0 : 1; }''', "F")
bug("range-location", "C36", "only the first index of a range carries the location of the range", "an index range that has a location",
    [(SA, "        index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);", "        if (index == first) {\n            index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);\n        }")],
    LOCATION + r'''
int main() {
    auto r = parser::parse_string("version 3.0\nqubit[4] q\nX q[1:2]", std::nullopt);
    auto& gate = *r.root->as_program()->block->statements[1]->as_gate_instruction();
    gate.operands->items[0]->as_index()->indices->items[0]->set_annotation(Location{ std::nullopt, { { 3, 5 }, { 3, 8 } } });
    auto a = default_analyzer("3.0").analyze(r);
    const auto& indices = a.root->block->statements[0]->as_gate_instruction()->operands[0]->as_index_ref()->indices;
    auto l = at(indices[1]);
    return indices.size() == 2 && at(indices[0]) && l && l->range.first.column == 5 ? 0 : 1; }''', "F")
bug("operand-own-location", "C36", "the location of an operand that is already located is kept instead of that of the expression it was written as", "a variable used as an operand after its value has been given a location through the API",
    [(SA, "        ret->copy_annotation<parser::SourceLocation>(node);\n        return ret;\n    } catch", "        if (!ret->get_annotation_ptr<parser::SourceLocation>()) {\n            ret->copy_annotation<parser::SourceLocation>(node);\n        }\n        return ret;\n    } catch")],
    LOCATION + r'''
int main() {
    auto a = default_analyzer("3.0");
    auto value = ct::make<values::ConstFloat>(1.5); value->set_annotation(Location{ std::nullopt, { { 9, 9 }, { 9, 9 } } });
    a.register_variable("angle", value);
    auto r = a.analyze_string("version 3.0\nqubit q\nRx(angle) q", std::nullopt);
    auto l = at(r.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]);
    return l && l->range.first.line == 3 ? 0 : 1; }''', "F")
SCOPES = r'''
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/parse_helper.hpp"
namespace ct = cqasm::tree;
using namespace cqasm::v3x;
static values::Value number(int i) { return ct::make<values::ConstInt>(i); }
static int value(const analyzer::Analyzer& a, const char* name) { try { return static_cast<int>(a.resolve_variable(name)->as_const_int()->value); } catch (...) { return -1; } }
'''
bug("scope-skip", "C37", "names are looked up in the innermost and in the global scope only", "a variable of a scope that encloses the current one and is not the global one",
    [(AZ, "    for (const auto& scope : scope_stack_) {\n        try {\n            return scope.variable_table.resolve(name);", "    for (const auto& scope : { current_scope(), global_scope() }) {\n        try {\n            return scope.variable_table.resolve(name);")],
    SCOPES + r'''
int main() { analyzer::Analyzer a{ "3.0" }; a.register_variable("a", number(1)); a.push_scope(); a.register_variable("b", number(2)); a.push_scope(); return value(a, "a") == 1 && value(a, "b") == 2 ? 0 : 1; }''', "F")
bug("redeclare-outer", "C37", "a variable can not have the name of a variable of an enclosing scope", "shadowing",
    [(AZ, "    current_scope().variable_table.add(name, value);", "    for (auto& scope : scope_stack_) {\n        auto variables = scope.variable_table;\n        variables.add(name, value);\n    }\n    current_scope().variable_table.add(name, value);")],
    SCOPES + r'''
int main() { try { analyzer::Analyzer a{ "3.0" }; a.register_variable("a", number(1)); a.push_scope(); a.register_variable("a", number(2)); const auto inner = value(a, "a"); a.pop_scope(); return inner == 2 && value(a, "a") == 1 ? 0 : 1; } catch (...) { return 1; } }''', "F")
bug("instruction-hidden", "C37", "an instruction of an inner scope hides those of the same name of the enclosing scopes even if it does not apply", "an instruction registered in an inner scope with other operand types",
    [(AZ, "            return scope.instruction_table.resolve(name, args);\n        } catch (const error::AnalysisError&) {", "            return scope.instruction_table.resolve(name, args);\n        } catch (const resolver::NameResolutionFailure&) {")],
    SCOPES + r'''
int main() { try { analyzer::Analyzer a{ "3.0" }; a.register_instruction("f", "i"); a.push_scope(); a.register_instruction("f", "ii"); return a.resolve_instruction("f", values::Values{ number(1) }).empty() ? 1 : 0; } catch (...) { return 1; } }''', "F")
bug("pop-to-current", "C37", "variables of a scope that is left stay visible when their names are free outside", "looking up a variable after its scope was left",
    [(AZ, "    scope_stack_.pop_front();", "    const auto variables = current_variables();\n    scope_stack_.pop_front();\n    for (const auto& variable : variables) {\n        try {\n            register_variable(variable->name, tree::make<values::VariableRef>(variable));\n        } catch (const error::AnalysisError&) {\n            continue;\n        }\n    }")],
    SCOPES + r'''
int main() { analyzer::Analyzer a{ "3.0" }; a.push_scope(); auto v = ct::make<semantic::Variable>(); v->name = "q"; v->typ = ct::make<types::Qubit>(); a.register_variable("q", ct::make<values::VariableRef>(v)); a.add_variable_to_current_scope(v); a.pop_scope(); try { a.resolve_variable("q"); return 1; } catch (const cqasm::error::AnalysisError&) { return 0; } }''', "F")
SYNTAX = r'''
#include <sstream>
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/syntactic.hpp"
using namespace cqasm::v3x;
static parser::ParseResult parse(const std::string& text) { return parser::parse_string("version 3.0\n" + text, std::nullopt); }
'''
bug("double-minus", "C38", "a negation of a negation is read as the inner expression", "two minus signs in a row",
    [(SY, "    auto ret = tree::make<UnaryMinusExpression>(std::any_cast<One<Expression>>(context->expression()->accept(this)));\n", "    auto operand = std::any_cast<One<Expression>>(context->expression()->accept(this));\n    if (auto negation = operand->as_unary_minus_expression()) {\n        return negation->expr;\n    }\n    auto ret = tree::make<UnaryMinusExpression>(operand);\n")],
    SYNTAX + r'''
int main() { auto r = parse("qubit q\nRx(--1) q"); auto e = r.root->as_program()->block->statements[1]->as_gate_instruction()->gate->parameters->items[0]; return e->as_unary_minus_expression() ? 0 : 1; }''', "F")
bug("inverse-twice", "C38", "two consecutive inv modifiers cancel out while the text is read", "inv.inv.X",
    [(SY, "    auto ret = tree::make<Gate>();\n    ret->name = tree::make<Identifier>(context->INV()->getText());\n    ret->gate = std::any_cast<tree::One<Gate>>(context->gate()->accept(this)).get_ptr();\n", "    auto inner = std::any_cast<tree::One<Gate>>(context->gate()->accept(this));\n    if (inner->name->name == context->INV()->getText()) {\n        return tree::One<Gate>{ inner->gate.get_ptr() };\n    }\n    auto ret = tree::make<Gate>();\n    ret->name = tree::make<Identifier>(context->INV()->getText());\n    ret->gate = inner.get_ptr();\n")],
    SYNTAX + r'''
int main() { auto r = parse("qubit q\ninv.inv.X q"); auto g = r.root->as_program()->block->statements[1]->as_gate_instruction()->gate; return g->name->name == "inv" && !g->gate.empty() && g->gate->name->name == "inv" ? 0 : 1; }''', "F")
bug("range-one", "C38", "an index range with equal ends is read as a single index", "an index range from a number to the same number",
    [(SY, "    return One<IndexEntry>{ tree::make<IndexRange>(std::any_cast<One<Expression>>(context->expression(0)->accept(this)),", "    if (context->expression(0)->getText() == context->expression(1)->getText()) {\n        return One<IndexEntry>{ tree::make<IndexItem>(\n            std::any_cast<One<Expression>>(context->expression(0)->accept(this))) };\n    }\n    return One<IndexEntry>{ tree::make<IndexRange>(std::any_cast<One<Expression>>(context->expression(0)->accept(this)),")],
    SYNTAX + r'''
int main() { auto r = parse("qubit[3] q\nX q[1:1]"); auto e = r.root->as_program()->block->statements[1]->as_gate_instruction()->operands->items[0]; return e->as_index()->indices->items[0]->as_index_range() ? 0 : 1; }''', "F")
bug("measure-parameters-first", "C38", "a parameter of a measurement is dropped when it is written the same as the measured operand", "measure(a) a",
    [(SY, "    ret->operands = tree::make<ExpressionList>();\n    ret->operands->items.add(std::any_cast<One<Expression>>(context->expression(0)->accept(this)));\n    ret->operands->items.add(std::any_cast<One<Expression>>(context->expression(1)->accept(this)));\n    setNodeAnnotation(ret, context->MEASURE()", "    if (context->expressionList() && context->expressionList()->getText() == context->expression(1)->getText()) {\n        ret->parameters = tree::make<ExpressionList>();\n    }\n    ret->operands = tree::make<ExpressionList>();\n    ret->operands->items.add(std::any_cast<One<Expression>>(context->expression(0)->accept(this)));\n    ret->operands->items.add(std::any_cast<One<Expression>>(context->expression(1)->accept(this)));\n    setNodeAnnotation(ret, context->MEASURE()")],
    SYNTAX + r'''
int main() { auto r = parse("b = measure(a) a"); return r.errors.empty() && r.root->as_program()->block->statements[0]->as_non_gate_instruction()->parameters->items.size() == 1 ? 0 : 1; }''', "F")
bug("equality-first", "C31", "equality and inequality bind tighter than the other comparisons", "a comparison and an equality in one expression without parentheses",
    [("src/v3x/CqasmParser.g4", "    | expression (CMP_GT_OP | CMP_LT_OP | CMP_GE_OP | CMP_LE_OP) expression  # comparisonExpression\n    | expression (CMP_EQ_OP | CMP_NE_OP) expression  # equalityExpression\n", "    | expression (CMP_EQ_OP | CMP_NE_OP) expression  # equalityExpression\n    | expression (CMP_GT_OP | CMP_LT_OP | CMP_GE_OP | CMP_LE_OP) expression  # comparisonExpression\n")],
    SYNTAX + r'''
int main() { auto r = parse("qubit q\nRx(a < b == c) q"); auto e = r.root->as_program()->block->statements[1]->as_gate_instruction()->gate->parameters->items[0]; return e->as_cmp_eq_expression() ? 0 : 1; }''', "F")
bug("raw-greedy", "C34", "raw text extends to the last triple quote of the program", "two assembly blocks",
    [("src/v3x/CqasmLexer.g4", "fragment RawText: (.)*?;", "fragment RawText: (.)*;")],
    SYNTAX + r"""
int main() { auto r = parse("asm(a) '''x'''\nasm(b) '''y'''"); return r.errors.empty() && r.root->as_program()->block->statements.size() == 2 ? 0 : 1; }""", "F")
bug("exponent-plus", "C32", "a plus sign in the exponent of a floating-point literal is not part of it", "1.0e+5",
    [("src/v3x/CqasmLexer.g4", "fragment Exponent: [eE][-+]?Digit+;", "fragment Exponent: [eE][-]?Digit+;")],
    SYNTAX + r"""
int main() { auto r = parse("qubit q\nRx(1.0e+5) q"); return r.errors.empty() && r.root->as_program()->block->statements[1]->as_gate_instruction()->gate->parameters->items[0]->as_float_literal()->value == 1.0e5 ? 0 : 1; }""", "F")
bug("file-carriage-return", "C30", "a file is read line by line, and lines that end in a carriage return lose it", "a file with a carriage return inside raw text",
    [("src/v3x/antlr_scanner.cpp", "    antlr4::ANTLRFileStream ifs{};\n    ifs.loadFromFile(file_path_);\n    return parse_(ifs);", '''    std::ifstream ifs{ file_path_, std::ios::binary };
    std::string data{};
    for (std::string line{}; std::getline(ifs, line);) {
        if (line.ends_with('\\r')) {
            line.pop_back();
        }
        data += line;
        if (!ifs.eof()) {
            data += '\\n';
        }
    }
    antlr4::ANTLRInputStream is{ data };
    return parse_(is);'''), ("src/v3x/antlr_scanner.cpp", "#include <filesystem>\n", "#include <filesystem>\n#include <fstream>\n")],
    SYNTAX + r"""
#include <cstdlib>
#include <filesystem>
#include <fstream>
int main() { char directory[] = "/tmp/demoXXXXXX"; if (!mkdtemp(directory)) return 2; const std::string path = std::string{ directory } + "/p.cq", text = "version 3.0\nasm(a) '''x\r\ny'''\n";
  std::ofstream{ path, std::ios::binary } << text;
  auto f = parser::parse_file(path, path); auto s = parser::parse_string(text, path);
  const auto same = f.errors.empty() && s.errors.empty() && f.root->as_program()->block->statements[0]->as_asm_declaration()->backend_code == s.root->as_program()->block->statements[0]->as_asm_declaration()->backend_code;
  std::filesystem::remove_all(directory); return same ? 0 : 1; }""", "F")
bug("unknown-line", "C05", "a location without a line is taken for unset when it is expanded", "a location that starts at line 0",
    [(AN, "    range.first = std::min<Index>(range.first, index);", "    range.first = range.first.line ? std::min<Index>(range.first, index) : index;")],
    r'''
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations;
int main() { SourceLocation l{ "f", { { 0, 3 }, { 2, 2 } } }; l.expand_to_include({ 1, 5 }); return l.range.first.line == 0 && l.range.first.column == 3 ? 0 : 1; }''')
bug("range-constructor-lines", "C05", "a range whose last position is before its first one on the same line is kept as it is", "a range that is inverted within a line",
    [(AN, "    last = std::max<Index>(last, first);", "    if (last.line < first.line) {\n        last = first;\n    }")],
    r'''
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations;
int main() { SourceLocation::Range r{ { 2, 9 }, { 2, 4 } }; return r.last.column == 9 ? 0 : 1; }''')
bug("print-last-column", "C07", "the last column of a location that spans several lines is left out when it equals the first one", "a location over several lines whose columns agree",
    [(AN, '''        os << ".." << object.range.last.line << ":" << object.range.last.column;''', '''        os << ".." << object.range.last.line;
        if (object.range.last.column != object.range.first.column) {
            os << ":" << object.range.last.column;
        }''')],
    r'''
#include <sstream>
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations;
int main() { std::ostringstream s; s << SourceLocation{ "f", { { 1, 5 }, { 3, 5 } } }; return s.str() == "f:1:5..3:5" ? 0 : 1; }''')
bug("context-file", "C08", "a later location with a file name replaces one without", "an error that gets a second location",
    [(ER, "    if (!location_) {\n        if (auto loc = node.get_annotation_ptr<annotations::SourceLocation>()) {", "    if (!location_ || !location_->file_name.has_value()) {\n        if (auto loc = node.get_annotation_ptr<annotations::SourceLocation>(); loc && (!location_ || loc->file_name.has_value())) {")],
    r'''
#include "libqasm/error.hpp"
#include "libqasm/annotations.hpp"
using namespace cqasm;
struct N : tree::Annotatable {};
int main() { N n; n.set_annotation(annotations::SourceLocation{ "f", { { 7, 7 }, { 7, 7 } } }); error::AnalysisError e{ "m", std::nullopt, { { 1, 2 }, { 1, 2 } } }; e.context(n); return std::string{ e.what() }.find("7:7") == std::string::npos ? 0 : 1; }''', "E")
bug("json-message-nul", "C09", "the message of an error ends at the first NUL byte in JSON", "a message with a NUL byte",
    [(ER, "        cqasm::utils::json_encode(message_),\n        1,", "        cqasm::utils::json_encode(message_.c_str()),\n        1,")],
    r'''
#include "libqasm/error.hpp"
int main() { return cqasm::error::AnalysisError{ std::string("a\0b", 3) }.to_json().find("a\\u0000b") != std::string::npos ? 0 : 1; }''', "E")
bug("nan-compare", "C16", "less-or-equal of floating-point values is the negation of greater", "a comparison with not-a-number",
    [(FN, "constexpr auto op_le_ff = bf_cp<values::ConstBool, values::ConstFloat, std::less_equal{}>{};", "inline constexpr auto le_f = [](primitives::Float a, primitives::Float b) { return !(a > b); };\nconstexpr auto op_le_ff = bf_cp<values::ConstBool, values::ConstFloat, le_f>{};")],
    ANALYSE + r"""
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nqubit q; Rx(sqrt(-1.0) <= 1.0) q", std::nullopt); return a.errors.empty() && a.root->block->statements[0]->as_gate_instruction()->gate->parameters[0]->as_const_float()->value == 0.0 ? 0 : 1; }""", "F")
bug("parameter-count", "C23", "a measurement may be given more parameters than it has, and the ones too many are dropped", "a measurement with four parameters",
    [("src/v3x/instruction_set.cpp", "            if (param_types->size() == param_count) {", "            if (param_types->size() <= param_count) {")],
    ANALYSE + r"""
int main() { return ok("qubit q; bit b; b = measure(1, 2, 3) q") && !ok("qubit q; bit b; b = measure(1, 2, 3, 4) q") ? 0 : 1; }""", "F")
bug("array-of-one", "C22", "an array of one element is declared as a single qubit or bit", "qubit[1] q",
    [(SA, "        ret->typ = type.clone();", "        ret->typ = type.clone();\n        if (ret->typ->as_bit_array() && types::size_of(type) == 1) {\n            ret->typ = tree::make<types::Bit>();\n        }")],
    ANALYSE + r"""
int main() { auto a = default_analyzer("3.0").analyze_string("version 3.0\nbit[1] b", std::nullopt); return a.root->variables[0]->typ->as_bit_array() ? 0 : 1; }""", "F")
bug("modifier-annotations", "C27", "the annotations of a gate under a modifier are moved to the modifier", "an annotated gate under a modifier",
    [(SA, "        ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));\n        ret->copy_annotation<parser::SourceLocation>(node);\n    } catch (error::AnalysisError& err) {\n        err.context(node);\n        throw;\n    }\n    return ret;\n}\n\nvoid check_qubit_and", "        ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));\n        if (!ret->gate.empty() && ret->annotations.empty()) {\n            std::swap(ret->annotations, ret->gate->annotations);\n        }\n        ret->copy_annotation<parser::SourceLocation>(node);\n    } catch (error::AnalysisError& err) {\n        err.context(node);\n        throw;\n    }\n    return ret;\n}\n\nvoid check_qubit_and")],
    LOCATION + r'''
int main() {
    auto r = parser::parse_string("version 3.0\nqubit q\ninv.X q", std::nullopt);
    auto& gate = *r.root->as_program()->block->statements[1]->as_gate_instruction()->gate->gate;
    gate.annotations.add(ct::make<syntactic::AnnotationData>(ct::make<syntactic::Identifier>("a"), ct::make<syntactic::Identifier>("b"), ct::make<syntactic::ExpressionList>()));
    auto a = default_analyzer("3.0").analyze(r);
    auto& g = *a.root->block->statements[0]->as_gate_instruction()->gate;
    return g.annotations.empty() && g.gate->annotations.size() == 1 ? 0 : 1; }''', "F")
bug("size-fold", "C24", "a repeated qubit in the operands of a two-qubit gate counts once for the comparison of sizes", "an index list with a repetition",
    [(SA, "            if (variable.typ->as_qubit() || variable.typ->as_qubit_array()) {\n                qubit_operands_indices_size[i] += index_ref->indices.size();", "            if (variable.typ->as_qubit() || variable.typ->as_qubit_array()) {\n                const auto& indices = index_ref->indices;\n                qubit_operands_indices_size[i] += static_cast<size_t>(std::count_if(indices.begin(), indices.end(), [&](const auto& index) {\n                    return index.get_ptr() == indices.front().get_ptr() || index->value != indices.front()->value;\n                }));")],
    ANALYSE + r"""
int main() { return ok("qubit[4] q; CNOT q[0, 0], q[1, 2]") && !ok("qubit[4] q; CNOT q[0, 0], q[1]") ? 0 : 1; }""", "F")
bug("pow-of-control", "C26", "pow applied to a controlled gate is let through when its exponent is one", "pow(1).ctrl.X",
    [(SA, "    if (!gate->gate.empty() && is_two_qubit_gate(gate->gate)) {", "    const auto exponent = gate->parameters.empty() ? nullptr : gate->parameters.front()->as_const_float();\n    if (!gate->gate.empty() && is_two_qubit_gate(gate->gate) && !(exponent && exponent->value == 1.0)) {")],
    ANALYSE + r"""
int main() { return !ok("qubit[2] q; pow(2).ctrl.X q[0], q[1]") && !ok("qubit[2] q; pow(1).CNOT q[0], q[1]") && !ok("qubit[2] q; pow(1).ctrl.X q[0]") ? 0 : 1; }""", "F")
bug("modulo-power", "C16", "a power of two integers is rejected when its base is zero", "0 ** 0",
    [(FN, "inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };", "inline constexpr auto pow = [](auto base, auto exp) {\n    if (base == 0 && exp <= 0) {\n        throw error::AnalysisError{ \"zero to the power of zero or less\" };\n    }\n    return std::pow(base, exp);\n};")],
    ANALYSE + r"""
int main() { return ok("qubit q; Rx(0 ** 0) q") ? 0 : 1; }""", "F")
bug("component-limit", "C11", "the last component of a version is read as a 16-bit number", "a version component above 65535",
    [("src/version.cpp", "    push_back(std::stoi(version.substr(last)));", "    push_back(static_cast<std::uint16_t>(std::stoi(version.substr(last))));")],
    r'''
#include "libqasm/version.hpp"
int main() { return cqasm::version::Version{ "1.70000" }[1] == 70000 ? 0 : 1; }''', "E")
bug("escape-unknown", "C12", "an escape sequence that is not known loses its backslash", "an unknown escape sequence",
    [("src/string_builder.cpp", "        stream << escape;", "        stream << escape.substr(escape.size() > 2);")],
    r'''
#include "libqasm/string_builder.hpp"
#include <sstream>
int main() { cqasm::syntactic::StringBuilder b; b.push_escape("\\q"); b.push_escape("\\x41"); return b.stream.str() == "\\q\\x41" ? 0 : 1; }''', "S")
