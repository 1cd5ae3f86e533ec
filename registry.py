"""Checks: for each property, the programs (harness + libqasm sources), jobs (bounds) and vacuity witnesses."""
from check import Program, Job
CHECKS = {}
def check(pid):
    def d(f): CHECKS[pid] = f; return f
    return d
U = ["src/utils.cpp"]
A = ["src/annotations.cpp"]

def strjobs(p, tier, full_q, full_t, sparse_q, sparse_t, **kw):
    j = [Job(p, dict(LEN=n, **kw)) for n in range(0, (full_q if tier == "quick" else full_t) + 1)]
    for n, k in (sparse_q if tier == "quick" else sparse_t): j.append(Job(p, dict(LEN=n, SPARSE=k, **kw)))
    return j[::-1]
SPQ = [(15, 2), (16, 2), (33, 2), (70, 3), (300, 2)]
SPT = [(n, 3) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025)]
STRB = "all texts of up to %d arbitrary bytes, and texts of the listed lengths with the listed number of arbitrary bytes spread over them (SPARSE); longer texts and other byte combinations in long texts are outside"

@check("C01")
def c01(tier):
    p = Program("c01.cpp", U)
    return dict(jobs=strjobs(p, tier, 4, 5, SPQ, SPT), reach=["high byte", "control", "other"], bounds=STRB % (4 if tier == "quick" else 5))
@check("C02")
def c02(tier):
    p = Program("c02.cpp", U)
    return dict(jobs=strjobs(p, tier, 4, 5, SPQ, SPT), reach=["unreserved", "escaped"], bounds=STRB % (4 if tier == "quick" else 5))
@check("C03")
def c03(tier):
    p = Program("c03.cpp", U); q = tier == "quick"
    j = [Job(p, dict(LEN=n, DELTA=d)) for n in range(0, 6 if q else 9) for d in ([0, 1] if q else [0, 1, 2])]
    j += [Job(p, dict(LEN=n, SPARSE=k, MODE=1, DELTA=d)) for n, k in (SPQ if q else SPT) for d in (0, 1)]
    return dict(jobs=j, reach=["equal", "different"], bounds=STRB % (5 if q else 8))
@check("C04")
def c04(tier):
    p = Program("c04.cpp", U); q = tier == "quick"
    j = [Job(p, dict(LEN=n)) for n in (list(range(0, 21)) + [64, 300] if q else list(range(0, 130)) + [255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000])]
    return dict(jobs=j, reach=["stripped"], bounds="all texts of every listed length (all bytes arbitrary)")
@check("C05")
def c05(tier):
    return dict(jobs=[Job(Program("c05.cpp", A))], reach=["ordered", "inverted arguments"], bounds="all 32-bit coordinates; two successive expansions; file name absent or two arbitrary bytes")
@check("C06")
def c06(tier):
    p = Program("c06.cpp", A)
    return dict(jobs=[Job(p, dict(PART=k)) for k in range(3)], reach=["less", "not less", "equal locations"], bounds="all 32-bit coordinates; file names absent or up to 2 arbitrary bytes")
@check("C07")
def c07(tier):
    p = Program("c07.cpp", A); q = tier == "quick"
    j = [Job(p, dict(WIDE=w, FILE=f, RAW=r)) for w in ([0, 1, 2, 4, 8, 5] if q else range(16)) for f in ((0, 3) if w == 0 or not q else (2,)) for r in (0, 1)]
    j += [Job(p, dict(WIDE=0, FILE=1))]
    return dict(jobs=j, reach=["file only", "line only", "line range", "single position", "column range", "multi line"], bounds="coordinates: the ones selected by WIDE range over all 32-bit values, the others over 0..11; file name absent or up to 2 arbitrary bytes")
T = ["gen:types.cpp", "gen:values.cpp", "gen:semantic.cpp", "gen:syntactic.cpp"]
V = ["src/annotations.cpp", "src/error.cpp", "src/utils.cpp", "src/version.cpp"] + ["src/v3x/%s.cpp" % x for x in "primitives types values core_function instruction instruction_set register_instructions register_consteval_core_functions resolver semantic_analyzer analyzer analysis_result cqasm parse_helper parse_result".split()]
G = ["src/v3x/%s.cpp" % x for x in "syntactic_analyzer antlr_scanner antlr_custom_error_listener".split()] + ["gen:antlr_gen.cpp"]

E1 = ["src/annotations.cpp", "src/error.cpp", "src/utils.cpp"]
TREE = lambda: Program("c38.cpp", T + V + G, gen=True)
def tree_jobs(p, kinds, q, **kw):
    j = []
    for k in kinds:
        n = {0: 8, 1: 156, 2: 4, 7: 6}.get(k, 1)
        j += [Job(p, dict(MODE=0, KIND=k, LO=a, HI=a + 39), max_time=300) for a in range(0, n, 39)]
        j += [Job(p, dict(MODE=1, KIND=k, SHAPE={0: 2, 1: 79, 2: 2, 7: 2}.get(k, 0), PLACE=f), max_time=300) for f in range({0: 1, 1: 6, 2: 4, 6: 2, 7: 1}.get(k, 1))]
    return j
# the text side of a property about syntax: the tree made from the text holds what is written (c38.cpp)
TEXTB = lambda b: b + "; the syntax tree that parsing gives is compared with the text for every form of these statements (see C38)"
@check("C08")
def c08(tier):
    p = Program("c08.cpp", E1, gen=True); q = tier == "quick"
    j = [Job(p, dict(LEN=n, LIM=12 if n < 2 else 3, NAME=2)) for n in (0, 1, 2, 4)] + [Job(p, dict(MODE=1, STEPS=n)) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    j += [Job(p, dict(LEN=n, SPARSE=k, LIM=2)) for n, k in (SPQ[:3] if q else SPT[:12])]
    if not q: j += [Job(p, dict(LEN=n, LIM=102, NAME=3)) for n in (0, 1, 6)]
    return dict(jobs=j, reach=["no location", "location", "later location", "attached", "never attached"], bounds="messages of up to 4 arbitrary non-NUL bytes and longer ones with some arbitrary bytes; coordinates 0..%d; file name absent or up to 2 arbitrary bytes; histories of up to %d context/copy operations on nodes with and without location" % ((11, 4) if q else (101, 5)))
@check("C09")
def c09(tier):
    p = Program("c09.cpp", E1, gen=True); q = tier == "quick"
    j = [Job(p, dict(LEN=n, FILE=f, LIM=2)) for n in (0, 1, 2) for f in (0, 1, 2)] + [Job(p, dict(LEN=1, LOC=0)), Job(p, dict(LEN=0, LOC=0))]
    j += [Job(p, dict(LEN=1, FILE=3, LIM=1)), Job(p, dict(LEN=3, FILE=0, LIM=1)), Job(p, dict(LEN=40, SPARSE=2, FILE=1, LIM=1))]
    j += [Job(p, dict(LEN=0, FILE=0, LIM=1, WIDE=w)) for w in ((1, 2, 4, 8) if q else range(1, 16))]
    if not q: j += [Job(p, dict(LEN=n, FILE=f, LIM=1)) for n in (2, 3) for f in (2, 3)] + [Job(p, dict(LEN=n, SPARSE=3, FILE=2, LIM=1)) for n in (31, 32, 33, 256)]
    return dict(jobs=j, reach=["no file", "file"], bounds="messages of up to 3 and file names of up to 2 arbitrary bytes (and one longer message with 2 arbitrary bytes); coordinates 0..1, and each coordinate over all 32-bit values")
@check("C12")
def c12(tier):
    p = Program("c12.cpp", ["src/string_builder.cpp"], gen=True); q = tier == "quick"
    return dict(jobs=[Job(p, dict(OPS=1, LEN=4, ELEN=4)), Job(p, dict(OPS=2, LEN=2, ELEN=2)), Job(p, dict(OPS=3, LEN=1, ELEN=2))] + ([] if q else [Job(p, dict(OPS=4, LEN=1, ELEN=2)), Job(p, dict(OPS=2, LEN=3, ELEN=3))]), reach=["fragment", "known escape", "other escape"], bounds="up to %d operations with texts of up to 4 arbitrary bytes" % (3 if q else 4))
R1 = ["src/annotations.cpp", "src/error.cpp", "src/utils.cpp", "src/version.cpp", "src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/types.cpp", "src/v3x/values.cpp"]
@check("C10")
def c10(tier):
    p = Program("c10.cpp", T + R1 + ["src/v3x/analysis_result.cpp", "src/v3x/parse_result.cpp"], gen=True); q = tier == "quick"
    j = [Job(p, dict(N=n, LEN=l)) for n, l in ()]
    for n, l, ats in [(0, 0, [0]), (1, 2, [0, 1]), (2, 1, [0, 2, 1])] + ([] if q else [(2, 1, [3]), (1, 3, [0, 1]), (3, 1, [2, 5]), (4, 0, [0, 9])]):
        j += [Job(p, dict(N=n, LEN=l, AT=at, PARSE=pa, TREE=(at ^ pa) & 1), max_time=120 if q else 600) for at in ats for pa in (0, 1)]
    return dict(jobs=j, reach=["no errors", "errors", "errors with partial tree"], bounds="up to %d errors with messages of up to 2 (one error) or 1 arbitrary non-NUL bytes, each with or without a location; a tree with an arbitrary two-letter name and an arbitrary 64-bit size; parse and analysis results" % (2 if q else 4))
@check("C11")
def c11(tier):
    p = Program("c11.cpp", ["src/version.cpp"], gen=True); q = tier == "quick"
    j = [Job(p, dict(LEN=n)) for n in range(0, 4 if q else 5)] + [Job(p, dict(LEN=n, LONG=1)) for n in (1, 2)] + [Job(p, dict(DIGITS=d)) for d in ((1, 202, 10102, 10, 1001) if q else (1, 202, 303, 10102, 1010101, 10, 11, 1001, 18, 110, 30201))]
    j += [Job(p, dict(MODE=1, SIZE=n, WIDE=w)) for n, w in ((0, 0), (1, 1), (2, 1), (2, 2), (3, 4)) + (() if q else ((2, 3), (4, 8)))] + [Job(p, dict(MODE=2, SIZE=3 if q else 5))]
    return dict(jobs=j, reach=["rejected", "parsed", "printed", "read back", "equal", "older", "newer"], bounds="parsing: all texts of up to %d arbitrary non-NUL bytes, '3.' followed by up to 2, and digit groups up to %d digits (read back up to 999 per component); printing and comparing: up to %d components over all non-negative 64-bit values" % ((3, 10, 3) if q else (4, 18, 5)))
@check("C13")
def c13(tier):
    p = Program("c13.cpp", T + R1 + ["src/v3x/resolver.cpp"], gen=True); q = tier == "quick"
    j = [Job(p, dict(OVERLOADS=2, MAXAR=1, KINDS=7 if not q else 5)), Job(p, dict(OVERLOADS=2, MINAR=2, MAXAR=2, KINDS=3)), Job(p, dict(OVERLOADS=3, MINAR=1, MAXAR=1, KINDS=3)), Job(p, dict(OVERLOADS=2, MAXAR=1, KINDS=2, NAMES=1)), Job(p, dict(OVERLOADS=3, MINAR=0, MAXAR=0, KINDS=1, NAMES=1)), Job(p, dict(OVERLOADS=2, MINAR=1, MAXAR=2, KINDS=2))]
    if not q: j += [Job(p, dict(OVERLOADS=3, MAXAR=1, KINDS=3, NAMES=1), max_time=600), Job(p, dict(OVERLOADS=2, MINAR=2, MAXAR=2, KINDS=4), max_time=600), Job(p, dict(OVERLOADS=1, MINAR=3, MAXAR=3, KINDS=3), max_time=600)]
    return dict(jobs=j, reach=["unknown name", "no overload", "resolved"], bounds="up to 3 overloads with up to 2 parameters (3 in the thorough tier) over the listed kinds; all values of constant arguments; names of 1 and 2 arbitrary bytes")
@check("C14")
def c14(tier):
    p = Program("c14.cpp", T + R1, gen=True)
    return dict(jobs=[Job(p)], reach=["same type", "widened", "not promotable"], bounds="all pairs of the seven kinds, all 64-bit values and sizes, all locations")
@check("C15")
def c15(tier):
    p = Program("c15.cpp", T + R1, gen=True); q = tier == "quick"
    return dict(jobs=[Job(p, dict(MODE=0))] + [Job(p, dict(MODE=1, LEN=n)) for n in range(0, 3 if q else 4)] + [Job(p, dict(MODE=2)), Job(p, dict(MODE=3, COUNT=4 if q else 12))], reach=["unknown letter", "letter", "letters", "constant", "reference", "element", "slice"], bounds="all characters and all texts of up to %d characters as type letters; all sizes; up to %d indices of any value" % ((2, 4) if q else (3, 12)))
VA = [s for s in V if not s.endswith("parse_helper.cpp")]
OPS = "NEG BNOT LNOT POW MUL DIV MOD ADD SUB SHL SHR GT LT GE LE EQ NE BAND BXOR BOR LAND LXOR LOR TERN".split()
@check("C16")
def c16(tier):
    p = Program("c16.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(OP=i, KINDS=(4 if o != "TERN" else 3) if q else 7 if o != "TERN" else 5)) for i, o in enumerate(OPS)][::-1]
    j += tree_jobs(TREE(), [3], q)
    return dict(jobs=j, reach=["undefined result", "no such operator", "folded"], bounds=TEXTB("all 24 operators, one application, operands of every constant kind over all 64-bit values (doubles as bit patterns) or a reference; pow is an uninterpreted function shared with the reference"))
UBTRAP = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-trap=all"]
@check("C17")
def c17(tier):
    p = Program("c17.cpp", T + VA, gen=True, irflags=UBTRAP); q = tier == "quick"; o = OPS.index
    j = [Job(p, dict(OP=i)) for i in range(len(OPS) + 16)]
    outer = "NEG BNOT MUL DIV MOD ADD SUB SHL SHR TERN".split() if q else OPS; inner = "NEG MUL DIV MOD ADD SUB SHL".split() if q else [x for x in OPS if x != "TERN"]
    j += [Job(p, dict(OP=o(a), INNER=o(b), SIDE=s, KINDS=1 if q else 2), max_time=300) for a in outer for b in inner for s in ((0, 1) if q else (0, 1, 2)) if s == 0 or o(a) > 2]
    j += [Job(p, dict(OP=len(OPS) + f, INNER=o(b), KINDS=1 if q else 3), max_time=300) for f in ((15,) if q else range(16)) for b in inner]
    return dict(concrete_ok=True, jobs=j[::-1], reach=["error", "value"], bounds="every operator and function applied once to constants of every kind over all values, and every listed pair of operators nested with integer operands over all 64-bit values; the code is compiled with traps on signed overflow, bad shifts, division by zero and out-of-range conversions")
@check("C18")
def c18(tier):
    p = Program("c18.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(MODE=0, F=f)) for f in range(16)] + [Job(p, dict(MODE=1, LEN=n)) for n in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7))] + [Job(p, dict(MODE=2, LEN=n)) for n in ((1, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6))] + [Job(p, dict(MODE=3)), Job(p, dict(MODE=4))]
    return dict(jobs=j, reach=["integer abs", "function", "predefined", "declared", "unknown variable", "known function", "unknown function", "redeclared", "arity"], bounds="every function over all constants (library functions are uninterpreted functions shared with the reference); all names of up to %d letters; up to 3 arguments" % (5 if q else 7))
@check("C19")
def c19(tier):
    p = Program("c19.cpp", T + R1, gen=True); q = tier == "quick"
    j = [Job(p, dict(TYPE=t)) for t in (0, 1, 2, 4, 5)] + [Job(p, dict(TYPE=3, LEN=n)) for n in ((0, 1, 2, 5, 16) if q else range(0, 40))] + [Job(p, dict(TYPE=3, LEN=n, SPARSE=k)) for n, k in (SPQ if q else SPT)] + [Job(p, dict(TYPE=6, LEN=n)) for n in ((0, 1, 2, 3, 4) if q else range(0, 10))]
    return dict(jobs=j, reach=["boolean", "integer", "double", "text", "axis", "complex", "version"], bounds="all values of every fixed-size primitive; texts of up to %d arbitrary bytes and the listed lengths with some arbitrary bytes; versions of up to %d arbitrary components; the byte format is the stand-in's" % ((16, 4) if q else (39, 9)))
@check("C20")
def c20(tier):
    p = Program("c20.cpp", T + R1, gen=True); q = tier == "quick"
    j = [Job(p, dict(MODE=m, N=n, LEN=l, KINDS=k)) for m in (0, 1) for n, l, k in [(0, 3, 7), (1, 2, 7), (2, 2, 3 + (not q) * 4), (3, 1, 2)]] + [Job(p, dict(MODE=m, N=1, LEN=16, SPARSE=2)) for m in (0, 1)]
    j += [Job(p, dict(MODE=m, N=n, M=k, LEN=l, LEN2=l2, KINDS=nk)) for m in (2, 3) for n, k, l, l2, nk in [(0, 0, 2, 2, 2), (1, 1, 1, 1, 3 if q else 7), (2, 2, 1, 1, 2), (1, 2, 1, 1, 2), (2, 1, 0, 0, 2), (1, 1, 1, 2, 2)]]
    return dict(jobs=j, reach=["instruction", "function", "equal", "different"], bounds="up to 3 types of any kind and 64-bit size, names of up to 3 arbitrary bytes (and one of 16 with 2 arbitrary bytes); the byte format is the stand-in's")
@check("C21")
def c21(tier):
    p = Program("c21.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(MODE=0, SIZE=n, WIDE=w)) for n, w in ((0, 0), (1, 0), (2, 0), (3, 0)) + (() if q else ((4, 0), (1, 1), (2, 1), (2, 2), (3, 4)))] + [Job(p, dict(MODE=1, SIZE=n, WIDE=15)) for n in (1, 2, 3, 4)] + [Job(p, dict(MODE=2, LEN=n)) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    return dict(jobs=j, reach=["accepted", "rejected", "made", "refused", "made by text", "refused by text"], bounds="program versions of up to %d components 0..15%s; analyser versions of up to 4 components over all non-negative 64-bit values; analyser version texts of up to %d digits and dots" % ((3, "", 4) if q else (4, " and single components over all 64-bit values", 5)))
@check("C22")
def c22(tier):
    p = Program("c22.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(DECLS=1, TYPES=6)), Job(p, dict(DECLS=1, BEFORE=1, TYPES=3)), Job(p, dict(DECLS=2, TYPES=2, TAB=4, SIZES=2)), Job(p, dict(DECLS=2, TYPES=3, TAB=2, SIZES=2, BEFORE=1)), Job(p, dict(DECLS=3, TYPES=1, TAB=3, SIZES=1)), Job(p, dict(DECLS=3, TYPES=2, TAB=2, SIZES=0))]
    j += [Job(p, dict(DECLS=1, NAMES=0, LEN=n, TYPES=1), max_time=200) for n in (1, 2, 3, 4)] + [Job(p, dict(DECLS=2, NAMES=0, LEN=n, TYPES=1, SIZES=1), max_time=200) for n in (1, 2)]
    if not q: j += [Job(p, dict(DECLS=3, TYPES=2, TAB=3, SIZES=2), max_time=900), Job(p, dict(DECLS=4, TYPES=1, TAB=3, SIZES=1), max_time=900), Job(p, dict(DECLS=3, NAMES=0, LEN=2, TYPES=1, SIZES=1), max_time=900), Job(p, dict(DECLS=2, TYPES=3, TAB=8, SIZES=2), max_time=900)]
    j += tree_jobs(TREE(), [0], q)
    return dict(jobs=j, reach=["rejected", "all accepted", "array", "predefined", "reference"], bounds=TEXTB("all sizes (64 bits); up to %d declarations; names from a table with collisions and predefined names, and all names of up to 4 letters for one declaration, 2 for two; lines 1 to 9" % (3 if q else 4)))
@check("C23")
def c23(tier):
    p = Program("c23.cpp", T + VA, gen=True); q = tier == "quick"; two = range(20, 25)
    j = [Job(p, dict(MODE=0, G=g, MAXOPS=2, MASK=(0x159 if g not in (21, 22) and g >= 20 else 0x35)) if q and g >= 20 else dict(MODE=0, G=g, MAXOPS=1 if q else 2), max_time=300) for g in range(26)]
    j += [Job(p, dict(MODE=0, G=g, MINOPS=2, MAXOPS=3 if not q else 2, OPERANDS=2), max_time=300) for g in ((0, 5, 14) if q else range(25))] + [Job(p, dict(MODE=0, G=20, MINOPS=2, MAXOPS=2), max_time=300)] + [Job(p, dict(MODE=0, G=23, MINOPS=3, MAXOPS=3, OPERANDS=2), max_time=300)]
    j += [Job(p, dict(MODE=1, G=g, PKINDS=5 if q else 7), max_time=300) for g in range(26)] + [Job(p, dict(MODE=2, LEN=n), max_time=300) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    j += [Job(p, dict(MODE=3, NON=k, MASK=0xfff if k or not q else 0x1ff), max_time=300) for k in range(5)] + [Job(p, dict(MODE=4, NON=k, PKINDS=5 if q else 7), max_time=300) for k in (0, 4)]
    j += [Job(p, dict(MODE=0, G=g, MINOPS=2, MAXOPS=2, ARR=a, OPERANDS=6 if a == 1 else 2, MASK=0x33), max_time=300) for g in two for a in ((1,) if g == 20 else (1, 3))] + [Job(p, dict(MODE=3, NON=k, ARR=1, MASK=0x33, OPERANDS=6), max_time=300) for k in (0, 1)] + [Job(p, dict(MODE=0, G=g, MINOPS=1, MAXOPS=1, ARR=1, OPERANDS=6, MASK=0x33), max_time=300) for g in (0, 14, 5)]
    j += tree_jobs(TREE(), [1, 3, 6], q)
    return dict(jobs=j, reach=["rejected", "gate accepted", "non-gate accepted"], bounds=TEXTB("every gate, every non-gate instruction and all names of up to %d characters; up to 3 operands over scalars, arrays of 3 and of 1, single and double index references, constants and undeclared names; up to one parameter more or less than listed, of every kind, constants over all values" % (3 if q else 5)))
@check("C24")
def c24(tier):
    p = Program("c24.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(MODE=m, INDICES=2 if q else 4), max_time=400) for m in range(4)]
    j += tree_jobs(TREE(), [2], q)
    return dict(jobs=j, reach=["gate", "measured", "different sizes"], bounds=TEXTB("two operands, each a scalar, an array of any size of at least 4 up to 2^63-1, a list of up to %d indices or a range with or without a further index; a two-qubit gate, a controlled gate, and measurements with and without axis" % (2 if q else 4)))
@check("C25")
def c25(tier):
    p = Program("c25.cpp", T + VA, gen=True); q = tier == "quick"; c = 5 if q else 6
    j = [Job(p, dict(ITEMS=1, BASE=b, RANGES=r, WIDTH=3 if q else 6, ITEMLOC=1, CLASSES=c, KINDS=3 if r and q else 6), max_time=300) for b in range(7) for r in (0, 1)] + [Job(p, dict(ITEMS=1, BASE=0, ANNOTATION=1, KINDS=1, CLASSES=c))]
    j += [Job(p, dict(ITEMS=2, BASE=b, KINDS=1, RANGES=r, WIDTH=2 if q else 3, ITEMLOC=1, CLASSES=1 if q else c), max_time=300 if q else 700) for b in (0, 1) for r in (0, 1, 2)] + [Job(p, dict(ITEMS=3, BASE=0, KINDS=1, RANGES=0, ITEMLOC=1, CLASSES=c), max_time=300)] + [Job(p, dict(ITEMS=1, BASE=b, KINDS=1, CLASSES=c)) for b in (0, 2, 4)]
    if not q: j += [Job(p, dict(ITEMS=4, BASE=b, KINDS=1, RANGES=0, ITEMLOC=1, CLASSES=c), max_time=600) for b in (0, 1)] + [Job(p, dict(ITEMS=2, BASE=0, KINDS=3, WIDTH=2, ITEMLOC=1, CLASSES=1), max_time=600)]
    j += tree_jobs(TREE(), [4], q)
    return dict(jobs=j, reach=["rejected", "accepted"], bounds=TEXTB("accepted: all array sizes and index values (64 bits), ranges of up to %d indices; rejected: sizes and indices of one digit or of 19 digits (their number of digits is spelled out in the message); up to %d index entries; bases: both array kinds, scalars, constants, undeclared" % ((3, 3) if q else (6, 4))))
@check("C26")
def c26(tier):
    p = Program("c26.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(DEPTH=d, G=g, OPERANDS=k, MAXOPS=m, PKINDS=pk), max_time=300) for d, g, k, m, pk in [(1, 14, 2, 3, 5), (1, 5, 1, 2, 2), (1, 20, 1, 3, 1), (1, 22, 1, 3, 1), (1, 25, 1, 2, 1), (2, 14, 1, 3, 2), (2, 6, 2, 2, 1), (3, 0, 1, 2, 1), (2, 23, 1, 3, 1), (2, 25, 1, 2, 1)]]
    j += [Job(p, dict(DEPTH=1, G=14, OPERANDS=12, MASK=0x1f7, MAXOPS=2 if not q else 1))] + [Job(p, dict(DEPTH=1, G=g, OPERANDS=1, MAXOPS=2)) for g in range(20)] + [Job(p, dict(DEPTH=1, G=g, OPERANDS=1, MAXOPS=3)) for g in (21, 24)]
    if not q: j += [Job(p, dict(DEPTH=d, G=g, OPERANDS=2, MAXOPS=3, PKINDS=3), max_time=900) for d in (2, 3) for g in (5, 14, 20, 25)] + [Job(p, dict(DEPTH=4, G=g, OPERANDS=1, MAXOPS=2, PKINDS=2), max_time=900) for g in (14, 23)]
    j += tree_jobs(TREE(), [1], q)
    return dict(jobs=j, reach=["rejected", "single", "controlled"], bounds=TEXTB("every gate with one modifier and selected gates with up to %d; exponents of every kind and value; up to 3 operands" % (3 if q else 4)))
@check("C27")
def c27(tier):
    p = Program("c27.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(STATEMENTS=3, FIRST=k), max_time=300) for k in range(1, 21)] + [Job(p, dict(STATEMENTS=1, VERSION=1)), Job(p, dict(STATEMENTS=1, LOCATED=0))] + [Job(p, dict(STATEMENTS=4, FIRST=f, MASK=m)) for f, m in ((7, 0x89), (18, 0x2103))]
    if not q: j += [Job(p, dict(STATEMENTS=4, FIRST=13, MASK=0x1049), max_time=300), Job(p, dict(STATEMENTS=2, VERSION=1), max_time=300)] + [Job(p, dict(STATEMENTS=4, FIRST=k), max_time=1800) for k in range(1, 21)] + [Job(p, dict(STATEMENTS=6, MASK=m), max_time=900) for m in (0x89, 0x3041)]
    j += [Job(t, dict(MODE=2, STATEMENTS=3, KIND=k), max_time=600) for t in [TREE()] for k in range(1, 9)]
    return dict(jobs=j, reach=["no error", "one error", "several errors"], bounds=TEXTB("programs of up to %d statements of 20 kinds (7 correct, 13 erroneous), on symbolic lines 1 to 9, with all out-of-range indices from -8 to 7" % (3 if q else 4)))
@check("C28")
def c28(tier):
    p = Program("c28.cpp", E1 + ["src/v3x/instruction_set.cpp"], gen=True); q = tier == "quick"
    return dict(jobs=[Job(p, dict(LEN=n), max_time=300) for n in range(0, 8 if q else 12)] + [Job(p, dict(MODE=1))] + [Job(p, dict(MODE=2, LEN=n)) for n in (0, 1, 4)], reach=["tables", "single-qubit gate", "two-qubit gate", "non-gate", "modifier", "other"], bounds="all names of up to %d arbitrary bytes" % (7 if q else 11))
@check("C29")
def c29(tier):
    p = Program("c29.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(N1=2, N2=2, K1=5, K2=5), max_time=300), Job(p, dict(N1=1, N2=2, K1=12, K2=5), max_time=300), Job(p, dict(N1=1, N2=1, EARLIER=2, K1=5, K2=12), max_time=300), Job(p, dict(N1=1, N2=1)), Job(p, dict(N1=1, N2=1, PRE=1, FRESH=1), max_time=300), Job(p, dict(N1=1, N2=1, REG=1)), Job(p, dict(N1=1, N2=1, REG=2)), Job(p, dict(N1=1, N2=1, K1=3, K2=3, VERSION=1))]
    if not q: j += [Job(p, dict(N1=2, N2=2, K1=12, K2=5), max_time=900), Job(p, dict(N1=3, N2=1, K1=5, K2=12), max_time=900), Job(p, dict(N1=1, N2=3, K1=5, K2=5), max_time=900), Job(p, dict(N1=1, N2=1, EARLIER=3, K1=4, K2=5), max_time=900), Job(p, dict(N1=1, N2=1, VERSION=1), max_time=900)]
    return dict(jobs=j, reach=["earlier good", "earlier bad", "good", "bad", "registered", "array"], bounds="%d earlier programs, then one compared with a fresh analyser in a process of its own; programs of up to %d statements of 16 kinds with colliding names, array sizes 1 to 15 and indices 0 to 9; variables registered by the user before or between analyses" % ((2, 2) if q else (3, 3)))
@check("C30")
def c30(tier):
    p = Program("c30.cpp", T + V + G + ["src/v3x/cqasm_python.cpp", "emscripten/emscripten_wrapper.cpp"], gen=True, flags=["-DVP_FILES"], extra=["harness/c30_version.cpp"]); q = tier == "quick"; J = lambda **k: Job(p, k, max_time=300 if q else 1200)
    j = [J(ERRORS=2 if q else 3)] + [J(MODE=1, NAME=n) for n in ((0, 1, 3) if q else range(6))] + [J(MODE=1, STATEMENTS=2, FIRST=f, NAME=1) for f in ((3, 10) if q else range(1, 11))] + [J(MODE=2, NAME=n, BADVERSION=n, UNWRAP=1) for n in (0, 1)] + [J(MODE=3, NAME=1)]
    if not q: j += [J(MODE=2, STATEMENTS=2, NAME=n) for n in (0, 1)] + [J(MODE=3, NAME=0, PATHS=1)]
    return dict(jobs=j, reach=["parse errors", "analysed", "syntax error", "semantic error", "program", "file", "no file"], bounds="up to %d parse errors with arbitrary one-letter messages; programs of up to 2 statements of 10 kinds (correct, semantically wrong, syntactically wrong); file names of up to %d arbitrary non-NUL bytes; reading a file is modelled as its text" % ((2, 3) if q else (3, 5)))
@check("C31")
def c31(tier):
    p = Program("c31.cpp", T + V + G, gen=True); q = tier == "quick"
    J = lambda **k: Job(p, k, max_time=300 if q else 1200)
    j = [J(PAT=3, FEW=9), J(PAT=2), J(PAT=2, UNARY=7, FEW=1), J(PAT=1, UNARY=3, UNARY2=1, FEW=2), J(PAT=1, UNARY=3), J(PAT=0, UNARY=1, UNARY2=1)] + [J(PAT=k, FEW=12 if k in (4, 5, 6, 7, 12, 14, 15, 16) else 4) for k in range(4, 19) if k not in (8, 9)] + [J(PAT=8), J(PAT=9)]
    j += [J(PAT=1, WHERE=w, SPACES=0) for w in range(6)] + [J(PAT=4, WHERE=w) for w in range(1, 6)] + [J(PAT=2, FEW=4, UNARY=2, WHERE=w, SPACES=0) for w in (1, 4)]
    if not q: j += [J(PAT=3, FEW=14), J(PAT=1, UNARY=3, UNARY2=3), J(PAT=2, UNARY=7, FEW=8), J(PAT=19, FEW=5), J(PAT=20, FEW=10), J(PAT=21, FEW=10), J(PAT=10), J(PAT=11), J(PAT=12), J(PAT=13)] + [J(PAT=k, UNARY=31, FEW=2) for k in (4, 5, 8, 9, 11)]
    return dict(jobs=j, reach=["x", "xox", "xoxox", "xoxoxox", "x?x:x", "x?x:x?x:x", "(xox)ox", "u(xox)"], bounds="all pairs of the 20 binary operators, one operator of each precedence level in longer expressions (up to %d operators), up to two unary operators per operand, conditionals and parentheses in the listed patterns; operands are arbitrary one-letter names; the expression as parameter, index, argument, exponent" % (3 if q else 4))
@check("C32")
def c32(tier):
    p = Program("c32.cpp", T + V + G, gen=True); q = tier == "quick"
    J = lambda **k: Job(p, k, max_time=300 if q else 900)
    j = [J(LEN=n, WHERE=w, INDENT=(n + w) % 3) for w in range(9) for n in ((1, 2, 18, 19, 20) if w < 3 else (3, 19)) ] + [J(LEN=n) for n in (3, 5, 10, 17, 21, 25, 40)] + [J(KIND=1)] + [J(KIND=2, FORM=f) for f in range(12)] + [J(KIND=2, FORM=1, WHERE=8)] + [J(KIND=3, WHERE=w, INDENT=2) for w in (0, 6, 7, 8)]
    if not q: j += [J(LEN=n, WHERE=w) for w in range(9) for n in range(1, 41)]
    return dict(jobs=j, reach=["boolean", "out of range", "in range", "float", "version"], bounds="all digit strings of the listed lengths (up to 40 digits) in every place a literal can stand; floating-point literals of 12 forms with arbitrary digits (conversion of the whole text compared with strtod)")
@check("C33")
def c33(tier):
    p = Program("c33.cpp", T + V + G, gen=True); q = tier == "quick"
    J = lambda **k: Job(p, k, max_time=300 if q else 1500)
    j = [J(MODE=0, SRC=s) for s in (3, 5, 1, 2, 4, 0)] + [J(MODE=0, SRC=s, SEP=1, FILE=1) for s in (2, 4, 0)] + [J(MODE=1, SRC=s) for s in range(6)] + [J(MODE=2, WIDE=w, LEN=4 if w == 0 else 1) for w in range(3)] + [J(MODE=3, LO=a, HI=b) for a, b in ((0, 8), (8, 16), (16, 24))]
    if not q: j += [J(MODE=0, SRC=s, GAPS=2) for s in (0, 4)]
    return dict(jobs=j, reach=["layout", "any position", "token", "end of input", "no token", "value", "characters", "end of text", "unexpected token"], bounds="six programs with every kind of node: tokens at arbitrary 32-bit lines and columns (columns below 2^31), and in text with %s of seven kinds (blanks, tabs, comments over several lines, non-ASCII text) between any tokens and seven separators; file name absent or up to one arbitrary byte; reports for arbitrary 32-bit positions; 24 texts that are not programs" % ("one gap" if q else "up to two gaps"))
@check("C34")
def c34(tier):
    p = Program("c34.cpp", T + V + G, gen=True); q = tier == "quick"
    J = lambda **k: Job(p, k, max_time=300 if q else 1500)
    j = [J(MODE=4, SRC=s, LEN=3, POST=o) for s, o in ((1, 0), (3, 2), (9, 1))] + [J(MODE=0, SRC=s) for s in range(4)] + [J(MODE=0, SRC=s, HOW=1) for s in range(4)] + [J(MODE=0, SRC=s, HOW=2) for s in (0, 2)] + [J(MODE=1, LEN=n, GAP=n % 2) for n in range(5)] + [J(MODE=2, SRC=s, OP=o) for o in range(3) for s in range(8)] + [J(MODE=3, SRC=s, LEN=2) for s in range(10)] + [J(MODE=4, SRC=s, LEN=2, POST=o) for s in range(10) for o in (0, 3)]
    if not q: j += [J(MODE=0, SRC=s, GAPS=2, KINDS=4) for s in (0, 2)] + [J(MODE=1, LEN=n, GAP=n % 2) for n in (5, 6, 7)] + [J(MODE=3, SRC=s, LEN=3) for s in range(10)] + [J(MODE=4, SRC=s, LEN=3, POST=o) for s in range(10) for o in range(4)]
    return dict(jobs=j, reach=["layout", "raw text", "program", "not a program"], bounds="four programs with every kind of statement: %s of six kinds of gap (one or two blanks or tabs, comments with two arbitrary ASCII characters or an arbitrary two-byte character) between any tokens, nine kinds of separator, leading and trailing layout; raw text of up to %d arbitrary ASCII characters; eight programs with any character replaced or inserted anywhere by any ASCII character, or up to three removed; %d arbitrary ASCII characters in ten contexts; any two (in some contexts three) of 26 tokens in ten contexts, each compared with an independent recogniser of the language" % (("one", 4, 2) if q else ("up to two", 7, 3)))
@check("C35")
def c35(tier):
    q = tier == "quick"
    names = "decode_int decode_bool decode_float decode_text decode_bytes_ascii decode_byte decode_bytes_wide decode_version version_of_text decode_reference decode_empty_reference encode_reference encode_scalars encode_float encode_version round_trip instruction_text tree_or_errors json_passed_on versions_and_registration".split()
    return dict(python="c35", jobs=[], conditions=names, optional=dict(decode_bytes_ascii="decode_byte"), seconds=150 if q else 600,
        functions=["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py", "python/module/cqasm/v3x/__init__.py"],
        technique="CrossHair: symbolic execution of the Python code in /repo, postconditions decided by z3, counterexamples called again in plain Python",
        bounds="every integer, boolean, floating-point value and text; byte texts of up to 2 ASCII characters or one two-byte character; versions of up to 4 numbers; instruction references with any name and up to 3 operand types; results with up to 2 errors",
        assumptions=["the modules tree-gen and SWIG make are replaced by stand-ins that record what they are given (harness/c35/stub)", "CrossHair's models of the Python built-ins"])
@check("C36")
def c36(tier):
    p = Program("c36.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(PART=k, FILE=f), max_time=300) for k in (0, 1, 2, 4) for f in ((0, 1) if k in (0, 4) or not q else (0,))] + [Job(p, dict(PART=3, STATEMENTS=n), max_time=600) for n in ((1, 2) if q else (1, 2, 3))]
    return dict(jobs=j, reach=["gate", "measure", "again", "one", "several", "no location", "annotation"], bounds="all 32-bit line and column numbers of every located node of the listed program shapes, and file names absent or of one arbitrary byte; programs of up to %d statements for the block" % (2 if q else 3))
@check("C37")
def c37(tier):
    p = Program("c37.cpp", T + VA, gen=True); q = tier == "quick"
    j = [Job(p, dict(WHAT=w, STEPS=n), max_time=600) for w in range(3) for n in ((1, 3, 4) if q else (1, 2, 3, 4, 5))] + [Job(p, dict(WHAT=0, STEPS=n, DECLARED=1), max_time=600) for n in ((2, 3) if q else (2, 3, 4))] + [Job(p, dict(PART=1))]
    return dict(jobs=j, reach=["declared variable", "variable", "no variable", "instruction", "no instruction", "function", "no function", "copy", "redeclared", "inner program"], bounds="all histories of up to %d steps (enter or leave a scope, copy the analyser, register a constant, an instruction or a function, or declare a variable in up to %d steps) over three names and three operand kinds with arbitrary values, then any look-up" % ((4, 3) if q else (5, 4)))
@check("C38")
def c38(tier):
    p = TREE(); q = tier == "quick"
    j = [Job(p, dict(MODE=2, STATEMENTS=3, KIND=k), max_time=600) for k in range(1, 9)] + tree_jobs(p, range(8), q)
    if not q: j += [Job(p, dict(MODE=2, STATEMENTS=4, KIND=k), max_time=3000) for k in range(1, 9)]
    return dict(jobs=j, reach=["shape", "expression", "program"], bounds="every statement form (declarations with and without size, gates with up to two modifiers, three parameters and three operands, measurements with up to three parameters, the other instructions, assembly), any of 43 expression forms (every operator, calls, index lists of up to three items and ranges, calls, indices and unary operators inside one another) in any place, names that may coincide, any of 18 spellings of a name with an arbitrary letter, and programs of up to %d statements with any separators" % (3 if q else 4))
