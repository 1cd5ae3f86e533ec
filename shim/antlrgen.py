#!/usr/bin/env python3
"""Generates CqasmLexer.h, CqasmParser.h, CqasmParserVisitor.h, CqasmParserBaseVisitor.h and antlr_gen.cpp from
/repo/src/v3x/Cqasm{Lexer,Parser}.g4.  Stand-in for the ANTLR tool (not available offline).
Lexer: DFA built with ANTLR's rules (longest match, first rule wins, non-greedy loops, modes, skip).
Parser: ordered-choice program with ANTLR's left-recursion elimination (precedence climbing)."""
import os, re, sys

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<assoc><\s*assoc\s*=\s*(?:right|left)\s*>)"""
                 r"""|(?P<arrow>->)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<p>[:;|()?*+~.,=#{}])""", re.S)

def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise SystemExit('antlrgen: cannot read grammar at %r' % text[i:i+30])
        if m.lastgroup: out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

ESC = {'n': 10, 'r': 13, 't': 9, 'b': 8, 'f': 12, '\\': 92, "'": 39, ']': 93, '-': 45, '"': 34}
def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == 'u':
                if s[i+2] == '{':
                    e = s.index('}', i); out.append((int(s[i+3:e], 16), True)); i = e + 1
                else:
                    out.append((int(s[i+2:i+6], 16), True)); i += 6
            else:
                out.append((ESC[s[i+1]], True)); i += 2
        else:
            out.append((ord(s[i]), False)); i += 1
    return out

def charset(s):
    cs, r, i = unescape(s), [], 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i+1] == (45, False):
            r.append((cs[i][0], cs[i+2][0])); i += 3
        else:
            r.append((cs[i][0], cs[i][0])); i += 1
    return r

MAXC = 0x10FFFF
def negate(rs):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo: out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= MAXC: out.append((lo, MAXC))
    return out

class Grammar:
    """elements: ('seq',[..]) ('alt',[..]) ('opt',e,greedy) ('star',..) ('plus',..) ('tok',name) ('rule',name) ('lit',s) ('set',ranges) ('any',)"""
    def __init__(s, text):
        s.t, s.i = tokens(text), 0
        s.rules, s.order, s.fragments, s.mode_of, s.cmds, s.modes, s.elabels = {}, [], set(), {}, {}, ['DEFAULT_MODE'], {}
        s.lexer = False
        mode = 'DEFAULT_MODE'
        while s.i < len(s.t):
            v = s.val()
            if v in ('lexer', 'parser', 'grammar'):
                s.lexer |= v == 'lexer'
                while s.next() != ';': pass
            elif v == 'options' and s.t[s.i+1][1] == '{':
                while s.next() != '}': pass
            elif v == 'mode' and s.t[s.i+2][1] == ';':
                mode = s.t[s.i+1][1]; s.modes.append(mode); s.i += 3
            elif v in ('import', 'tokens', 'channels'):
                raise SystemExit('antlrgen: %s not supported' % v)
            else:
                frag = v == 'fragment'
                if frag: s.i += 1
                name = s.next(); assert s.next() == ':', name
                if frag: s.fragments.add(name)
                s.mode_of[name] = mode; s.order.append(name)
                alts = []
                while True:
                    s.seen, s.lab, s.depth = [], [], 0
                    a, assoc, label = s.alternative(name)
                    alts.append((a, assoc, label))
                    for x in s.lab: s.elabels.setdefault(label or name, []).append(x)
                    if s.val() == '|': s.i += 1; continue
                    break
                assert s.next() == ';', name
                s.rules[name] = alts
    def val(s): return s.t[s.i][1]
    def next(s): s.i += 1; return s.t[s.i-1][1]
    def alternative(s, rule):
        items, assoc, label = [], 'left', None
        while s.val() not in ('|', ';', ')'):
            k, v = s.t[s.i]
            if k == 'assoc': assoc = 'right' if 'right' in v else 'left'; s.i += 1; continue
            if v == '#': label = s.t[s.i+1][1]; s.i += 2; continue
            if k == 'arrow':
                s.i += 1
                while True:
                    c = s.next(); arg = None
                    if s.val() == '(': s.i += 1; arg = s.next(); assert s.next() == ')'
                    s.cmds.setdefault(rule, []).append((c, arg))
                    if s.val() == ',': s.i += 1; continue
                    break
                continue
            items.append(s.suffixed(rule))
        return ('seq', items), assoc, label
    def suffixed(s, rule):
        lab, many = None, False
        if s.t[s.i][0] == 'id' and s.t[s.i+1][1] == '=': lab = s.next(); s.i += 1
        elif s.t[s.i][0] == 'id' and s.t[s.i+1][1] == '+' and s.t[s.i+2][1] == '=': lab, many = s.next(), True; s.i += 2
        at = len(s.seen); e = s.atom(rule)
        if lab: s.lab.append((lab, many, e, s.seen[:at]))
        while s.i < len(s.t) and s.val() in ('?', '*', '+'):
            op = s.next(); greedy = True
            if s.val() == '?': s.i += 1; greedy = False
            e = ({'?': 'opt', '*': 'star', '+': 'plus'}[op], e, greedy)
            s.seen[at:] = [(n, False) for n, _ in s.seen[at:]]
        return e
    def atom(s, rule):
        k, v = s.t[s.i]; s.i += 1
        if v == '~':
            e = s.atom(rule)
            if e[0] == 'lit': e = ('set', [(unescape(e[1])[0][0],) * 2])
            if e[0] == 'alt': e = ('set', [r for a in e[1] for x in a[1] for r in (x[1] if x[0] == 'set' else [(unescape(x[1])[0][0],) * 2])])
            assert e[0] == 'set'
            return ('set', negate(e[1]))
        if v == '(':
            alts, at = [], len(s.seen)
            while True:
                a, assoc, label = s.alternative(rule); alts.append(a)
                if s.next() == ')': break
            if len(alts) > 1: s.seen[at:] = [(n, False) for n, _ in s.seen[at:]]
            return ('alt', alts) if len(alts) > 1 else alts[0]
        if k == 'lit' and s.lexer and s.val() == '.' and s.t[s.i+1][1] == '.' and s.t[s.i+2][0] == 'lit':
            hi = s.t[s.i+2][1]; s.i += 3; return ('set', [(unescape(v[1:-1])[0][0], unescape(hi[1:-1])[0][0])])
        if k == 'lit': return ('lit', v[1:-1])
        if k == 'set': return ('set', charset(v[1:-1]))
        if v == '.': return ('any',)
        if k == 'id':
            s.seen.append((v, True))
            return ('tok', v) if v[0].isupper() and not s.lexer else ('rule', v)
        raise SystemExit('antlrgen: unexpected %r in rule %s' % (v, rule))

# ---- lexer -------------------------------------------------------------------------------------------------------------
class NFA:
    def __init__(s): s.eps, s.edge, s.ng, s.stop = [], [], set(), {}
    def new(s): s.eps.append([]); s.edge.append(None); return len(s.eps) - 1

def build(n, g, e, depth=0):
    """returns (start, end)"""
    if depth > 40: raise SystemExit('antlrgen: recursive lexer rule not supported')
    k = e[0]
    if k == 'seq':
        a = b = n.new()
        for x in e[1]:
            p, q = build(n, g, x, depth); n.eps[b].append(p); b = q
        return a, b
    if k in ('set', 'any'):
        a, b = n.new(), n.new(); n.edge[a] = (e[1] if k == 'set' else [(0, MAXC)], b); return a, b
    if k == 'lit':
        a = b = n.new()
        for c, _ in unescape(e[1]):
            q = n.new(); n.edge[b] = ([(c, c)], q); b = q
        return a, b
    if k == 'alt':
        a, b = n.new(), n.new()
        for x in e[1]:
            p, q = build(n, g, x, depth); n.eps[a].append(p); n.eps[q].append(b)
        return a, b
    if k == 'rule':
        return build(n, g, ('alt', [x[0] for x in g.rules[e[1]]]), depth + 1)
    p, q = build(n, g, e[1], depth)
    if k == 'plus':
        a, loop, b = n.new(), n.new(), n.new()
        n.eps[a].append(p); n.eps[q].append(loop)
        n.eps[loop] += [p, b] if e[2] else [b, p]
        if not e[2]: n.ng.add(loop)
        return a, b
    a, b = n.new(), n.new()
    n.eps[a] += [p, b] if e[2] else [b, p]
    if not e[2]: n.ng.add(a)
    n.eps[q].append(a if k == 'star' else b)
    return a, b

def lexer_dfa(g):
    n = NFA()
    rules = [r for r in g.order if r not in g.fragments]
    starts = {m: [] for m in g.modes}
    for i, r in enumerate(rules):
        a, b = build(n, g, ('alt', [x[0] for x in g.rules[r]]))
        n.stop[b] = i
        starts[g.mode_of[r]].append((i, a))
    cuts = {0, MAXC + 1}
    for ed in n.edge:
        if ed:
            for lo, hi in ed[0]: cuts.add(lo); cuts.add(hi + 1)
    cuts = sorted(cuts)
    classes = list(zip(cuts, [c - 1 for c in cuts[1:]]))
    def closure(cfg, out, reached):
        st, alt, ng = cfg
        if st in n.stop:
            if cfg not in out: out.append(cfg)
            return True
        if n.edge[st] is not None:
            if not reached or not ng:
                if cfg not in out: out.append(cfg)
        for t in n.eps[st]:
            reached = closure((t, alt, ng or t in n.ng), out, reached)
        return reached
    def key(c): return tuple(c)
    states, todo, table, acc = {}, [], [], []
    def state(c):
        k = key(c)
        if k not in states:
            states[k] = len(states); todo.append(c); table.append({})
            acc.append(next((n.stop[s] for s, a, ng in c if s in n.stop), -1))
        return states[k]
    start = {}
    for m in g.modes:
        c = []
        for alt, a in starts[m]: closure((a, alt, a in n.ng), c, False)
        start[m] = state(c)
    i = 0
    while i < len(todo):
        c = todo[i]
        for lo, hi in classes:
            out, skip = [], None
            for st, alt, ng in c:
                reached = alt == skip
                if reached and ng: continue
                ed = n.edge[st]
                if ed and any(x <= lo and hi <= y for x, y in ed[0]):
                    if closure((ed[1], alt, ng or ed[1] in n.ng), out, reached): skip = alt
            if out: table[i].setdefault(state(out), []).append((lo, hi))
        i += 1
    return rules, start, table, acc

def merge(rs):
    out = []
    for a, b in sorted(rs):
        if out and out[-1][1] + 1 == a: out[-1] = (out[-1][0], b)
        else: out.append((a, b))
    return out

def camel(s): return s[:1].upper() + s[1:]

# ---- parser ------------------------------------------------------------------------------------------------------------
class Prog:
    def __init__(s): s.ins, s.fix = [], []
    def emit(s, op, a=0, b=0, c=0, d=0): s.ins.append([op, a, b, c, d]); return len(s.ins) - 1

def first_last_recursion(alt, rule):
    it = alt[1]
    return bool(it) and it[0] == ('rule', rule), len(it) > 1 and it[-1] == ('rule', rule)

def gen_parser(g, types, out):
    P = Prog(); entry = {}; ctxs = []; ctx_id = {}
    for r in g.order:
        for a, assoc, label in g.rules[r]:
            nm = label or r
            if nm not in ctx_id: ctx_id[nm] = len(ctxs); ctxs.append((nm, r))
    def elem(e, rule, prec_for=None):
        k = e[0]
        if k == 'seq':
            refs = [i for i, x in enumerate(e[1]) if x[0] == 'rule']
            for i, x in enumerate(e[1]): elem(x, rule)
        elif k == 'tok':
            P.emit('TOK', types[e[1]], -2, -2, -2)
        elif k == 'rule':
            P.fix.append((P.emit('CALL', e[1], 0), e[1]))
        elif k == 'alt':
            if all(a[0] == 'seq' and len(a[1]) == 1 and a[1][0][0] == 'tok' for a in e[1]) and len(e[1]) <= 4:
                ts = [types[a[1][0][1]] for a in e[1]]; P.emit('TOK', *(ts + [-2] * (4 - len(ts)))); return
            alts([(lambda a=a: elem(a, rule)) for a in e[1]])
        elif k == 'opt':
            sp = P.emit('SPLIT'); P.ins[sp][1] = len(P.ins); elem(e[1], rule); P.ins[sp][2] = len(P.ins)
            if not e[2]: P.ins[sp][1], P.ins[sp][2] = P.ins[sp][2], P.ins[sp][1]
        elif k == 'star':
            sp = P.emit('SPLIT'); P.ins[sp][1] = len(P.ins); elem(e[1], rule); P.emit('JMP', sp); P.ins[sp][2] = len(P.ins)
            if not e[2]: P.ins[sp][1], P.ins[sp][2] = P.ins[sp][2], P.ins[sp][1]
        elif k == 'plus':
            st = len(P.ins); elem(e[1], rule); sp = P.emit('SPLIT', st); P.ins[sp][2] = len(P.ins)
            if not e[2]: P.ins[sp][1], P.ins[sp][2] = P.ins[sp][2], P.ins[sp][1]
        else: raise SystemExit('antlrgen: %r not supported in parser rule %s' % (k, rule))
    def alts(fs):
        jumps = []
        for i, f in enumerate(fs):
            if i + 1 < len(fs):
                sp = P.emit('SPLIT'); P.ins[sp][1] = len(P.ins)
            f()
            if i + 1 < len(fs):
                jumps.append(P.emit('JMP')); P.ins[sp][2] = len(P.ins)
        for j in jumps: P.ins[j][1] = len(P.ins)
    def recseq(items, rule, prec):
        """items of an alternative whose last rule reference, if it is the rule itself, gets the precedence"""
        refs = []
        def walk(e):
            if e[0] == 'rule': refs.append(e)
            elif e[0] in ('seq', 'alt'):
                for x in e[1]: walk(x)
            elif e[0] in ('opt', 'star', 'plus'): walk(e[1])
        for x in items: walk(x)
        for i, x in enumerate(items):
            if x == ('rule', rule) and refs and refs[-1] is x and i == len(items) - 1:
                P.fix.append((P.emit('CALL', rule, prec), rule))
            else: elem(x, rule)
    for r in g.order:
        entry[r] = len(P.ins)
        rs = g.rules[r]; nalt = len(rs)
        rec = [first_last_recursion(a, r) for a, _, _ in rs]
        if any(x[0] for x in rec):
            prim, ops = [], []
            for i, (a, assoc, label) in enumerate(rs):
                prec = nalt - i
                nxt = prec if assoc == 'right' else prec + 1
                c = ctx_id[label or r]
                if rec[i][0]:
                    def f(a=a, prec=prec, nxt=nxt, c=c):
                        P.emit('PREC', prec); P.emit('WRAP', c); recseq(a[1][1:], r, nxt)
                    ops.append(f)
                elif rec[i][1]:
                    prim.append(lambda a=a, prec=prec, c=c: (P.emit('OPEN', c), recseq(a[1], r, prec)))
                else:
                    prim.append(lambda a=a, c=c: (P.emit('OPEN', c), elem(a, r)))
            alts(prim)
            loop = P.emit('SPLIT'); P.ins[loop][1] = len(P.ins)
            alts(ops)
            P.emit('JMP', loop); P.ins[loop][2] = len(P.ins)
        else:
            alts([(lambda a=a, c=ctx_id[label or r]: (P.emit('OPEN', c), elem(a, r))) for a, _, label in rs])
        P.emit('CLOSE'); P.emit('RET')
    boots = {}
    for r in g.order:
        boots[r] = len(P.ins); P.fix.append((P.emit('CALL', r, 0), r)); P.emit('END')
    for i, r in P.fix: P.ins[i][1] = entry[r]
    return P, boots, ctxs

def counts(e):
    """element name -> maximal number of occurrences (2 = many)"""
    k = e[0]
    if k in ('tok', 'rule'): return {e[1]: 1}
    if k == 'seq':
        r = {}
        for x in e[1]:
            for n, c in counts(x).items(): r[n] = min(2, r.get(n, 0) + c)
        return r
    if k == 'alt':
        r = {}
        for x in e[1]:
            for n, c in counts(x).items(): r[n] = max(r.get(n, 0), c)
        return r
    if k in ('star', 'plus'): return {n: 2 for n in counts(e[1])}
    if k == 'opt': return counts(e[1])
    return {}

def hidden(cmd): return cmd[0] == 'skip' or cmd[0] == 'channel' and cmd[1] not in ('0', 'DEFAULT_TOKEN_CHANNEL')   # the parser only reads the default channel

def implicit(e, lits):
    """a literal in a parser rule is the token the lexer defines with exactly that text"""
    if e[0] == 'lit':
        if e[1] not in lits: raise SystemExit('antlrgen: no token for literal %r' % e[1])
        return ('tok', lits[e[1]])
    if e[0] in ('seq', 'alt'): return (e[0], [implicit(x, lits) for x in e[1]])
    if e[0] in ('opt', 'star', 'plus'): return (e[0], implicit(e[1], lits), e[2])
    return e

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, 'w') as f: f.write(text)

def main(repo, outdir):
    d = outdir + '/libqasm/v3x'; os.makedirs(d, exist_ok=True)
    lx = Grammar(open(repo + '/src/v3x/CqasmLexer.g4').read())
    ps = Grammar(open(repo + '/src/v3x/CqasmParser.g4').read())
    lits = {}
    for r in lx.order:
        x = lx.rules[r]
        if r not in lx.fragments and len(x) == 1 and len(x[0][0][1]) == 1 and x[0][0][1][0][0] == 'lit': lits.setdefault(x[0][0][1][0][1], r)
    for r in ps.order: ps.rules[r] = [(implicit(a, lits), assoc, l) for a, assoc, l in ps.rules[r]]
    rules, start, table, acc = lexer_dfa(lx)
    types = {r: i + 1 for i, r in enumerate(rules)}
    ptypes = dict(types); ptypes['EOF'] = -1
    ns = ['namespace cqasm::v3x::parser {', '}']
    enum = 'enum { %s };' % ', '.join('%s = %d' % (r, t) for r, t in types.items())
    h = ['#pragma once', '#include <antlr4-runtime.h>', ns[0], 'class CqasmLexer : public antlr4::Lexer {', 'public:', enum, 'explicit CqasmLexer(antlr4::CharStream* input) : antlr4::Lexer(input) {}',
         'protected:', 'int start_state(int mode) const override;', 'int next_state(int state, std::uint32_t c) const override;', 'int accept(int state) const override;',
         'std::size_t type_of(int rule) const override;', 'void commands(int rule, std::vector<int>& modes) const override;', '};', ns[1]]
    put(d + '/CqasmLexer.h', '\n'.join(h) + '\n')
    c = ['#include "libqasm/v3x/CqasmLexer.h"', '#include "libqasm/v3x/CqasmParser.h"', '#include "libqasm/v3x/CqasmParserVisitor.h"', ns[0],
         'int CqasmLexer::start_state(int mode) const { static const int t[] = {%s}; return t[mode]; }' % ','.join(str(start[m]) for m in lx.modes),
         'int CqasmLexer::next_state(int state, std::uint32_t c) const { switch (state) {']
    for i, row in enumerate(table):
        c += ['case %d:' % i]
        # the target with the most code points goes last, as the complement where possible
        for t, rs in sorted(row.items(), key=lambda kv: sum(b - a for a, b in kv[1])):
            cond = ' | '.join('(c == %du)' % a if a == b else '(c <= %du)' % b if a == 0 else '(c >= %du)' % a if b == MAXC else '((c - %du) <= %du)' % (a, b - a) for a, b in merge(rs))
            c += ['if (%s) return %d;' % (cond, t)]
        c += ['return -1;']
    c += ['default: return -1; } }',
          'int CqasmLexer::accept(int state) const { static const short t[] = {%s}; return t[state]; }' % ','.join(map(str, acc)),
          'std::size_t CqasmLexer::type_of(int rule) const { static const unsigned char t[] = {%s}; return t[rule]; }' % ','.join('0' if any(hidden(x) for x in lx.cmds.get(r, [])) else str(types[r]) for r in rules),
          'void CqasmLexer::commands(int rule, std::vector<int>& modes) const { (void)modes; switch (rule) {']
    for i, r in enumerate(rules):
        for k, a in lx.cmds.get(r, []):
            if hidden((k, a)): continue
            if k == 'pushMode': c += ['case %d: modes.push_back(%d); break;' % (i, lx.modes.index(a))]
            elif k == 'popMode': c += ['case %d: modes.pop_back(); break;' % i]
            elif k == 'mode': c += ['case %d: modes.back() = %d; break;' % (i, lx.modes.index(a))]
            else: raise SystemExit('antlrgen: lexer command %s not supported' % k)
    c += ['default: break; } }']
    P, boots, ctxs = gen_parser(ps, ptypes, None)
    h = ['#pragma once', '#include <antlr4-runtime.h>', ns[0], 'class CqasmParser : public antlr4::Parser {', 'public:', enum,
         'enum { %s };' % ', '.join('Rule%s = %d' % (camel(r), i) for i, r in enumerate(ps.order)),
         'explicit CqasmParser(antlr4::TokenStream* input) : antlr4::Parser(input) {}']
    rule_no = {r: i for i, r in enumerate(ps.order)}
    bases = [r for r in ps.order]
    for r in bases: h += ['class %sContext;' % camel(r)]
    emitted = set()
    defs = []
    for r in ps.order:
        labelled = any(l for _, _, l in ps.rules[r])
        groups = {}
        for a, _, l in ps.rules[r]: groups.setdefault(l or r, []).append(a)
        if labelled:
            h += ['class %sContext : public antlr4::ParserRuleContext { public: int kind() const override { return %d; } };' % (camel(r), rule_no[r])]
        for nm, as_ in groups.items():
            base = camel(r) + 'Context' if labelled else 'antlr4::ParserRuleContext'
            h += ['class %sContext : public %s { public:' % (camel(nm), base)]
            if not labelled: h += ['int kind() const override { return %d; }' % rule_no[r]]
            for e, n in counts(('alt', as_)).items():
                if e in ptypes:
                    if e == 'EOF': h += ['antlr4::tree::TerminalNode* EOF_() const { return token_(antlr4::Token::EOF, 0); }']
                    elif n == 1: h += ['antlr4::tree::TerminalNode* %s() const { return token_(%d, 0); }' % (e, types[e])]
                    else: h += ['std::vector<antlr4::tree::TerminalNode*> %s() const { return tokens_(%d); }' % (e, types[e]), 'antlr4::tree::TerminalNode* %s(std::size_t i) const { return token_(%d, i); }' % (e, types[e])]
                elif n == 1: h += ['%sContext* %s() const { return rule_<%sContext>(%d, 0); }' % (camel(e), e, camel(e), rule_no[e])]
                else: h += ['std::vector<%sContext*> %s() const { return rules_<%sContext>(%d); }' % (camel(e), e, camel(e), rule_no[e]), '%sContext* %s(std::size_t i) const { return rule_<%sContext>(%d, i); }' % (camel(e), e, camel(e), rule_no[e])]
            done = {}
            for lab, many, e, seen in ps.elabels.get(nm, []):
                e = implicit(e, lits); names = [a[1][0][1] for a in e[1]] if e[0] == 'alt' else [e[1]]
                if e[0] not in ('tok', 'rule') and not (e[0] == 'alt' and all(len(a[1]) == 1 and a[1][0][0] == 'tok' for a in e[1])): raise SystemExit('antlrgen: label %s not supported' % lab)
                before = [x for x in seen if x[0] in names]
                if any(not sure for _, sure in before) and not many: raise SystemExit('antlrgen: label %s not supported' % lab)
                ty = '%sContext*' % camel(e[1]) if e[0] == 'rule' else 'antlr4::Token*'
                if many and lab in done: raise SystemExit('antlrgen: label %s not supported' % lab)
                if lab not in done: h += [('std::vector<%s> %s;' if many else '%s %s = nullptr;') % (ty, lab)]
                test = 'c->kind() == %d' % rule_no[e[1]] if e[0] == 'rule' else 'c->kind() == -1 && (%s)' % ' || '.join('static_cast<antlr4::tree::TerminalNode*>(c)->getSymbol()->getType() == %s' % ('antlr4::Token::EOF' if t == 'EOF' else types[t]) for t in names)
                val = 'static_cast<%s>(c)' % ty if e[0] == 'rule' else 'static_cast<antlr4::tree::TerminalNode*>(c)->getSymbol()'
                done.setdefault(lab, []).append('{ std::size_t i = %d; for (auto c : children) if (%s) { if (i) { i--; continue; } %s } }' % (len(before), test, '%s.push_back(%s);' % (lab, val) if many else '%s = %s; break;' % (lab, val)))
            if done: h += ['void labels_() override {'] + [x for l in done.values() for x in l] + ['}']
            h += ['std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;', '};']
    for r in ps.order: h += ['%sContext* %s() { return static_cast<%sContext*>(run(%d)); }' % (camel(r), r, camel(r), boots[r])]
    h += ['protected:', 'const antlr4::Ins* program_() const override;', 'antlr4::ParserRuleContext* make_(int ctx) const override;', '};', ns[1]]
    put(d + '/CqasmParser.h', '\n'.join(h) + '\n')
    v = ['#pragma once', '#include <antlr4-runtime.h>', '#include "libqasm/v3x/CqasmParser.h"', ns[0], 'class CqasmParserVisitor : public antlr4::tree::AbstractParseTreeVisitor {', 'public:']
    v += ['virtual std::any visit%s(CqasmParser::%sContext* context) = 0;' % (camel(n), camel(n)) for n, _ in ctxs] + ['};', ns[1]]
    put(d + '/CqasmParserVisitor.h', '\n'.join(v) + '\n')
    put(d + '/CqasmParserBaseVisitor.h', '#pragma once\n#include "libqasm/v3x/CqasmParserVisitor.h"\n')
    c += ['const antlr4::Ins* CqasmParser::program_() const { using antlr4::Ins; static const Ins t[] = {']
    c += ['{Ins::%s,%d,%d,%d,%d},' % tuple(i) for i in P.ins] + ['}; return t; }']
    c += ['antlr4::ParserRuleContext* CqasmParser::make_(int ctx) const { switch (ctx) {']
    c += ['case %d: return new %sContext();' % (i, camel(n)) for i, (n, _) in enumerate(ctxs)] + ['} return nullptr; }']
    c += ['std::any CqasmParser::%sContext::accept(antlr4::tree::ParseTreeVisitor* visitor) { return static_cast<CqasmParserVisitor*>(visitor)->visit%s(this); }' % (camel(n), camel(n)) for n, _ in ctxs]
    c += [ns[1]]
    put(outdir + '/antlr_gen.cpp', '\n'.join(c) + '\n')

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
