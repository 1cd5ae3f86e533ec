#!/usr/bin/env python3
"""Generates libqasm/v3x/{types,values,semantic,syntactic}_generated.hpp and one .cpp per tree from /repo/src/v3x/*.tree.
Stand-in for tree-gen (not available offline); the interface is the one libqasm's sources use."""
import os, re, sys

DUMP = r"""
static inline std::ostream& pad_(std::ostream& out, int indent) { for (int i = 0; i < indent; i++) out << "  "; return out; }
template <class N> static void dump_one_(std::ostream& out, int indent, bool json, const N* n, const char* none) {
    if (json) { if (n) n->dump_json(out); else out << "\"" << none << "\""; return; }
    if (!n) { out << none << "\n"; return; }
    out << "<\n"; n->dump(out, indent + 1); pad_(out, indent) << ">\n";
}
template <class S> static void dump_seq_(std::ostream& out, int indent, bool json, const S& s) {
    if (json) { out << "["; bool first = true; for (auto& e : s) { if (!first) out << ","; first = false; if (e.empty()) out << "null"; else e->dump_json(out); } out << "]"; return; }
    if (s.empty()) { out << "[]\n"; return; }
    out << "[\n"; for (auto& e : s) { if (!e.empty()) e->dump(out, indent + 1); } pad_(out, indent) << "]\n";
}
template <class P> static void dump_prim_(std::ostream& out, int indent, const P& p, const char* typ) {
    std::ostringstream s; s << p; auto t = s.str();
    if (auto e = t.find_last_not_of(" \n\r\t"); e != std::string::npos) t.erase(e + 1);
    if (t.find('\n') == std::string::npos) { out << t << "\n"; return; }
    out << typ << "<<\n"; pad_(out, indent + 1);
    for (std::size_t i = 0; i < t.size(); i++) { out << t[i]; if (t[i] == '\n') pad_(out, indent + 1); }
    out << "\n"; pad_(out, indent) << ">>\n";
}
"""

def camel(s): return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))

class Node:
    def __init__(s, name, parent):
        s.name, s.parent, s.fields, s.kids = name, parent, [], []
        s.cls = camel(name)
    def all_fields(s):
        return s.fields + (s.parent.all_fields() if s.parent else [])

class Field:
    def __init__(s, name, ext, edge, typ):
        s.name, s.ext, s.edge, s.typ = name, ext, edge, typ

def parse(text):
    text = re.sub(r'(^|\s)(#|//).*', r'\1', text)
    toks = re.findall(r'"[^"]*"|[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_0-9]+)*(?:\.[A-Za-z_0-9]+)*|[{}:;<>]', text)
    d = {'include': [], 'src_include': [], 'namespace': [], 'header': None, 'init': None, 'ser': None, 'deser': None, 'loc': None}
    i, top = 0, []
    while i < len(toks):
        t = toks[i]
        if t == 'source': i += 1
        elif t == 'header': d['header'] = toks[i+1].strip('"'); i += 2
        elif t in ('include', 'src_include'): d[t].append(toks[i+1].strip('"')); i += 2
        elif t == 'import': i += 2
        elif t == 'tree_namespace': d['tns'] = toks[i+1]; i += 2
        elif t == 'initialize_function': d['init'] = toks[i+1]; i += 2
        elif t == 'serdes_functions': d['ser'], d['deser'] = toks[i+1], toks[i+2]; i += 3
        elif t == 'location': d['loc'] = toks[i+1]; i += 2
        elif t == 'namespace': d['namespace'].append(toks[i+1]); i += 2
        elif toks[i+1] == '{': i = node(toks, i, None, top)
        else: raise SystemExit('treegen: cannot parse at %r' % toks[i:i+4])
    d['nodes'] = top
    return d

def node(toks, i, parent, out):
    n = Node(toks[i], parent); out.append(n)
    assert toks[i+1] == '{'; i += 2
    while toks[i] != '}':
        if toks[i+1] == '{': i = node(toks, i, n, n.kids); continue
        assert toks[i+1] == ':', toks[i:i+5]
        name = toks[i]; i += 2
        ext = toks[i] == 'external'
        if ext: i += 1
        if toks[i+1] == '<':
            n.fields.append(Field(name, ext, toks[i], toks[i+2])); assert toks[i+3] == '>'; i += 4
        else:
            n.fields.append(Field(name, ext, None, toks[i])); i += 1
        assert toks[i] == ';'; i += 1
    return i + 1

def flat(nodes):
    for n in nodes:
        yield n
        yield from flat(n.kids)

def generate(d):
    all = list(flat(d['nodes']))
    names = {n.name: n for n in all}
    def ftype(f):
        if f.edge:
            return '%s<%s>' % (f.edge, f.typ if '::' in f.typ else camel(f.typ))
        return f.typ
    def init(f): return '%s<%s>()' % (d['init'], ftype(f))
    ns = '::'.join(d['namespace'])
    h = ['#pragma once', '#include <iostream>', '#include "libqasm/tree.hpp"']
    h += ['#include "%s"' % x for x in d['include']]
    h += ['namespace %s {' % ns]
    h += ['template <class T> using %s = ::%s::%s<T>;' % (k, d['tns'], k) for k in ('Maybe', 'One', 'Any', 'Many', 'OptLink', 'Link')]
    h += ['class Node;'] + ['class %s;' % n.cls for n in all] + ['class VisitorBase;', 'template <class T> class Visitor;']
    h += ['enum class NodeType { %s };' % ', '.join(n.cls for n in all if not n.kids)]
    acc = []
    for n in all:
        acc += ['virtual %s* as_%s() { return nullptr; }' % (n.cls, n.name), 'virtual const %s* as_%s() const { return nullptr; }' % (n.cls, n.name)]
    h += ['class Node : public ::%s::Base {' % d['tns'], 'public:', 'virtual NodeType type() const = 0;', 'virtual One<Node> copy() const = 0;', 'virtual One<Node> clone() const = 0;',
          'virtual bool equals(const Node& rhs) const = 0;', 'virtual bool operator==(const Node& rhs) const = 0;', 'bool operator!=(const Node& rhs) const { return !(*this == rhs); }',
          'virtual const char* type_name() const = 0;', 'virtual void dump_fields(std::ostream& out, int indent, bool json) const = 0;',
          'void dump(std::ostream& out = std::cout, int indent = 0) const;', 'void dump_seq(std::ostream& out = std::cout, int indent = 0) const { dump(out, indent); }',
          'void dump_json(std::ostream& out = std::cout) const;', 'void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0) const { dump(out, indent); }',
          'virtual void serialize(::tree::cbor::MapWriter& map) const = 0;', 'static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map);'] + acc
    h += ['protected:', 'virtual void visit_internal(VisitorBase& visitor, void* retval) = 0;', 'public:', 'template <class T> T visit(Visitor<T>& visitor);', '};']
    h += ['std::ostream& operator<<(std::ostream& os, const Node& object);']
    for n in all:
        base = n.parent.cls if n.parent else 'Node'
        fs = n.all_fields()
        pf = n.parent.all_fields() if n.parent else []
        h += ['class %s : public %s {' % (n.cls, base), 'public:']
        h += ['%s %s;' % (ftype(f), f.name) for f in n.fields]
        params = ', '.join('const %s& %s = %s' % (ftype(f), f.name, init(f)) for f in fs)
        inits = ['%s(%s)' % (base, ', '.join(f.name for f in pf))] if n.parent else []
        inits += ['%s(%s)' % (f.name, f.name) for f in n.fields]
        h += ['%s(%s)%s {}' % (n.cls, params, ' : ' + ', '.join(inits) if inits else '')]
        h += ['%s* as_%s() override { return this; }' % (n.cls, n.name), 'const %s* as_%s() const override { return this; }' % (n.cls, n.name)]
        if not n.kids:
            h += ['NodeType type() const override { return NodeType::%s; }' % n.cls,
                  'const char* type_name() const override { return "%s"; }' % n.cls,
                  'void find_reachable(::tree::base::PointerMap& map) const override;', 'void check_complete(const ::tree::base::PointerMap& map) const override;',
                  'One<Node> copy() const override;', 'One<Node> clone() const override;', 'bool equals(const Node& rhs) const override;', 'bool operator==(const Node& rhs) const override;',
                  'void dump_fields(std::ostream& out, int indent, bool json) const override;', 'void serialize(::tree::cbor::MapWriter& map) const override;',
                  'protected:', 'void visit_internal(VisitorBase& visitor, void* retval) override;']
        h += ['};']
    h += ['class VisitorBase {', 'public:', 'virtual ~VisitorBase() = default;']
    h += ['virtual void raw_visit_%s(%s& node, void* retval) = 0;' % (n.name, n.cls) for n in all] + ['};']
    h += ['template <class T> class Visitor : public VisitorBase {', 'public:', 'virtual T visit_node(Node& node) = 0;']
    for n in all:
        h += ['void raw_visit_%s(%s& node, void* retval) override { *static_cast<T*>(retval) = this->visit_%s(node); }' % (n.name, n.cls, n.name),
              'virtual T visit_%s(%s& node) { return visit_%s(node); }' % (n.name, n.cls, n.parent.name if n.parent else 'node')]
    h += ['};', 'template <class T> T Node::visit(Visitor<T>& visitor) { T retval; this->visit_internal(visitor, &retval); return retval; }', '}']

    c = ['#include "%s"' % d['header'], '#include <sstream>'] + ['#include "%s"' % x for x in d['src_include']]
    c += ['namespace %s {' % ns, DUMP]
    for n in all:
        if n.kids: continue
        fs = n.all_fields()
        edges = [f for f in fs if f.edge]
        trees = [f for f in edges if f.edge not in ('Link', 'OptLink')]
        c += ['void %s::find_reachable(::tree::base::PointerMap& map) const { (void)map; %s }' % (n.cls, ' '.join('%s.find_reachable(map);' % f.name for f in trees))]
        c += ['void %s::check_complete(const ::tree::base::PointerMap& map) const { (void)map; %s }' % (n.cls, ' '.join('%s.check_complete(map);' % f.name for f in edges))]
        c += ['One<Node> %s::copy() const { return One<Node>(std::make_shared<%s>(*this)); }' % (n.cls, n.cls)]
        c += ['One<Node> %s::clone() const { auto r = std::make_shared<%s>(*this); %s return One<Node>(r); }' % (n.cls, n.cls, ' '.join('r->%s = this->%s.clone();' % (f.name, f.name) for f in trees))]
        conds = ['%s.equals(o->%s)' % (f.name, f.name) if f.edge else '%s == o->%s' % (f.name, f.name) for f in fs]
        for m in ('equals(const Node& other_)', 'operator==(const Node& other_)'):
            c += ['bool %s::%s const { if (other_.type() != NodeType::%s) return false; auto o = static_cast<const %s*>(&other_); (void)o; return %s; }' % (n.cls, m, n.cls, n.cls, ' && '.join(conds) or 'true')]
        c += ['void %s::dump_fields(std::ostream& out, int indent, bool json) const { (void)out; (void)indent; (void)json;' % n.cls]
        for k, f in enumerate(fs):
            c += ['if (json) out << "%s\\"%s\\":"; else pad_(out, indent) << "%s%s ";' % (',' if k else '', f.name, f.name, ' -->' if f.edge in ('Link', 'OptLink') else ':')]
            if f.edge in ('Maybe', 'One'):
                c += ['dump_one_(out, indent, json, %s.empty() ? nullptr : &*%s, "%s");' % (f.name, f.name, '-' if f.edge == 'Maybe' else '!MISSING')]
            elif f.edge in ('Any', 'Many'):
                c += ['dump_seq_(out, indent, json, %s);' % f.name]
            elif f.edge:
                c += ['{ auto p = %s.get_ptr(); dump_one_(out, indent, json, p.get(), "!MISSING"); }' % f.name]
            else:
                c += ['if (json) out << "\\"" << %s << "\\""; else dump_prim_(out, indent, %s, "%s");' % (f.name, f.name, f.typ)]
        c += ['}']
        c += ['void %s::serialize(::tree::cbor::MapWriter& map) const { map.append_string("@t", "%s");' % (n.cls, n.cls)]
        for f in fs:
            if f.edge in ('Maybe', 'One'):
                c += ['{ auto m = map.append_map("%s"); if (!%s.empty()) %s->serialize(m); m.close(); }' % ((f.name,) * 3)]
            elif f.edge in ('Any', 'Many'):
                c += ['{ auto a = map.append_array("%s"); for (auto& e : %s) { auto m = a.append_map(); if (!e.empty()) e->serialize(m); m.close(); } a.close(); }' % ((f.name,) * 2)]
            elif not f.edge:
                c += ['{ auto m = map.append_map("%s"); %s<%s>(%s, m); m.close(); }' % (f.name, d['ser'], f.typ, f.name)]
        c += ['}']
        c += ['void %s::visit_internal(VisitorBase& visitor, void* retval) { visitor.raw_visit_%s(*this, retval); }' % (n.cls, n.name)]
    c += ['std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map) { auto t = map.at("@t").as_string(); (void)t;']
    for n in all:
        if n.kids or any(f.edge for f in n.all_fields()): continue   # only nodes without edges are ever deserialized by libqasm's own code
        args = ', '.join('%s<%s>(map.at("%s").as_map())' % (d['deser'], f.typ, f.name) for f in n.all_fields())
        c += ['if (t == "%s") return std::make_shared<%s>(%s);' % (n.cls, n.cls, args)]
    c += ['throw std::runtime_error("Schema validation failed: unexpected node type " + t); }']
    loc = 'if (auto l = get_annotation_ptr<%s>()) out << " # " << *l;' % d['loc'] if d['loc'] else ''
    c += ['void Node::dump(std::ostream& out, int indent) const { pad_(out, indent) << type_name() << "("; std::ostringstream s; s << std::boolalpha; dump_fields(s, indent + 1, false); auto t = s.str(); %s if (!t.empty()) { out << "\\n" << t; pad_(out, indent); } out << ")\\n"; }' % loc,
          'void Node::dump_json(std::ostream& out) const { out << "{\\"" << type_name() << "\\":{"; dump_fields(out, 0, true); out << "}}"; }',
          'std::ostream& operator<<(std::ostream& os, const Node& object) { object.dump(os); return os; }', '}']
    return '\n'.join(h) + '\n', '\n'.join(c) + '\n'

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, 'w') as f: f.write(text)

def main(repo, out):
    os.makedirs(out + '/libqasm/v3x', exist_ok=True)
    for t in ('types', 'values', 'semantic', 'syntactic'):
        d = parse(open('%s/src/v3x/%s.tree' % (repo, t)).read())
        hdr, src = generate(d)
        put('%s/%s' % (out, d['header']), hdr)
        put('%s/%s.cpp' % (out, t), src)

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
