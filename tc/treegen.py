#!/usr/bin/env python3
"""Stand-in for the tree-gen code generator (which is not available offline).

Reads one of libqasm's .tree specifications and writes the C++ header/source (and optionally the Python module) that
libqasm expects tree-gen to have generated.  The interface follows tree-gen's; the text and JSON dump formats are
validated against the golden files in libqasm's own integration tests.  Two functions are added for the monitors:
vf_dump(), a loss-free JSON dump (exact strings, 64-bit integers, IEEE-754 bits, source locations and links by node id).
"""
import re
import sys

EDGES = ('Maybe', 'One', 'Any', 'Many', 'OptLink', 'Link')


def strip_comments(text):
    out = []
    for line in text.split('\n'):
        i, q = 0, None
        while i < len(line):
            c = line[i]
            if q:
                if c == q:
                    q = None
            elif c in '"':
                q = c
            elif c == '#' or line.startswith('//', i):
                line = line[:i]
                break
            i += 1
        out.append(line)
    return '\n'.join(out)


class Node:
    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.children = []
        self.fields = []

    @property
    def title(self):
        return ''.join(w[:1].upper() + w[1:] for w in self.name.split('_'))

    def all_fields(self):
        out = list(self.fields)
        if self.parent:
            out += self.parent.all_fields()
        return out

    def leaves(self):
        if not self.children:
            return [self]
        return [l for c in self.children for l in c.leaves()]

    def ancestors(self):
        n = self
        while n:
            yield n
            n = n.parent


class Field:
    def __init__(self, name, typ):
        self.name = name
        self.ext = False
        t = typ.strip()
        if t.startswith('external '):
            self.ext = True
            t = t[9:].strip()
        m = re.match(r'^(%s)\s*<\s*([\w:]+)\s*>$' % '|'.join(EDGES), t)
        if m:
            self.edge, self.target = m.group(1), m.group(2)
        else:
            self.edge, self.target = None, t


class Spec:
    def __init__(self, path):
        text = strip_comments(open(path).read())
        toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*(?:::\w+)*|[{};:<>]|\S', text)
        self.ns = []
        self.includes = []
        self.src_includes = []
        self.imports = []
        self.header = None
        self.initialize = ''
        self.serialize = self.deserialize = None
        self.location = None
        self.tree_ns = 'tree::base'
        self.nodes = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t == 'source':
                i += 1
            elif t == 'header':
                self.header = toks[i + 1].strip('"')
                i += 2
            elif t == 'include':
                self.includes.append(toks[i + 1].strip('"'))
                i += 2
            elif t == 'src_include':
                self.src_includes.append(toks[i + 1].strip('"'))
                i += 2
            elif t == 'import':
                self.imports.append(toks[i + 1])
                i += 2
            elif t == 'tree_namespace':
                self.tree_ns = toks[i + 1]
                i += 2
            elif t == 'support_namespace':
                i += 2
            elif t == 'initialize_function':
                self.initialize = toks[i + 1]
                i += 2
            elif t == 'serdes_functions':
                self.serialize, self.deserialize = toks[i + 1], toks[i + 2]
                i += 3
            elif t == 'location':
                self.location = toks[i + 1]
                i += 2
            elif t == 'namespace':
                self.ns.append(toks[i + 1])
                i += 2
            else:
                i = self.parse_node(toks, i, None)

    def parse_node(self, toks, i, parent):
        n = Node(toks[i], parent)
        self.nodes.append(n)
        if parent:
            parent.children.append(n)
        if toks[i + 1] != '{':
            raise SyntaxError('expected { after %s' % toks[i])
        i += 2
        while toks[i] != '}':
            if toks[i + 1] == '{':
                i = self.parse_node(toks, i, n)
            elif toks[i + 1] == ':':
                j = toks.index(';', i)
                n.fields.append(Field(toks[i], re.sub(r'\s*([<>])\s*', r'\1', ' '.join(toks[i + 2:j]))))
                i = j + 1
            else:
                raise SyntaxError('unexpected token %s in %s' % (toks[i + 1], n.name))
        return i + 1

    def tname(self, f):
        """C++ type of a field."""
        if not f.edge:
            return f.target
        t = f.target
        if '::' not in t:
            t = ''.join(w[:1].upper() + w[1:] for w in t.split('_'))
        return '%s<%s>' % (f.edge, t)


def gen_header(s):
    o = []
    w = o.append
    w('// Generated by treegen.py; do not edit.')
    w('#pragma once')
    w('#include <iostream>')
    w('#include <vector>')
    for i in s.includes:
        w('#include "%s"' % i)
    for n in s.ns:
        w('namespace %s {' % n)
    w('namespace vfgen { struct Access; }')
    w('namespace base = ::%s;' % s.tree_ns)
    for e in EDGES:
        w('template <class T> using %s = ::%s::%s<T>;' % (e, s.tree_ns, e))
    w('class Node;')
    for n in s.nodes:
        w('class %s;' % n.title)
    w('class VisitorBase;')
    w('template <typename T = void> class Visitor;')
    w('enum class NodeType { %s };' % ', '.join(l.title for n in s.nodes if not n.children for l in [n]))
    # Node
    w('class Node : public ::%s::Base {' % s.tree_ns)
    w('public:')
    w('    virtual ~Node() = default;')
    w('    virtual NodeType type() const = 0;')
    w('    virtual One<Node> copy() const = 0;')
    w('    virtual One<Node> clone() const = 0;')
    w('    virtual bool equals(const Node& rhs) const = 0;')
    w('    bool operator==(const Node& rhs) const { return equals(rhs); }')
    w('    bool operator!=(const Node& rhs) const { return !equals(rhs); }')
    for n in s.nodes:
        w('    virtual %s* as_%s() { return nullptr; }' % (n.title, n.name))
        w('    virtual const %s* as_%s() const { return nullptr; }' % (n.title, n.name))
    w('    virtual void visit_internal(VisitorBase& visitor, void* retval = nullptr) = 0;')
    w('    template <class T> T visit(Visitor<T>& visitor);')
    w('    void dump(std::ostream& out = std::cout, int indent = 0);')
    w('    void dump_seq(std::ostream& out = std::cout, int indent = 0);')
    w('    void dump_json(std::ostream& out = std::cout);')
    w('    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0);')
    w('    virtual void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const = 0;')
    w('    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
    w('};')
    for n in s.nodes:
        par = n.parent.title if n.parent else 'Node'
        w('class %s : public %s {' % (n.title, par))
        w('public:')
        for f in n.fields:
            w('    %s %s;' % (s.tname(f), f.name))
        af = n.all_fields()
        args = ', '.join('const %s& %s = %s<%s>()' % (s.tname(f), f.name, s.initialize, s.tname(f)) for f in af)
        w('    %s(%s);' % (n.title, args))
        w('    %s(const %s&);' % (n.title, n.title))
        w('    %s& operator=(const %s&);' % (n.title, n.title))
        w('    virtual ~%s();' % n.title)
        w('    %s* as_%s() override { return this; }' % (n.title, n.name))
        w('    const %s* as_%s() const override { return this; }' % (n.title, n.name))
        if not n.children:
            w('    const char* vf_type_name() const override;')
            w('    void vf_fields(::tree::vf::Sink& sink) const override;')
            w('    NodeType type() const override { return NodeType::%s; }' % n.title)
            w('    void find_reachable(::tree::base::PointerMap& map) const override;')
            w('    void check_complete(const ::tree::base::PointerMap& map) const override;')
            w('    One<Node> copy() const override;')
            w('    One<Node> clone() const override;')
            w('    bool equals(const Node& rhs) const override;')
            w('    void visit_internal(VisitorBase& visitor, void* retval = nullptr) override;')
            w('    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override;')
        w('    static std::shared_ptr<%s> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);' % n.title)
        w('};')
    # Visitors
    w('class VisitorBase {')
    w('public:')
    w('    virtual ~VisitorBase() = default;')
    w('    virtual void raw_visit_node(Node& node, void* retval) = 0;')
    for n in s.nodes:
        w('    virtual void raw_visit_%s(%s& node, void* retval) = 0;' % (n.name, n.title))
    w('};')
    w('template <typename T> class Visitor : public VisitorBase {')
    w('protected:')
    for n in [None] + s.nodes:
        nm, ti = ('node', 'Node') if n is None else (n.name, n.title)
        w('    void raw_visit_%s(%s& node, void* retval) override {' % (nm, ti))
        w('        if constexpr (std::is_void_v<T>) { (void)retval; this->visit_%s(node); }' % nm)
        w('        else { if (retval) *static_cast<T*>(retval) = this->visit_%s(node); else this->visit_%s(node); }' % (nm, nm))
        w('    }')
    w('public:')
    w('    virtual T visit_node(Node& node) = 0;')
    for n in s.nodes:
        w('    virtual T visit_%s(%s& node) { return visit_%s(node); }' % (n.name, n.title, n.parent.name if n.parent else 'node'))
    w('};')
    w('template <class T> T Node::visit(Visitor<T>& visitor) {')
    w('    if constexpr (std::is_void_v<T>) { this->visit_internal(visitor); }')
    w('    else { T retval; this->visit_internal(visitor, &retval); return retval; }')
    w('}')
    w('std::ostream& operator<<(std::ostream& os, const Node& object);')
    for n in reversed(s.ns):
        w('}  // namespace %s' % n)
    return '\n'.join(o) + '\n'


def gen_source(s):
    o = []
    w = o.append
    w('// Generated by treegen.py; do not edit.')
    w('#include "%s"' % s.header)
    for i in s.src_includes:
        w('#include "%s"' % i)
    w('#include "tree-vfdump.hpp"')
    for n in s.ns:
        w('namespace %s {' % n)
    leaves = [n for n in s.nodes if not n.children]
    for n in s.nodes:
        af = n.all_fields()
        own = n.fields
        args = ', '.join('const %s& %s' % (s.tname(f), f.name) for f in af)
        inits = []
        if n.parent:
            inits.append('%s(%s)' % (n.parent.title, ', '.join(f.name for f in n.parent.all_fields())))
        inits += ['%s(%s)' % (f.name, f.name) for f in own]
        w('%s::%s(%s)%s {}' % (n.title, n.title, args, (' : ' + ', '.join(inits)) if inits else ''))
        w('%s::%s(const %s&) = default;' % (n.title, n.title, n.title))
        w('%s& %s::operator=(const %s&) = default;' % (n.title, n.title, n.title))
        w('%s::~%s() = default;' % (n.title, n.title))
        w('std::shared_ptr<%s> %s::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {' % (n.title, n.title))
        if n.children:
            w('    auto t = map.at("@t").as_string();')
            for l in n.leaves():
                w('    if (t == "%s") return %s::deserialize(map, ids);' % (l.title, l.title))
            w('    throw std::runtime_error("Schema validation failed: unexpected node type " + t);')
        else:
            w('    if (map.at("@t").as_string() != "%s") throw std::runtime_error("Schema validation failed: unexpected node type");' % n.title)
            w('    auto node = std::make_shared<%s>();' % n.title)
            for f in af:
                if f.edge:
                    w('    ::tree::base::deser_edge(node->%s, map.at("%s").as_map(), ids);' % (f.name, f.name))
                else:
                    w('    node->%s = %s<%s>(map.at("%s").as_map());' % (f.name, s.deserialize, s.tname(f), f.name))
            w('    return node;')
        w('}')
        if n.children:
            continue
        edges = [f for f in af if f.edge]
        w('void %s::find_reachable(::tree::base::PointerMap& map) const {' % n.title)
        w('    (void)map;')
        for f in edges:
            w('    this->%s.find_reachable(map);' % f.name)
        w('}')
        w('void %s::check_complete(const ::tree::base::PointerMap& map) const {' % n.title)
        w('    (void)map;')
        for f in edges:
            w('    this->%s.check_complete(map);' % f.name)
        w('}')
        w('One<Node> %s::copy() const { return One<Node>(std::make_shared<%s>(*this)); }' % (n.title, n.title))
        w('One<Node> %s::clone() const {' % n.title)
        w('    auto node = std::make_shared<%s>(*this);' % n.title)
        for f in edges:
            if f.edge not in ('Link', 'OptLink'):
                w('    node->%s = this->%s.clone();' % (f.name, f.name))
        w('    return One<Node>(node);')
        w('}')
        w('bool %s::equals(const Node& rhs) const {' % n.title)
        w('    if (rhs.type() != NodeType::%s) return false;' % n.title)
        w('    const auto& rhsc = dynamic_cast<const %s&>(rhs);' % n.title)
        w('    (void)rhsc;')
        for f in af:
            if f.edge:
                w('    if (!this->%s.equals(rhsc.%s)) return false;' % (f.name, f.name))
            else:
                w('    if (this->%s != rhsc.%s) return false;' % (f.name, f.name))
        w('    return true;')
        w('}')
        w('void %s::visit_internal(VisitorBase& visitor, void* retval) { visitor.raw_visit_%s(*this, retval); }' % (n.title, n.name))
        w('void %s::serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const {' % n.title)
        w('    (void)ids;')
        w('    map.append_string("@t", "%s");' % n.title)
        for f in af:
            w('    { auto submap = map.append_map("%s");' % f.name)
            if f.edge:
                w('      ::tree::base::ser_edge(this->%s, submap, ids);' % f.name)
            else:
                w('      %s<%s>(this->%s, submap);' % (s.serialize, s.tname(f), f.name))
            w('      submap.close(); }')
        w('}')
    # Node::deserialize
    w('std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {')
    w('    auto t = map.at("@t").as_string();')
    for l in leaves:
        w('    if (t == "%s") return %s::deserialize(map, ids);' % (l.title, l.title))
    w('    throw std::runtime_error("Schema validation failed: unexpected node type " + t);')
    w('}')
    for n in leaves:
        w('const char* %s::vf_type_name() const { return "%s"; }' % (n.title, n.title))
        w('void %s::vf_fields(::tree::vf::Sink& sink) const {' % n.title)
        w('    (void)sink;')
        for f in n.all_fields():
            if f.edge:
                w('    ::tree::vf::edge(sink, "%s", this->%s);' % (f.name, f.name))
            else:
                w('    ::tree::vf::prim(sink, "%s", "%s", this->%s);' % (f.name, s.tname(f), f.name))
        w('}')
    show = 'true' if s.location else 'false'
    w('void Node::dump(std::ostream& out, int indent) { ::tree::vf::dump_text(out, *this, indent, %s, false); }' % show)
    w('void Node::dump_seq(std::ostream& out, int indent) { dump(out, indent); }')
    w('void Node::dump_raw_pointers(std::ostream& out, int indent) { ::tree::vf::dump_text(out, *this, indent, %s, true); }' % show)
    w('void Node::dump_json(std::ostream& out) { ::tree::vf::dump_json(out, *this, %s); }' % show)
    w('std::ostream& operator<<(std::ostream& os, const Node& object) { const_cast<Node&>(object).dump(os); return os; }')
    for n in reversed(s.ns):
        w('}  // namespace %s' % n)
    return '\n'.join(o) + '\n'


# ---------------------------------------------------------------------------------------------------------------------
# Python
# ---------------------------------------------------------------------------------------------------------------------

PY_SUPPORT = open(__file__.rsplit('/', 1)[0] + '/pytree_support.py').read() if '/' in __file__ else ''


def pyname(t):
    return t.replace('::', '.')


def gen_python(s):
    o = [PY_SUPPORT]
    w = o.append
    for i in s.imports:
        w('import %s' % i)
    def prim(f):
        return pyname(f.target)
    ser = pyname(s.serialize).rsplit('.', 1)
    for n in s.nodes:
        par = n.parent.title if n.parent else 'Node'
        w('')
        w('')
        w('class %s(%s):' % (n.title, par))
        w('    _LEAVES = %r' % ([l.title for l in n.leaves()],))
        w('    _LEAF = %r' % (not n.children,))
        w('    _FIELDS = [')
        for f in n.all_fields():
            if f.edge:
                t = f.target
                if '::' in t:
                    # external node class
                    t = pyname(t)
                else:
                    t = ''.join(x[:1].upper() + x[1:] for x in t.split('_'))
                w('        (%r, %r, lambda: %s),' % (f.name, f.edge, t))
            else:
                w('        (%r, None, lambda: %s),' % (f.name, prim(f)))
        w('    ]')
        w('    _SERDES = (lambda: %s.%s, lambda: %s)' % (ser[0], ser[1], pyname(s.deserialize)))
        args = ', '.join('%s=None' % f.name for f in n.all_fields())
        w('')
        w('    def __init__(self%s):' % (', ' + args if args else ''))
        w('        self.__init_node__(%s)' % ', '.join(f.name for f in n.all_fields()))
    w('')
    w('_TYPES = {%s}' % ', '.join('%r: %s' % (l.title, l.title) for l in s.nodes if not l.children))
    return '\n'.join(o) + '\n'


def main():
    spec, hdr, src = sys.argv[1:4]
    s = Spec(spec)
    def put(path, text):
        try:
            if open(path).read() == text:
                return
        except OSError:
            pass
        open(path, 'w').write(text)
    put(hdr, gen_header(s))
    put(src, gen_source(s))
    if len(sys.argv) > 4:
        put(sys.argv[4], gen_python(s))


if __name__ == '__main__':
    main()
