#!/usr/bin/env python3
"""Stand-in for the ANTLR 4 tool (which is not available offline).

usage: antlrgen.py LEXER.g4 PARSER.g4 OUTDIR
Writes CqasmLexer.h/.cpp, CqasmParser.h/.cpp and CqasmParserVisitor.h (names follow the grammar names) against the stand-in
runtime in include/antlr4-runtime.h.  Left-recursive rules are transformed the way ANTLR 4 documents it; decisions are LL(1)
switches where the alternatives' lookahead sets are disjoint and full-context predictions elsewhere.
"""
import os
import re
import sys
from collections import Counter

MAXC = 0x10FFFF


# ---------------------------------------------------------------------------------------------------------------------
# Reading .g4 files
# ---------------------------------------------------------------------------------------------------------------------
class El:
    """kinds: tok(value), rule(value), set(values, negated), any, lit(value), chars(ranges), block(alts), eps
    suffix: '', '?', '*', '+'; greedy flag."""

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value
        self.suffix = ''
        self.greedy = True
        self.prec = None


class Alt:
    def __init__(self):
        self.els = []
        self.label = None
        self.right = False


class Rule:
    def __init__(self, name):
        self.name = name
        self.alts = []
        self.fragment = False
        self.mode = 0
        self.commands = []


TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>'(?:\\.|[^'\\])*')
  | (?P<cls>\[(?:\\.|[^\]\\])*\])
  | (?P<id>[A-Za-z_]\w*)
  | (?P<arrow>->)
  | (?P<label>\#)
  | (?P<range>\.\.)
  | (?P<peq>\+=)
  | (?P<op>[:;|()?*+~.,<>={}@])
  | (?P<num>\d+)
""", re.X | re.S)


def tokenize(text):
    out = []
    i = 0
    prev_colon = False
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError('cannot read grammar at %r' % text[i:i + 30])
        i = m.end()
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
    return out


ESC = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                if s[i + 2] == '{':
                    j = s.index('}', i)
                    out.append((chr(int(s[i + 3:j], 16)), True))
                    i = j + 1
                else:
                    out.append((chr(int(s[i + 2:i + 6], 16)), True))
                    i += 6
                continue
            out.append((ESC.get(c, c), True))
            i += 2
        else:
            out.append((s[i], False))
            i += 1
    return out


def char_class(s):
    cs = unescape(s[1:-1])
    r = []
    i = 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == ('-', False):
            r.append((ord(cs[i][0]), ord(cs[i + 2][0])))
            i += 3
        else:
            r.append((ord(cs[i][0]),) * 2)
            i += 1
    return r


class Grammar:
    def __init__(self, path):
        self.t = tokenize(open(path, encoding='utf-8').read())
        self.i = 0
        self.rules = []
        self.modes = ['DEFAULT_MODE']
        self.name = None
        self.extra_tokens = []
        self.read()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise SyntaxError('expected %r, got %r' % (v, x))

    def read(self):
        mode = 0
        while self.i < len(self.t):
            k, v = self.peek()
            if v in ('lexer', 'parser', 'grammar') and self.name is None:
                while self.peek()[1] != ';':
                    self.name = self.next()[1]
                self.next()
            elif v in ('options', 'tokens', 'channels') and self.peek(1)[1] == '{':
                self.next()
                self.next()
                while self.peek()[1] != '}':
                    kk, vv = self.next()
                    if v == 'tokens' and kk == 'id':
                        self.extra_tokens.append(vv)
                self.next()
            elif v == 'mode':
                self.next()
                self.modes.append(self.next()[1])
                mode = len(self.modes) - 1
                self.expect(';')
            else:
                frag = False
                if v == 'fragment':
                    frag = True
                    self.next()
                r = Rule(self.next()[1])
                r.fragment, r.mode = frag, mode
                self.expect(':')
                r.alts = self.alts(r)
                self.expect(';')
                self.rules.append(r)

    def alts(self, rule=None):
        out = [self.alt(rule)]
        while self.peek()[1] == '|':
            self.next()
            out.append(self.alt(rule))
        return out

    def alt(self, rule):
        a = Alt()
        while True:
            k, v = self.peek()
            if v in ('|', ';', ')') and k == 'op':
                return a
            if k == 'label':
                self.next()
                a.label = self.next()[1]
                continue
            if k == 'arrow':
                self.next()
                while True:
                    name = self.next()[1]
                    arg = None
                    if self.peek()[1] == '(':
                        self.next()
                        arg = self.next()[1]
                        self.expect(')')
                    rule.commands.append((name, arg))
                    if self.peek()[1] == ',':
                        self.next()
                        continue
                    break
                continue
            if v == '<':
                self.next()
                opt = []
                while self.peek()[1] != '>':
                    opt.append(self.next()[1])
                self.next()
                if 'assoc' in opt:
                    a.right = opt[-1] == 'right'
                continue
            a.els.append(self.element())

    def element(self):
        k, v = self.peek()
        if k == 'id' and self.peek(1)[1] in ('=', '+='):
            self.next()
            self.next()
            k, v = self.peek()
        e = self.atom()
        k, v = self.peek()
        if k == 'op' and v in '?*+':
            self.next()
            e.suffix = v
            if self.peek() == ('op', '?'):
                self.next()
                e.greedy = False
        return e

    def atom(self):
        k, v = self.next()
        if k == 'str':
            s = ''.join(c for c, _ in unescape(v[1:-1]))
            if self.peek()[0] == 'range':
                self.next()
                hi = ''.join(c for c, _ in unescape(self.next()[1][1:-1]))
                return El('chars', [(ord(s), ord(hi))])
            return El('lit', s)
        if k == 'cls':
            return El('chars', char_class(v))
        if k == 'id':
            if v == 'EOF' or v[0].isupper():
                return El('tok', v)
            return El('rule', v)
        if v == '.':
            return El('any')
        if v == '~':
            e = self.atom()
            return El('not', e)
        if v == '(':
            alts = self.alts()
            self.expect(')')
            return El('block', alts)
        raise SyntaxError('unexpected %r in grammar' % v)


# ---------------------------------------------------------------------------------------------------------------------
# Lexer
# ---------------------------------------------------------------------------------------------------------------------
def negate(ranges):
    out = []
    lo = 0
    for a, b in sorted(ranges):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= MAXC:
        out.append((lo, MAXC))
    return out


class LexBuild:
    def __init__(self, g):
        self.g = g
        self.by_name = {r.name: r for r in g.rules}
        self.states = []  # dict(trans=[(kind,target,ranges)], ng=bool, accept=int)
        self.active = []

    def new(self):
        self.states.append({'t': [], 'ng': False, 'acc': -1})
        return len(self.states) - 1

    def eps(self, a, b):
        self.states[a]['t'].append((0, b, []))

    def chars(self, a, ranges):
        b = self.new()
        self.states[a]['t'].append((1, b, ranges))
        return b

    def ranges_of(self, e):
        if e.kind == 'chars':
            return list(e.value)
        if e.kind == 'lit' and len(e.value) == 1:
            return [(ord(e.value),) * 2]
        if e.kind == 'block' and not e.suffix:
            r = []
            for a in e.value:
                if len(a.els) != 1:
                    raise SyntaxError('unsupported set')
                r += self.ranges_of(a.els[0])
            return r
        if e.kind in ('tok', 'rule'):
            r = []
            for a in self.by_name[e.value].alts:
                if len(a.els) != 1:
                    raise SyntaxError('unsupported set')
                r += self.ranges_of(a.els[0])
            return r
        raise SyntaxError('unsupported set element')

    def atom(self, e, s):
        if e.kind == 'lit':
            for c in e.value:
                s = self.chars(s, [(ord(c),) * 2])
            return s
        if e.kind == 'chars':
            return self.chars(s, e.value)
        if e.kind == 'any':
            return self.chars(s, [(0, MAXC)])
        if e.kind == 'not':
            return self.chars(s, negate(self.ranges_of(e.value)))
        if e.kind in ('tok', 'rule'):
            if e.value == 'EOF':
                raise SyntaxError('EOF in lexer rules is not supported')
            if e.value in self.active:
                raise SyntaxError('recursive lexer rules are not supported')
            self.active.append(e.value)
            r = self.alts(self.by_name[e.value].alts, s)
            self.active.pop()
            return r
        if e.kind == 'block':
            return self.alts(e.value, s)
        raise SyntaxError(e.kind)

    def alts(self, alts, s):
        end = self.new()
        for a in alts:
            b = self.new()
            self.eps(s, b)
            for e in a.els:
                b = self.element(e, b)
            self.eps(b, end)
        return end

    def element(self, e, s):
        if not e.suffix:
            return self.atom(e, s)
        if e.suffix == '?':
            d = self.new()
            self.eps(s, d)
            end = self.new()
            body = self.new()
            self.states[d]['ng'] = not e.greedy
            if e.greedy:
                self.eps(d, body)
                self.eps(d, end)
            else:
                self.eps(d, end)
                self.eps(d, body)
            self.eps(self.atom(e, body), end)
            return end
        if e.suffix == '*':
            d = self.new()
            self.eps(s, d)
            end = self.new()
            body = self.new()
            self.states[d]['ng'] = not e.greedy
            if e.greedy:
                self.eps(d, body)
                self.eps(d, end)
            else:
                self.eps(d, end)
                self.eps(d, body)
            self.eps(self.atom(e, body), d)
            return end
        body = self.new()
        self.eps(s, body)
        back = self.atom(e, body)
        d = self.new()
        self.eps(back, d)
        end = self.new()
        self.states[d]['ng'] = not e.greedy
        if e.greedy:
            self.eps(d, body)
            self.eps(d, end)
        else:
            self.eps(d, end)
            self.eps(d, body)
        return end


def literal_of(rule):
    if len(rule.alts) == 1 and len(rule.alts[0].els) == 1:
        e = rule.alts[0].els[0]
        if e.kind == 'lit' and not e.suffix:
            return e.value
    return None


CMDS = {'skip': 0, 'more': 1, 'pushMode': 2, 'popMode': 3, 'mode': 4, 'type': 5, 'channel': 6}


def esc_disp(s):
    return s.replace('\\', '\\\\').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t').replace("'", "\\'")


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def gen_lexer(g):
    tokens = {}
    for n in g.extra_tokens:
        tokens[n] = len(tokens) + 1
    for r in g.rules:
        if not r.fragment and not any(c[0] == 'type' for c in r.commands):
            tokens.setdefault(r.name, len(tokens) + 1)
    b = LexBuild(g)
    rules = []
    modes = [[] for _ in g.modes]
    for r in g.rules:
        if r.fragment:
            continue
        start = b.new()
        b.active = [r.name]
        end = b.alts(r.alts, start)
        b.states[end]['acc'] = len(rules)
        cmds = []
        typ = tokens.get(r.name, 0)
        for name, arg in r.commands:
            k = CMDS[name]
            if k in (2, 4):
                a = g.modes.index(arg)
            elif k == 5:
                a = tokens[arg]
            elif k == 6:
                a = 1 if arg == 'HIDDEN' else 0 if arg == 'DEFAULT_TOKEN_CHANNEL' else int(arg)
            else:
                a = 0
            cmds.append((k, a))
        modes[r.mode].append(len(rules))
        rules.append((typ, start, cmds))
    disp = ['<INVALID>'] * (len(tokens) + 1)
    literals = {}
    for n, t in tokens.items():
        disp[t] = n
    seen = {}
    for r in g.rules:
        if r.fragment or r.name not in tokens:
            continue
        l = literal_of(r)
        if l is not None:
            seen.setdefault(l, []).append(r.name)
    for l, names in seen.items():
        if len(names) == 1:
            disp[tokens[names[0]]] = "'" + esc_disp(l) + "'"
            literals[l] = names[0]
    h = ['// Generated by antlrgen.py; do not edit.', '#pragma once', '#include "antlr4-runtime.h"',
         'class %s : public antlr4::Lexer {' % g.name, 'public:', '    enum {']
    h += ['        %s = %d,' % (n, t) for n, t in tokens.items()]
    h += ['    };', '    enum { %s };' % ', '.join('%s = %d' % (m, i) for i, m in enumerate(g.modes) if i) if len(g.modes) > 1 else '',
          '    explicit %s(antlr4::CharStream* input);' % g.name, '};', '']
    c = ['// Generated by antlrgen.py; do not edit.', '#include "%s.h"' % g.name, 'namespace {',
         'const antlr4::lexatn::Tables& tables() {', '    using namespace antlr4::lexatn;', '    static const Tables t{', '    {']
    for s in b.states:
        tr = ','.join('{%d,%d,{%s}}' % (k, t, ','.join('{%du,%du}' % r for r in rs)) for k, t, rs in s['t'])
        c.append('        State{{%s},%s,%d},' % (tr, 'true' if s['ng'] else 'false', s['acc']))
    c.append('    },\n    {')
    for typ, start, cmds in rules:
        c.append('        Rule{%d,%d,{%s}},' % (typ, start, ','.join('Command{%d,%d}' % x for x in cmds)))
    c.append('    },\n    {%s} };' % ','.join('{%s}' % ','.join(map(str, m)) for m in modes))
    c += ['    return t;', '}', '}', '%s::%s(antlr4::CharStream* input) : antlr4::Lexer(input, tables()) {}' % (g.name, g.name), '']
    return tokens, disp, literals, '\n'.join(h), '\n'.join(c)


# ---------------------------------------------------------------------------------------------------------------------
# Parser
# ---------------------------------------------------------------------------------------------------------------------
EOF = 'EOF'
EPS = 'EPSILON'


class ParserGen:
    def __init__(self, g, tokens, disp, literals):
        self.g = g
        self.tokens, self.disp, self.literals = tokens, disp, literals
        self.rules = {r.name: r for r in g.rules}
        self.states = []  # [type, transitions]; transition (kind, target, follow, prec, toks)
        self.start = {}
        self.stop = {}
        self.code = {}
        for r in g.rules:
            self.start[r.name] = self.new('OTHER')
            self.stop[r.name] = self.new('RULE_STOP')
        self.plan = []
        for r in g.rules:
            self.build_rule(r)
        self.follow_links()

    def new(self, typ='BASIC'):
        self.states.append([typ, []])
        return len(self.states) - 1

    def eps(self, a, b):
        self.states[a][1].append((0, b, 0, 0, []))

    def toks_of(self, e):
        if e.kind == 'tok':
            return [e.value]
        if e.kind == 'lit':
            return [self.literals[e.value]]
        if e.kind == 'set':
            return e.value
        raise SyntaxError(e.kind)

    def reduce(self, alts):
        """Blocks of single tokens are sets."""
        if len(alts) > 1 and all(len(a.els) == 1 and a.els[0].kind in ('tok', 'lit') and not a.els[0].suffix and not a.label for a in alts):
            return El('set', [self.toks_of(a.els[0])[0] for a in alts])
        return None

    # Structured IR for code generation: nested tuples
    #  ('match', state, toks) ('call', state, rule, prec) ('seq', [..]) ('alts', state, [seq..]) ('opt', state, [seq..])
    #  ('star', entry, loopback, [seq..], blockstate) ('plus', blkstart, loopback, [seq..])
    def elem(self, e, s):
        """Returns (ir, end state)."""
        if e.suffix and e.kind not in ('block', 'optblock'):
            a = Alt()
            x = El(e.kind, e.value)
            x.prec = e.prec
            a.els = [x]
            return self.ebnf([a], e.suffix, s)
        if e.kind == 'block':
            red = self.reduce(e.value)
            if red is not None:
                if e.suffix:
                    a = Alt()
                    a.els = [red]
                    return self.ebnf([a], e.suffix, s)
                return self.elem(red, s)
            if e.suffix:
                return self.ebnf(e.value, e.suffix, s)
            return self.block(e.value, s)
        if e.kind in ('tok', 'lit', 'set'):
            m = self.new()
            self.eps(s, m)
            t = self.new()
            self.states[m][1].append((1, t, 0, 0, self.toks_of(e)))
            return ('match', m, self.toks_of(e)), t
        if e.kind == 'rule':
            m = self.new()
            self.eps(s, m)
            t = self.new()
            self.states[m][1].append((2, self.start[e.value], t, e.prec or 0, []))
            return ('call', m, e.value, e.prec or 0), t
        raise SyntaxError('unsupported parser element ' + e.kind)

    def seq(self, els, s):
        out = []
        for e in els:
            ir, s = self.elem(e, s)
            out.append(ir)
        return ('seq', out), s

    def block(self, alts, s):
        if len(alts) == 1:
            return self.seq(alts[0].els, s)
        b = self.new('BLOCK_START')
        self.eps(s, b)
        end = self.new('OTHER')
        irs = []
        for a in alts:
            x = self.new('OTHER')
            self.eps(b, x)
            ir, y = self.seq(a.els, x)
            self.eps(y, end)
            irs.append(ir)
        return ('alts', b, irs), end

    def inner(self, alts, s, typ):
        """A block inside a loop; s is the block start state."""
        end = self.new('OTHER')
        irs = []
        for a in alts:
            x = self.new('OTHER')
            self.eps(s, x)
            ir, y = self.seq(a.els, x)
            self.eps(y, end)
            irs.append(ir)
        return irs, end

    def ebnf(self, alts, suffix, s):
        if suffix == '?':
            b = self.new('BLOCK_START')
            self.eps(s, b)
            irs, end = self.inner(alts, b, None)
            self.eps(b, end)
            return ('opt', b, irs), end
        if suffix == '*':
            entry = self.new('STAR_LOOP_ENTRY')
            self.eps(s, entry)
            blk = self.new('STAR_BLOCK_START')
            end = self.new('OTHER')
            self.eps(entry, blk)
            self.eps(entry, end)
            irs, bend = self.inner(alts, blk, None)
            back = self.new('STAR_LOOP_BACK')
            self.eps(bend, back)
            self.eps(back, entry)
            return ('star', entry, back, irs, blk), end
        blk = self.new('PLUS_BLOCK_START')
        self.eps(s, blk)
        irs, bend = self.inner(alts, blk, None)
        back = self.new('PLUS_LOOP_BACK')
        end = self.new('OTHER')
        self.eps(bend, back)
        self.eps(back, blk)
        self.eps(back, end)
        return ('plus', blk, back, irs), end

    def is_left_recursive(self, r):
        return any(a.els and a.els[0].kind == 'rule' and a.els[0].value == r.name and not a.els[0].suffix for a in r.alts)

    def build_rule(self, r):
        s, e = self.start[r.name], self.stop[r.name]
        if not self.is_left_recursive(r):
            red = self.reduce(r.alts)
            if red is not None:
                ir, x = self.elem(red, s)
                self.eps(x, e)
                self.plan.append(('plain', r, [(None, ir)], None))
                return
            if len(r.alts) == 1:
                ir, x = self.seq(r.alts[0].els, s)
                self.eps(x, e)
                self.plan.append(('plain', r, [(r.alts[0].label, ir)], None))
                return
            b = self.new('BLOCK_START')
            self.eps(s, b)
            irs, end = self.inner(r.alts, b, None)
            self.eps(end, e)
            self.plan.append(('plain', r, [(a.label, ir) for a, ir in zip(r.alts, irs)], b))
            return
        n = len(r.alts)
        prim, ops = [], []
        for i, a in enumerate(r.alts, 1):
            prec = n - i + 1
            els = []
            for x in a.els:
                y = El(x.kind, x.value)
                y.suffix, y.greedy, y.prec = x.suffix, x.greedy, x.prec
                els.append(y)
            left = els[0].kind == 'rule' and els[0].value == r.name and not els[0].suffix
            last = els[-1]
            right = last.kind == 'rule' and last.value == r.name and not last.suffix and (len(els) > 1)
            rec = [x for x in els if x.kind == 'rule' and x.value == r.name]
            for x in rec:
                x.prec = 0
            na = Alt()
            na.label = a.label
            if left and right and len(els) > 1:
                last.prec = prec if a.right else prec + 1
                na.els = els[1:]
                ops.append((prec, na))
            elif left:
                na.els = els[1:]
                ops.append((prec, na))
            elif right:
                last.prec = prec
                na.els = els
                prim.append(na)
            else:
                na.els = els
                prim.append(na)
        b = self.new('BLOCK_START')
        self.eps(s, b)
        irs, end = self.inner(prim, b, None)
        entry = self.new('STAR_LOOP_ENTRY')
        self.eps(end, entry)
        blk = self.new('STAR_BLOCK_START')
        lend = self.new('OTHER')
        self.eps(entry, blk)
        self.eps(entry, lend)
        self.eps(lend, e)
        bend = self.new('OTHER')
        opirs = []
        for prec, a in ops:
            x = self.new('OTHER')
            self.states[blk][1].append((3, x, 0, prec, []))
            ir, y = self.seq(a.els, x)
            self.eps(y, bend)
            opirs.append((a.label, ir, prec))
        back = self.new('STAR_LOOP_BACK')
        self.eps(bend, back)
        self.eps(back, entry)
        self.plan.append(('leftrec', r, [(a.label, ir) for a, ir in zip(prim, irs)], b, entry, blk, back, opirs))

    def follow_links(self):
        self.callers = {n: [] for n in self.rules}
        inv = {v: k for k, v in self.start.items()}
        for st in self.states:
            for k, t, f, p, toks in st[1]:
                if k == 2:
                    self.callers[inv[t]].append(f)
        self.stop_rule = {v: k for k, v in self.stop.items()}

    def look(self, s):
        """LL(1) lookahead set of a decision alternative, chasing global FOLLOW; None if it meets a precedence predicate."""
        out = set()
        busy = set()
        pred = [False]

        def go(s, stack):
            if (s, stack) in busy:
                return
            busy.add((s, stack))
            if s in self.stop_rule:
                if stack:
                    go(stack[-1], stack[:-1])
                else:
                    for f in self.callers[self.stop_rule[s]]:
                        go(f, ())
                return
            for k, t, f, p, toks in self.states[s][1]:
                if k == 1:
                    out.update(toks)
                elif k == 2:
                    if stack.count(f) == 0 and len(stack) < 40:
                        go(t, stack + (f,))
                elif k == 3:
                    if not stack:
                        pred[0] = True
                    go(t, stack)
                else:
                    go(t, stack)
        go(s, ())
        return None if pred[0] else out

    def ll1(self, targets):
        sets = [self.look(t) for t in targets]
        if any(x is None or not x for x in sets):
            return None
        seen = set()
        for x in sets:
            if seen & x:
                return None
            seen |= x
        return sets

    # -- code ---------------------------------------------------------------------------------------------------------
    def tk(self, t):
        return 'antlr4::Token::EOF' if t == EOF else str(self.tokens[t])

    def cond(self, toks):
        return ' || '.join('la() == %s' % self.tk(t) for t in sorted(toks, key=lambda t: self.tokens.get(t, 0)))

    def emit(self, ir, o, ind):
        p = '    ' * ind
        k = ir[0]
        if k == 'seq':
            for x in ir[1]:
                self.emit(x, o, ind)
        elif k == 'match':
            if len(ir[2]) == 1:
                o.append('%sset_state(%d); match(%s);' % (p, ir[1], self.tk(ir[2][0])))
            else:
                o.append('%sset_state(%d); match(Set{%s});' % (p, ir[1], ', '.join(self.tk(t) for t in ir[2])))
        elif k == 'call':
            o.append('%sset_state(%d); %s_(%d);' % (p, ir[1], ir[2], ir[3]))
        elif k in ('alts', 'opt'):
            st, irs = ir[1], ir[2]
            o.append('%sset_state(%d); sync();' % (p, st))
            targets = [t[1] for t in self.states[st][1]]
            sets = self.ll1(targets)
            if sets:
                first = True
                for x, s in zip(irs, sets):
                    o.append('%s%sif (%s) {' % (p, '' if first else '} else ', self.cond(s)))
                    self.emit(x, o, ind + 1)
                    first = False
                if k == 'alts':
                    o.append('%s} else { no_viable_alt(in_->LT(1), in_->LT(1)); }' % p)
                else:
                    o.append('%s}' % p)
            else:
                o.append('%sswitch (predict(%d)) {' % (p, st))
                for i, x in enumerate(irs, 1):
                    o.append('%s    case %d: {' % (p, i))
                    self.emit(x, o, ind + 2)
                    o.append('%s        break; }' % p)
                o.append('%s    default: break;' % p)
                o.append('%s}' % p)
        elif k == 'star':
            _, entry, back, irs, blk = ir
            o.append('%sset_state(%d); sync();' % (p, entry))
            targets = [t[1] for t in self.states[entry][1]]
            sets = self.ll1(targets) if len(irs) == 1 else None
            o.append('%swhile (%s) {' % (p, self.cond(sets[0]) if sets else 'predict(%d) == 1' % entry))
            self.emit_inner(blk, irs, o, ind + 1)
            o.append('%s    set_state(%d); sync();' % (p, back if sets else entry))
            if not sets:
                o[-1] = '%s    set_state(%d); sync();' % (p, back)
            o.append('%s}' % p)
        elif k == 'plus':
            _, blk, back, irs = ir
            o.append('%sset_state(%d); sync();' % (p, blk))
            targets = [t[1] for t in self.states[back][1]]
            sets = self.ll1(targets)
            o.append('%sdo {' % p)
            self.emit_inner(blk, irs, o, ind + 1)
            o.append('%s    set_state(%d); sync();' % (p, back))
            o.append('%s} while (%s);' % (p, self.cond(sets[0]) if sets else 'predict(%d) == 1' % back))
        else:
            raise SyntaxError(k)

    def emit_inner(self, blk, irs, o, ind):
        if len(irs) == 1:
            self.emit(irs[0], o, ind)
        else:
            self.emit(('alts', blk, irs), o, ind)

    def freq(self, els):
        c = Counter()
        for e in els:
            m = 2 if e.suffix in ('*', '+') else 1
            if e.kind in ('tok',):
                c[('t', e.value)] += m
            elif e.kind == 'lit':
                c[('t', self.literals[e.value])] += m
            elif e.kind == 'set':
                for t in e.value:
                    c[('t', t)] += m
            elif e.kind == 'rule':
                c[('r', e.value)] += m
            elif e.kind == 'block':
                mx = Counter()
                for a in e.value:
                    mx |= self.freq(a.els)
                for k, v in mx.items():
                    c[k] += v * m
        return c

    def title(self, n):
        return n[0].upper() + n[1:]

    def accessors(self, c):
        o = []
        for (k, n), v in c.items():
            if k == 't':
                if v > 1:
                    o.append('        std::vector<antlr4::tree::TerminalNode*> %s() { return getTokens(%s); }' % (n, self.tk(n)))
                    o.append('        antlr4::tree::TerminalNode* %s(size_t i) { return getToken(%s, i); }' % (n, self.tk(n)))
                else:
                    o.append('        antlr4::tree::TerminalNode* %s() { return getToken(%s, 0); }' % (n, self.tk(n)))
            else:
                t = self.title(n) + 'Context'
                if v > 1:
                    o.append('        std::vector<%s*> %s() { return getRuleContexts<%s>(); }' % (t, n, t))
                    o.append('        %s* %s(size_t i) { return getRuleContext<%s>(i); }' % (t, n, t))
                else:
                    o.append('        %s* %s() { return getRuleContext<%s>(0); }' % (t, n, t))
        return [x.replace(' EOF(', ' EOF(') for x in o]

    def generate(self):
        g = self.g
        h = ['// Generated by antlrgen.py; do not edit.', '#pragma once', '#include "antlr4-runtime.h"',
             'class %s : public antlr4::Parser {' % g.name, 'public:', '    enum {']
        h += ['        %s = %d,' % (n, t) for n, t in self.tokens.items()]
        h += ['    };', '    enum { %s };' % ', '.join('Rule%s = %d' % (self.title(r.name), i) for i, r in enumerate(g.rules)),
              '    explicit %s(antlr4::TokenStream* input);' % g.name]
        for r in g.rules:
            h.append('    class %sContext;' % self.title(r.name))
        visits = []
        cpp = ['// Generated by antlrgen.py; do not edit.', '#include "%s.h"' % g.name, '#include "%sVisitor.h"' % g.name]
        for idx, r in enumerate(g.rules):
            base = self.title(r.name) + 'Context'
            labels = []
            for a in r.alts:
                if a.label and a.label not in labels:
                    labels.append(a.label)
            if labels and any(not a.label for a in r.alts):
                raise SyntaxError('rule %s: all alternatives or none must be labelled' % r.name)
            h.append('    class %s : public antlr4::ParserRuleContext {' % base)
            h.append('    public:')
            h.append('        size_t getRuleIndex() const override { return %d; }' % idx)
            if not labels:
                c = Counter()
                for a in r.alts:
                    c |= self.freq(a.els)
                h += self.accessors(c)
                h.append('        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;')
                visits.append((self.title(r.name), base))
            h.append('    };')
            for l in labels:
                c = Counter()
                for a in r.alts:
                    if a.label == l:
                        c |= self.freq(a.els)
                t = self.title(l) + 'Context'
                h.append('    class %s : public %s {' % (t, base))
                h.append('    public:')
                h += self.accessors(c)
                h.append('        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;')
                h.append('    };')
                visits.append((self.title(l), t))
            h.append('    %s* %s() { return %s_(0); }' % (base, r.name, r.name))
        h.append('private:')
        for r in g.rules:
            h.append('    %sContext* %s_(int prec);' % (self.title(r.name), r.name))
        h += ['};', '']
        v = ['// Generated by antlrgen.py; do not edit.', '#pragma once', '#include "antlr4-runtime.h"', '#include "%s.h"' % g.name,
             'class %sVisitor : public antlr4::tree::AbstractParseTreeVisitor {' % g.name, 'public:']
        for n, t in visits:
            v.append('    virtual std::any visit%s(%s::%s* context) = 0;' % (n, g.name, t))
            cpp.append('std::any %s::%s::accept(antlr4::tree::ParseTreeVisitor* visitor) {' % (g.name, t))
            cpp.append('    if (auto v = dynamic_cast<%sVisitor*>(visitor)) return v->visit%s(this);' % (g.name, n))
            cpp.append('    return visitor->visitChildren(this);\n}')
        v += ['};', '']
        # tables
        cpp += ['namespace {', 'const antlr4::patn::Tables& tables() {', '    using namespace antlr4::patn;', '    static const Tables t{ {']
        for typ, trs in self.states:
            t = ','.join('{%d,%d,%d,%d,{%s}}' % (k, tg, f, pr, ','.join(self.tk(x) for x in toks)) for k, tg, f, pr, toks in trs)
            cpp.append('        State{%s,{%s}},' % (typ, t))
        cpp.append('    }, {%s} };' % ','.join(cstr(x) for x in self.disp))
        cpp += ['    return t;', '}', '}',
                '%s::%s(antlr4::TokenStream* input) : antlr4::Parser(static_cast<antlr4::CommonTokenStream*>(input), tables()) {}' % (g.name, g.name)]
        for p in self.plan:
            r = p[1]
            base = self.title(r.name) + 'Context'
            o = ['%s::%s* %s::%s_(int prec) {' % (g.name, base, g.name, r.name),
                 '    int invoking = state_;',
                 '    auto parent = enter(make_ctx<%s>(), invoking, prec);' % base,
                 '    if (!parent) frames_.back().invoking_state = -1;']

            def body(items, state, label_ctx):
                if len(items) == 1 and state is None:
                    lab, ir = items[0]
                    if lab:
                        o.append('    swap_ctx(make_ctx<%sContext>());' % self.title(lab))
                    self.emit(ir, o, 1)
                    return
                o.append('    set_state(%d); sync();' % state)
                targets = [t[1] for t in self.states[state][1]]
                sets = self.ll1(targets)
                if sets:
                    first = True
                    for (lab, ir), s in zip(items, sets):
                        o.append('    %sif (%s) {' % ('' if first else '} else ', self.cond(s)))
                        if lab:
                            o.append('        swap_ctx(make_ctx<%sContext>());' % self.title(lab))
                        self.emit(ir, o, 2)
                        first = False
                    o.append('    } else { no_viable_alt(in_->LT(1), in_->LT(1)); }')
                else:
                    o.append('    switch (predict(%d)) {' % state)
                    for i, (lab, ir) in enumerate(items, 1):
                        o.append('        case %d: {' % i)
                        if lab:
                            o.append('            swap_ctx(make_ctx<%sContext>());' % self.title(lab))
                        self.emit(ir, o, 3)
                        o.append('            break; }')
                    o.append('        default: break;')
                    o.append('    }')
            body(p[2], p[3], True)
            if p[0] == 'leftrec':
                _, _, _, _, entry, blk, back, opirs = p
                o.append('    set_state(%d); sync();' % entry)
                o.append('    while (int op = predict_operator(%d)) {' % blk)
                o.append('        switch (op) {')
                for i, (lab, ir, prec) in enumerate(opirs, 1):
                    o.append('            case %d: {' % i)
                    o.append('                ctx_->stop = in_->index() > 0 ? in_->get(in_->index() - 1) : nullptr;')
                    o.append('                push_recursion(make_ctx<%sContext>());' % (self.title(lab) if lab else self.title(r.name)))
                    self.emit(ir, o, 4)
                    o.append('                break; }')
                o.append('            default: break;')
                o.append('        }')
                o.append('        set_state(%d); sync();' % back)
                o.append('    }')
            o.append('    auto result = static_cast<%s*>(ctx_);' % base)
            o.append('    leave(parent, invoking);')
            o.append('    return result;')
            o.append('}')
            cpp += o
        return '\n'.join(h), '\n'.join(cpp) + '\n', '\n'.join(v)


def put(path, text):
    try:
        if open(path, encoding='utf-8').read() == text:
            return
    except OSError:
        pass
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def main():
    lex, par, out = sys.argv[1:4]
    lg = Grammar(lex)
    tokens, disp, literals, h, c = gen_lexer(lg)
    put(os.path.join(out, lg.name + '.h'), h)
    put(os.path.join(out, lg.name + '.cpp'), c)
    pg = Grammar(par)
    gen = ParserGen(pg, tokens, disp, literals)
    h, c, v = gen.generate()
    put(os.path.join(out, pg.name + '.h'), h)
    put(os.path.join(out, pg.name + '.cpp'), c)
    put(os.path.join(out, pg.name + 'Visitor.h'), v)


if __name__ == '__main__':
    main()
