"""Quoted code: C06, C07, C08 and the macro part of C10."""
import json, os, re, subprocess, threading, time
import vlib
from vlib import cp, uncp

WORDS = ['a', 'foo', 'x1', 'fn', 'let', 'if', 'for', 'match', 'ref', 'in', 'join', 'else', 'self', 'type', '_', 'é', 'Foo', 'r#type',
         'mut', 'async', 'émile', '日本']
NUMBERS = ['1', '42', '1.5', '0xff', '1u8', '1e3', '1_000']
CHARS = ["'c'", "'\\n'", "b'x'", 'b"ab"', 'br"x"', "'\\u{41}'"]
PUNCT = list('+-*/%^!&|=<>.,;:#?@~')
OPS = ['->', '=>', '::', '<=', '>>', '..', '..=', '&&', '+=', '!=', '...']
LIFETIMES = ["'a", "'static"]


def tok(s):
    return dict(k='tok', s=s)


# --------------------------------------------------------------- source text

class Src:
    """Writes source text and knows where it is (lines from 1, columns from 0)."""
    flat = False   # for compilers which only tell bytes

    def __init__(self, rng):
        self.rng = rng
        self.out = []
        self.l = 1
        self.c = 0
        self.b = 0

    def put(self, s):
        self.b += len(s.encode())
        self.out.append(s)
        n = s.count('\n')
        if n:
            self.l += n
            self.c = len(s) - s.rfind('\n') - 1
        else:
            self.c += len(s)

    def at(self):
        return dict(l=1, c=self.b) if self.flat else dict(l=self.l, c=self.c)

    def row(self, col, blank=0, comments=True):
        """start a new line at a column with some blank lines before"""
        r = self.rng
        if comments and col >= 2 and r.random() < 0.03:    # the row starts after a comment of several lines
            self.put(' /* $' + '\n' * (blank + 1) + '*/' + ' ' * (col - 2))
            return
        if comments and r.random() < 0.05:
            self.put(' // "a" $x {')
        self.put('\n')
        for _ in range(blank):
            if comments and r.random() < 0.2:
                self.put(' ' * r.randint(0, 9) + r.choice(['// foo', '/* foo */', '   ', '\t']))
            self.put('\n')
        if col and r.random() < 0.05:
            n = r.randint(1, col)
            self.put('\t' * n + ' ' * (col - n))
        elif col >= 4 and comments and r.random() < 0.04:
            self.put('/**/' + ' ' * (col - 4))
        else:
            self.put(' ' * col)

    def gap(self):
        r = self.rng
        if self.out[-1].endswith('/') and not self.out[-1].endswith('*/'):
            self.put(' ')
        self.put(r.choice([' ', ' ', ' ', '  ', '     ', '\t', ' /* c */ ', '/**/'] * 3 + [' ' * 17, ' ' * 130]))


def rs(s, raw=False, rng=None):
    """a Rust string literal"""
    if raw and '"' not in s and '\r' not in s:
        return 'r"%s"' % s
    if raw and '"#' not in s and '\r' not in s:
        return 'r#"%s"#' % s
    o = ''
    for ch in s:
        if ch in '"\\':
            o += '\\' + ch
        elif ch == '\n' and rng is not None and rng.random() < 0.5:
            o += '\n'
        elif ord(ch) < 32 or ord(ch) == 127 or ch in '\u2028\u2029\u202e\u2066\u0301':
            o += '\\u{%x}' % ord(ch)
        else:
            o += ch
    return '"%s"' % o


WORDLIKE = re.compile(r'\w', re.U)


class Emit:
    """Writes templates as Rust source with a layout of its choice, and
    returns them with positions."""

    def __init__(self, src, style='free', bad=0.0):
        self.s = src
        self.rng = src.rng
        self.style = style
        self.bad = bad         # probability of a row at any column
        self.comma = [False]   # are commas excluded here

    # what an element starts and ends with, for adjacency
    def edges(self, x):
        k = x['k']
        if k == 'tok' and 'lits' not in x:
            t = x['s']
            return t[0], t[-1], t
        if k == 'lit':
            return '"', '"', ''
        if k == 'esc':
            return '$', '$', ''
        if k == 'var':
            return '$', 'v', ''
        if k == 'ctl':
            return '$', ']', 'ctl'
        if k == 'id':
            return '$', 'v', ''
        return '$', ')', ''

    def adjacent_ok(self, p, n):
        _, pe, pt = self.edges(p)
        ns, _, nt = self.edges(n)
        pw = WORDLIKE.match(pe) or pe in '"\'' or pt in NUMBERS
        nw = WORDLIKE.match(ns) or ns in '"\''
        if pw and nw:
            return False
        if pe == '/' or (pe == '*' and ns == '/') or ns == '#':
            return False
        if pt in NUMBERS and ns == '.':
            return False
        if pe == '.' and (nt in NUMBERS):
            return False
        if pt in LIFETIMES or nt in LIFETIMES:
            return False
        if pe == '#' and ns in '"!':
            return False
        if pe == '.' and ns == '.' or pe == '=' and ns == '=':
            return True
        return True

    def must_not_follow(self, p, n):
        """`$[' ']` followed by parenthesis would be arguments of it"""
        return p['k'] == 'ctl' and n['k'] == 'tok' and n['s'].startswith('(')

    def body(self, els, span=False, last=None):
        """els written at the current position"""
        s, r = self.s, self.rng
        els = fix_follow(els)
        out = []
        a = s.at()
        enc = []          # columns of enclosing rows
        cur = None        # column of the current row
        style = r.choice(['row', 'rows', 'rows', 'free']) if self.style == 'free' else self.style
        if any(exits(x) for x in els):
            style = 'row'      # leaving rows early is not to unbalance their indentation
        prev = None
        for x in els:
            if 'at' in x:
                s.row(*x['at'])
                cur = s.c
            elif 'gap' in x:
                if prev is not None and (x['gap'] or not self.adjacent_ok(prev, x)):
                    s.gap()
                cur = s.c if cur is None else cur
            elif prev is None:
                if span:
                    y = r.random()
                    if style == 'row' or y < 0.8:
                        if y > 0.5:
                            s.gap()
                    else:
                        s.row(r.choice([r.randint(0, 12), a['c'], a['c'] + r.randint(0, 3)]), r.choice([0, 0, 0, 1]))
                else:
                    y = r.random()
                    if style == 'row' or y < 0.3:
                        if y > 0.15:
                            s.gap()
                    else:
                        s.row(r.randint(0, 16), r.choice([0, 0, 0, 1, 2]))
                cur = s.c if not (span and s.l == a['l']) else a['c']
            else:
                y = r.random()
                brk = {'row': 0.0, 'rows': 0.4, 'free': 0.15}[style]
                if x.get('row') or y < brk:
                    z = r.random()
                    if self.bad and r.random() < self.bad:
                        col = r.randint(0, cur + 3)
                    elif z < 0.4 or (not enc and z < 0.7):
                        col = cur
                    elif z < 0.7:
                        col = r.choice(enc)
                    else:
                        col = cur + r.choice([1, 2, 4, 4, 3, 7])
                    if span and cur == a['c'] and not enc and col == cur and r.random() < 0.9:
                        col = cur + 4
                    s.row(col, r.choice([0, 0, 0, 0, 1, 1, 2, 3]))
                    if col > cur:
                        enc.append(cur)
                    else:
                        while enc and enc[-1] >= col:
                            enc.pop()
                    cur = col
                elif y < 0.75 or not self.adjacent_ok(prev, x):
                    s.gap()
            e = dict(x)
            for key in ('row', 'at', 'gap'):
                e.pop(key, None)
            e['a'] = s.at()
            self.elem(e)
            e['b'] = s.at()
            out.append(e)
            prev = x
        if span:
            y = r.random()
            if style == 'row' or y < 0.7:
                if y > 0.4:
                    s.gap()
            else:
                s.row(r.choice([r.randint(0, 12), cur if cur is not None else 0]), r.choice([0, 0, 1]))
        b = s.at()
        if not span:
            y = r.random()
            if y < 0.3:
                s.gap()
            elif y < 0.6:
                s.row(r.randint(0, 12), r.choice([0, 0, 1]))
        return dict(els=out, span=span, a=a, b=b)

    def braced(self, els):
        self.s.put('{')
        b = self.body(els)
        self.s.put('}')
        return b

    def dollar(self):
        """whitespace may follow a dollar sign"""
        return '$' if self.rng.random() < 0.96 else '$' + self.rng.choice([' ', ' ', '  ', ' /* $ */ '])

    def elem(self, e):
        s, r = self.s, self.rng
        k = e['k']
        if k == 'tok':
            lits = e.pop('lits', None)
            if lits == 'lit':          # $("lit")
                s.put(self.dollar() + '(' + r.choice(['', ' ']) + rs(e['s'], r.random() < 0.2) + ')')
            else:
                s.put(e['s'])
                if e.get('val') is not None:
                    e['s'] = e.pop('val')
            e['s'] = cp(e['s'])
        elif k == 'esc':
            s.put(self.dollar() + '$')
            e.update(k='tok', s=cp('$'))
        elif k == 'lit':
            s.put(rs(e['s'], r.random() < 0.15, r))
            e['s'] = cp(e['s'])
        elif k == 'ctl':
            c = ["' '", "'\\r'", "'\\n'"][e['n']]
            s.put(self.dollar() + r.choice(['[%s]', '[%s]', '[ %s ]']) % c)
        elif k == 'var':
            s.put(self.dollar() + e['v'])
            e.update(k='expr', e=dict(x='v', v=e.pop('v')))
        elif k == 'expr':
            plain = e['e']['x'] == 's' and e['e'].get('how') == 'plain'
            s.put(self.dollar() + ('((' if plain else '('))     # an expression, not a literal
            e['e'] = self.expr(e['e'])
            s.put('))' if plain else ')')
        elif k == 'str':
            s.put(self.dollar() + '[str](')
            self.string(e)
            s.put(')')
        elif k == 'let':
            s.put(self.dollar() + '(let ')
            e['p'] = self.pat(e['p'], e.pop('mut', False))
            s.put(' = ')
            e['e'] = self.expr(e['e'])
            s.put(')')
        elif k == 'for':
            s.put(self.dollar() + '(for ')
            e['p'] = self.pat(e['p'])
            s.put(' in ')
            e['e'] = self.expr(e['e'])
            if e['sep']:
                s.put(' join' + r.choice([' ', '']) + '(')
                e['sep'] = [self.body(e['sep'][0], True)]
                s.put(')')
            if r.random() < 0.5 and not self.starts_brace(e['body']):
                s.put(' => ')
                e['body'] = self.body(e['body'])
            else:
                s.put(r.choice(['', ' ']))
                e['body'] = self.braced(e['body'])
            s.put(')')
        elif k == 'if':
            s.put(self.dollar() + '(if ')
            if e['p']:
                s.put('let ')
                e['p'] = [self.pat(e['p'][0])]
                s.put(' = ')
            e['e'] = self.expr(e['e'])
            if not e['els'] and r.random() < 0.5:
                s.put(' => ')
                e['then'] = self.body(e['then'])
            else:
                s.put(' ')
                e['then'] = self.braced(e['then'])
                if e['els']:
                    s.put(r.choice([' ', '', '\n']) + 'else' + r.choice([' ', '']))
                    e['els'] = [self.braced(e['els'][0])]
            s.put(')')
        elif k == 'match':
            s.put(self.dollar() + '(match ')
            e['e'] = self.expr(e['e'])
            s.put(' {')
            arms = []
            for n, a in enumerate(e['arms']):
                if r.random() < 0.6:
                    s.row(r.randint(0, 12), 0)
                else:
                    s.put(' ')
                arms.append(self.arm(a, n == len(e['arms']) - 1))
            e['arms'] = arms
            s.put(r.choice(['}', ' }']) + ')')
        elif k == 'ref':
            b = e.pop('v')
            s.put(self.dollar() + '(ref ' + b)
            arrow = b != '_' and r.random() < 0.3
            s.put(' => ' if arrow else ' {')
            e['st'] = [self.stmt(x, b) for x in e['st']]
            s.put(')' if arrow else '})')
        else:
            raise KeyError(k)

    def starts_brace(self, els):
        return False

    def arm(self, a, last):
        s, r = self.s, self.rng
        on, off = ['#[cfg(all())]', '#[allow(unused)]', '#[allow(clippy::all)]'], ['#[cfg(any())]', '#[cfg(not(all()))]']
        attrs = [] if a['on'] else [r.choice(off)]
        while r.random() < (0.4 if attrs else 0.1):
            attrs.insert(r.randint(0, len(attrs)), r.choice(on))
        for x in attrs:
            s.put(x + ' ')
        o = dict(on=a['on'], p=self.pat(a['p']), g=[])
        if a['g']:
            s.put(' if ')
            o['g'] = [self.expr(a['g'][0])]
        s.put(' => ')
        els = a['body']
        plain = els and all(not (x['k'] == 'tok' and 'lits' not in x and ',' in x['s']) for x in top_level(els)) \
            and not (els[0]['k'] == 'tok' and els[0].get('lits') is None and els[0]['s'][0] in '({')
        how = r.choice(['{', '(', ',' if plain else '{'])
        if how == '{':
            o['body'] = self.braced(els)
            if not last:
                s.put(r.choice(['', ',', ' ']))
        elif how == '(':
            s.put('(')
            o['body'] = self.body(els, True)
            s.put(')' + (',' if not last else r.choice(['', ','])))
        else:
            o['body'] = self.body(els)
            s.put(',')
        return o

    def string(self, e):
        s, r = self.s, self.rng
        e['ia'] = s.at()
        out = []
        prev = None
        for p in e['parts']:
            p = dict(p)
            y = r.random()
            if 'gap' in p:
                s.put(' ' * p.pop('gap'))
            elif self.bad and r.random() < self.bad * 0.3:
                s.row(r.randint(0, 20), 0, False)
            elif prev is None or self.adjacent_ok(prev, p):
                s.put(' ' * r.choice([0, 0, 0, 1, 1, 2, 5] * 9 + [12, 90]))
            else:
                s.put(' ' * r.choice([1, 1, 2, 5] * 9 + [12, 90]))
            prev = dict(p)
            p['a'] = s.at()
            if p['k'] == 'tok':
                s.put(p['s'])
                p.update(k='tx', s=cp(p['s']))
            elif p['k'] == 'esc':
                s.put(self.dollar() + '$')
                p.update(k='tx', s=cp('$'))
            elif p['k'] == 'constlit':
                s.put(self.dollar() + '[const](' + rs(p['s'], r.random() < 0.2) + ')')
                p.update(k='tx', s=cp(p['s']))
            elif p['k'] == 'const':
                s.put(self.dollar() + '[const](')
                p['e'] = self.expr(p['e'])
                s.put(')')
            elif p['k'] == 'id':
                s.put(self.dollar() + p['s'])
                p['s'] = cp(p['s'])
            elif p['k'] == 'ev':
                s.put(self.dollar() + '(')
                p['body'] = self.body(p['body'], True)
                s.put(')')
            p['b'] = s.at()
            out.append(p)
        y = r.random()
        if 'tail' in e:
            s.put(' ' * e.pop('tail'))
        elif self.bad and r.random() < self.bad * 0.2:
            s.row(r.randint(0, 20), 0, False)
        elif y < 0.3:
            s.put(' ' * r.choice([1, 2, 4] * 9 + [12, 90]))
        e['parts'] = out
        e['ib'] = s.at()

    def pat(self, p, mut=False):
        s = self.s
        k = p['p']
        q = dict(p)
        if k == 'id':
            s.put(('mut ' if mut else '') + p['v'])
        elif k == '_':
            s.put('_')
        elif k == 'int':
            s.put(str(p['n']))
        elif k == 'str':
            s.put(rs(p['s']))
            q['s'] = cp(p['s'])
        elif k == 'range':
            s.put('%d..=%d' % (p['n'], p['m']))
        elif k == 'none':
            s.put('None')
        elif k == 'some':
            s.put('Some(')
            q['c'] = [self.pat(p['c'][0])]
            s.put(')')
        elif k == 'or':
            q['c'] = []
            for n, x in enumerate(p['c']):
                if n:
                    s.put(' | ')
                q['c'].append(self.pat(x))
        elif k == 'pair':
            s.put('(')
            a = self.pat(p['c'][0])
            s.put(', ')
            b = self.pat(p['c'][1])
            s.put(')')
            q['c'] = [a, b]
        elif k == 'at':
            s.put(p['v'] + ' @ ')
            q['c'] = [self.pat(p['c'][0])]
        return q

    def many(self, es, sep=', '):
        out = []
        for n, x in enumerate(es):
            if n:
                self.s.put(sep)
            out.append(self.expr(x))
        return out

    def macro(self, name, els, pre=''):
        """name!(pre els)"""
        s, r = self.s, self.rng
        o, c = r.choice(['()', '{}', '[]'])
        if r.random() < 0.15:    # tokens which went through a macro are where they have been written
            name = 'via_' + name
        s.put(name + '!' + (' ' if o == '{' else '') + o + pre)
        b = self.body(els)
        s.put(c)
        return b

    def expr(self, e):
        s, r = self.s, self.rng
        k = e['x']
        q = dict(e)
        ty = q.pop('ty', None)
        if k == 'i':
            s.put('%di64' % e['n'] if e['n'] >= 0 else '(%di64)' % e['n'])
        elif k == 's':
            lit = rs(e['s'])
            how = q.pop('how', '')
            s.put({'': '(%s)', 'String': 'String::from(%s)', 'format': 'format!("{}", %s)', 'display': 'genco::tokens::display(%s)',
                   'static': 'genco::tokens::static_literal(%s)', 'plain': '%s'}[how] % lit)
            q['s'] = cp(e['s'])
        elif k == 'b':
            s.put('true' if e['n'] else 'false')
        elif k == 'v':
            use = q.pop('use', '')
            s.put({'': '%s', '&': '&%s', 'clone': '%s.clone()'}[use] % e['v'])
        elif k == 'ev':
            s.put('ev(%d, ' % e['n'])
            q['c'] = self.many(e['c'])
            s.put(')')
        elif k == 'some':
            s.put('Some(')
            q['c'] = self.many(e['c'])
            s.put(')')
        elif k == 'none':
            s.put('None::<%s>' % {'oi': 'i64', 'os': "&'static str"}[ty])
        elif k == 'vec':
            how = q.pop('how', '')
            if how not in ('', 'array'):
                s.put('gmac::%s(' % how)
            if not e['c']:
                s.put('Vec::<%s>::new()' % {'vi': 'i64', 'vs': "&'static str", 'vp': '(i64, i64)'}[ty])
            else:
                s.put('[' if how == 'array' else 'vec![')
                q['c'] = self.many(e['c'])
                s.put(']')
            if how not in ('', 'array'):
                s.put(')')
        elif k == 'pair':
            s.put('(')
            q['c'] = self.many(e['c'])
            s.put(')')
        elif k == 'range':
            s.put('(%di64..%d)' % (e['n'], e['m']))
        elif k == 'add':
            s.put('(')
            q['c'] = self.many(e['c'], ' + ')
            s.put(')')
        elif k == 'lt':
            s.put('(')
            q['c'] = self.many(e['c'], ' < ')
            s.put(')')
        elif k == 'not':
            s.put('!')
            q['c'] = self.many(e['c'])
        elif k == 'quoted':
            s.put('quoted(')
            q['c'] = self.many(e['c'])
            s.put(')')
        elif k == 'imp':
            s.put('imp(%d)' % e['n'])
        elif k == 'reg':
            s.put('register(imp(%d))' % e['n'])
        elif k == 'inc':
            s.put('({ %s += 1; %s })' % (e['v'], e['v']))
        elif k == 'next':
            s.put('%s.next()' % e['v'])
        elif k == 'quote':
            s.put('({ let __q: Toks = ')
            q['body'] = self.macro('quote', e['body'])
            s.put('; __q })')
        elif k == 'quote_fn':
            q['body'] = self.macro('quote_fn', e['body'])
        else:
            raise KeyError(k)
        return q

    def stmt(self, x, b):
        s, r = self.s, self.rng
        q = dict(x)
        k = x['k']
        s.put(' ')
        if k == 'op':
            f = {'sp': 'space', 'pu': 'push', 'li': 'line', 'ind': 'indent' if x['n'] > 0 else 'unindent'}[x['o']]
            s.put('%s.%s();' % (b, f))
        elif k == 'append':
            s.put(b + '.append(')
            q['e'] = self.expr(x['e'])
            s.put(');')
        elif k == 'eval':
            s.put('let _ = ')
            q['e'] = self.expr(x['e'])
            s.put(';')
        elif k == 'let':
            s.put('let ')
            q['p'] = self.pat(x['p'])
            s.put(' = ')
            q['e'] = self.expr(x['e'])
            s.put(';')
        elif k == 'exit':
            if x['e'] == dict(x='b', n=1):
                s.put(x['how'] + ';')
            else:
                s.put('if ')
                q['e'] = self.expr(x['e'])
                s.put(' { %s%s }' % (x['how'], r.choice(['', ';'])))
        elif k == 'quote_in':
            q['body'] = self.macro('quote_in', x['body'], r.choice(['*%s =>', ' *%s=> ']) % b)
            s.put(';')
        return q


def exits(x):
    """can the loop which this element is in be left at it?"""
    return {'for': lambda: any(exits(y) for y in x['body']),
            'if': lambda: any(exits(y) for b in [x['then']] + x['els'] for y in b),
            'match': lambda: any(exits(y) for a in x['arms'] for y in a['body']),
            'ref': lambda: any(t['k'] == 'exit' or t['k'] == 'quote_in' and any(exits(y) for y in t['body'])
                               for t in x['st'])}.get(x['k'], lambda: False)()


def top_level(els):
    """elements which are not inside of a group"""
    d = 0
    for x in els:
        t = x['s'] if x['k'] == 'tok' and 'lits' not in x else ''
        if t and t in '([{':
            d += 1
        if d == 0:
            yield x
        if t and t in ')]}':
            d -= 1


# --------------------------------------------------------------- templates

class Tmpl:
    """Random templates. Variables are (name, type)."""

    def __init__(self, rng, control=1.0, strings=1.0, imports=True):
        self.rng = rng
        self.imports = imports
        self.control = control
        self.strings = strings
        self.key = 0
        self.loops = []        # which are around here: do they have separators
        self.names = ['a', 'b', 'c', 'n', 'x', 'y', 'item', 'it']

    def ev(self, e):
        self.key += 1
        return dict(x='ev', n=self.key, c=[e], ty=e.get('ty'))

    def maybe_ev(self, e, p=0.3):
        return self.ev(e) if self.rng.random() < p else e

    def vars(self, env, ty):
        seen = {}
        for n, t in env:
            seen[n] = t
        return [n for n, t in seen.items() if t == ty]

    def word(self):
        return self.rng.choice(WORDS)

    def tokens(self, n, depth=0):
        """plain tokens, groups flattened"""
        r = self.rng
        out = []
        while len(out) < n:
            x = r.random()
            if x < 0.5:
                out.append(tok(r.choice(WORDS)))
            elif x < 0.6:
                out.append(tok(r.choice(NUMBERS)))
            elif x < 0.66:
                out.append(tok(r.choice(CHARS)))
            elif x < 0.7:
                out.append(tok(r.choice(LIFETIMES)))
            elif x < 0.85:
                out.append(tok(r.choice(PUNCT)))
            elif x < 0.9:
                out.append(tok(r.choice(OPS)))
            elif depth < 3:
                o, c = r.choice(['()', '[]', '{}'])
                out += [tok(o)] + self.tokens(r.randint(0, 3), depth + 1) + [tok(c)]
        return out

    def int(self, env, depth=0):
        r = self.rng
        x = r.random()
        vs = self.vars(env, 'i')
        if vs and x < 0.5:
            return dict(x='v', v=r.choice(vs))
        muts = self.vars(env, 'mi')
        if muts and x < 0.6:
            return dict(x='inc', v=r.choice(muts))
        if muts and x < 0.65:
            return dict(x='v', v=r.choice(muts))
        if x < 0.8 or depth > 1:
            return dict(x='i', n=r.choice([0, 1, 2, 3, 7, 10, 42, -1, -12]))
        if x < 0.9:
            return dict(x='add', c=[self.maybe_ev(self.int(env, depth + 1)), self.int(env, depth + 1)])
        return self.ev(self.int(env, depth + 1))

    def str(self, env):
        r = self.rng
        vs = self.vars(env, 's')
        if vs and r.random() < 0.5:
            return dict(x='v', v=r.choice(vs))
        return dict(x='s', s=r.choice(['', 'a', 'foo', 'x y', '"q"', 'é\n', '$x', '{}']), how='plain', ty='s')

    def text(self, env):
        """something of any type to append"""
        r = self.rng
        x = r.random()
        if x < 0.3:
            return self.maybe_ev(self.int(env))
        if x < 0.5:
            return self.maybe_ev(dict(x='s', s=r.choice(['a', 'foo', 'x y', '', '"', '$x', '(', '\\']),
                                      how=r.choice(['', 'String', 'format', 'display', 'static'])))
        if x < 0.6:
            return self.maybe_ev(self.opt(env, 'oi'))
        if x < 0.66:
            return self.maybe_ev(dict(x='quoted', c=[self.str(env) if r.random() < 0.6 else self.int(env)]))
        if x < 0.74 and self.imports:
            return self.maybe_ev(dict(x=r.choice(['imp', 'imp', 'reg']), n=r.randint(1, 3)))
        if x < 0.82:
            v = self.vec(env, r.choice(['vi', 'vs']), array=False)
            return self.maybe_ev(v)
        vs = self.vars(env, 't')
        if vs:
            return dict(x='v', v=r.choice(vs), use=r.choice(['&', 'clone']))
        return self.maybe_ev(self.str(env))

    def opt(self, env, ty):
        r = self.rng
        vs = self.vars(env, ty)
        if vs and r.random() < 0.4:
            return dict(x='v', v=r.choice(vs))
        its = self.vars(env, 'iter')
        if ty == 'oi' and its and r.random() < 0.6:
            return dict(x='next', v=r.choice(its))
        if r.random() < 0.4:
            return dict(x='none', ty=ty)
        return dict(x='some', c=[self.int(env) if ty == 'oi' else self.str(env)])

    def vec(self, env, ty, array=True):
        r = self.rng
        vs = self.vars(env, ty)
        if vs and r.random() < 0.3:
            return dict(x='v', v=r.choice(vs), use='clone')
        n = r.choice([0, 1, 1, 2, 3])
        f = {'vi': lambda: self.maybe_ev(self.int(env), 0.1), 'vs': lambda: self.str(env),
             'vp': lambda: dict(x='pair', c=[self.int(env), self.int(env)])}[ty]
        return dict(x='vec', c=[f() for _ in range(n)], ty=ty, how=r.choice(['array', 'array', 'lazy', 'upto', 'back']) if array and r.random() < 0.5 else '')

    def cond(self, env, depth=0):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return self.maybe_ev(dict(x='b', n=r.randint(0, 1)), 0.6)
        if x < 0.85 or depth:
            return self.maybe_ev(dict(x='lt', c=[self.int(env), self.int(env)]))
        return dict(x='not', c=[self.ev(self.cond(env, 1))])

    def name(self):
        return self.rng.choice(self.names)

    def body(self, n, env, depth=0, inscope=True):
        """elements; env is extended by lets"""
        r = self.rng
        env = list(env)
        out = []
        while len(out) < n:
            x = r.random()
            if self.loops and depth < 3 and r.random() < 0.04:
                out.append(self.scope(n, env, depth, True))
            elif x < 0.35:
                out += self.tokens(r.randint(1, 3))
            elif x < 0.42:
                out.append(dict(k='lit', s=r.choice(['', 'a', 'x y', 'é', '"', 'a\nb', '\\', '$x', '\t'])))
            elif x < 0.46:
                out.append(dict(k='esc'))
            elif x < 0.5:
                out.append(tok(r.choice(['a', 'x y', '$', '', '"', '\\n', '(', '日'])))
                out[-1]['lits'] = 'lit'
            elif x < 0.56:
                out.append(dict(k='ctl', n=r.randint(0, 2)))
            elif x < 0.68:
                vs = [v for t in ('i', 's', 'oi', 'os') for v in self.vars(env, t)]
                if vs:
                    out.append(dict(k='var', v=r.choice(vs)))
            elif x < 0.78:
                out.append(dict(k='expr', e=self.text(env)))
            elif x < 0.83 and self.strings:
                out.append(self.string(env, depth))
            elif depth < 3 and r.random() < self.control:
                y = r.random()
                if y < 0.12:
                    e, env = self.let(env)
                    out.append(e)
                elif y < 0.36:
                    out.append(self.loop(n, env, depth))
                elif y < 0.6:
                    out.append(self.iff(n, env, depth))
                elif y < 0.8:
                    out.append(self.match(n, env, depth))
                elif y < 0.9:
                    out.append(self.scope(n, env, depth))
                else:
                    out.append(dict(k='expr', e=dict(x=r.choice(['quote', 'quote_fn']), body=[])))
                    inner = out[-1]['e']
                    if inner['x'] == 'quote_fn':
                        e2 = [(v, t) for v, t in env if t in ('i', 's', 'oi', 'os')]
                        e2 = [(v, t) for v, t in e2 if dict(env)[v] == t]
                    else:
                        e2 = env
                    inner['body'] = self.outside(lambda: self.body(r.randint(0, max(1, n - 1)), e2, depth + 1))
        return out

    def small(self, n, env, depth):
        return self.body(self.rng.choice([0, 1, 1, 2, max(1, n // 2)]), env, depth + 1)

    def outside(self, f):
        """where loops around cannot be left"""
        old, self.loops = self.loops, []
        x = f()
        self.loops = old
        return x

    def let(self, env):
        r = self.rng
        n = self.name()
        x = r.random()
        if x < 0.35:
            return dict(k='let', p=dict(p='id', v=n), e=self.maybe_ev(self.int(env))), env + [(n, 'i')]
        if x < 0.5:
            return dict(k='let', p=dict(p='id', v=n), e=self.str(env)), env + [(n, 's')]
        if x < 0.6:
            m = self.name()
            while m == n:
                m = self.name()
            return dict(k='let', p=dict(p='pair', c=[dict(p='id', v=n), dict(p='id', v=m)]),
                        e=self.maybe_ev(dict(x='pair', c=[self.int(env), self.int(env)]))), env + [(n, 'i'), (m, 'i')]
        if x < 0.7:
            return dict(k='let', p=dict(p='id', v=n), e=self.maybe_ev(self.opt(env, 'oi'))), env + [(n, 'oi')]
        if x < 0.8:
            return dict(k='let', p=dict(p='id', v=n), e=self.vec(env, 'vi', False)), env + [(n, 'vi')]
        if x < 0.9:
            return dict(k='let', mut=True, p=dict(p='id', v=n), e=self.maybe_ev(dict(x='i', n=r.randint(0, 5)))), env + [(n, 'mi')]
        return dict(k='let', p=dict(p='id', v=n), e=dict(x='quote', body=self.outside(lambda: self.body(r.randint(0, 3), env, 3)))), env + [(n, 't')]

    def loop(self, n, env, depth):
        r = self.rng
        v = self.name()
        x = r.random()
        if x < 0.3:
            it, p, e2 = dict(x='range', n=r.randint(0, 2), m=r.randint(0, 5)), dict(p='id', v=v), [(v, 'i')]
        elif x < 0.6:
            it, p, e2 = self.vec(env, 'vi'), dict(p='id', v=v), [(v, 'i')]
        elif x < 0.75:
            it, p, e2 = self.vec(env, 'vs'), dict(p='id', v=v), [(v, 's')]
        elif x < 0.9:
            w = self.name()
            while w == v:
                w = self.name()
            it, p, e2 = self.vec(env, 'vp'), dict(p='pair', c=[dict(p='id', v=v), dict(p='id', v=w)]), [(v, 'i'), (w, 'i')]
        else:
            it, p, e2 = self.vec(env, 'vi'), dict(p='_'), []
        sep = []
        self.loops.append(r.random() < 0.5)
        b = self.small(n, env + e2, depth)
        if self.loops.pop():
            y = r.random()
            senv = env + e2
            if y < 0.5:
                sep = [[tok(r.choice([',', ';', '+', '::', 'and']))]]
            elif y < 0.6:
                sep = [[]]
            elif y < 0.75:
                sep = [[dict(k='ctl', n=r.randint(0, 2))]]
            else:
                # variables of the element, nothing which lets of the body may shadow
                bound = set(lets(b))
                sep = [self.outside(lambda: self.body(r.randint(1, 3), [q for q in senv if q[0] not in bound], depth + 1))]
        return dict(k='for', p=p, e=self.maybe_ev(it), sep=sep, body=b)

    def iff(self, n, env, depth):
        r = self.rng
        e2 = []
        p = []
        if r.random() < 0.4:
            v = self.name()
            ty = r.choice(['oi', 'os'])
            p = [dict(p='some', c=[dict(p='id', v=v)])]
            e = self.maybe_ev(self.opt(env, ty))
            e2 = [(v, ty[1])]
        else:
            e = self.cond(env)
        els = [self.small(n, env, depth)] if r.random() < 0.5 else []
        return dict(k='if', p=p, e=e, then=self.small(n, env + e2, depth), els=els)

    def match(self, n, env, depth):
        r = self.rng
        arms = []
        x = r.random()

        def arm(p, e2, g=False, on=True):
            arms.append(dict(p=p, g=[self.cond(env + e2)] if g else [], on=on,
                             body=self.small(n, env + e2, depth) if on else [tok('off')]))
        v = self.name()
        if x < 0.5:
            e = self.maybe_ev(self.int(env), 0.5)
            if e['x'] == 'v':
                e = dict(x='add', c=[e, dict(x='i', n=0)])   # not borrowed by guards
            for _ in range(r.randint(0, 3)):
                y = r.random()
                if y < 0.3:
                    arm(dict(p='int', n=r.randint(0, 3)), [], r.random() < 0.3)
                elif y < 0.5:
                    arm(dict(p='or', c=[dict(p='int', n=n) for n in r.sample(range(0, 10), r.choice([2, 2, 3, 4]))]), [], r.random() < 0.2)
                elif y < 0.7:
                    lo = r.randint(0, 3)
                    p = dict(p='range', n=lo, m=lo + r.randint(0, 9))
                    if r.random() < 0.5:
                        arm(dict(p='at', v=v, c=[p]), [(v, 'i')], r.random() < 0.4)
                    else:
                        arm(p, [])
                else:
                    arm(dict(p='id', v=v), [(v, 'i')], True)
                if r.random() < 0.15:
                    arm(dict(p='_'), [], False, False)
            if r.random() < 0.5:
                arm(dict(p='_'), [])
            else:
                arm(dict(p='id', v=v), [(v, 'i')])
        elif x < 0.75:
            e = self.maybe_ev(self.opt(env, 'oi'))
            if r.random() < 0.5:
                arm(dict(p='some', c=[dict(p='id', v=v)]), [(v, 'i')], True)
            if r.random() < 0.5:
                arm(dict(p='some', c=[dict(p='int', n=1)]), [])
            if r.random() < 0.5:
                arm(dict(p='none'), [])
                arm(dict(p='some', c=[dict(p='id', v=v)]), [(v, 'i')])
            else:
                arm(dict(p='some', c=[dict(p='_')]), [])
                arm(dict(p='none'), [])
        elif x < 0.9:
            e = self.maybe_ev(dict(x='pair', c=[self.int(env), self.int(env)]))
            arm(dict(p='pair', c=[dict(p='int', n=1), dict(p='id', v=v)]), [(v, 'i')], r.random() < 0.4)
            arm(dict(p='pair', c=[dict(p='id', v=v), dict(p='_')]), [(v, 'i')])
        else:
            e = self.maybe_ev(dict(self.str(env)))
            arm(dict(p='str', s=r.choice(['a', 'foo'])), [])
            arm(dict(p='id', v=v), [(v, 's')], r.random() < 0.5)
            arm(dict(p='_'), [])
        return dict(k='match', e=e, arms=arms)

    def scope(self, n, env, depth, leaving=False):
        r = self.rng
        env = list(env)
        leave = lambda: dict(k='exit', how='break' if self.loops[-1] else r.choice(['break', 'continue']),
                             e=dict(x='b', n=1) if r.random() < 0.3 else self.cond(env))
        if r.random() < (0.5 if leaving else 0.15):
            st = [dict(k='eval', e=self.ev(self.int(env)))]
            if self.loops and (leaving or r.random() < 0.5):
                st.insert(r.randint(0, 1), leave())
            return dict(k='ref', v='_', st=st)
        st = []
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < 0.25:
                o = r.choice(['sp', 'pu', 'li', 'ind'])
                st.append(dict(k='op', o=o, n=r.choice([1, -1]) if o == 'ind' else 0))
            elif x < 0.5:
                st.append(dict(k='append', e=self.text(env)))
            elif x < 0.6:
                st.append(dict(k='eval', e=self.ev(self.int(env))))
            elif x < 0.75:
                v = self.name()
                st.append(dict(k='let', p=dict(p='id', v=v), e=self.maybe_ev(self.int(env))))
                env.append((v, 'i'))
            else:
                st.append(dict(k='quote_in', body=self.body(r.randint(0, 3), env, depth + 1)))
        if self.loops and (leaving or r.random() < 0.4):
            st.append(leave())
        return dict(k='ref', v=r.choice(['toks', 't', 'out']), st=st)

    def string(self, env, depth=0, n=None, evals=True):
        r = self.rng
        parts = []
        for _ in range(r.randint(0, 5) if n is None else n):
            x = r.random()
            if x < 0.45:
                parts += [p for p in self.tokens(r.randint(1, 2))]
            elif x < 0.52:
                parts.append(dict(k='esc'))
            elif x < 0.6:
                parts.append(dict(k='constlit', s=r.choice(['', 'a', ' x ', '"', '$x', '\\', 'é\n', '{'])))
            elif x < 0.7:
                parts.append(dict(k='const', e=r.choice([lambda: self.int(env), lambda: self.maybe_ev(self.str(env)),
                                                        lambda: dict(x='quoted', c=[self.str(env)])])()))
            elif x < 0.85 and evals:
                parts.append(dict(k='id', s=r.choice(['a', 'foo', 'x1', 'é'])))
            elif evals and depth < 3:
                b = self.outside(lambda: self.body(r.choice([0, 1, 1, 2, 3]), env, 3) if r.random() < 0.7 else self.body(2, env, depth + 1))
                parts.append(dict(k='ev', body=[x for x in b if x['k'] != 'ctl']))
            else:
                parts.append(tok('b'))
        return dict(k='str', parts=parts)


def lets(els):
    for x in els:
        if x['k'] == 'let':
            p = x['p']
            for q in ([p] if p['p'] == 'id' else p.get('c', [])):
                yield q['v']


def fix_follow(els):
    """keep `$[' ']` from being followed by parenthesis"""
    out = []
    for x in els:
        if out and out[-1]['k'] == 'ctl' and x['k'] == 'tok' and 'lits' not in x and x['s'].startswith('('):
            out.append(tok('p'))
        out.append(x)
    return out


# --------------------------------------------------------------- compile and run

LANGTYPES = dict(tm='gmac::Tl', c='lang::C', csharp='lang::Csharp', go='lang::Go', java='lang::Java', nix='lang::Nix',
                 python='lang::Python', rust='lang::Rust', swift='lang::Swift', js='lang::JavaScript', dart='lang::Dart', unit='()')
NOEVAL = ('c', 'csharp', 'go', 'java', 'nix', 'python', 'rust', 'swift', 'unit')
PRELUDE = ('#![allow(warnings)]\nuse genco::prelude::*;\nuse gmac::{ev, imp};\n' +
           ''.join('macro_rules! via_%s { ($($t:tt)*) => { %s!($($t)*) } }\n' % (m, m) for m in ('quote', 'quote_in', 'quote_fn')))
STABLE = 'stable-x86_64-unknown-linux-gnu'
ENVTYPES = {'i': 'i64', 's': "&'static str", 'oi': 'Option<i64>', 'os': "Option<&'static str>", 'vi': 'Vec<i64>',
            'vs': "Vec<&'static str>", 'vp': 'Vec<(i64, i64)>', 'mi': 'i64', 'iter': 'std::vec::IntoIter<i64>'}


def build_mac():
    """Returns the arguments with which rustc finds the crates."""
    tgt = os.path.join(vlib.BUILD, 'mac-stable' if Src.flat else 'mac')
    p = vlib.cargo(['build', '--offline', '--locked', '--quiet', '--message-format=json', '--target-dir', tgt],
                   os.path.join(vlib.VERIF, 'harness', 'mac'))
    if p.returncode != 0:
        ms = [json.loads(l).get('message') for l in p.stdout.split('\n') if l.startswith('{')]
        ms = [m['rendered'] for m in ms if isinstance(m, dict) and m.get('level') == 'error']
        e = vlib.ToolError('harness does not build:\n' + p.stderr[-4000:] + ''.join(ms)[:4000])
        e.macros = [m for m in ms if 'proc macro panicked' in m or re.search('originates in the macro `(genco::)?quote', m)]
        raise e
    args, dirs = [], []
    for line in p.stdout.split('\n'):
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        if m.get('reason') != 'compiler-artifact':
            continue
        for f in m['filenames']:
            if f.endswith(('.rlib', '.rmeta', '.so')):
                d = os.path.dirname(f)
                if d not in dirs:
                    dirs.append(d)
                if m['target']['name'] in ('genco', 'gmac'):
                    args += ['--extern', '%s=%s' % (m['target']['name'], f)]
    for d in dirs:
        args += ['-L', 'dependency=' + d]
    return args


class Case:
    def __init__(self, rng, els, env=(), mode=None, pre=None, post=None, style='free', bad=0.0, lang='tm'):
        self.rng = rng
        self.lang = lang
        self.els = els
        self.env = list(env)         # (name, type, expression)
        self.mode = mode or rng.choice(['quote', 'quote', 'quote_in', 'quote_in', 'quote_fn', 'quote_in_ref', 'quote_in_at'])
        self.pre = pre if pre is not None else rng.choice(
            [[], [], [('t', 'P')], [('t', 'P'), 'pu'], [('t', 'P'), 'ind'], [('t', 'P'), 'sp'], [('t', 'P'), 'li']])
        self.post = post if post is not None else rng.choice([['pu', ('t', 'Z')], ['pu', ('t', 'Z')], ['sp', ('t', 'Z')], [('t', 'Z')], []])
        self.style = style
        self.bad = bad
        self.err = None

    OPS = {'pu': 'push', 'sp': 'space', 'li': 'line', 'ind': 'indent'}

    def ops(self, xs):
        r = []
        for x in xs:
            if isinstance(x, tuple):
                r.append(dict(k='t', n=0, s=cp(x[1]), how='', c=[]))
            else:
                r.append(dict(k=x, n=1 if x == 'ind' else 0, s=[], how='', c=[]))
        return r

    def write(self, src, cid):
        """the function for this case; fills in self.trace"""
        em = Emit(src, self.style, self.bad)
        self.first = src.l
        src.put('fn c%d() -> Toks {\n' % cid)
        env = []
        for n, ty, e in self.env:
            src.put('    let %s%s: %s = ' % ('mut ' if ty in ('mi', 'iter') else '', n, ENVTYPES[ty]))
            q = em.expr(dict(e, ty=ty))
            src.put('.into_iter();\n' if ty == 'iter' else ';\n')
            env.append([n, val(q)])
        src.put('    let mut out = Toks::new();\n')
        for x in self.pre:
            src.put('    out.append("%s");\n' % x[1] if isinstance(x, tuple) else '    out.%s();\n' % self.OPS[x])
        rules = self.rng.random() < 0.3 and all(
            x['k'] in ('lit', 'var') or x['k'] == 'tok' and 'lits' not in x and '$' not in x['s'] for x in self.els)
        if rules:    # the quote is written in the definition of a macro
            src.put('    macro_rules! m { () => {\n')
        col = self.rng.choice([4, 4, 0, 1, 9])
        src.put(' ' * col)
        if self.mode == 'quote':
            src.put('let q: Toks = ')
            b = em.macro('quote', self.els)
            src.put(';\n    out.append(q);\n')
        elif self.mode == 'quote_fn':
            src.put('out.append(')
            b = em.macro('quote_fn', self.els)
            src.put(');\n')
        elif self.mode == 'quote_in':
            b = em.macro('quote_in', self.els, self.rng.choice(['out =>', ' out => ']))
            src.put(';\n')
        elif self.mode == 'quote_in_at':
            # the receiver is an expression which is evaluated, too
            b = em.macro('quote_in', self.els, self.rng.choice(
                ['*ev(900, &mut out) =>', '*{ ev(900, 0); &mut out } =>', '*if ev(900, true) { &mut out } else { panic!() } =>',
                 '*match ev(900, Some(&mut out)) { Some(o) => o, None => panic!() } =>']))
            src.put(';\n')
        else:
            src.put('{ let o = &mut out; ')
            b = em.macro('quote_in', self.els, '*o =>')
            src.put('; }\n')
        if rules:
            src.put('    } }\n    m!();\n')
        for x in self.post:
            src.put('    out.append("%s");\n' % x[1] if isinstance(x, tuple) else '    out.%s();\n' % self.OPS[x])
        src.put('    out\n}\n')
        self.last = src.l
        self.trace = dict(body=b, env=env, pre=self.ops(self.pre), post=self.ops(self.post), inplace=self.mode != 'quote',
                          noeval=self.lang in NOEVAL, recv=[900] if self.mode == 'quote_in_at' else [])


def val(e):
    """the value of a constant expression, as in Template.tla"""
    k = e['x']
    v = lambda t, n=0, s=(), c=(): dict(t=t, n=n, s=list(s), c=list(c))
    if k == 'i':
        return v('i', e['n'])
    if k == 's':
        return v('s', 0, e['s'])
    if k == 'some':
        return v('o', 0, (), [val(e['c'][0])])
    if k == 'none':
        return v('o')
    if k == 'vec':
        return v('v', 0, (), [val(x) for x in e['c']])
    if k == 'pair':
        return v('p', 0, (), [val(x) for x in e['c']])
    raise KeyError(k)


MISMATCH = re.compile(r'(\d+)\s+(more|less)\b')


def classify(msg):
    m = MISMATCH.search(msg)
    if m:
        return (m.group(2), int(m.group(1)))
    if 'line break' in msg:
        return ('line', 0)
    if 'panicked' in msg:
        return ('panic', 0)
    return ('other', 0)


class Unit:
    """A file of cases."""
    limit = 150    # seconds to compile one, which takes 10
    hung = False   # a case which the compiler does not come to an end with was found

    def __init__(self, ck, rng, cases, name, args):
        self.dir = os.path.join(ck.dir, name)
        os.makedirs(self.dir)
        self.cases = cases
        self.rng = rng
        self.args = args
        self.name = name
        self.lang = cases[0].lang
        assert all(c.lang == self.lang for c in cases)

    def write(self, which):
        src = Src(self.rng)
        src.put(PRELUDE)
        src.put('use genco::lang;\ntype Toks = genco::Tokens<%s>;\n' % LANGTYPES[self.lang])
        for k in which:
            c = self.cases[k]
            if hasattr(c, 'text'):
                # same text at another line: positions are relative to its start
                c.shift = src.l - c.first
                src.put(c.text)
            else:
                n = len(src.out)
                c.write(src, k)
                c.text = ''.join(src.out[n:])
                c.shift = 0
        if self.lang != 'tm':
            src.put('fn main() {}\n')
        else:
            src.put('fn main() {\n    gmac::run(&[%s]);\n}\n' % ', '.join('(%d, c%d as fn() -> Toks)' % (k, k) for k in which))
        with open(os.path.join(self.dir, 'm.rs'), 'w') as f:
            f.write(''.join(src.out))

    def rustc(self, emit):
        cmd = ['rustc', '--edition', '2021', '--crate-name', 'm', '--crate-type', 'bin', '-C', 'debuginfo=0', '-C', 'opt-level=0',
               '-C', 'codegen-units=2', '--error-format=json', '-A', 'warnings', '-o', os.path.join(self.dir, 'm' + ('.rmeta' if emit == 'metadata' else '')),
               '--emit=' + emit] + self.args + [os.path.join(self.dir, 'm.rs')]
        try:
            p = subprocess.run(cmd, env=vlib.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=Unit.limit, preexec_fn=vlib._limit)
        except subprocess.TimeoutExpired:
            Unit.limit = 30
            return 'timeout', [], 'rustc does not terminate'
        diags = []
        for line in p.stderr.decode(errors='replace').split('\n'):
            if line.startswith('{'):
                m = json.loads(line)
                if m.get('level') in ('error', 'error: internal compiler error') and m.get('spans'):
                    diags.append(m)
        return p.returncode, diags, p.stderr.decode(errors='replace')

    def blame(self, which, diags):
        """first error of each case"""
        hit = 0
        for m in diags:
            for sp in m['spans']:
                # follow expansions back to the file
                while sp.get('expansion') and not sp['file_name'].endswith('/m.rs'):
                    sp = sp['expansion']['span']
                if not sp['file_name'].endswith('/m.rs'):
                    continue
                ln = sp['line_start']
                for k in which:
                    c = self.cases[k]
                    if c.first + c.shift <= ln <= c.last + c.shift:
                        hit += 1
                        if c.err is None:
                            c.err = classify(m['message'])
                            c.msg = m['message']
                        break
                break
        return hit

    def go(self):
        which = list(range(len(self.cases)))
        emit = 'link' if self.lang == 'tm' else 'metadata'
        for c in self.cases:
            c.obs = dict(res='notrun', out=[], log=[], imps=[])
        while which:
            self.write(which)
            rc, diags, err = self.rustc(emit)
            if rc == 0:
                break
            if not self.blame(which, diags):
                self.single(which, err)
                if Unit.hung:
                    return
            which = [k for k in which if self.cases[k].err is None]
        if which and emit == 'link':
            self.run(which)

    def single(self, which, err, top=True):
        """find the cases to blame by compiling fewer of them"""
        if top:
            self.write([])
            if self.rustc('metadata')[0] != 0:
                raise vlib.ToolError('generated code does not compile:\n' + err[-3000:])
        if len(which) == 1:
            c = self.cases[which[0]]
            c.err, c.msg = ('other', 0), 'does not compile: ' + err[-2000:]
            Unit.hung |= Unit.limit == 30 and 'not terminate' in err
            return
        bad = 0
        for part in (which[:len(which) // 2], which[len(which) // 2:]):
            if Unit.hung:
                return
            self.write(part)
            rc, diags, e = self.rustc('metadata')
            if rc != 0:
                bad += 1
                if not self.blame(part, diags):
                    self.single(part, e, False)
        if not bad:
            raise vlib.ToolError('generated code does not compile:\n' + err[-3000:])

    def run(self, which, sync=False):
        try:
            p = subprocess.run([os.path.join(self.dir, 'm')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20 if sync else 60,
                               preexec_fn=vlib._limit, env=dict(vlib.ENV, **({'GMAC_SYNC': '1'} if sync else {})))
            rc, so = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, so = 'timeout', e.stdout or b''
        if rc != 0 and not sync:
            return self.run(which, True)
        n = 0
        for line in so.decode(errors='replace').split('\n')[:-1]:
            o = json.loads(line)
            assert o['id'] == which[n]
            self.cases[o.pop('id')].obs = o
            n += 1
        if rc != 0:
            # the program ended at this one
            self.cases[which[n]].obs = dict(res='crash', out=[], log=[], imps=[])


def merge(c):
    d = dict(c.trace, **c.obs)
    d['err'], d['off'] = c.err or ('', 0)
    return d


def run_units(ck, cases, args, per=120):
    """Compiles and runs all cases in files of some of them."""
    units = []
    for lang in LANGTYPES:
        part = [c for c in cases if c.lang == lang]
        units += [Unit(ck, ck.rng, part[i:i + per], '%s%d' % (lang, i), args) for i in range(0, len(part), per)]
    errs = []
    # writing uses the random numbers: not in parallel
    for u in units:
        u.write(list(range(len(u.cases))))
    todo = list(units)
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not todo or errs:
                    return
                u = todo.pop()
            try:
                u.go()
            except BaseException as e:
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def validate(ck, cases, known, per=4000):
    seen = set()
    for i in range(0, len(cases), per):
        part = cases[i:i + per]
        recs = [merge(c) for c in part]
        path = vlib.write_trace(ck, 'tmpl', recs)
        r = vlib.tlc(ck, 'TraceTemplate', dict(Escape='<- EscapeImpl'), ['Conforms'], env={'TRACE': path})
        ck.validated += len(part)
        for l in r['lines']:
            if l.startswith('K'):
                k = json.loads(l[1:])['what']
                if k in known:
                    if known[k]:
                        ck.finding(known[k])
                    continue
                b = dict(json.loads(l[1:]), want=None)
            elif l == 'O':
                ck.notes['unspecified'] = ck.notes.get('unspecified', 0) + 1
                continue
            elif l.startswith('B'):
                b = json.loads(l[1:])
            else:
                continue
            c = part[b['i'] - 1]
            w = b.get('want')
            if (b['i'], b['what']) in seen:
                continue
            seen.add((b['i'], b['what']))
            ck.violation(b['what'], dict(source=c.text, mode=c.mode, expected=w, error=getattr(c, 'msg', None),
                                         expected_text=uncp(w['out']) if isinstance(w, dict) and 'out' in w else None,
                                         observed_text=uncp(c.obs['out']), observed=c.obs))


def environment(rng):
    """variables declared before the macro"""
    env = [('a', 'i', dict(x='i', n=rng.choice([0, 1, 3, 12]))), ('b', 's', dict(x='s', s=rng.choice(['foo', '', 'x y']), how='plain'))]
    if rng.random() < 0.5:
        env.append(('c', 'oi', rng.choice([dict(x='none'), dict(x='some', c=[dict(x='i', n=5)])])))
    if rng.random() < 0.5:
        env.append(('n', 'vi', dict(x='vec', c=[dict(x='i', n=k) for k in range(rng.randint(0, 3) if rng.random() < 0.9 else rng.choice([7, 12]))])))
    return env


def stateful(rng):
    """variables which are changed by evaluating expressions"""
    env = []
    if rng.random() < 0.4:
        env.append(('x', 'mi', dict(x='i', n=rng.randint(0, 3))))
    if rng.random() < 0.4:
        env.append(('it', 'iter', dict(x='vec', ty='vi', c=[dict(x='i', n=k) for k in range(rng.randint(1, 4) if rng.random() < 0.9 else 15)])))
    return env


def random_case(rng, n, control=1.0, strings=1.0, mode=None, state=True, **kw):
    env = environment(rng)
    mode = mode or rng.choice(['quote', 'quote', 'quote_in', 'quote_in', 'quote_fn', 'quote_in_ref', 'quote_in_at'])
    if state and mode != 'quote_fn':
        env += stateful(rng)
    if mode == 'quote_fn':
        env = [v for v in env if v[1] not in ('vi',)]
    t = Tmpl(rng, control, strings)
    return Case(rng, t.body(n, [(v, ty) for v, ty, _ in env]), env, mode, **kw)


# --------------------------------------------------------------- layouts from TLC

def exported(r, what='C{'):
    return [json.loads(l[1:]) for l in r['lines'] if l.startswith(what)]


def piece(t, env):
    """one short element"""
    r = t.rng
    x = r.random()
    if x < 0.5:
        return tok(r.choice(WORDS + ['+', ';', '1', '->']))
    if x < 0.6:
        return dict(k='lit', s=r.choice(['a', '', 'x y']))
    if x < 0.7:
        return dict(k='var', v='a')
    if x < 0.8:
        return dict(k='expr', e=t.text(env))
    if x < 0.85:
        return dict(tok('x y'), lits='lit')
    if x < 0.9:
        return dict(k='esc')
    if x < 0.95:
        return dict(k='str', parts=[tok('a'), dict(k='id', s='foo')])
    return dict(k='if', p=[], e=t.cond(env), then=[tok('y')], els=[[tok('n')]])


def rows_of(t, env, rows, plain=False):
    """elements on rows with the given columns and blank lines, columns are
    spread"""
    r = t.rng
    cols = sorted({c for c, _ in rows})
    base = r.choice([0, 0, 1, 4, 13] * 4 + [70, 140, 270])
    steps = [1, 1, 2, 4] if r.random() < 0.95 else [1, 4, 30, 150]
    to = {}
    for c in range(max(cols) + 1):
        to[c] = base
        base += r.choice(steps)
    span = None
    if len(rows) > 1 and r.random() < 0.3:
        i = r.randint(0, len(rows) - 2)
        span = (i, r.randint(i + 1, len(rows) - 1), r.choice(['()', '[]', '{}']))
    els = []
    for n, (c, b) in enumerate(rows):
        at = (to[c], b if b < 2 else r.choice([2, 3, 5]))
        row = []
        if span and span[1] == n:
            row.append(tok(span[2][1]))
        for _ in range(r.choice([1, 1, 2, 3]) if not plain else 1):
            row.append(piece(t, env) if not plain else tok(r.choice(['a', 'b', 'foo', '+', ';'])))
        if span and span[0] == n:
            row.append(tok(span[2][0]))
        els.append(dict(row[0], at=at))
        els += [dict(x, gap=r.choice([0, 1])) for x in row[1:]]
    return els


CONTEXTS = ['direct', 'direct', 'for', 'if', 'else', 'iflet', 'match', 'join', 'ev', 'quote', 'quote_fn', 'ref']


def within(t, els, ctx):
    """the elements in a body of something"""
    r = t.rng
    vec = dict(x='vec', c=[dict(x='i', n=k) for k in range(r.choice([1, 2]))], ty='vi')
    some = dict(x='some', c=[dict(x='i', n=1)])
    true, false = dict(x='b', n=1), dict(x='b', n=0)
    if ctx == 'direct':
        return els
    if ctx == 'for':
        x = dict(k='for', p=dict(p='_'), e=vec, sep=r.choice([[], [[tok(',')]]]), body=els)
    elif ctx == 'if':
        x = dict(k='if', p=[], e=true, then=els, els=r.choice([[], [[tok('n')]]]))
    elif ctx == 'else':
        x = dict(k='if', p=[], e=false, then=[tok('n')], els=[els])
    elif ctx == 'iflet':
        x = dict(k='if', p=[dict(p='some', c=[dict(p='_')])], e=some, then=els, els=[])
    elif ctx == 'match':
        arms = [dict(on=True, p=dict(p='int', n=1), g=[], body=[tok('n')]), dict(on=True, p=dict(p='_'), g=[], body=els)]
        x = dict(k='match', e=dict(x='i', n=2), arms=arms)
    elif ctx == 'join':
        vec['c'] = [dict(x='i', n=k) for k in range(r.choice([2, 3]))]
        x = dict(k='for', p=dict(p='_'), e=vec, sep=[els], body=[tok('m')])
    elif ctx == 'ev':
        x = dict(k='str', parts=[tok('a'), dict(k='ev', body=els), tok('+')])
    elif ctx in ('quote', 'quote_fn'):
        x = dict(k='expr', e=dict(x=ctx, body=els))
    elif ctx == 'ref':
        x = dict(k='ref', v='t', st=[dict(k='quote_in', body=els)])
    out = [x]
    if r.random() < 0.5:
        out = [tok('pre')] + out
    if r.random() < 0.5:
        out = out + [dict(tok('post'), row=True)]
    return out


TAIL = [['pu', ('t', 'Z')], ['pu', ('t', 'Z')], ['li', ('t', 'Z')], [('t', 'Z'), 'pu', ('t', 'Y')], ['ind', ('t', 'Z')]]


def deep_rows(rng, ok=True):
    """many rows, which may be nested deeply"""
    rows, enc = [[rng.randint(0, 3), 0]], []
    up = rng.choice([0.3, 0.5, 0.8])
    for _ in range(rng.choice([8, 14, 25, 40])):
        c, x = rows[-1][0], rng.random()
        if x < up and c < 40:
            enc.append(c)
            c += rng.choice([1, 1, 1, 2, 3])
        elif enc and x < up + (1 - up) * 0.6:
            i = rng.choice([len(enc) - 1, len(enc) - 1, rng.randrange(len(enc))])
            c = enc[i]
            del enc[i:]
        rows.append([c, rng.choice([0, 0, 0, 1, 2])])
    if not ok:
        c = rows[-1][0]
        bad = [x for x in range(c) if x not in enc]
        if bad:
            rows.append([rng.choice(bad), rng.choice([0, 0, 1])])
    return rows


def layout_case(rng, rows, ctx, plain=False, **kw):
    t = Tmpl(rng, 0.0)
    env = [('a', 'i', dict(x='i', n=1))]
    els = within(t, rows_of(t, [('a', 'i')] if ctx != 'ref' or True else [], rows, plain), ctx)
    return Case(rng, els, env, style='row' if ctx == 'direct' else 'free', post=rng.choice(TAIL), **kw)


FLAT = ['NothingRejected', 'OneSpace', 'AsInOneRow', 'NoIndentation', 'Body']
LAYOUT = ['Decided', 'Reported', 'Rendered', 'Balanced', 'Export']


def layouts(ck, n, cols, blanks):
    r = vlib.tlc(ck, 'MCLayout', dict(MaxRows=n, MaxCol=cols, Blanks=blanks, Dump=True, Escape='<- EscapeImpl'), LAYOUT, timeout=600)
    return exported(r)


def pick(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def finish(ck, cases, args, known=None):
    for c in cases[:2] + cases[-2:]:
        pass
    run_units(ck, cases, args)
    for c in cases[:2] + cases[-3:]:
        ck.sample(dict(source=c.text, error=c.err, observed=uncp(c.obs['out'])), 8)
    ck.notes['cases'] = len(cases)
    ck.notes['rejected'] = sum(c.err is not None for c in cases)
    validate(ck, cases, vlib.known_findings(ck.prop) if known is None else known)


def c06():
    ck = vlib.Check('C06')
    args = build_mac()
    rng, t = ck.rng, ck.thorough
    ls = [x for x in layouts(ck, 6 if t else 5, 4 if t else 3, [0, 1, 2] if not t else [0, 1]) if x['ok']]
    ck.notes['accepted_layouts_from_tlc'] = len(ls)
    cases = []
    for x in pick(rng, ls, 40000 if t else 5000):
        cases.append(layout_case(rng, x['rows'], 'direct' if rng.random() < 0.6 else rng.choice(CONTEXTS), plain=rng.random() < 0.2))
    for _ in range(30000 if t else 3000):
        cases.append(random_case(rng, rng.choice([2, 4, 8, 14]), control=rng.choice([0, 0.3]), strings=0.4, state=False))
    for _ in range(2000 if t else 250):
        cases.append(layout_case(rng, deep_rows(rng), rng.choice(CONTEXTS), plain=rng.random() < 0.5))
    finish(ck, cases, args)
    ck.assumptions += ['positions as reported by the nightly toolchain (with span locations)', 'tabs count as one column']
    ck.finish()


def flat():
    """From here on, a compiler which does not tell lines."""
    Src.flat = True
    vlib.ENV['RUSTUP_TOOLCHAIN'] = STABLE


def c21():
    ck = vlib.Check('C21')
    build_mac()
    flat()
    try:
        args = build_mac()
    except vlib.ToolError as e:
        if not getattr(e, 'macros', None):
            raise
        # only with the stable compiler, and it is quotes (of genco itself)
        ck.violation('quotes in genco itself are rejected', dict(errors=e.macros[:20]))
        ck.finish()
    rng, t = ck.rng, ck.thorough
    vlib.tlc(ck, 'MCFlat', dict(MaxEls=4 if t else 3, MaxCol=2, Lens=[1, 2], Escape='<- EscapeImpl'), FLAT, timeout=800)
    ls = layouts(ck, 5, 4 if t else 3, [0, 1])
    ck.notes['layouts_from_tlc'] = len(ls)
    cases = []
    for x in pick(rng, ls, 20000 if t else 3000):
        cases.append(layout_case(rng, x['rows'], 'direct' if rng.random() < 0.6 else rng.choice(CONTEXTS), plain=rng.random() < 0.4))
    for _ in range(30000 if t else 5000):
        cases.append(random_case(rng, rng.choice([2, 4, 8, 14]), control=rng.choice([0, 0.3, 1]), strings=rng.choice([0.4, 1]), bad=0.3))
    finish(ck, cases, args)
    ck.assumptions += ['positions are offsets in bytes, as reported by the stable toolchain']
    ck.finish()


def c07():
    ck = vlib.Check('C07')
    args = build_mac()
    rng, t = ck.rng, ck.thorough
    ls = layouts(ck, 6 if t else 5, 4, [0, 1])
    ok = [x for x in ls if x['ok']]
    no = [x for x in ls if not x['ok']]
    ck.notes['layouts_from_tlc'] = dict(accepted=len(ok), rejected=len(no))
    cases = []
    for xs, n in ((ok, 25000 if t else 2500), (no, 25000 if t else 4000)):
        for x in pick(rng, xs, n):
            cases.append(layout_case(rng, x['rows'], 'direct', plain=rng.random() < 0.5))
            cases.append(layout_case(rng, x['rows'], rng.choice(CONTEXTS), plain=rng.random() < 0.5))
    for _ in range(20000 if t else 2500):
        cases.append(random_case(rng, rng.choice([3, 6, 10]), control=rng.choice([0.2, 0.7]), strings=0.5, state=False,
                                 bad=rng.choice([0.05, 0.3]), post=rng.choice(TAIL)))
    for n in range(2000 if t else 250):
        cases.append(layout_case(rng, deep_rows(rng, n % 3 == 0), rng.choice(CONTEXTS), plain=rng.random() < 0.5))
    known = dict(vlib.known_findings('C06'))
    finish(ck, cases, args, {k: None for k in known})
    ck.assumptions += ['only the first mismatch of quoted code is reported']
    ck.finish()


# --------------------------------------------------------------- templates from TLC

def template_of(code, r):
    """elements for the symbols of MCTemplate"""
    key = [0]

    def ev(e):
        key[0] += 1
        return dict(x='ev', n=key[0], c=[e])

    def els(p):
        out = []
        while p < len(code) and code[p]['k'] not in ('|', 'end'):
            x = code[p]
            k = x['k']
            v = dict(x='v', v='x')
            p += 1
            if k == 'tok':
                out.append(tok('a'))
            elif k == 'var':
                out.append(dict(k='expr', e=ev(v)))
            elif k == 'ctl':
                out.append(dict(k='ctl', n=x['n']))
            elif k in ('break', 'continue'):
                out.append(dict(k='ref', v=r.choice(['_', 't']), st=[dict(k='exit', how=k, e=dict(x='b', n=1))]))
            elif k == 'let':
                out.append(dict(k='let', p=dict(p='id', v='x'), e=ev(dict(x='add', c=[v, dict(x='i', n=1)]))))
            else:
                e = ev({'for': dict(x='range', n=1, m=x['n'] + 1), 'if': dict(x='b', n=x['n']),
                        'iflet': dict(x='none', ty='oi') if x['n'] == 0 else dict(x='some', c=[dict(x='i', n=5)]),
                        'match': dict(x='i', n=x['n'])}[k])
                guard = ev(dict(x='lt', c=[v, dict(x='i', n=2)])) if k == 'match' else None
                bs = []
                while True:
                    b, p = els(p)
                    bs.append(b)
                    p += 1
                    if code[p - 1]['k'] == 'end':
                        break
                if k == 'for':
                    sep = {0: [], 1: [[tok(',')]], 2: [[dict(k='ctl', n=2)]], 3: [[dict(k='expr', e=v)]]}[x['s']]
                    out.append(dict(k='for', p=dict(p='id', v='x'), e=e, sep=sep, body=bs[0]))
                elif k in ('if', 'iflet'):
                    out.append(dict(k='if', p=[] if k == 'if' else [dict(p='some', c=[dict(p='id', v='x')])], e=e,
                                    then=bs[0], els=bs[1:]))
                else:
                    out.append(dict(k='match', e=e, arms=[
                        dict(on=True, p=dict(p='int', n=0), g=[], body=bs[0]),
                        dict(on=True, p=dict(p='id', v='x'), g=[guard], body=bs[1]),
                        dict(on=True, p=dict(p='_'), g=[], body=bs[2])]))
        return out, p
    return els(0)[0]


def c08():
    ck = vlib.Check('C08')
    args = build_mac()
    rng, t = ck.rng, ck.thorough
    cases = []
    inv = ['Same', 'Clean', 'Export']
    for consts, n in ((dict(MaxLen=5, Leaves=['tok', 'var', 'ctl', 'let'], Opens=['for', 'if', 'iflet', 'match']), 42000 if t else 5000),
                      (dict(MaxLen=7 if t else 6, Leaves=['var', 'let'], Opens=['for', 'if']), 30000 if t else 2500),
                      (dict(MaxLen=7, Leaves=['var'], Opens=['match', 'iflet']), 10000 if t else 800),
                      (dict(MaxLen=8 if t else 7, Leaves=['tok', 'break', 'continue'], Opens=['for', 'if']), 20000 if t else 1500)):
        r = vlib.tlc(ck, 'MCTemplate', dict(consts, Dump=True), inv, timeout=700)
        cs = exported(r, 'C[')
        ck.notes['templates_from_tlc_%s' % '_'.join(consts['Opens'])] = len(cs)
        for c in pick(rng, cs, n):
            cases.append(Case(rng, template_of(c, rng), [('x', 'i', dict(x='i', n=7))], style=rng.choice(['row', 'row', 'rows', 'free'])))
    for _ in range(40000 if t else 4500):
        cases.append(random_case(rng, rng.choice([2, 4, 8]), style=rng.choice(['row', 'rows', 'free'])))
    finish(ck, cases, args, {k: None for k in vlib.known_findings('C06')})
    ck.assumptions += ['bindings of the body of a loop are visible in its separator (as documented by the order of generated code)']
    ck.finish()


# --------------------------------------------------------------- strings

def string_in(t, env, s, depth=0):
    """a string in some construct"""
    r = t.rng
    ctx = r.choice(CONTEXTS + ['const', 'let', 'deep'])
    if ctx == 'deep' and depth < 3:
        return string_in(t, env, string_in(t, env, s, depth + 1), depth + 1)
    if ctx in ('const', 'deep'):
        return [s] if not isinstance(s, list) else s
    els = s if isinstance(s, list) else [s]
    if ctx == 'let':
        return [dict(k='let', p=dict(p='id', v='q'), e=dict(x='quote', body=els)), dict(k='expr', e=dict(x='v', v='q', use='clone'))]
    if ctx == 'ev':
        ctx = 'if'
    return within(t, els, ctx)


def strings(ck, args):
    """interpolated strings in quoted code"""
    rng, t = ck.rng, ck.thorough
    inv = ['TextKept', 'Marked', 'NoSpaceItems', 'InOrder', 'Export']
    cases = []
    for consts in (dict(MaxParts=3, Gaps3=[0, 1, 2], Kinds=['tok', 'esc', 'constlit', 'id', 'ev']),
                   dict(MaxParts=5, Gaps3=[0, 1], Kinds=['tok', 'id', 'ev'])):
        r = vlib.tlc(ck, 'MCParts', dict(consts, Dump=True), inv)
        for x in pick(rng, exported(r), 10000 if t else 1500):
            parts = []
            for k, (kind, g) in enumerate(x['parts']):
                p = {'tok': tok(rng.choice('+;,?')), 'esc': dict(k='esc'), 'constlit': dict(k='constlit', s=rng.choice(['x', '', '"', '\\n'])),
                     'id': dict(k='id', s='a'),
                     'ev': dict(k='ev', body=[dict(k='expr', e=dict(x='ev', n=k, c=[dict(x='i', n=1)]))])}[kind]
                parts.append(dict(p, gap=g))
            cases.append(Case(rng, [dict(k='str', parts=parts, tail=x['tail'])], [], style='row'))
    for _ in range(20000 if t else 2000):
        env = environment(rng)
        tm = Tmpl(rng, 0.3)
        vs = [(v, ty) for v, ty, _ in env if ty != 'vi']
        els = []
        for _ in range(rng.choice([1, 1, 2])):
            els += string_in(tm, vs, tm.string(vs, 0, rng.choice([1, 3, 6])))
        cases.append(Case(rng, els, [v for v in env if v[1] != 'vi'], bad=rng.choice([0, 0, 0.2])))
    # languages
    for lang in LANGTYPES:
        if lang == 'tm':
            continue
        for _ in range(500 if t else 60):
            tm = Tmpl(rng, 0.2, 1.0 if lang not in NOEVAL else 0.0, imports=False)
            env = [v for v in environment(rng) if v[1] != 'vi']
            vs = [(v, ty) for v, ty, _ in env]
            els = string_in(tm, vs, tm.string(vs, 3, rng.choice([1, 2, 4]), evals=rng.random() < 0.6))
            cases.append(Case(rng, els, env, lang=lang))
    finish(ck, cases, args, dict(vlib.known_findings(ck.prop), **{k: None for k in vlib.known_findings('C06')}))
