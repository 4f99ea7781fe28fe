"""C19: which tokens form which elements of quoted code (Syntax.tla)."""
import json
import vlib
import macros
from macros import build_mac, run_units, validate, exported, pick, WORDLIKE
from streams import cp, uncp

ENV = [('n', 'i64', '7', 'i', dict(t='i', n=7, s=[], c=[])),
       ('s', "&'static str", '"S"', 's', dict(t='s', n=0, s=cp('S'), c=[])),
       ('str', "&'static str", '"T"', 's', dict(t='s', n=0, s=cp('T'), c=[])),
       ('c', 'bool', 'true', 'b', dict(t='b', n=1, s=[], c=[])),
       ('d', 'bool', 'false', 'b', dict(t='b', n=0, s=[], c=[])),
       ('xs', '[i64; 3]', '[4, 5, 6]', 'xi', dict(t='v', n=0, s=[], c=[dict(t='i', n=k, s=[], c=[]) for k in (4, 5, 6)]))]


def leaf(k, v='', w=0, s=None):
    return dict(k=k, v=v, w=w, src=s if s is not None else v, c=[])


def ident(v):
    return leaf('id', v)


def kw(v):
    return leaf('kw', v)


def punct(v):
    return leaf('p', v)


def lit(s):
    return leaf('ls', '', cp(s), '"%s"' % s)


def char(c):
    return leaf('ch', '', ord(c), {'\n': "'\\n'", '\r': "'\\r'", '\t': "'\\t'"}.get(c, "'%s'" % c))


def num(n):
    return leaf('int', '', n, str(n))


def group(v, c):
    return dict(k='g', v=v, w=0, src=v + {'(': ')', '[': ']', '{': '}'}[v], c=c)


D = leaf('d', '', 0, '$')


class Syn:
    """Quoted code, as trees."""

    def __init__(self, rng):
        self.rng = rng
        self.names = [e[0] for e in ENV] + ['x', 'y', 'join', 'foo']

    def plain(self):
        r = self.rng
        return r.choice(
            [ident(r.choice(self.names)), ident('foo'), punct(r.choice([';', ',', '=>', '=', '_'])), num(r.choice([0, 1, 23])),
             lit(r.choice(['q', 'a b', 'if'])), char(r.choice(' \n\ra')),
             kw(r.choice(['const', 'if', 'else', 'for', 'in', 'match', 'let', 'ref']))])

    def value(self, ty=None):
        r = self.rng
        if ty == 'b':
            return ident(r.choice('cd'))
        if ty == 'xi':
            return ident('xs')
        return r.choice([ident('n'), ident('s'), ident('str'), lit('v'), num(3), ident('n')])

    def quote(self, n, depth, commas=True):
        out = []
        for _ in range(n):
            x = self.item(depth)
            if not commas:
                x = [y for y in x if not (y['k'] == 'p' and y['v'] == ',')]
            out += x
        return out

    def some(self, depth):
        return self.quote(self.rng.choice([0, 1, 1, 2, 3]), depth + 1)

    def item(self, depth):
        r = self.rng
        y = r.random()
        if depth > 2:
            y *= 0.5
        if y < 0.25:
            return [self.plain()]
        if y < 0.32:
            return [D, D]
        if y < 0.42:
            return [D, ident(r.choice(['n', 's', 'str']))]
        if y < 0.48:
            return [D, group('[', [char(r.choice(' \n\r'))]), ident('a')]
        if y < 0.52:
            return [D, group('(', [self.value()])]
        if y < 0.6:
            return [group(r.choice('([{'), self.some(depth))]
        if y < 0.72:
            return [D, group('[', [ident('str')]), group('(', self.string(r.choice([0, 1, 2, 3]), depth + 1))]
        return [D, group('(', self.control(depth))]

    def string(self, n, depth):
        r = self.rng
        out = []
        for _ in range(n):
            y = r.random()
            if depth > 2:
                y *= 0.7
            if y < 0.3:
                out.append(self.plain())
            elif y < 0.4:
                out += [D, D]
            elif y < 0.55:
                out += [D, ident(r.choice(self.names))]
            elif y < 0.7:
                out += [D, group('[', [kw('const')]), group('(', [self.value()])]
            elif y < 0.8:
                out.append(group(r.choice('([{'), self.string(r.choice([0, 1, 2]), depth + 1)))
            else:
                out += [D, group('(', self.some(depth))]
        return out

    def end(self, depth):
        r = self.rng
        return [group('{', self.some(depth))] if r.random() < 0.7 else [punct('=>')] + self.some(depth)

    def control(self, depth):
        r = self.rng
        k = r.choice(['if', 'if', 'for', 'for', 'match', 'match', 'let', 'ref'])
        if k == 'if':
            if r.random() < 0.5:
                return [kw('if'), self.value('b'), group('{', self.some(depth)), kw('else'), group('{', self.some(depth))]
            return [kw('if'), self.value('b')] + self.end(depth)
        if k == 'for':
            j = [ident('join'), group('(', self.some(depth))] if r.random() < 0.5 else []
            return [kw('for'), r.choice([ident('x'), ident('n'), punct('_')]), kw('in'), self.value('xi')] + j + self.end(depth)
        if k == 'match':
            arms = []
            n = r.choice([1, 2, 3])
            for i in range(n):
                guard = [kw('if'), self.value('b')] if r.random() < 0.3 and i < n - 1 else []
                p = r.choice([num(1), num(7), ident('x'), punct('_')]) if i < n - 1 else r.choice([ident('y'), punct('_')])
                f = r.choice('{(,')
                if f == ',':
                    b = self.quote(r.choice([0, 1, 2]), depth + 1, False)
                    while b and b[0]['k'] == 'g' and b[0]['v'] in '({':
                        b = b[1:]
                    b += [punct(',')] if i < n - 1 or r.random() < 0.5 else []
                else:
                    b = [group(f, self.some(depth))] + ([punct(',')] if r.random() < 0.6 else [])
                arms += [p] + guard + [punct('=>')] + b
            return [kw('match'), r.choice([ident('n'), num(1)]), group('{', arms)]
        if k == 'let':
            return [kw('let'), r.choice([ident('x'), ident('n'), punct('_')]), punct('='), self.value()]
        return [kw('ref'), r.choice([ident('x'), punct('_')]), group('{', [])]

    def mutate(self, ts):
        """one change somewhere"""
        r = self.rng
        lists = []

        def collect(xs):
            lists.append(xs)
            for x in xs:
                if x['k'] == 'g':
                    collect(x['c'])
        collect(ts)
        # prefer lists in which something is
        xs = r.choice([l for l in lists if l] or lists)
        k = r.choice(['del', 'dup', 'ins', 'ins', 'swap', 'name', 'delim', 'move', 'dollar'])
        i = r.randrange(len(xs)) if xs else 0
        if k == 'ins' or not xs:
            xs.insert(r.randint(0, len(xs)), r.choice([self.plain(), self.plain(), group(r.choice('([{'), self.some(2))]))
        elif k == 'dollar':
            xs.insert(r.randint(0, len(xs)), dict(D))
        elif k == 'del':
            del xs[i]
        elif k == 'dup':
            xs.insert(i, json.loads(json.dumps(xs[i])))
        elif k == 'swap' and len(xs) > 1:
            j = r.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        elif k == 'name':
            if xs[i]['k'] != 'g':
                xs[i] = self.plain()
        elif k == 'delim':
            if xs[i]['k'] == 'g':
                xs[i] = group(r.choice('([{'), xs[i]['c'])
        elif k == 'move':
            x = xs.pop(i)
            ys = r.choice(lists)
            ys.insert(r.randint(0, len(ys)), x) if not inside(x, ys) else xs.insert(i, x)


def inside(x, ys):
    return x['c'] is ys or any(inside(y, ys) for y in x['c'])


def forms():
    """complete forms, plain and in a string"""
    a, b, n, x = ident('foo'), lit('q'), ident('n'), ident('x')
    d, str_, const = dict(D), group('[', [ident('str')]), group('[', [kw('const')])
    g = group
    arrow, comma = punct('=>'), punct(',')
    plain = [[d, n], [d, d], [d, g('(', [n])], [d, g('(', [b])], [d, g('[', [char(' ')]), a], [d, g('[', [char('\r')]), a], [d, g('[', [char('\n')]), a],
             [d, g('(', [kw('if'), ident('c'), arrow, a])], [d, g('(', [kw('if'), ident('c'), g('{', [a])])],
             [d, g('(', [kw('if'), ident('d'), g('{', [a]), kw('else'), g('{', [b])])],
             [d, g('(', [kw('for'), x, kw('in'), ident('xs'), arrow, d, x])],
             [d, g('(', [kw('for'), x, kw('in'), ident('xs'), g('{', [d, x])])],
             [d, g('(', [kw('for'), x, kw('in'), ident('xs'), ident('join'), g('(', [comma]), arrow, d, x])],
             [d, g('(', [kw('for'), x, kw('in'), ident('xs'), ident('join'), g('(', [comma]), g('{', [a])])],
             [d, g('(', [kw('match'), n, g('{', [num(7), arrow, a, comma, punct('_'), arrow, b, comma])])],
             [d, g('(', [kw('match'), n, g('{', [x, kw('if'), ident('c'), arrow, g('{', [d, x]), punct('_'), arrow, g('(', [b])])])],
             [d, g('(', [kw('let'), x, punct('='), n]), d, x], [d, g('(', [kw('ref'), x, g('{', [])])], [d, g('(', [kw('ref'), punct('_'), arrow])]]
    inner = [[d, n], [d, d, a], [d, const, g('(', [b])], [d, const, g('(', [n])], [d, g('(', [a, d, n])], [d, g('(', [d, str_, g('(', [d, n])])]]
    return plain + [[d, str_, g('(', x)] for x in inner]


def variants(ts):
    """all sequences which differ from this one by one inserted, removed or replaced token"""
    toks = [dict(D), ident('n'), ident('foo'), ident('str'), ident('join')] + [kw(k) for k in ('const', 'if', 'else', 'for', 'in', 'match', 'let', 'ref')] + \
        [punct(p) for p in (';', ',', '=>', '=', '_')] + [num(1), lit('q'), char(' '), char('\n'), char('a')] + \
        [group(v, c) for v in '([{' for c in ([], [ident('n')], [lit('q')])] + [group('[', [ident('str')]), group('[', [kw('const')])]
    for i in range(len(ts) + 1):
        for x in toks:
            yield ts[:i] + [x] + ts[i:]
            if i < len(ts):
                yield ts[:i] + [x] + ts[i + 1:]
        if i < len(ts):
            yield ts[:i] + ts[i + 1:]
            if ts[i]['k'] == 'g':
                yield ts[:i] + ts[i]['c'] + ts[i + 1:]
                for c in variants(ts[i]['c']):
                    yield ts[:i] + [dict(ts[i], c=c)] + ts[i + 1:]


class SynCase(macros.Case):
    def __init__(self, rng, trees, mode=None):
        super().__init__(rng, None, mode=mode, pre=[('t', 'P'), 'pu'], post=rng.choice([['pu', ('t', 'Z')], []]))
        if self.mode == 'quote_in_at':
            self.mode = 'quote_in'
        self.trees = json.loads(json.dumps(trees))

    def emit(self, s, ts):
        r = self.rng
        out = []
        prev = ''
        for n, x in enumerate(ts):
            cur = x['src'][0]
            if prev:
                word = lambda c: bool(WORDLIKE.match(c)) or c in '"\''
                both = (word(prev) and word(cur)) or (prev in ';,=>' and cur in ';,=>')
                # a dollar sign belongs to what follows
                if both or (prev == '$' and r.random() < 0.03) or (prev != '$' and r.random() < 0.6):
                    s.put(r.choice([' ', ' ', '  ', ' /* $ */ ']))
            a = s.at()
            c = []
            if x['k'] == 'g':
                s.put(x['src'][0])
                if r.random() < 0.2:
                    s.put(' ')
                c = self.emit(s, x['c'])
                if r.random() < 0.2:
                    s.put(' ')
                s.put(x['src'][1])
            else:
                s.put(x['src'])
            out.append(dict(k=x['k'], v=x['v'], w=x['w'], s=cp(x['src']), c=c, a=a, b=s.at()))
            prev = x['src'][-1]
        return out

    def write(self, src, cid):
        r = self.rng
        self.first = src.l
        src.put('fn c%d() -> Toks {\n' % cid)
        for n, ty, e, _, _ in ENV:
            src.put('    let %s: %s = %s;\n' % (n, ty, e))
        src.put('    let mut out = Toks::new();\n')
        for x in self.pre:
            src.put('    out.append("%s");\n' % x[1] if isinstance(x, tuple) else '    out.%s();\n' % self.OPS[x])
        o, c = r.choice(['()', '{}', '[]'])
        head, tail = dict(quote=('let q: Toks = quote!', ';\n    out.append(q);\n'), quote_fn=('out.append(quote_fn!', ');\n'),
                          quote_in=('quote_in!', ';\n'), quote_in_ref=('{ let o = &mut out; quote_in!', '; }\n'))[self.mode]
        src.put('    ' + head + (' ' if o == '{' else '') + o + {'quote_in': 'out => ', 'quote_in_ref': '*o => '}.get(self.mode, ''))
        toks = self.emit(src, self.trees)
        src.put(c + tail)
        for x in self.post:
            src.put('    out.append("%s");\n' % x[1] if isinstance(x, tuple) else '    out.%s();\n' % self.OPS[x])
        src.put('    out\n}\n')
        self.last = src.l
        self.trace = dict(toks=toks, types=[[e[0], e[3]] for e in ENV], env=[[e[0], e[4]] for e in ENV], pre=self.ops(self.pre),
                          post=self.ops(self.post), inplace=self.mode != 'quote', noeval=False)


def of_model(ts):
    """trees of MCSyntax"""
    out = []
    for x in ts:
        if x['k'] == 'g':
            out.append(group(x['v'], of_model(x['c'])))
        elif x['k'] == 'ch':
            out.append(char(chr(x['w'])))
        elif x['k'] == 'ls':
            out.append(lit(uncp(x['w'])))
        elif x['k'] == 'd':
            out.append(dict(D))
        else:
            out.append(leaf(x['k'], x['v']))
    return out


def c19():
    ck = vlib.Check('C19')
    args = build_mac()
    rng, t = ck.rng, ck.thorough
    r = vlib.tlc(ck, 'MCSyntax', dict(MaxLen=3, Dump=True), ['Verdicts', 'Forms', 'Kept', 'Strings', 'Export'])
    ms = [of_model(x) for x in exported(r, 'C[')]
    ck.notes['sequences_from_tlc'] = len(ms)
    if t:
        vlib.tlc(ck, 'MCSyntax', dict(MaxLen=4, Dump=False), ['Verdicts', 'Forms', 'Kept', 'Strings'])
    cases = []
    for x in pick(rng, ms, 9000 if t else 1000):
        cases.append(SynCase(rng, x))
    for x in pick(rng, ms, 9000 if t else 700):
        cases.append(SynCase(rng, [dict(D), group('[', [ident('str')]), group('(', x)]))
    # everything next to the forms
    near = {json.dumps(x): [ident('foo')] + x for f in forms() for x in variants(f)}
    near = list(near.values())
    ck.notes['next_to_forms'] = len(near)
    for x in near:
        cases.append(SynCase(rng, x))
    g = Syn(rng)
    for k in range(20000 if t else 3000):
        x = json.loads(json.dumps(g.quote(rng.choice([1, 1, 2, 3]), 0)))
        for _ in range([0, 1, 1, 1, 2][k % 5]):
            g.mutate(x)
        cases.append(SynCase(rng, x))
    run_units(ck, cases, args)
    for c in cases[:2] + cases[-4:]:
        ck.sample(dict(source=c.text, error=getattr(c, 'msg', None), observed=uncp(c.obs['out'])), 8)
    ck.notes['cases'] = len(cases)
    ck.notes['rejected'] = sum(c.err is not None for c in cases)
    validate(ck, cases, {k: None for k in vlib.known_findings('C06')})
    ck.assumptions += ['Rust expressions and patterns other than names and literals are not specified']
    ck.finish()
