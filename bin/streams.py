"""Token streams and their rendering: C01, C02, C03, C04, C05, C11."""
import json
import vlib
from vlib import cp, uncp


def op(k, n=0, s=(), how='', c=()):
    return dict(k=k, n=n, s=cp(s) if isinstance(s, str) else list(s), how=how, c=list(c))


NLS = ['\n', '\r\n', '', '\u2028']
TEXTS = ['a', 'b', 'foo', 'x1', '(', ';', '::', 'a b', '  ', ' lead', 'trail ', '', 'é', '日本', '\U0001f600',
         '\t', 'q\nr', '{', '\u00a0', '\x00', '\u2028', '"', '\\', 'ß', '\u0301']
HOWS = ['', 'String', '&String', 'Rc', '&Rc', 'cow_b', 'cow_o', '&cow_b', '&cow_o', 'args', 'args2', 'static',
        'display', 'item_box', 'item_static', 'itemstr', '&itemstr', 'from_box', 'from_&itemstr',
        'from_&String', 'from_String', 'from_str', 'from_&str', 'from_cow', 'from_&cow', 'from_Rc', 'from_cow_o', 'from_&cow_b', 'as_ref', 'as_ref_box', 'deref', 'itemstr_display', 'quote',
        'quoteref', 'fmt_pad']
NUMS = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
        'u128': (0, 2**128 - 1), 'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1),
        'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
        'isize': (-2**63, 2**63 - 1), 'usize': (0, 2**64 - 1)}
ITEMS = ['same', 'one', 'far', 'max', 'ext', 'extref', 'vec', 'collect', 'clone']
REFHOW = ['ref', '&ref', 'opt', 'vec', 'slice', 'quote', '&quote'] + ['item_' + x for x in ITEMS]
REGHOW = ['reg', '&reg', 'regfn', '&regfn', 'regtup', 'regtupfn', 'regtup2', 'regquote'] + ['item_reg_' + x for x in ITEMS]
NEST1 = ['tokens', '&tokens', 'clone', 'opt', '&opt', 'optopt', 'quote_fn', 'quote', 'quote_in', 'extend_own',
         'extend_iter', 'extend_vec', 'collect_own', 'collect_ref', 'collect_refinto', 'items', 'vec_items',
         'slice_items', 'with_capacity', 'collect_tail', 'collect_tailref', 'extend_tail', 'collect_wide', 'collect_wideref', 'extend_wide', 'extend_nohint', 'collect_nohint']
NESTN = ['vec', '&vec', 'vecref', 'slice', 'cow_b', 'cow_o', '&cow_b', '&cow_o', 'vec_opt', 'vecvec',
         'collect_chunks', 'from_fn', 'quote_in_ref']
NESTQ1 = ['quoted', 'quoted&', 'quotedopt']
NESTQN = ['quotedvec', 'quotedfn']
ABSENT = ['none', 'optnone']
NESTALL = NEST1 + NESTN + NESTQ1 + NESTQN + ABSENT


LONG = [150, 350, 700]


def length(rng, xs):
    """one of xs, and sometimes very long"""
    return rng.choice(LONG) if rng.random() < 0.006 else rng.choice(xs)


class Gen:
    def __init__(self, rng, nimps=3, quotes=False, texts=None, nested=0.0, wsw=1.0, lang='tl', plain=False):
        self.rng = rng
        self.nimps = nimps
        self.quotes = quotes
        self.texts = texts or TEXTS
        self.nested = nested
        self.wsw = wsw
        self.lang = lang
        self.plain = plain      # only the plain way to do things

    def text(self):
        r = self.rng
        x = r.random()
        if x < 0.12 and not self.plain:
            ty = r.choice(sorted(NUMS))
            lo, hi = NUMS[ty]
            n = r.choice([lo, hi, 0, 1, 7, 10, 99, 100, hi // 2, lo // 2, r.randint(lo, hi)])
            n = max(lo, min(hi, n))
            return op('t', 0, str(n), ty)
        if x < 0.14 and not self.plain:
            return op('t', 0, r.choice(['true', 'false']), 'disp_bool')
        if x < 0.16 and not self.plain:
            return op('t', 0, r.choice('aé"\n'), 'disp_char')
        return op('t', 0, r.choice(self.texts), '' if self.plain else r.choice(HOWS))

    def ws(self):
        r = self.rng
        k = r.choice(['sp', 'sp', 'pu', 'pu', 'li', 'ind', 'ind', 'ind'])
        if k == 'ind':
            n = r.choice([1, 1, 1, -1, -1, -1, 1, -1, 2, -2, 3, 0])
            return op('ind', n, '', 'api' if abs(n) == 1 and r.random() < 0.7 else '')
        return op(k, 0, '', '' if self.plain else r.choice(['', '', 'item', 'quote']))

    def imp(self):
        r = self.rng
        n = r.randint(1, self.nimps)
        if r.random() < 0.5:
            return op('ref', n, '', 'ref' if self.plain else r.choice(REFHOW))
        if r.random() < 0.3 and self.lang == 'tl' and not self.plain:
            return op('regs', 0, '', r.choice(['', 'fn']),
                      [r.randint(1, self.nimps) for _ in range(r.randint(1, 9))])
        return op('reg', n, '', 'reg' if self.plain else r.choice(REGHOW))

    def prog(self, n, depth=0, instr=False):
        """A program of about n operations; instr: inside of the text of a string"""
        r = self.rng
        out = []
        while len(out) < n:
            x = r.random()
            if x < self.nested and depth < 4:
                out.append(self.nest(depth, instr))
            elif x < self.nested + 0.30:
                out.append(self.text())
            elif x < self.nested + 0.30 + 0.40 * self.wsw:
                out.append(self.ws())
            elif x < self.nested + 0.30 + 0.40 * self.wsw + 0.12 and self.nimps:
                out.append(self.imp())
            elif self.quotes:
                out += self.quote(max(1, n // 3), depth, instr)
            else:
                out.append(self.text())
        return out

    def quote(self, n, depth, instr):
        """a properly nested string"""
        r = self.rng
        e = 0 if instr else r.randint(0, 1)
        out = [op('oq', e)]
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < 0.45:
                out.append(self.text())
            elif x < 0.55:
                out.append(self.ws())
            elif x < 0.65 and self.nimps:
                out.append(self.imp())
            elif x < 0.80 and depth < 4:
                out += self.quote(n, depth + 1, True)
            elif not instr and e == 1:
                out.append(op('oe'))
                if r.random() < 0.4:
                    out.append(self.text())
                elif depth < 4:
                    out += self.prog(r.randint(0, min(n, 4)), depth + 1, False)
                out.append(op('ce'))
        out.append(op('cq'))
        return out

    def nest(self, depth, instr=False):
        r = self.rng
        how = r.choice(NEST1 + NESTN + ABSENT + (NESTQ1 + NESTQN if self.quotes else []))
        quoting = how in NESTQ1 + NESTQN
        k = 1 if how in NEST1 + NESTQ1 else r.choice([0, 1, 2, 3])
        if how in ABSENT:
            return op('nest', 0, '', how)
        if quoting and not instr:
            # the text of a string: nested strings may not be evaluated
            c = [self.prog(r.randint(0, 4), depth + 1, True) for _ in range(k)]
        else:
            c = [self.prog(r.randint(0, 5), depth + 1, instr) for _ in range(k)]
        return op('nest', 0, '', how, c)


def imps_for(lang):
    if lang == 'tl':
        return [dict(id=1, s=cp('I')), dict(id=2, s=[]), dict(id=3, s=cp('JJ')), dict(id=4, s=cp('I'))]
    return [dict(id=1, s=cp('I')), dict(id=2, s=[]), dict(id=3, s=cp('JJ'))]


DEFIND = {'tl': 3, 'tl2': 4, 'js': 4, 'dart': 4, 'java': 4, 'rust': 4, 'python': 4, 'csharp': 4, 'c': 4,
          'go': 4, 'swift': 4, 'nix': 4}


def unit(ind):
    return [9] if ind == -1 else [32] * ind


def render(w='fmt', ind=None, nl=None, **kw):
    d = dict(w=w)
    if ind is not None:
        d['ind'] = ind
    if nl is not None:
        d['nl'] = cp(nl)
    d.update(kw)
    return d


def case(lang, prog, renders=(), tr=False, fin=True, imps=None):
    return dict(lang=lang, prog=prog, renders=list(renders), tr=tr, fin=fin,
                imps=imps_for(lang) if imps is None else imps)


def merge(c, o, defind=None):
    """what TLC validates: the case and what was observed"""
    if 'steps' in o:
        steps = [dict(s, upto=i + 1) for i, s in enumerate(o['steps'])]
    elif c.get('fin'):
        steps = [dict(upto=len(c['prog']), items=o['items'], imps=o['imps'], empty=(o['items'] == []))]
    else:
        steps = [dict(upto=len(c['prog']), items=[], imps=[], empty=True)]
    rs = []
    for r, x in zip(c['renders'], o['renders']):
        ind = r.get('ind', (defind or DEFIND)[c['lang']])
        rs.append(dict(w=r['w'], unit=unit(ind), nl=r.get('nl', [10]), res=x['res'],
                       out=x.get('out', []), lines=x.get('lines', []),
                       **({k: r[k] for k in ('parts', 'on')} if 'parts' in r else {})))
    return dict(lang=c['lang'], prog=c['prog'], imps=[i.get('s', []) for i in c['imps']], steps=steps, renders=rs)


def validate(ck, exe, cases, prop, module='TraceStream', name='t', batch=20000, mg=merge, consts=None,
             invs=('Conforms',), describe=None):
    """Run the cases on the real crate and validate what was recorded."""
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if 'crash' in o or 'panic' in o:
            ck.violation('crash or panic', dict(case=c, observed=o))
            continue
        lines.append(mg(c, o))
        idx.append(k)
    nbad = 0
    for b in range(0, len(lines), batch):
        part = lines[b:b + batch]
        p = vlib.write_trace(ck, name, part)
        cc = dict(Prop=prop, Escape='<- EscapeImpl') if consts is None else consts
        r = vlib.tlc(ck, module, cc, list(invs), env=dict(TRACE=p))
        want = sum(1 + len(x['steps']) + len(x['renders']) for x in part)
        if r['states'] != want:
            raise vlib.ToolError('trace was not consumed: %d of %d' % (r['states'], want))
        ck.validated += len(part)
        seen = set()
        for l in r['lines']:
            if not l.startswith('B{'):
                continue
            d = json.loads(l[1:])
            k = idx[b + d['i'] - 1]
            if k in seen:
                continue
            seen.add(k)
            nbad += 1
            ck.violation(d['what'], dict(case=cases[k], observed=obs[k], event=d['l'], expected=d['want'],
                                         text=show(d['want'])))
    return nbad


def show(w):
    try:
        if w and all(isinstance(x, int) for x in w):
            return uncp(w)
        if w and all(isinstance(x, list) for x in w):
            return [uncp(x) for x in w]
    except TypeError:
        pass
    return None


def from_tlc(ck, consts, invs, module='MCStream', extra=''):
    """Histories enumerated by TLC, as programs."""
    r = vlib.tlc(ck, module, dict(consts, Dump=True, Escape='<- EscapeImpl'), invs + ['Export'], extra=extra)
    out = []
    for l in r['lines']:
        if l.startswith('C['):
            out.append([op(o['k'], o['n'], o['s']) for o in json.loads(l[1:])])
    if not out:
        raise vlib.ToolError('no histories were exported')
    ck.notes['histories_from_tlc'] = ck.notes.get('histories_from_tlc', 0) + len(out)
    return out


MCINV = ['TypeOK', 'Guaranteed', 'ImportsFound', 'Rendered', 'Layout', 'Rebuild', 'Compose', 'Pieces']


def c01():
    ck = vlib.Check('C01')
    exe = vlib.build_core()
    n = 6 if ck.thorough else 5
    hs = from_tlc(ck, dict(MaxLen=n, Vocab='ws' if ck.thorough else 'core'), MCINV)
    cases = [case('tl', h) for h in hs]
    hs = from_tlc(ck, dict(MaxLen=4, Vocab='core'), MCINV)
    cases += [case('tl', h, tr=True) for h in hs]
    if ck.thorough:
        hs = from_tlc(ck, dict(MaxLen=5, Vocab='core'), MCINV)
        cases += [case('tl', h) for h in hs]
    for k in range(6000 if ck.thorough else 1200):
        lang = ck.rng.choice(['tl', 'tl', 'tl2'])
        g = Gen(ck.rng, 3, quotes=True, nested=0.12, wsw=1.1, lang=lang)
        p = g.prog(length(ck.rng, [5, 10, 20, 40]))
        if ck.rng.random() < 0.3:
            p.insert(ck.rng.randint(0, len(p)), op('id', 0, '', ck.rng.choice(['clone', 'collect_ref', 'collect_own', 'extend'])))
        cases.append(case(lang, p, tr=len(p) < min(LONG)))
    # changes of indentation which together do not fit into one item
    big = [32767, 20000, 12767, 12768, 1, -1, -32768, -20000, -12768, -12769, 2]
    for k in range(2500 if ck.thorough else 500):
        p = []
        for _ in range(ck.rng.choice([2, 3, 4, 6])):
            p += [op('ind', ck.rng.choice(big))] + ck.rng.choice([[], [], [op('pu')], [op('sp')], [op('li')], [op('t', 0, 'a')],
                                                                  [op('reg', 1, '', 'reg')], [op('id', 0, '', 'collect_own')]])
        cases.append(case('tl', p, tr=True))
    for c in cases[-3:] + cases[:1]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C01')
    ck.finish()


def pretty(prog):
    def one(o):
        if o['k'] == 't':
            return repr(uncp(o['s']))
        s = o['k'] + (str(o['n']) if o['n'] else '')
        if o['how']:
            s += ':' + o['how']
        if o['k'] == 'nest':
            s += '[' + ' | '.join(pretty(c) for c in o['c']) + ']'
        elif o['c']:
            s += str(o['c'])
        return s
    return ' '.join(one(o) for o in prog)


def unspaced(p):
    """A space at the end of a piece and at the start of the next are not
    merged; what this means is not specified."""
    return p if p and p[-1]['k'] in ('t', 'pu', 'li') and p[-1]['s'] else p + [op('pu')]


def pieces(rng, h):
    cut = sorted(rng.sample(range(len(h) + 1), rng.choice([1, 1, 2, 3])))
    ps = [dict(k='fmt', p=h[a:b]) for a, b in zip([0] + cut, cut + [len(h)])]
    for a, b in zip(ps, ps[1:]):
        if a['p'] and b['p'] and a['p'][-1]['k'] == b['p'][0]['k'] == 'sp':
            b['p'] = b['p'][1:]
    return ps


def chain(rng, ps):
    """Uses of one writer (Chain in Render)."""
    on = rng.choice(['fmt', 'io', 'vec', 'vec'])
    if any(p['k'] == 'file' for p in ps) and on == 'vec':
        on = 'fmt'
    for p in ps:
        p.setdefault('p', [])
        p.setdefault('s', [])
        p['how'] = rng.choice(['str', 'chars', 'fmt'])
    return render('chain', rng.choice([None, 0, 1, 2, 4, -1]), rng.choice(NLS), parts=ps, on=on)


def c02():
    ck = vlib.Check('C02')
    exe = vlib.build_core()
    hs = from_tlc(ck, dict(MaxLen=6 if ck.thorough else 5, Vocab='ws' if ck.thorough else 'core'), MCINV)
    if ck.thorough:
        hs += from_tlc(ck, dict(MaxLen=5, Vocab='core'), MCINV)
    # text at the end makes what is pending visible
    end = op('t', 0, 'z')
    cases = [case('tl', h + [end], [render('vec')]) for h in hs]
    for k in range(8000 if ck.thorough else 2500):
        lang = ck.rng.choice(['tl', 'tl', 'tl2', 'js', 'java'])
        texts = TEXTS if lang in ('tl', 'tl2') else ['a', 'b', 'foo', '::', 'x y', '', 'q;']
        g = Gen(ck.rng, 3 if lang.startswith('tl') else 0, quotes=True, nested=0.08, wsw=1.2, lang=lang,
                texts=texts, plain=not lang.startswith('tl'))
        p = g.prog(length(ck.rng, [3, 6, 12, 25, 60]))
        w = ck.rng.choice(['fmt', 'fmt', 'vec', 'io', 'to_string', 'to_vec'])
        cases.append(case(lang, p, [render(w)], imps=None if lang.startswith('tl') else []))
    # the same histories in several pieces through one formatter, with text
    # written directly, and several formatters on one writer
    for h in ck.rng.sample(hs, min(len(hs), 40000 if ck.thorough else 12000)):
        cases.append(case('tl', [], [chain(ck.rng, pieces(ck.rng, h + [end]))]))
    for k in range(6000 if ck.thorough else 1500):
        lang = ck.rng.choice(['tl', 'tl', 'tl2', 'java', 'swift'])
        t = lang.startswith('tl')
        g = Gen(ck.rng, 3 if t else 0, quotes=t, nested=0.08, lang=lang,
                texts=TEXTS if t else ['a', 'b', 'foo', '::', 'x y', '', 'q;'], plain=not t)
        ps = []
        for _ in range(ck.rng.choice([1, 2, 3, 5, 8])):
            x = ck.rng.random()
            if x < 0.6:
                ps += [dict(k='fmt', p=unspaced(g.prog(ck.rng.choice([0, 1, 2, 4, 10]))))]
            elif x < 0.7 and t:
                ps += [dict(k='file', p=unspaced(g.prog(ck.rng.choice([0, 1, 4, 10])))),
                       dict(k='new')]  # how to go on after a file is not specified
            elif x < 0.85:
                ps += [dict(k='w', s=cp(ck.rng.choice(g.texts)))]
            elif x < 0.92:
                ps += [dict(k='new')]
            else:
                ps += [dict(k='raw', s=cp(ck.rng.choice(g.texts)))]
        ps += [dict(k='fmt', p=[end])]
        cases.append(case(lang, [], [chain(ck.rng, ps)], imps=None if t else []))
    # long runs of spaces do not merge across text that renders nothing
    for n in (99, 100, 101, 200, 250):
        p = [op('t', 0, 'a')]
        for _ in range(n):
            p += [op('sp'), op('t', 0, '')]
        cases.append(case('tl', p + [op('t', 0, 'b')], [render('vec')]))
    for c in cases[-7:-5] + cases[:1]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C02')
    net_zero(ck, exe, 'C02')
    ck.finish()


def net_zero(ck, exe, prop):
    """Known finding: changes of indentation which cancel out drop the break
    requested before them."""
    for key, text in vlib.known_findings(prop).items():
        prog = dict(
            net_zero_glue=[op('t', 0, 'a'), op('pu'), op('ind', 1), op('ind', -1), op('t', 0, 'b')],
            net_zero_nested=[op('t', 0, 'a'), op('pu'), op('nest', 0, '', 'tokens', [[op('ind', 1), op('ind', -1)]]),
                             op('t', 0, 'b')],
        )[key]
        inplace = [op('t', 0, 'a'), op('pu'), op('ind', 1), op('ind', -1), op('t', 0, 'b')]
        a, b = vlib.run_cases(exe, [case('tl', prog, [render()]), case('tl', inplace, [render()])])
        out = uncp(a['renders'][0]['out'])
        if key == 'net_zero_glue' and out == 'ab':
            ck.finding(text)
        if key == 'net_zero_nested' and out != uncp(b['renders'][0]['out']):
            ck.finding(text)


def c03():
    ck = vlib.Check('C03')
    exe = vlib.build_core()
    hs = from_tlc(ck, dict(MaxLen=6 if ck.thorough else 5, Vocab='ind'), MCINV)
    # the limits of what one item can say
    hs += from_tlc(ck, dict(MaxLen=6 if ck.thorough else 5, Vocab='ind', MaxInd='<- Small'), MCINV)[::7]
    end = op('t', 0, 'z')
    units = [0, 1, 2, 3, 4, 5, 7, 8, -1]
    nls = ['\n', '\r\n', '', '\r', '\u2028', '<br>\n']
    cases = []
    for n, h in enumerate(hs):
        cases.append(case('tl', h + [end], [render('fmt', units[n % len(units)], nls[n % len(nls)])]))
    # every depth and every width around the limits of fixed buffers
    depths = sorted(set(list(range(0, 45)) + [49, 50, 51, 74, 75, 76, 77, 78, 79, 80, 98, 99, 100, 101, 102, 116,
                                              117, 118, 199, 200, 201, 255, 256, 300] +
                        ([390, 400, 401, 500, 1000] if ck.thorough else [])))
    for d in depths:
        ws = [0, 1, 2, 3, 4, 8, -1] if d <= 101 else [1, 2, -1]
        p = [op('t', 0, 'a'), op('ind', d), op('t', 0, 'b'), op('li'), op('t', 0, 'c'), op('ind', -d - 2), op('t', 0, 'd'),
             op('ind', 3), op('t', 0, 'e')]
        q = [op('t', 0, 'a')] + [op('ind', 1, '', 'api')] * d + [op('t', 0, 'b'), op('pu'), op('t', 0, 'c'), op('sp'),
                                                              op('t', 0, 'd')]
        for w in ws:
            cases.append(case('tl', p, [render('fmt', w)]))
            cases.append(case('tl2', q, [render('vec', w)]))
    # depths beyond what a single item can say
    for d, e in ((32767, 1), (32000, 1200), (20000, 20000), (-32768, -1), (-20000, -20000)):
        p = [op('t', 0, 'a'), op('ind', d), op('ind', e), op('t', 0, 'b'), op('ind', -e), op('ind', -d), op('t', 0, 'c'), op('ind', d), op('ind', 1),
             op('t', 0, ''), op('pu'), op('reg', 1, '', 'reg'), op('ind', e), op('ind', -d), op('t', 0, 'd')]
        cases.append(case('tl', p, [render('fmt', 1)]))
    for w in [9, 10, 12, 16, 20, 25, 33, 49, 50, 51, 99, 100, 101, 199, 200, 201, 333]:
        for d in (0, 1, 2, 3):
            p = [op('ind', d), op('t', 0, 'b'), op('sp'), op('t', 0, 'c'), op('pu'), op('sp'), op('t', 0, 'd')]
            cases.append(case('tl', p, [render('fmt', w)]))
    langs = ['tl', 'tl2', 'js', 'java', 'rust', 'python', 'csharp', 'c', 'go', 'swift', 'nix', 'dart']
    for k in range(8000 if ck.thorough else 2500):
        lang = ck.rng.choice(['tl', 'tl'] + langs)
        t = lang.startswith('tl')
        g = Gen(ck.rng, 3 if t else 0, quotes=t, nested=0.05, wsw=1.5, lang=lang,
                texts=TEXTS if t else ['a', 'b', 'foo', ''], plain=not t)
        p = g.prog(length(ck.rng, [4, 8, 16, 40]))
        w = ck.rng.choice(['fmt', 'io', 'vec', 'to_string'])
        r = render(w) if w == 'to_string' else render(
            w, ck.rng.choice(units + [None]), ck.rng.choice(nls), nlfirst=ck.rng.random() < 0.5)
        cases.append(case(lang, p, [r], imps=None if t else []))
    for c in cases[-2:] + cases[:1]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C03')
    ck.finish()


def c04():
    ck = vlib.Check('C04')
    exe = vlib.build_core()
    # every operation sequence of TLC, split and nested in every kind of container
    hs = from_tlc(ck, dict(MaxLen=5 if ck.thorough else 4, Vocab='core'), MCINV)
    cases = []
    kinds = NEST1 + NESTN + NESTQ1 + NESTQN
    end = op('t', 0, 'z')
    for n, h in enumerate(hs):
        how = kinds[n % len(kinds)]
        a = (n // len(kinds)) % len(h)
        b = a + 1 + (n // 7) % (len(h) - a)
        inner = h[a:b]
        if how in NEST1 + NESTQ1:
            c = [inner]
        else:
            m = (n // 3) % (len(inner) + 1)
            c = [inner[:m], inner[m:]]
        p = h[:a] + [op('nest', 0, '', how, c)] + h[b:]
        cases.append(case('tl', p + [end], [render('vec')]))
    # every kind of text
    for how in HOWS:
        for t in TEXTS + ['x' * 200, 'a"b\\c']:
            cases.append(case('tl', [op('t', 0, t, how), op('sp'), end], [render('fmt')], tr=True))
    for ty, (lo, hi) in NUMS.items():
        for v in sorted({lo, hi, 0, 1, 9, 10, 100, lo + 1, hi - 1, hi // 2, lo // 2, hi // 10, hi // 10 + 1}):
            if lo <= v <= hi:
                cases.append(case('tl2', [op('t', 0, str(v), ty)], [render('fmt')], tr=True))
    for k in range(1, 10):
        for how in ('', 'fn'):
            ids = [1 + (i * i) % 3 for i in range(k)]
            cases.append(case('tl', [op('t', 0, 'a'), op('regs', 0, '', how, ids), end], [render('fmt')], tr=True))
    for k in range(10000 if ck.thorough else 3000):
        lang = ck.rng.choice(['tl', 'tl', 'tl2'])
        g = Gen(ck.rng, 3, quotes=True, nested=0.3, wsw=0.9, lang=lang)
        p = g.prog(length(ck.rng, [3, 6, 12]))
        cases.append(case(lang, p + [end], [render(ck.rng.choice(['fmt', 'vec']))], tr=ck.rng.random() < 0.3 and len(p) < min(LONG)))
    for c in cases[-3:] + cases[:1]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C04')
    net_zero(ck, exe, 'C04')
    ck.finish()


def c05():
    ck = vlib.Check('C05')
    exe = vlib.build_core()
    hs = from_tlc(ck, dict(MaxLen=6 if ck.thorough else 5, Vocab='lang'), MCINV)
    cases = []
    kinds = NEST1 + NESTN + NESTQ1 + NESTQN
    for n, h in enumerate(hs):
        if n % 2:
            cases.append(case('tl', h))
            continue
        how = kinds[(n // 2) % len(kinds)]
        a = n % len(h)
        b = a + 1 + (n // 5) % (len(h) - a)
        c = [h[a:b]] if how in NEST1 + NESTQ1 else [h[a:b], h[a:a + 1]]
        cases.append(case('tl', h[:a] + [op('nest', 0, '', how, c)] + h[b:], tr=n % 4 == 0))
    for k in range(9000 if ck.thorough else 2500):
        lang = ck.rng.choice(['tl', 'tl', 'tl2'])
        g = Gen(ck.rng, 3, quotes=True, nested=0.25, wsw=0.6, lang=lang, texts=['a', ''])
        p = g.prog(length(ck.rng, [4, 8, 16, 40]))
        if ck.rng.random() < 0.3:
            p.insert(ck.rng.randint(0, len(p)), op('id', 0, '', ck.rng.choice(['clone', 'collect_ref', 'collect_own', 'extend'])))
        # (watching every step of a very long history is quadratic)
        cases.append(case(lang, p, tr=ck.rng.random() < 0.5 and len(p) < min(LONG)))
    import imports
    cases += imports.walk_cases(ck)
    for c in cases[-3:] + cases[:1]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C05')
    ck.finish()


NESTINV = ['Rejected', 'Complete', 'Unclosed', 'Renders']


def c11():
    ck = vlib.Check('C11')
    exe = vlib.build_core()
    hs = from_tlc(ck, dict(MaxLen=7 if ck.thorough else 6, Vocab='nest'), NESTINV, 'MCNest')
    hs += from_tlc(ck, dict(MaxLen=6 if ck.thorough else 5, Vocab='nestws'), NESTINV, 'MCNest')
    hs += from_tlc(ck, dict(MaxLen=11 if ck.thorough else 9, Vocab='deep'), NESTINV, 'MCNest')
    cases = []
    for n, h in enumerate(hs):
        lang = ['tl', 'tl', 'js', 'dart', 'java', 'tl2'][n % 6] if all(o['k'] != 'ref' for o in h) else 'tl'
        cases.append(case(lang, h, [render('fmt')], fin=False, imps=None if lang == 'tl' else []))
    for k in range(8000 if ck.thorough else 2500):
        lang = ck.rng.choice(['tl', 'tl2', 'js', 'dart'])
        t = lang.startswith('tl')
        g = Gen(ck.rng, 3 if t else 0, quotes=True, nested=0.1, wsw=0.5, lang=lang,
                texts=TEXTS if t else ['a', 'b', 'foo'], plain=not t)
        p = g.prog(length(ck.rng, [4, 10, 30]))
        x = ck.rng.random()
        if x < 0.6:
            # break the nesting somewhere
            for _ in range(ck.rng.choice([1, 1, 2])):
                m = [i for i, o in enumerate(p) if o['k'] in ('oq', 'cq', 'oe', 'ce')]
                y = ck.rng.random()
                if m and y < 0.4:
                    del p[ck.rng.choice(m)]
                elif m and y < 0.6:
                    i = ck.rng.choice(m)
                    p[i] = op(ck.rng.choice(['oq', 'cq', 'oe', 'ce']), 0)
                else:
                    p.insert(ck.rng.randint(0, len(p)), ck.rng.choice(
                        [op('oq', 1), op('oq', 0), op('cq'), op('oe'), op('ce')]))
        cases.append(case(lang, p, [render(ck.rng.choice(['fmt', 'io', 'vec', 'to_string', 'to_vec']))], fin=False,
                          imps=None if t else []))
    # deep nesting
    for d in (2, 3, 4, 5, 8, 16, 50):
        p = [op('t', 0, 'x')]
        q = [op('t', 0, 'x')]
        for i in range(d):
            p = [op('oq', 0)] + p + [op('cq')]
            q = [op('oq', 1), op('t', 0, 'a'), op('oe')] + q + [op('t', 0, 'c'), op('ce'), op('t', 0, 'b'), op('cq')]
        if d <= 5:
            cases.append(case('js', p, [render('fmt')], fin=False, imps=[]))
        cases.append(case('js', q, [render('fmt')], fin=False, imps=[]))
        cases.append(case('dart', q[:-1], [render('fmt')], fin=False, imps=[]))
        cases.append(case('js', q + [op('cq')], [render('fmt')], fin=False, imps=[]))
    for c in cases[-5:-4] + cases[:2]:
        ck.sample(pretty(c['prog']))
    validate(ck, exe, cases, 'C11')
    ck.finish()
