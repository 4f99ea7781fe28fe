"""Strings: C09 and C10."""
import json
import macros, vlib
from streams import Gen, op, case, render, pretty, show

LANGS = ['c', 'csharp', 'dart', 'go', 'java', 'js', 'nix', 'python', 'rust', 'swift']
CRIT = [0, 7, 8, 9, 10, 11, 12, 13, 27, 34, 36, 39, 48, 57, 65, 97, 92, 96, 120, 117, 123, 125, 127, 133, 233, 8232, 8233,
        65279, 0x1f600]
BOUND = [0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x20000,
         0x10ffff, 0xe0001, 0x202e, 0x200b, 0x2028, 0x2029, 0x0301, 0xac00, 0xfe0f]


def validate(ck, exe, cases, known, batch=30000):
    """known: keys of listed findings -> text"""
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if 'crash' in o or 'panic' in o:
            ck.violation('crash or panic', dict(case=c, observed=o))
            continue
        x = o['renders'][0]
        lines.append(dict(lang=c['lang'], prog=c['prog'], imps=[i.get('s', []) for i in c['imps']], res=x['res'],
                          out=x.get('out', [])))
        idx.append(k)
    for b in range(0, len(lines), batch):
        part = lines[b:b + batch]
        p = vlib.write_trace(ck, 't', part)
        r = vlib.tlc(ck, 'TraceStrings', dict(Escape='<- EscapeImpl'), ['Conforms'], env=dict(TRACE=p))
        if r['states'] != 2 * len(part):
            raise vlib.ToolError('trace was not consumed: %d of %d' % (r['states'], len(part)))
        ck.validated += len(part)
        for l in r['lines']:
            if l.startswith('B{') or l.startswith('K{'):
                d = json.loads(l[1:])
                k = idx[b + d['i'] - 1]
                if l[0] == 'K' and d['what'] in known:
                    ck.finding(known[d['what']])
                    continue
                out = obs[k]['renders'][0].get('out', [])
                ck.violation(d['what'], dict(lang=cases[k]['lang'], case=cases[k], output=show(out), observed=out,
                                             expected=d.get('want'), read=d.get('got')))


def lit(lang, text, how='oq'):
    """one literal, added in different ways"""
    if how == 'oq':
        p = [op('oq', 0)] + [op('t', 0, t) for t in text] + [op('cq')]
    else:
        p = [op('nest', 0, '', how, [[op('t', 0, t) for t in text]])]
    return case(lang, p, [render('fmt')], imps=[], fin=False)


def nul(lang, text):
    # strings of Nix can't contain NUL
    return lang == 'nix' and any(0 in t for t in text)


def c09():
    ck = vlib.Check('C09')
    exe = vlib.build_core()
    rng = ck.rng
    cases = []

    def add(lang, text, how='oq'):
        if not nul(lang, text):
            cases.append(lit(lang, text, how))
    # texts in one or two pieces, from TLC
    r = vlib.tlc(ck, 'MCStrings', dict(MaxText=2, Alphabet=CRIT, Lang='all', Dump=True, Split=True), ['Faithful', 'Export'])
    texts = [json.loads(l[1:]) for l in r['lines'] if l.startswith('C')]
    small = [10, 34, 36, 39, 55, 92, 96, 98, 110, 120, 117, 123, 1, 0, 12, 128] if ck.thorough else [10, 34, 36, 55, 92, 97, 123, 1]
    r = vlib.tlc(ck, 'MCStrings', dict(MaxText=3, Alphabet=small, Lang='all', Dump=True, Split=ck.thorough), ['Faithful', 'Export'])
    texts += [json.loads(l[1:]) for l in r['lines'] if l.startswith('C')]
    ck.notes['texts_from_tlc'] = len(texts)
    for n, t in enumerate(texts):
        for lang in LANGS:
            add(lang, t, ['oq', 'quoted', 'quotedvec', 'quotedfn'][n % 4] if len(t) == 1 else 'oq')
    # code points
    for lang in LANGS:
        for c in list(range(0, 0x180)) + BOUND:
            add(lang, [[c]])
        for c in BOUND:
            add(lang, [[97, c, 48]])
        step = 64
        # all of them; in the quick tier all of the planes which have characters of different kinds, and some of the others
        cps = [c for c in range(0x180, 0x110000) if not 0xd800 <= c < 0xe000 and (ck.thorough or c >> 16 in (0, 1, 14))]
        for b in range(0, len(cps), step):
            add(lang, [cps[b:b + step]])
        if not ck.thorough:
            for b in range(100):
                add(lang, [[rng.randrange(0x20000, 0x110000) for _ in range(step)]])
    # long texts in several pieces
    pool = CRIT + BOUND + [ord(c) for c in 'abfnrtvx01789ABF{}()#%?/<>&@ UuN']
    for _ in range(40000 if ck.thorough else 4000):
        lang = rng.choice(LANGS)
        t = [[rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))] for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        add(lang, t, rng.choice(['oq', 'quoted', 'quoted&', 'quotedvec', 'quotedopt', 'quotedfn']))
    # very long ones
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 5000):
        for lang in LANGS:
            t = [rng.choice(pool) for _ in range(n)]
            k = rng.choice([n, n, n // 2, n - 1])
            add(lang, [t[:k], t[k:]] if k < n else [t], rng.choice(['oq', 'quoted']))
            add(lang, rng.sample([[c] for c in t], 30))
    for c in (cases[77], cases[-1], cases[-2]):
        ck.sample(dict(lang=c['lang'], program=pretty(c['prog'])))
    validate(ck, exe, cases, vlib.known_findings('C09'))
    ck.assumptions += ['lexical rules of the languages as in spec/Strings.tla (ES2019, C with execution character set UTF-8 and '
                       'no trigraphs)', 'NUL is not representable in Nix and excluded']
    ck.finish()


# ------------------------------------------------------------------ C10

STEXTS = ['a', 'b', '$', '{', '}', '${', '`', '"', '\\', "'", '\n', 'x y', '$a', '${x}', '\x07', 'é', '\U0001f600', '1', '_', '',
          '#', '%s', '\u2028', '}}', '$$', '\\u{41}', '\\n']
ETEXTS = ['a', 'foo', 'x1', 'a.b', 'f(x)', '1', '+', '!a', 'x ? y : z', "'q'", 'a[0]', '_', 'Ab', '(1)', 'await z', 'é', 'a-b', 'new']
STRIMPS = {'js': [dict(f='import', a=[vlib.cp('m'), vlib.cp('Imp')], m=[], s=vlib.cp('Imp'))],
           'dart': [dict(f='import', a=[vlib.cp('m'), vlib.cp('Imp')], m=[], s=vlib.cp('Imp')),
                    dict(f='import', a=[vlib.cp('m'), vlib.cp('Imp')], m=[['with_alias', vlib.cp('al')]], s=vlib.cp('al.Imp'))]}
TEXTHOW = ['', 'String', '&String', 'static', 'display', 'cow_o', 'from_Rc', 'quote', 'item_box']


def evaluated(rng, lang, n, depth=0):
    """an evaluated string"""
    out = [op('oq', 1)]
    for _ in range(rng.randint(0, n)):
        x = rng.random()
        if x < 0.4:
            out.append(op('t', 0, rng.choice(STEXTS), rng.choice(TEXTHOW)))
        elif x < 0.5:
            out.append(op('sp'))
        elif x < 0.62:
            out += nested(rng, 2, depth + 1)
        elif depth < 4:
            out.append(op('oe'))
            y = rng.random()
            if y < 0.4:
                out.append(op('t', 0, rng.choice(ETEXTS), rng.choice(TEXTHOW)))
            elif y < 0.55:
                out.append(op('ref', rng.randint(1, len(STRIMPS[lang])), '', 'ref'))
            else:
                for k in range(rng.randint(1, 3)):
                    z = rng.random()
                    if k:
                        out.append(op('sp'))
                    if z < 0.5:
                        out.append(op('t', 0, rng.choice(ETEXTS), rng.choice(TEXTHOW)))
                    elif z < 0.6:
                        out.append(op('ref', rng.randint(1, len(STRIMPS[lang])), '', 'ref'))
                    elif z < 0.8:
                        out += evaluated(rng, lang, max(1, n - 1), depth + 1)
                    else:
                        out += [op('oq', 0), op('t', 0, rng.choice(STEXTS)), op('cq')]
            out.append(op('ce'))
    out.append(op('cq'))
    return out


def nested(rng, n, depth=0):
    """a string without evaluation"""
    how = rng.choice(['ops', 'ops', 'quoted', 'quotedvec', 'quotedfn', 'quoted&'])
    c = []
    for _ in range(rng.randint(0, n)):
        x = rng.random()
        if x < 0.6 or depth > 3:
            c.append(op('t', 0, rng.choice(STEXTS), rng.choice(TEXTHOW)))
        elif x < 0.75:
            c.append(op('sp'))
        else:
            c += nested(rng, n, depth + 1)
    if how == 'ops':
        return [op('oq', 0)] + c + [op('cq')]
    if how in ('quotedvec', 'quotedfn'):
        k = rng.randint(0, len(c))
        # keep strings made of several operations in one piece
        return [op('nest', 0, '', how, [c])]
    return [op('nest', 0, '', how, [c])]


def c10():
    ck = vlib.Check('C10')
    exe = vlib.build_core()
    rng = ck.rng
    t = ck.thorough
    cases = []
    hs = []
    for consts in (dict(MaxLen=8 if t else 7, Texts=[97, 36, 123]), dict(MaxLen=7 if t else 6, Texts=[97, 36, 34, 96, 92, 43])):
        r = vlib.tlc(ck, 'MCInterp', dict(consts, Langs=LANGS, Dump=True, Escape='<- EscapeImpl'), ['Meant', 'Export'])
        hs += [json.loads(l[1:]) for l in r['lines'] if l.startswith('C[')]
    ck.notes['programs_from_tlc'] = len(hs)
    for n, h in enumerate(hs):
        p = [op(o['k'], o['n'], o['s']) for o in h]
        if any(o['k'] == 'oe' for o in h):
            langs = ['js', 'dart']
        else:
            langs = ['js', 'dart', LANGS[n % len(LANGS)]]
        for lang in langs:
            if not (lang == 'nix' and any(0 in o['s'] for o in h)):
                cases.append(case(lang, p, [render('fmt')], imps=[], fin=False))
    for _ in range(40000 if t else 6000):
        lang = rng.choice(['js', 'dart', 'js', 'dart'] + LANGS)
        if lang in STRIMPS and rng.random() < 0.8:
            p = evaluated(rng, lang, rng.choice([2, 3, 5, 8]))
        else:
            p = nested(rng, rng.choice([1, 3, 6]))
        cases.append(case(lang, p, [render('fmt')], imps=STRIMPS.get(lang, []), fin=False))
    for c in (cases[50], cases[-1], cases[-2], cases[-3]):
        ck.sample(dict(lang=c['lang'], program=pretty(c['prog'])))
    validate(ck, exe, cases, vlib.known_findings('C10'))
    macros.strings(ck, macros.build_mac())
    ck.finish()
