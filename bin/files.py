"""Generated files: C15 (Nix declarations), C16 (the layout of files)."""
import json
import vlib
from vlib import cp, uncp
from streams import op, case, render, pretty, Gen, DEFIND, unit
from imports import POOLS, D, refs_in

NIX = [D('argument', 'cell'), D('argument', 'self'), D('inherit', 'inputs', 'nixpkgs'), D('inherit', 'inputs.a', 'b'),
       D('inherit', 'cell.x', 'y'), D('with', 'inputs.nixpkgs.lib', 'concatMap'), D('with', 'inputs.nixpkgs.lib', 'mapAttrs'),
       D('with', 'std', 'foo'), D('with', 'cell.lib', 'bar')]


def nix_imps(ds):
    return [dict(f=d['f'], a=d['a'], v=d.get('v', [])) for d in ds]


def norm_prog(p):
    return [op(o['k'], o['n'], o['s'], o['how'], [norm_prog(c) for c in o['c']] if o['k'] == 'nest' else o['c']) for o in p]


def read_nix(text, u):
    """sections of a Nix file whose body starts with #BODY"""
    d = dict(bad=[], hasargs=False, args=[], withs=[], entries=[], body=[])
    ls = text.split('\n')
    if '#BODY' not in ls:
        d['bad'].append('no body')
        return d, []
    k = ls.index('#BODY')
    head = ls[:k]
    body = '\n'.join(ls[k:])
    if not body.endswith('\n'):
        d['bad'].append('no line terminator')
    d['body'] = cp(body[:-1])
    secs = []
    i = 0
    while i < len(head):
        l = head[i]
        if l == '':
            i += 1
        elif l == '{':
            j = head.index('}:', i) if '}:' in head[i:] else len(head) - 1
            if d['hasargs'] or secs:
                d['bad'].append('function arguments')
            d['hasargs'] = True
            args = head[i + 1:j]
            if args[-1:] != [u + '...']:
                d['bad'].append('...')
            for a in args[:-1]:
                if a.startswith(u) and a.endswith(',') and a[len(u):-1].isidentifier():
                    d['args'].append(cp(a[len(u):-1]))
                else:
                    d['bad'].append(a)
            secs.append(head[i:j + 1])
            i = j + 1
        elif l.startswith('with '):
            j = i
            while j < len(head) and head[j].startswith('with '):
                if head[j].endswith(';'):
                    d['withs'].append(cp(head[j][5:-1]))
                else:
                    d['bad'].append(head[j])
                j += 1
            secs.append(head[i:j])
            i = j
        elif l == 'let':
            j = i + 1
            cur = None
            while j < len(head) and not (cur is None and head[j] == 'in'):
                if cur is None:
                    if not head[j].startswith(u):
                        d['bad'].append(head[j])
                    cur = head[j][len(u):]
                else:
                    cur += '\n' + head[j]
                if cur.endswith(';'):
                    d['entries'].append(cp(cur))
                    cur = None
                j += 1
            if cur is not None or j >= len(head):
                d['bad'].append('let')
            secs.append(head[i:j + 1])
            i = j + 1
        else:
            d['bad'].append(l)
            i += 1
    d['bad'] = [cp(b) for b in d['bad']]
    return d, secs


def nix_value(rng, lower, multi=True):
    """the program of the value of a variable which may refer to some imports"""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        x = rng.random()
        if x < 0.45 and lower:
            how = rng.choice(['ref', '&ref', 'opt', 'quote', '&quote', 'vec']) if rng.random() < 0.8 else None
            out.append(op('ref', rng.choice(lower), '', how) if how else op('reg', rng.choice(lower), '', 'reg'))
        elif x < 0.65:
            out.append(op('t', 0, rng.choice(['a', 'import', '(', ')', '1', 'x.y'])))
        elif x < 0.75 and multi:
            out.append(op(rng.choice(['pu', 'li'])))
        elif x < 0.85 and multi:
            out += [op('t', 0, '{'), op('ind', 1)] + nix_value(rng, lower, multi) + [op('ind', -1), op('t', 0, '}')]
        elif x < 0.93:
            out.append(op('nest', 0, '', rng.choice(['tokens', 'quote', 'opt', 'extend_own', 'collect_own', 'quoted']),
                          [nix_value(rng, lower, False)]))
        else:
            out.append(op('sp'))
        out.append(op('sp'))
    return out


def nix_set(rng, multi=True, nvar=(0, 1, 2, 4)):
    """imports with unique names; variables refer to those before them"""
    if rng.random() < 0.5:
        imps = rng.sample(NIX, rng.randint(0, len(NIX)))
    else:
        names = rng.sample(['aa', 'bb', 'cc', 'lib', 'std', 'cell', 'x', 'y', 'zed'], rng.randint(0, 8))
        imps = []
        for n in names:
            f = rng.choice(['argument', 'inherit', 'inherit', 'with', 'with'])
            path = '.'.join(rng.choice(['aa', 'bb', 'lib', 'inputs', 'zed']) for _ in range(rng.choice([1, 2, 2, 3, 4])))
            imps.append(D(f, *([n] if f == 'argument' else [path, n])))
    for k in range(rng.choice(nvar)):
        lower = list(range(1, len(imps) + 1))
        if lower and rng.random() < 0.3:
            lower = lower[-1:]
        imps.append(dict(D('variable', 'v%d' % k), v=nix_value(rng, lower, multi)))
    return imps


def consume(ck, module, consts, lines, idx, per, report):
    for b in range(0, len(lines), 10000):
        part = lines[b:b + 10000]
        p = vlib.write_trace(ck, 't', part)
        r = vlib.tlc(ck, module, dict(consts, Escape='<- EscapeImpl'), ['Conforms'], env=dict(TRACE=p))
        if r['states'] != sum(per(x) for x in part):
            raise vlib.ToolError('trace was not consumed')
        ck.validated += len(part)
        seen = set()
        for l in r['lines']:
            if l.startswith('B{'):
                d = json.loads(l[1:])
                k = idx[b + d['i'] - 1]
                if k not in seen:
                    seen.add(k)
                    report(k, d)


def c15():
    ck = vlib.Check('C15')
    exe = vlib.build_core()
    rng = ck.rng
    todo = []
    r = vlib.tlc(ck, 'MCNix', dict(N=4 if ck.thorough else 3, Dump=True, Escape='<- EscapeImpl'), ['Found', 'Complete', 'Export'])
    hs = [json.loads(l[1:]) for l in r['lines'] if l.startswith('C{')]
    ck.notes['graphs_from_tlc'] = len(hs)
    if len(hs) > 6000:
        hs = rng.sample(hs, 6000)
    for n, h in enumerate(hs):
        imps = [dict(f=x['f'], a=x['a'], m=[], v=x['v']) for x in h['imps']]
        todo.append((imps, h['prog'], n % 2 == 0))
    for _ in range(8000 if ck.thorough else 1500):
        imps = nix_set(rng) if rng.random() < 0.97 else nix_set(rng, nvar=(8, 12))
        g = Gen(rng, len(imps), nested=0.15, wsw=0.8, lang='nix', texts=['a', 'b', '{', 'x y'], plain=False)
        if rng.random() < 0.01 and imps:    # a long chain
            for k in range(rng.choice([20, 40])):
                imps.append(dict(D('variable', 'w%d' % k), v=[op('ref', len(imps), '', 'ref')]))
            g = Gen(rng, 0, lang='nix', texts=['a', 'b'])
            todo.append((imps, g.prog(2) + [op('ref', len(imps), '', 'ref')], rng.random() < 0.4))
            continue
        p = g.prog(rng.choice([0, 3, 6, 12])) if imps else [op('t', 0, 'a')]
        todo.append((imps, p, rng.random() < 0.4))
    cases = []
    for imps, p, scoped in todo:
        w = rng.choice([1, 2, 3, 4, 8])
        p = [op('t', 0, '#BODY'), op('pu'), op('t', 0, 'z')] + p
        cases.append(case('nix', p, [render('fmt', w, None, file=True, cfg={'scoped': scoped})], imps=imps, fin=False))
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if 'crash' in o or 'panic' in o or o['renders'][0]['res'] != 'ok':
            ck.violation('file was not rendered', dict(case=c, observed=o))
            continue
        rd = c['renders'][0]
        d, _ = read_nix(uncp(o['renders'][0]['out']), ' ' * rd['ind'])
        lines.append(dict(d, imps=nix_imps(c['imps']), prog=c['prog'], scoped=rd['cfg']['scoped'], unit=unit(rd['ind'])))
        idx.append(k)
    consume(ck, 'TraceNix', dict(Prop='C15'), lines, idx, lambda x: 2,
            lambda k, d: ck.violation(d['what'], dict(case=cases[k], file=uncp(obs[k]['renders'][0]['out']), expected=d['want'])))
    ck.sample(pretty(cases[-1]['prog']))
    ck.finish()


# ------------------------------------------------------------------ C16

CFG0 = dict(pkg=[], ns=[])
LANGS = sorted(POOLS) + ['nix']


def head_of(lang, cfg, text, u):
    """sections of declarations, unreadable lines and written forms of a file with the companion body"""
    ls = text.split('\n')
    at = [k for k, l in enumerate(ls) if l.strip() == '#BODY']
    if not at:
        return None
    head = ls[:at[0]]
    forms = {}
    for l in ls[at[0] + 1:]:
        l = l.strip()
        if l.startswith('#') and ':' in l and l.endswith(';'):
            n, f = l[1:-1].split(':', 1)
            forms[int(n)] = f
    if lang == 'nix':
        d, secs = read_nix('\n'.join(head + ['#BODY', '']), u)
        return secs, d['bad'], forms
    lines = [l for l in head if l != '']
    bad = []
    if lang == 'java' and 'pkg' in cfg or lang == 'go' and 'pkg' in cfg:
        lines = lines[1:]
    if lang == 'csharp' and 'ns' in cfg:
        lines = lines[:-1]
    return ([lines] if lines else []), bad, forms


def body_prog(rng, lang, nimps):
    """a body in which the number of imports is known"""
    g = Gen(rng, nimps, quotes=True, nested=0.1, wsw=1.3, lang=lang, texts=['a', 'b', 'foo'], plain=True)
    p = g.prog(rng.choice([0, 1, 2, 4, 8, 16]))
    if rng.random() < 0.35:
        p = [op(rng.choice(['pu', 'li', 'li', 'sp', 'pu']), 0, '') for _ in range(rng.randint(1, 3))] + p
    if rng.random() < 0.35:
        p = p + [op(rng.choice(['pu', 'li', 'sp', 'ind']), rng.choice([0, 1]), '') for _ in range(rng.randint(1, 2))]
    return p


def c16():
    ck = vlib.Check('C16')
    exe = vlib.build_core()
    rng = ck.rng
    r = vlib.tlc(ck, 'MCFiles', dict(MaxLen=5 if ck.thorough else 4, Dump=True, Escape='<- EscapeImpl'), ['Promised', 'Export'])
    hs = [[op(o['k'], o['n'], o['s']) for o in json.loads(l[1:])] for l in r['lines'] if l.startswith('C[')]
    ck.notes['histories_from_tlc'] = len(hs)
    todo = []
    for lang in LANGS:
        pool, cfgs = POOLS.get(lang, (None, None))
        for k in range(len(hs) // (4 if ck.thorough else 12)):
            h = rng.choice(hs)
            imps = [rng.choice(pool)] if pool else [rng.choice(NIX)]
            todo.append((lang, rng.choice(cfgs) if cfgs else {'scoped': rng.random() < 0.5}, imps, h))
        for k in range(1500 if ck.thorough else 250):
            if lang == 'nix':
                imps, cfg = nix_set(rng, multi=False, nvar=(0, 0, 1, 2)), {'scoped': rng.random() < 0.5}
            else:
                imps = []
                for d in rng.sample(pool, rng.choice([0, 1, 1, 2, 4])):
                    imps.append(d)
                cfg = rng.choice(cfgs)
            todo.append((lang, cfg, imps, body_prog(rng, lang, len(imps))))
    cases = []
    for n, (lang, cfg, imps, p) in enumerate(todo):
        used = sorted(set(refs_in_all(p)))
        ind, nl = rng.choice([None, 1, 2, 4, -1]), rng.choice([None, '\n', '\r\n'])
        if lang == 'nix' and ind in (None, -1):
            ind = 4
        rs = [render(w, ind, nl, file=True, cfg=cfg) for w in (['fmt', 'vec'] if n % 2 else ['io', 'vec'])]
        comp = [op('reg', k, '', 'reg') for k in used] + [op('t', 0, '#BODY'), op('pu')]
        for k in used:
            comp += [op('t', 0, '#%d:' % k), op('ref', k, '', 'ref'), op('t', 0, ';'), op('pu')]
        cases.append(case(lang, comp, [render('fmt', ind, None, file=True, cfg=cfg)], imps=imps, fin=False))
        cases.append(case(lang, p, rs, imps=imps, fin=False))
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for n, (lang, cfg, imps, p) in enumerate(todo):
        cc, co, c, o = cases[2 * n], obs[2 * n], cases[2 * n + 1], obs[2 * n + 1]
        if any('crash' in x or 'panic' in x for x in (co, o)) or co['renders'][0]['res'] != 'ok':
            ck.violation('file was not rendered', dict(case=c, observed=o))
            continue
        ind = c['renders'][0].get('ind', DEFIND[lang])
        u = uncp(unit(ind))
        h = head_of(lang, cfg, uncp(co['renders'][0]['out']), u)
        if h is None:
            ck.violation('file has no body', dict(case=cc, observed=co))
            continue
        secs, bad, forms = h
        rs = [dict(w=r['w'], unit=unit(ind), nl=r.get('nl', [10]), res=x['res'], out=x.get('out', x.get('bytes', [])),
                   lines=x.get('lines', [])) for r, x in zip(c['renders'], o['renders'])]
        sc = dict(CFG0, **{k: cp(v) for k, v in cfg.items() if k in CFG0})
        lines.append(dict(lang=lang, cfg=sc, secs=[[cp(l) for l in s] for s in secs], bad=bad, prog=p,
                          imps=[cp(forms.get(k + 1, '')) for k in range(len(imps))], renders=rs))
        idx.append(n)

    def report(n, d):
        c, o = cases[2 * n + 1], obs[2 * n + 1]
        x = o['renders'][max(0, d['l'] - 1)]
        ck.violation(d['what'], dict(case=c, observed=o, file=uncp(x['out']) if x.get('out') else [uncp(y) for y in x.get('lines', [])],
                                     expected=d['want']))
    consume(ck, 'TraceFiles', dict(Prop='C16'), lines, idx, lambda x: 1 + len(x['renders']), report)
    for n in (5, len(todo) // 2, len(todo) - 1):
        ck.sample(dict(lang=todo[n][0], config=todo[n][1], body=pretty(todo[n][3])))
    ck.finish()


def refs_in_all(prog):
    out = []
    for o in prog:
        if o['k'] in ('ref', 'reg'):
            out.append(o['n'])
        elif o['k'] == 'regs':
            out += o['c']
        elif o['k'] == 'nest':
            for c in o['c']:
                out += refs_in_all(c)
    return out
