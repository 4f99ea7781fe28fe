"""Comment helpers: C18."""
import json
import vlib
from vlib import cp, uncp
from streams import op, case, render, pretty, DEFIND, unit

KINDS = {1: ('java', 'block'), 2: ('csharp', 'block'), 3: ('csharp', 'line'), 4: ('dart', 'doc')}
LINES = ['Foo', '', 'a b', '  lead', 'trail  ', '*', '* /', '/', '// x', '/// y', '/* z', '@param x', '<summary>', 'é日本', '\\',
         '"q"', 'tab\there', '{', '#', "it's", '*x/']


def comment(rng, kind, lines):
    lang, how = KINDS[kind]
    return op('comment', 2 if kind == 4 else kind, '', how + rng.choice(['', '&', 'q', 'iter', 'upto', 'static']), [cp(l) for l in lines])


def prog(rng, kind, n, depth=0):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.3:
            ls = [rng.choice(LINES) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.97 else rng.choice([9, 17, 40]))]
            out.append(comment(rng, kind, ls))
            if kind > 1 and rng.random() < 0.8:
                out.append(op(rng.choice(['pu', 'li'])))
        elif x < 0.5:
            out.append(op('t', 0, rng.choice(['a', 'foo', 'x;', '{', '}'])))
        elif x < 0.6 and depth < 3:
            out.append(op('nest', 0, '', rng.choice(['tokens', '&tokens', 'opt', 'quote', 'quote_in', 'extend_own', 'from_fn', 'vec']),
                          [prog(rng, kind, rng.randint(0, 4), depth + 1)]))
        else:
            k = rng.choice(['sp', 'pu', 'pu', 'li', 'ind'])
            out.append(op(k, rng.choice([1, 1, -1, 2]) if k == 'ind' else 0))
    return out


def c18():
    ck = vlib.Check('C18')
    exe = vlib.build_core()
    cases = []
    for kind in (1, 2, 3):
        r = vlib.tlc(ck, 'MCComments', dict(MaxLen=5 if ck.thorough else 4, Kind=kind, Dump=True, Escape='<- EscapeImpl'),
                     ['Reads', 'Export'])
        hs = [json.loads(l[1:]) for l in r['lines'] if l.startswith('C[')]
        ck.notes['histories_from_tlc'] = ck.notes.get('histories_from_tlc', 0) + len(hs)
        for h in hs:
            if not any(o['k'] == 'comment' for o in h):
                continue
            for k in ([kind] if kind != 2 else [2, 4]):
                lang = KINDS[k][0]
                p = [dict(o, how=KINDS[k][1] + ck.rng.choice(['', '&', 'q', 'iter', 'upto', 'static'])) if o['k'] == 'comment' else o
                     for o in h]
                cases.append(case(lang, p, [render('vec', 2)], imps=[], fin=False))
    for _ in range(20000 if ck.thorough else 4000):
        kind = ck.rng.choice([1, 1, 2, 3, 4])
        p = prog(ck.rng, kind, ck.rng.choice([2, 4, 8, 16]))
        cases.append(case(KINDS[kind][0], p, [render('vec', ck.rng.choice([None, 0, 1, 2, 8]), None,
                                                     file=ck.rng.random() < 0.3)], imps=[], fin=False))
    # what would end a comment
    for l in ('x */ y', '*/', 'a*/'):
        cases.append(case('java', [op('t', 0, 'a'), comment(ck.rng, 1, ['b', l, 'c']), op('pu'), op('t', 0, 'd')],
                          [render('vec', 2)], imps=[], fin=False))
        for kind in (2, 3, 4):
            cases.append(case(KINDS[kind][0], [op('t', 0, 'a'), comment(ck.rng, kind, ['b', l, 'c']), op('pu'), op('t', 0, 'd')],
                              [render('vec', 2)], imps=[], fin=False))
    known = vlib.known_findings('C18')
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if 'crash' in o or 'panic' in o or o['renders'][0]['res'] != 'ok':
            ck.violation('not rendered', dict(case=c, observed=o))
            continue
        ind = c['renders'][0].get('ind', DEFIND[c['lang']])
        ls = o['renders'][0]['lines']
        lines.append(dict(prog=c['prog'], unit=unit(ind), lines=ls))
        idx.append(k)
    for b in range(0, len(lines), 20000):
        part = lines[b:b + 20000]
        p = vlib.write_trace(ck, 't', part)
        r = vlib.tlc(ck, 'TraceComments', dict(Prop='C18', Escape='<- EscapeImpl'), ['Conforms'], env=dict(TRACE=p))
        if r['states'] != 2 * len(part):
            raise vlib.ToolError('trace was not consumed')
        ck.validated += len(part)
        seen = set()
        for l in r['lines']:
            if not l.startswith(('B{', 'K{')):
                continue
            d = json.loads(l[1:])
            k = idx[b + d['i'] - 1]
            if l[0] == 'K' and d['what'] in known:
                ck.finding(known[d['what']])
                continue
            if k in seen:
                continue
            seen.add(k)
            ck.violation(d['what'], dict(case=cases[k], lines=[uncp(x) for x in obs[k]['renders'][0]['lines']],
                                         expected=d.get('want')))
    ck.sample(pretty(cases[-20]['prog']))
    ck.finish()
