"""Writers: C17."""
import json
import vlib
from streams import Gen, length, TEXTS, op, case, render, DEFIND, unit, pretty, validate


def mg(c, o):
    rs = []
    for r, x in zip(c['renders'], o['renders']):
        w = r['w']
        rs.append(dict(w=w, unit=unit(r.get('ind', DEFIND[c['lang']])), nl=r.get('nl', [10]), res=x['res'],
                       file=bool(r.get('file')) or w.startswith('to_file'), out=x.get('out', []),
                       lines=x.get('lines', []), bytes=x.get('bytes', []), calls=x.get('calls', [])))
    return dict(lang=c['lang'], prog=c['prog'], imps=[i['s'] for i in c['imps']], renders=rs)


def run(ck, exe, cases):
    obs = vlib.run_cases(exe, cases)
    lines, idx = [], []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if 'crash' in o or 'panic' in o:
            ck.violation('crash or panic', dict(case=c, observed=o))
        elif any(r['res'] == 'panic' for r in o['renders']):
            ck.violation('panic while rendering', dict(case=c, observed=o))
        else:
            lines.append(mg(c, o))
            idx.append(k)
    batch = 6000
    for b in range(0, len(lines), batch):
        part = lines[b:b + batch]
        p = vlib.write_trace(ck, 't', part)
        r = vlib.tlc(ck, 'TraceSink', dict(Escape='<- EscapeImpl'), ['Conforms'], env=dict(TRACE=p))
        want = sum(1 + len(x['renders']) for x in part)
        if r['states'] != want:
            raise vlib.ToolError('trace was not consumed: %d of %d' % (r['states'], want))
        ck.validated += sum(len(x['renders']) for x in part)
        seen = set()
        for l in r['lines']:
            if l.startswith('B{'):
                d = json.loads(l[1:])
                k = idx[b + d['i'] - 1]
                if (k, d['l']) not in seen:
                    seen.add((k, d['l']))
                    ck.violation(d['what'], dict(case=cases[k], observed=obs[k]['renders'][d['l'] - 1], rendering=d['l'],
                                                 expected=d['want']))


NLS = ['\n', '\r\n', '', '\u2028']


def c17():
    ck = vlib.Check('C17')
    exe = vlib.build_core()
    r = vlib.tlc(ck, 'MCSink', dict(MaxSched=6 if ck.thorough else 5, Dump=True), ['Prefix', 'OkMeansAll', 'Export'])
    scheds = sorted({l[1:] for l in r['lines'] if l.startswith('C')})
    scheds = [json.loads(s) for s in scheds]
    ck.notes['schedules_from_tlc'] = len(scheds)
    rng = ck.rng
    fixed = [
        [op('t', 0, 'ab'), op('pu'), op('ind', 1), op('t', 0, 'c'), op('li'), op('t', 0, 'd\u00e9')],
        [op('t', 0, 'x'), op('sp'), op('oq', 1), op('t', 0, 'y'), op('oe'), op('t', 0, 'z'), op('ce'), op('cq')],
        [op('ref', 1), op('li'), op('ind', 2), op('t', 0, '\u65e5'), op('ind', -2), op('ref', 3)],
        [op('oq', 0), op('t', 0, 'a'), op('oq', 0), op('t', 0, 'b'), op('cq'), op('cq'), op('sp'), op('t', 0, 'e')],
        [op('ind', 1), op('t', 0, 'b')],
    ]
    cases = []
    for n, s in enumerate(scheds):
        p = fixed[n % len(fixed)]
        cases.append(case('tl', p, [render('sink', 2, '\n', sched=s, file=n % 2 == 0)]))
    # one fault at every call, and bytes accepted one by one
    for p in fixed:
        for f in (False, True):
            one = [dict(a='acc', n=1)] * 60
            cases.append(case('tl', p, [render('sink', sched=one, file=f)]))
            for k in range(0, 30):
                for a in ('err', 'zero', 'int', 'block'):
                    s = [dict(a='acc', n=1000)] * k + [dict(a=a, n=0)]
                    cases.append(case('tl', p, [render('sink', -1, '\r\n', sched=s, file=f)]))
                s = [dict(a='acc', n=1)] * k + [dict(a='err', n=0)]
                cases.append(case('tl', p, [render('sink', 3, sched=s, file=f)]))
                s = [dict(a='acc', n=0)] * k + [dict(a='err', n=0)]
                cases.append(case('tl', p, [render('fmtsink', 3, sched=s, file=f)]))
    # large texts and much whitespace in one piece
    for n in (255, 256, 257, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 20000):
        for x in (n, n - 1):
            p = [op('t', 0, 'ab'), op('pu'), op('t', 0, 'x' * (x % 5) + '\u00e9' * ((x - x % 5) // 2)), op('li'), op('ind', n // 7), op('t', 0, 'd')]
            for f in (False, True):
                for s in ([dict(a='acc', n=100000)] * 40, [dict(a='acc', n=n)] * 40, [dict(a='acc', n=n - 1)] * 40, [dict(a='acc', n=1000)] * 60,
                          [dict(a='acc', n=512), dict(a='int', n=0)] * 60, [dict(a='acc', n=1024)] * 3 + [dict(a='err', n=0)]):
                    cases.append(case('tl', p, [render('sink', 1, '\r\n', sched=s, file=f)]))
                cases.append(case('tl', p, [render(w, 2, '\n', file=f) for w in ('fmt', 'io', 'vec')]))
    for k in range(2500 if ck.thorough else 700):
        lang = rng.choice(['tl', 'tl', 'tl2', 'java', 'js', 'python', 'rust'])
        t = lang.startswith('tl')
        g = Gen(rng, 3 if t else 0, quotes=t, nested=0.1, lang=lang, texts=TEXTS if t else ['a', 'bc', 'foo', ''],
                plain=not t)
        p = g.prog(length(rng, [3, 8, 20, 50]))
        ind, nl = rng.choice([None, 0, 1, 2, 4, -1]), rng.choice(NLS)
        s = [dict(a=rng.choice(['acc'] * 6 + ['int', 'int'] + (['err', 'zero', 'block'] if k % 2 else [])),
                  n=rng.choice([1, 1, 2, 3, 5, 100])) for _ in range(rng.choice([3, 10, 40]))]
        ws = [render('fmt', ind, nl), render('io', ind, nl), render('vec', ind, nl), render('sink', ind, nl, sched=s),
              render('fmtsink', ind, nl, sched=[dict(a=rng.choice(['acc'] * 9 + ['err']), n=0) for _ in range(20)]),
              render('to_string'), render('to_vec')]
        if t:
            ws += [render('to_file_string'), render('to_file_vec'), render('fmt', ind, nl, file=True),
                   render('vec', ind, nl, file=True), render('io', ind, nl, file=True),
                   render('sink', ind, nl, sched=s, file=True)]
        cases.append(case(lang, p, ws, imps=None if t else []))
    ck.sample(dict(program=pretty(cases[0]['prog']), sink=cases[0]['renders'][0]['sched']))
    ck.sample(dict(program=pretty(cases[-1]['prog'])))
    run(ck, exe, cases)
    ck.finish()
