"""Languages defined by users: C20."""
import vlib
from vlib import cp
from streams import op, Gen, TEXTS, NLS, HOWS, REFHOW, REGHOW, from_tlc, validate, pretty, unit

IMPS = [dict(id=1, ty='a', s=cp('I')), dict(id=2, ty='b', s=cp('J')), dict(id=3, ty='a', s=[]), dict(id=4, ty='b', s=cp('I'))]
TEXT = ['I', 'BJ', '', 'BI']
DEF = {'tr': 3, 'td': 4}
FILE = ('to_file_string', 'to_file_vec')
DEFAULT = FILE + ('to_string', 'to_vec')


def rnd(rng, **kw):
    """one way to format"""
    d = dict(w=rng.choice(['fmt', 'fmt', 'io', 'vec', 'to_string', 'to_vec', 'to_file_string', 'to_file_vec']))
    if d['w'] not in DEFAULT:
        if rng.random() < 0.6:
            d['cfg'] = rng.choice(['c1', 'c2', ''])
        if rng.random() < 0.6:
            d['format'] = rng.choice(['f1', 'f2', ''])
        if rng.random() < 0.5:
            d['ind'] = rng.choice([0, 1, 2, -1])
        if rng.random() < 0.5:
            d['nl'] = cp(rng.choice(NLS))
        if rng.random() < 0.3:
            d['file'] = True
    d.update(kw)
    return d


def merge(c, o):
    rs = []
    for r, x in zip(c['renders'], o['renders']):
        cfg = r.get('cfg', 'dc')
        rs.append(dict(w=r['w'], unit=unit(r.get('ind', DEF[c['lang']])), nl=r.get('nl', [10]), res=x['res'], out=x.get('out', []),
                       lines=x.get('lines', []), file=bool(r.get('file')) or r['w'] in FILE, cfg=cfg, cfgs=cp(cfg),
                       fmt=r.get('format', 'df'), fail=r.get('fail', 0), failed=x.get('failed', False), log=x.get('log', [])))
    return dict(lang=c['lang'], prog=c['prog'], imps=[cp(t) for t in TEXT], steps=[], renders=rs)


class HGen(Gen):
    def imp(self):
        r = self.rng
        if r.random() < 0.15:
            return op('regs', 0, '', r.choice(['', 'fn']), [r.randint(1, 4), r.randint(1, 4)])
        n = r.randint(1, 4)
        return op('ref', n, '', r.choice(REFHOW)) if r.random() < 0.7 else op('reg', n, '', r.choice(REGHOW))


HINV = ['Nested', 'Refs', 'Grows', 'Written']


def c20():
    ck = vlib.Check('C20')
    exe = vlib.build_core()
    hs = []
    for voc, n in (('nest', 7 if ck.thorough else 6), ('ws', 6 if ck.thorough else 5)):
        hs += from_tlc(ck, dict(MaxLen=n, Vocab=voc), HINV, 'MCHooks', extra='CONSTRAINT Bound\n')
    seen, uniq = set(), []
    for h in hs:
        k = pretty(h)
        if k not in seen:
            seen.add(k)
            uniq.append(h)
    hs = uniq
    cap = 60000 if ck.thorough else 14000
    if len(hs) > cap:
        hs = ck.rng.sample(hs, cap)
    cases = []

    def add(lang, p, n=1, fails=0):
        rs = [rnd(ck.rng) for _ in range(n)]
        for _ in range(fails):
            f = rnd(ck.rng, fail=ck.rng.randint(1, 1 + min(12, 2 * len(p))))
            if f['w'] not in ('fmt', 'io'):
                f['w'] = ck.rng.choice(['fmt', 'io', f['w']])
            rs.append(f)
        cases.append(dict(lang=lang, prog=p, renders=rs, imps=IMPS, fin=False))

    for h in hs:
        add(ck.rng.choice(['tr', 'td']), h, 1, 1)
    # every call fails once
    for h in ck.rng.sample(hs, 3000 if ck.thorough else 400):
        rs = [dict(w='fmt', fail=k, cfg='c1', format='f1') for k in range(1, 2 + 2 * len(h))]
        cases.append(dict(lang='tr', prog=h, renders=rs, imps=IMPS, fin=False))
    for k in range(8000 if ck.thorough else 2000):
        g = HGen(ck.rng, 4, quotes=True, nested=0.15, wsw=0.6, lang='tr', texts=TEXTS)
        add(ck.rng.choice(['tr', 'tr', 'td']), g.prog(ck.rng.choice([2, 5, 10, 25])), 2, 1)
    for c in cases[-3:] + cases[:1]:
        ck.sample(pretty(c['prog']))
    ck.notes['cases'] = len(cases)
    validate(ck, exe, cases, 'C20', 'TraceHooks', mg=merge, consts=dict(Escape='<- EscapeImpl'))
    ck.finish()
