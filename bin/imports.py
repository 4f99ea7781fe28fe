"""Imports and preambles: C12, C13, C14 (and the programs with real imports of C05)."""
import json, re
import vlib
from vlib import cp, uncp
from streams import op, case, render, pretty

# ------------------------------------------------------------------ pools

def D(f, *a, m=()):
    return dict(f=f, a=[cp(x) for x in a], m=[[k, cp(x)] for k, x in m])


def I(*a, m=()):
    return D('import', *a, m=m)


WA = 'with_alias'
MA = 'with_module_alias'
POOLS = {
    'rust': ([
        I('std::fmt', 'Debug'), I('std::fmt', 'Debug', m=[(WA, 'D2')]), I('std::fmt', 'Debug', m=[('qualified', '')]),
        I('std::fmt', 'Debug', m=[(MA, 'fmt2')]), I('std', 'fmt'), I('std::collections', 'HashMap'),
        I('std::fmt', 'Display'), I('std::fmt', 'Result', m=[(WA, 'R'), ('qualified', '')]), I('mycrate', 'X', m=[('qualified', '')]),
        I('mycrate', 'X', m=[(MA, 'mc')]), I('a::fmt', 'Debug', m=[('direct', '')]), I('a::fmt', 'Y', m=[(MA, 'fmt3')]),
        I('a::fmt', 'Y', m=[(MA, 'fmt2')]), I('a::b::c', 'Z', m=[('qualified', ''), (WA, 'Z3')])],
        [{}, {'mode': 'q'}, {'mode': 'd'}]),
    'python': ([
        I('collections', 'a'), I('collections', 'a', m=[(WA, 'x')]), I('collections', 'b'), I('collections', 'a', m=[('qualified', '')]),
        I('collections', 'a', m=[(MA, 'c')]), D('import_module', 'collections'), D('import_module', 'collections', m=[(WA, 'col')]),
        I('os.path', 'join'), I('os.path', 'join', m=[('qualified', '')]), D('import_module', 'os.path'),
        D('import_module', 'os.path', m=[(WA, 'p')]), I('os.path', 'join', m=[(WA, 'j'), ('qualified', '')]),
        I('os', 'path', m=[('qualified', ''), (MA, 'o')]), I('os', 'path', m=[(MA, 'q'), (WA, 'pp')])],
        [{}]),
    'js': ([
        I('collections', 'vec'), I('collections', 'vec', m=[(WA, 'list')]), I('collections', 'dv', m=[('into_default', '')]),
        I('collections', 'dv2', m=[('into_default', '')]), I('collections', 'all', m=[('into_wildcard', '')]),
        I('collections', 'all2', m=[('into_wildcard', '')]), I('util', 'map'), I('util', 'vec', m=[(WA, 'vec2')]),
        D('import_path', 'foo/bar.js', 'bar'), D('import_path', 'foo/sub/x.js', 'y', m=[('into_default', '')]),
        D('import_path', 'other.js', 'z', m=[('into_wildcard', '')]), I('q"t\n', 'w'), I('collections', 'set'),
        I('util', 'u', m=[('into_wildcard', ''), (WA, 'ua')]), I('util', 'u', m=[(WA, 'ub'), ('into_default', '')]),
        I('foo/bar.js', 'bar'), I('../bar.js', 'bar'), I('../../other.js', 'z', m=[('into_wildcard', '')]), I('../bar.js', 'dv3', m=[('into_default', '')])],
        [{}, {'path': 'foo/baz.js'}, {'path': 'foo/sub'}, {'path': 'a/b/c.js'}]),
    'dart': ([
        I('dart:math', 'Sin'), I('dart:math', 'Sin', m=[(WA, 'm')]), I('dart:core', 'int'), I('dart:core', 'int', m=[(WA, 'core')]),
        I('package:http/http.dart', 'Client'), I('package:http/http.dart', 'Client', m=[(WA, 'http')]), I('dart:math', 'Cos'),
        I('dart:math', 'Cos', m=[(WA, 'm2')]), I('a.dart', 'm'), I('q"$x', 'w')],
        [{}]),
    'go': ([I('fmt', 'Println'), I('fmt', 'Printf'), I('foo/bar', 'Debug'), I('foo/bar', 'Other'), I('a/b/c', 'X'), I('x/fmt', 'Y'),
            I('q"t', 'Z')], [{}, {'pkg': 'main'}]),
    'swift': ([I('Foundation', 'Debug'), I('Foundation', 'Other'), I('UIKit', 'View'), I('UIKit', 'Debug'), I('A', 'B')], [{}]),
    'c': ([D('include', 'foo/bar.h', 'my_t'), D('include_system', 'stdio.h', 'printf'), D('include', 'stdio.h', 'printf'),
           D('include_system', 'foo/bar.h', 'my_t'), D('include', 'foo/bar.h', 'other'), D('include_system', 'a.h', 'x')], [{}]),
    'java': ([I('java.io', 'A'), I('java.lang', 'A'), I('p.q', 'A'), I('z', 'A'), I('java.io', 'B'), I('p.q', 'B'), I('java.lang', 'C'),
              I('java.lang.reflect', 'A'), I('p', 'B'), I('p', 'E'), I('z', 'C'), I('p.q', 'F'), I('java.util', 'G')],
             [{}, {'pkg': 'p.q'}, {'pkg': 'p'}, {'pkg': 'java.io'}, {'pkg': 'other'}, {'pkg': 'java.lang'}]),
    'csharp': ([I('Foo.Bar', 'A'), I('Foo.Bar', 'B'), I('Foo.Baz', 'A'), I('Foo.Baz', 'C'), I('System', 'A'), I('System', 'C'),
                I('Foo', 'A'), I('Foo', 'E'), I('Foo.Bar', 'A', m=[('qualified', '')]), I('System', 'F', m=[('qualified', '')]),
                I('Zed', 'B'), I('Zed', 'G')],
               [{}, {'ns': 'Foo.Bar'}, {'ns': 'Foo'}, {'ns': 'Foo.Bar.Deep'}, {'ns': 'Other'}, {'ns': 'System'}]),
}
CFG0 = dict(mode='', path=[], pkg=[], ns=[])


def spec_cfg(cfg):
    d = dict(CFG0)
    for k, v in cfg.items():
        d[k] = v if k == 'mode' else cp(v)
    return d


# ------------------------------------------------------------------ reading preambles

ID = r'[A-Za-z_]\w*'
RPATH = r'%s(?:::%s)*' % (ID, ID)


def decl(k, m='', n='', a=''):
    return dict(k=k, m=cp(m), n=cp(n), a=cp(a))


def unquote(s):
    """paths in preambles: literals which are quoted with backslashes"""
    m = re.fullmatch(r'"((?:[^"\\\n\r]|\\.)*)"', s)
    if not m:
        return None
    return re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t', 'r': '\r'}.get(x.group(1), x.group(1)), m.group(1))


def read_rust(l):
    m = re.fullmatch(r'use (%s)(?: as (%s))?;' % (RPATH, ID), l)
    if m:
        p = m.group(1)
        return [decl('use', p, '', m.group(2) or p.split('::')[-1])]
    m = re.fullmatch(r'use (%s)::\{([^{}]*)\};' % RPATH, l)
    if not m:
        return None
    out = []
    for x in m.group(2).split(', '):
        y = re.fullmatch(r'(%s)(?: as (%s))?' % (ID, ID), x)
        if not y:
            return None
        n, al = y.groups()
        p = m.group(1) if n == 'self' else m.group(1) + '::' + n
        out.append(decl('use', p, '', al or p.split('::')[-1]))
    return out


def read_python(l):
    dotted = r'%s(?:\.%s)*' % (ID, ID)
    m = re.fullmatch(r'import (%s)(?: as (%s))?' % (dotted, ID), l)
    if m:
        return [decl('import', m.group(1), '', m.group(2) or '')]
    m = re.fullmatch(r'from (%s) import (.*)' % dotted, l)
    if not m:
        return None
    out = []
    for x in m.group(2).split(', '):
        y = re.fullmatch(r'(%s)(?: as (%s))?' % (ID, ID), x)
        if not y:
            return None
        out.append(decl('from', m.group(1), y.group(1), y.group(2) or ''))
    return out


def read_js(l):
    m = re.fullmatch(r'import (.*) from ("[^\n]*");', l)
    if not m:
        return None
    mod = unquote(m.group(2))
    if mod is None:
        return None
    c = m.group(1)
    y = re.fullmatch(r'\* as (%s)' % ID, c)
    if y:
        return [decl('wildcard', mod, y.group(1))]
    y = re.fullmatch(r'(?:(%s))?(, )?(?:\{(.+)\})?' % ID, c)
    if not y or not c or bool(y.group(2)) != bool(y.group(1) and y.group(3)):
        return None
    out = [decl('default', mod, y.group(1))] if y.group(1) else []
    for x in (y.group(3).split(', ') if y.group(3) else []):
        z = re.fullmatch(r'(%s)(?: as (%s))?' % (ID, ID), x)
        if not z:
            return None
        # {X as X} is {X}
        out.append(decl('named', mod, z.group(1), '' if z.group(2) in (None, z.group(1)) else z.group(2)))
    return out


def read_dart(l):
    m = re.fullmatch(r'import ("[^\n]*?")(?: as (%s))?;' % ID, l)
    p = m and unquote(m.group(1))
    return None if p is None else [decl('import', p, '', m.group(2) or '')]


def read_go(l):
    m = re.fullmatch(r'import ("[^\n]*")', l)
    p = m and unquote(m.group(1))
    return None if p is None else [decl('import', p)]


def read_swift(l):
    m = re.fullmatch(r'import (%s)' % ID, l)
    return m and [decl('import', m.group(1))]


def read_c(l):
    m = re.fullmatch(r'#include (?:<([^<>"]*)>|("[^\n]*"))', l)
    if not m:
        return None
    if m.group(1) is not None:
        return [decl('system', m.group(1))]
    p = unquote(m.group(2))
    return None if p is None else [decl('local', p)]


def read_java(l):
    m = re.fullmatch(r'import (%s(?:\.%s)*)\.(%s);' % (ID, ID, ID), l)
    return m and [decl('import', m.group(1), m.group(2))]


def read_csharp(l):
    m = re.fullmatch(r'using (%s(?:\.%s)*);' % (ID, ID), l)
    return m and [decl('using', m.group(1))]


READ = dict(rust=read_rust, python=read_python, js=read_js, dart=read_dart, go=read_go, swift=read_swift, c=read_c,
            java=read_java, csharp=read_csharp)


def read_file(lang, cfg, text):
    """(declarations, unreadable lines, references written in the body, preamble)"""
    bad = []
    ls = text.split('\n')
    if '#BODY' in [l.strip() for l in ls]:
        k = [l.strip() for l in ls].index('#BODY')
    else:
        return [], ['no body'], [], text
    head = ls[:k]
    pre = list(head)
    if lang == 'java' and 'pkg' in cfg:
        if head[:1] != ['package %s;' % cfg['pkg']]:
            bad.append('package')
        head = head[1:]
    if lang == 'go' and 'pkg' in cfg:
        if head[:1] != ['package %s' % cfg['pkg']]:
            bad.append('package')
        head = head[1:]
    if lang == 'csharp' and 'ns' in cfg:
        if head[-1:] != ['namespace %s {' % cfg['ns']]:
            bad.append('namespace')
        head = head[:-1]
    decls = []
    for l in head:
        if l == '':
            continue
        r = READ[lang](l)
        if r is None:
            bad.append(l)
        else:
            decls += r
    uses = []
    for m in re.finditer(r'#(\d+):(.*);$', '\n'.join(ls[k:]), re.M):
        uses.append([int(m.group(1)), cp(m.group(2))])
    return decls, bad, uses, '\n'.join(pre)


# ------------------------------------------------------------------ programs

GROUP = ['tokens', '&tokens', 'clone', 'opt', 'quote_fn', 'quote', 'quote_in', 'extend_own', 'extend_iter', 'extend_vec',
         'collect_own', 'collect_ref', 'items', 'vec_items', 'slice_items', 'vec', 'slice', 'cow_o', 'vec_opt', 'collect_chunks',
         'from_fn', 'quote_in_ref', 'collect_tail', 'collect_tailref', 'extend_tail', 'collect_wide', 'collect_wideref', 'extend_wide', 'extend_nohint', 'collect_nohint']
SINGLE = {'tokens', '&tokens', 'clone', 'opt', 'quote_fn', 'quote', 'quote_in', 'extend_own', 'extend_iter', 'extend_vec',
          'collect_own', 'collect_ref', 'items', 'vec_items', 'slice_items', 'collect_tail', 'collect_tailref', 'extend_tail', 'collect_wide', 'collect_wideref', 'extend_wide', 'extend_nohint', 'collect_nohint'}
REFS = ['ref', '&ref', 'opt', 'vec', 'slice', 'quote', '&quote', 'item_same', 'item_far', 'item_ext', 'item_collect']
REGS = ['reg', '&reg', 'regfn', '&regfn', 'regtup', 'regtupfn', 'regtup2', 'regquote', 'item_reg_one', 'item_reg_extref', 'item_reg_clone']


def program(rng, uses, plain=False):
    """uses: list of (import, 'ref' | 'reg'); every reference is on a line of its own"""
    out = []
    for k, kind in uses:
        if kind == 'ref':
            out.append([op('t', 0, '#%d:' % k), op('ref', k, '', 'ref' if plain else rng.choice(REFS)), op('t', 0, ';'), op('pu')])
        else:
            out.append([op('reg', k, '', 'reg' if plain else rng.choice(REGS))])
    body = [op('t', 0, '#BODY'), op('pu')]
    while out:
        n = rng.choice([1, 1, 2, 3])
        part, out = out[:n], out[n:]
        if not plain and rng.random() < 0.4:
            how = rng.choice(GROUP)
            if how in SINGLE:
                c = [[o for p in part for o in p]]
            else:
                c = part
            if rng.random() < 0.3:
                c = [[op('nest', 0, '', 'tokens', [x])] for x in c]
            body.append(op('nest', 0, '', how, c))
            body.append(op('pu'))
        else:
            body += [o for p in part for o in p]
    return body


def variants(rng, n, k):
    """k variants of uses of n imports: order, repetition, registration"""
    ids = list(range(1, n + 1))
    out = [[(i, 'ref') for i in ids]]
    for j in range(k):
        o = list(ids)
        rng.shuffle(o)
        u = [(i, 'reg' if rng.random() < [0.3, 0.8, 0.0][j % 3] else 'ref') for i in o]
        for _ in range(rng.choice([0, 1, 3])):
            if ids:
                u.insert(rng.randint(0, len(u)), (rng.choice(ids), rng.choice(['ref', 'reg'])))
        out.append(u)
    return out


def batches(part, most, weight):
    """cuts the sets into traces which TLC can hold: a set of many imports weighs more"""
    out, b, w = [], 0, 0
    for n, x in enumerate(part):
        k = len(x['imps']) * (10 + sum(len(v['uses']) for v in x['variants']))
        if n > b and (n - b >= most or w + k > weight):
            out.append((b, n))
            b, w = n, 0
        w += k
    return out + [(b, len(part))] if part else []


def run(ck, exe, sets, prop, known, nvar=3):
    """sets: (lang, cfg, imports[, uses])"""
    rng = ck.rng
    cases, where = [], []
    for s, (lang, cfg, imps, *given) in enumerate(sets):
        vs = given[0] if given else variants(rng, len(imps), nvar)
        for v, uses in enumerate(vs):
            cases.append(case(lang, program(rng, uses, plain=v == 0), [render('fmt', None, None, file=True, cfg=cfg)] +
                              ([render('fmt', None, None, cfg=cfg)] if v < 2 else []),
                              imps=imps, fin=False))
            where.append((s, v))
    obs = vlib.run_cases(exe, cases)
    lines = [None] * len(sets)
    first = {}
    for c, o, (s, v) in zip(cases, obs, where):
        lang, cfg, imps = sets[s][:3]
        if 'crash' in o or 'panic' in o or any(r['res'] != 'ok' for r in o['renders']):
            ck.violation('file was not rendered', dict(case=c, observed=o))
            lines[s] = False
            continue
        if lines[s] is False:
            continue
        text = uncp(o['renders'][0]['out'])
        decls, bad, uses, pre = read_file(lang, cfg, text)
        if v == 0:
            lines[s] = dict(lang=lang, cfg=spec_cfg(cfg), imps=imps, decls=decls, bad=[cp(b) for b in bad], variants=[])
            first[s] = text
        plain = read_file(lang, {}, uncp(o['renders'][1]['out']))[2] if v < 2 else uses
        lines[s]['variants'].append(dict(pre=cp(pre), uses=uses, text=text, plain=plain, alone=v < 2))
    # every reference is in the body, whatever it looks like
    byset = {}
    for c, (s, v) in zip(cases, where):
        byset.setdefault(s, []).append(c)
    part, idx = [], []
    for s, l in enumerate(lines):
        if not l:
            continue
        for v, x in enumerate(l['variants']):
            want = sorted(refs_in(byset[s][v]['prog']))
            if sorted(u[0] for u in x['uses']) != want or sorted(u[0] for u in x['plain']) != want:
                ck.violation('references are missing', dict(case=byset[s][v], text=x['text']))
                break
        else:
            part.append(dict(l, variants=[dict(pre=x['pre'], uses=x['uses'], plain=x['plain'] if x['alone'] else []) for x in l['variants']]))
            idx.append(s)
    for b, e in batches(part, 8000, 400000):
        p = vlib.write_trace(ck, 't', part[b:e])
        r = vlib.tlc(ck, 'TraceImports', dict(Prop=prop), ['Conforms'], env=dict(TRACE=p))
        want = sum(1 + len(x['variants']) for x in part[b:e])
        if r['states'] != want:
            raise vlib.ToolError('trace was not consumed: %d of %d' % (r['states'], want))
        ck.validated += sum(len(x['variants']) for x in part[b:e])
        seen = set()
        for l in r['lines']:
            if not l.startswith(('B{', 'K{')):
                continue
            d = json.loads(l[1:])
            s = idx[b + d['i'] - 1]
            if l[0] == 'K' and d['what'] in known:
                ck.finding(known[d['what']])
                continue
            if s in seen:
                continue
            seen.add(s)
            v = max(1, d.get('v', 1))
            ck.violation(d['what'], dict(lang=sets[s][0], config=sets[s][1], case=byset[s][v - 1],
                                         file=lines[s]['variants'][v - 1]['text'], first=first[s],
                                         expected=d.get('want')))


def refs_in(prog):
    out = []
    for o in prog:
        if o['k'] == 'ref':
            out.append(o['n'])
        elif o['k'] == 'nest':
            for c in o['c']:
                out += refs_in(c)
    return out


# ------------------------------------------------------------------ universes

def subsets(rng, pool, upto, extra):
    """all sets up to a size, and some larger ones"""
    import itertools
    out = []
    for n in range(0, upto + 1):
        out += [list(c) for c in itertools.combinations(pool, n)]
    for _ in range(extra):
        out.append(rng.sample(pool, rng.randint(min(upto + 1, len(pool)), len(pool))))
    return out


MODS = {'rust': [WA, MA, 'qualified', 'direct'], 'python': [WA, 'qualified', MA], 'python_module': [WA],
        'js': [WA, 'into_default', 'into_wildcard'], 'dart': [WA], 'csharp': ['qualified'], 'java': [], 'go': [], 'swift': [], 'c': []}
SEPS = {'rust': '::', 'python': '.', 'js': '/', 'dart': '/', 'go': '/', 'swift': '', 'c': '/', 'java': '.', 'csharp': '.'}


def random_import(rng, lang, many=False):
    sep = SEPS[lang]
    seg = ['aa'] if many == 'one' else ['aa', 'bb', 'cc', 'fmt'] + ['m%d' % i for i in range(40 if many else 0)]
    names = ['X', 'Y', 'Zed', 'w', 'X2', 'Xx'] + (['N%d' % i for i in range(120)] if many else [])
    parts = [rng.choice(seg) for _ in range(1 if not sep else 1 if many == 'one' else rng.choice([1, 1, 2, 2, 3, 4] if not many else [1, 1, 1, 2]))]
    mod = sep.join(parts)
    f, args = 'import', [mod, rng.choice(names)]
    key = lang
    if lang == 'c':
        f = rng.choice(['include', 'include_system'])
        args[0] += '.h'
    elif lang == 'python' and rng.random() < 0.3:
        f, args, key = 'import_module', [mod], 'python_module'
    elif lang == 'js':
        f = rng.choice(['import', 'import', 'import_path'])
        if f == 'import_path':
            args[0] += '.js'
        elif rng.random() < 0.3:
            # the text which a path can be written as
            args[0] = '../' * rng.choice([0, 1, 1, 2]) + args[0] + '.js'
    elif lang == 'dart' and rng.random() < 0.2:
        args[0] = 'dart:core'
    elif lang == 'java' and rng.random() < 0.2:
        args[0] = rng.choice(['java.lang', 'java.lang.aa', 'java'])
    ms = []
    avail = list(MODS[key])
    rng.shuffle(avail)
    for m in avail[:rng.choice([0, 0, 1, 1, 2, 3])]:
        same = ([args[-1]] if args[-1].isidentifier() else []) + parts[:1] + parts[-1:]
        ms.append((m, rng.choice(['al', 'bl', 'cl', 'X'] if rng.random() < 0.75 else same) if m in (WA, MA) else ''))
    return D(f, *args, m=ms)


def random_cfg(rng, lang):
    seg = ['aa', 'bb', 'cc', 'fmt']
    if lang == 'rust':
        return rng.choice([{}, {'mode': 'q'}, {'mode': 'd'}])
    if lang == 'js':
        return rng.choice([{}, {'path': '/'.join(rng.choice(seg) for _ in range(rng.choice([1, 2, 3])))}])
    if lang == 'java':
        return rng.choice([{}, {'pkg': '.'.join(rng.choice(seg) for _ in range(rng.choice([1, 2, 3])))}])
    if lang == 'csharp':
        return rng.choice([{}, {'ns': '.'.join(rng.choice(seg) for _ in range(rng.choice([1, 2, 3, 3])))}])
    if lang == 'go':
        return rng.choice([{}, {'pkg': 'aa'}])
    return {}


def distinct(ds):
    out = []
    for d in ds:
        if d not in out:
            out.append(d)
    return out


def universe(ck, langs, upto, extra, nrand):
    rng = ck.rng
    sets = []
    for lang in langs:
        pool, cfgs = POOLS[lang]
        for n, s in enumerate(subsets(rng, pool, upto, extra)):
            for k, cfg in enumerate(cfgs):
                if len(s) < upto or ck.thorough or (n + k) % 2 == 0:
                    sets.append((lang, cfg, s))
        for k in range(nrand):
            many = ['one', 'more'][k % 2] if k < 4 or rng.random() < (0.003 if ck.thorough else 0.01) else ''
            s = distinct([random_import(rng, lang, many) for _ in range(rng.choice([30, 60, 90] if many else [1, 2, 3, 4, 6, 10]))])
            sets.append((lang, random_cfg(rng, lang), s))
    return sets


def go(prop, langs, upto, extra, nrand):
    ck = vlib.Check(prop)
    exe = vlib.build_core()
    t = ck.thorough
    sets = histories(ck, langs, 4 if t else 3, 5 if t else (6 if len(langs) < 3 else 4))
    sets += universe(ck, langs, upto + (1 if t else 0), extra * (4 if t else 1), nrand * (8 if t else 1))
    ck.notes['import_sets'] = len(sets)
    for s in (sets[len(sets) // 3], sets[-1]):
        ck.sample(dict(lang=s[0], config=s[1], imports=[dict(f=d['f'], a=[uncp(x) for x in d['a']],
                                                         m=[[m[0], uncp(m[1])] for m in d['m']]) for d in s[2]]))
    run(ck, exe, sets, prop, vlib.known_findings(prop))
    ck.finish()


def histories(ck, langs, upto, small):
    """sets of imports with all the histories in which they can be added, as enumerated by TLC"""
    pools = []
    for lang in langs:
        pool, cfgs = POOLS[lang]
        for _ in range(2):
            pools.append((lang, ck.rng.sample(pool, min(small, len(pool))), ck.rng.sample(cfgs, min(3, len(cfgs)))))
    p = vlib.write_trace(ck, 'pools', [dict(lang=l, imps=i, cfgs=[spec_cfg(c) for c in cs]) for l, i, cs in pools])
    r = vlib.tlc(ck, 'MCImports', dict(MaxLen=upto, Dump=True),
                 ['DeclaredOK', 'References', 'Paths', 'NoneWithout', 'Export'], env=dict(POOLS=p))
    by = {}
    for l in r['lines']:
        if l.startswith('C{'):
            d = json.loads(l[1:])
            by.setdefault((d['p'], d['c'], tuple(sorted({h[0] for h in d['h']}))), []).append(d['h'])
    sets = []
    for (p, c, ids), hs in sorted(by.items()):
        lang, pool, cfgs = pools[p - 1]
        ren = {n: k + 1 for k, n in enumerate(ids)}
        vs = [[(ren[n], 'reg' if g else 'ref') for n, g in h] for h in sorted(hs)]
        sets.append((lang, cfgs[c - 1], [pool[n - 1] for n in ids], vs))
    if not sets:
        raise vlib.ToolError('no histories were exported')
    return sets


def c12():
    go('C12', ['java', 'csharp'], 3, 150, 600)


def c13():
    go('C13', ['rust', 'python', 'js', 'dart', 'go', 'swift', 'c'], 2, 60, 300)


def c14():
    go('C14', ['rust', 'python', 'js', 'dart', 'go', 'swift', 'c', 'java', 'csharp'], 2, 60, 150)


def walk_cases(ck):
    """streams of the real languages, for C05"""
    from streams import Gen
    out = []
    for lang in sorted(POOLS):
        for k in range(120 if ck.thorough else 40):
            g = Gen(ck.rng, 3, quotes=True, nested=0.25, wsw=0.6, lang=lang, texts=['a', ''])
            out.append(case(lang, g.prog(ck.rng.choice([4, 8, 16])), imps=POOLS[lang][0][:3], tr=ck.rng.random() < 0.3))
    return out
