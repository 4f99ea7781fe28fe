"""One-off validation of spec/Strings.tla against real compilers and
interpreters (gcc, python, node, go, javac, rustc): for literals written by
genco, and random ones, the lexer of the specification reads what they read.
Not a registered check."""
import json, os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bin'))
import vlib, strings

rng = random.Random(7)
ck = vlib.Check('CX')
exe = vlib.build_core()
LIT = {}
pool = strings.CRIT + strings.BOUND + [ord(c) for c in 'abfnrtvx01789ABF{}()#%?/<>&@ UuN']
NOBIDI = [c for c in pool if c not in (0x202e, 0x2028, 0x2029)]
langs = ['c', 'go', 'java', 'js', 'python', 'rust']
cases = []
for n in range(6000):
    l = langs[n % len(langs)]
    cases.append(strings.lit(l, [[rng.choice(NOBIDI) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(rng.choice([1, 2]))]))
obs = vlib.run_cases(exe, cases)
lits = [(c['lang'], o['renders'][0]['out']) for c, o in zip(cases, obs)]
# random literals, for interpreters which report errors one by one
frag = ['\\', '\\x', '\\u', '\\u{', '\\U', '\\0', '\\1', '\\7', '4', '1', 'f', 'a', 'n', '}', '{', '$', '`', "'", '\\"', '\\\\', 'é', '8', '\\N', '\n', '\t', '\\U0010', 'ffff', '\\u00', '\\ud83d', '\\ude00']
for n in range(20000):
    l = ['js', 'python'][n % 2]
    lits.append((l, [ord(c) for c in '"' + ''.join(rng.choice(frag) for _ in range(rng.randint(1, 5))) + '"']))
# escapes in the other languages, accepted ones only
oth = {'c': ['\\x4', 'g', '\\101', '\\7', '8', '\\u00e9', '\\U0001F600', '\\?', '\\\'', 'a', '\\0', '1'],
       'go': ['\\x41', '\\101', '8', '\\u00e9', '\\U0001F600', 'a', '\\xff', '\\377', '\\a'],
       'java': ['\\101', '\\7', '\\477', '8', '\\u00e9', '\\uuu0041', '\\s', '\\\\', 'u0041', '\\0', '1', '\\ud83d\\ude00', '\\\'', '\\u0041'],
       'rust': ['\\x41', '\\u{e9}', '\\u{1F600}', '\\u{00001}', '\\0', '1', '\\\'', 'a']}
for l, f in oth.items():
    for n in range(500):
        lits.append((l, [ord(c) for c in '"' + ''.join(rng.choice(f) for _ in range(rng.randint(1, 5))) + '"']))
tr = vlib.write_trace(ck, 't', [dict(lang=l, lit=x) for l, x in lits])
r = vlib.tlc(ck, 'DumpLex', {}, ['Export'], env=dict(TRACE=tr))
spec = [None] * len(lits)
for x in r['lines']:
    if x.startswith('L{'):
        d = json.loads(x[1:])
        spec[d['i'] - 1] = d['r']
d = tempfile.mkdtemp()


def want(k):
    s = spec[k]
    if not s['ok'] or s['out'][0] != -10 or s['out'][-1] != -12 or any(x < 0 for x in s['out'][1:-1]):
        return None
    return s['out'][1:-1]


def run(cmd):
    return subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(vlib.ENV, GOCACHE=d + '/gc', GOFLAGS='-mod=mod', GO111MODULE='off'))


bad = 0
for l in langs:
    ks = [k for k in range(len(lits)) if lits[k][0] == l]
    S = {k: ''.join(map(chr, lits[k][1])) for k in ks}
    got = {}
    if l == 'python':
        for k in ks:
            try:
                compile(S[k], 'x', 'eval')
                v = __import__('ast').literal_eval(S[k])
                got[k] = [ord(c) for c in v]
            except (SyntaxError, ValueError):
                got[k] = None
    elif l == 'js':
        json.dump({k: S[k] for k in ks}, open(d + '/in.json', 'w'))
        open(d + '/x.js', 'w').write('''const m=JSON.parse(require("fs").readFileSync("in.json"));const o={};
for(const k in m){try{const v=(0,eval)('"use strict";('+m[k]+')');o[k]=Array.from({length:v.length},(_,i)=>v.charCodeAt(i))}catch(e){o[k]=null}}
console.log(JSON.stringify(o))''')
        got = {int(k): v for k, v in json.loads(run(['node', 'x.js']).stdout).items()}
    else:
        ok = [k for k in ks if want(k) is not None]
        if l == 'c':
            src = '#include <stdio.h>\n#define P(s) do{const char x[]=s;for(unsigned i=0;i+1<sizeof x;i++)printf("%d ",(unsigned char)x[i]);puts("");}while(0)\nint main(){\n' + ''.join('P(%s);\n' % S[k] for k in ok) + '}'
            open(d + '/a.c', 'w').write(src)
            p = run(['gcc', '-w', '-o', 'a', 'a.c'])
            o = run(['./a'])
        elif l == 'go':
            open(d + '/a.go', 'w').write('package main\nimport "fmt"\nfunc p(s string){for _,b:=range []byte(s){fmt.Print(b," ")};fmt.Println()}\nfunc main(){\n' + ''.join('p(%s)\n' % S[k] for k in ok) + '}\n')
            o = p = run(['go', 'run', 'a.go'])
        elif l == 'java':
            fs = [ok[i:i + 300] for i in range(0, len(ok), 300)]
            src = 'public class A{static void p(String s){StringBuilder b=new StringBuilder();for(int i=0;i<s.length();i++)b.append((int)s.charAt(i)).append(" ");System.out.println(b);}\n'
            for n, f in enumerate(fs):
                src += 'static void f%d(){%s}\n' % (n, ''.join('p(%s);\n' % S[k] for k in f))
            src += 'public static void main(String[] a){%s}}' % ''.join('f%d();' % n for n in range(len(fs)))
            open(d + '/A.java', 'w').write(src)
            p = run(['javac', '-encoding', 'UTF-8', 'A.java'])
            o = run(['java', 'A'])
        else:
            open(d + '/a.rs', 'w').write('#![allow(text_direction_codepoint_in_literal)]fn p(s:&str){for c in s.chars(){print!("{} ",c as u32)}println!()}\nfn main(){\n' + ''.join('p(%s);\n' % S[k] for k in ok) + '}')
            p = run(['rustc', 'a.rs'])
            o = run(['./a'])
        if p.returncode:
            print(l, 'does not compile', p.stderr.decode()[:1500])
            bad += 1
            continue
        ls = o.stdout.decode().split('\n')[:-1]
        assert len(ls) == len(ok), (l, len(ls), len(ok))
        got = {k: [int(x) for x in y.split()] for k, y in zip(ok, ls)}
    n = acc = 0
    for k, g in got.items():
        w = want(k)
        # stricter on purpose: no lone surrogates, no line continuations
        if l == 'python' and g is not None and any(0xd800 <= x < 0xe000 for x in g):
            continue
        if w is None and '\n' in S[k]:
            continue
        n += 1
        acc += g is not None
        if w != g:
            bad += 1
            if bad < 20:
                print('DIFF', l, repr(S[k]), 'spec', spec[k], 'real', g)
    print(l, n, 'literals,', acc, 'accepted')
print('differences:', bad)
