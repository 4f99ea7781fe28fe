#!/usr/bin/env python3
"""Compares the lexer of spec/Strings.tla with the real compilers and
interpreters which are installed (c, go, java, js, python, rust), on random
string literals, also those which they reject. Not a check: this validates the
specification itself (differences: Python allows lone surrogates, and the
specification is stricter about \\u005c in Java).
usage: compare_literals.py [number of literals per language] [seed]"""
import json, os, random, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'bin'))
import vlib

N = int(sys.argv[1]) if len(sys.argv) > 1 else 600
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
PIECES = {
    'all': ['\\n', '\\t', '\\r', '\\\\', '\\"', "\\'", '\\a', '\\b', '\\f', '\\v', '\\0', '\\7', '\\12', '\\123', '\\377', '\\8',
            '\\x', '\\x1', '\\x41', '\\x7f', '\\x80', '\\xff', '\\u', '\\u0041', '\\u00e9', '\\u004', '\\u{41}', '\\u{1f600}', '\\u{}',
            '\\U0001f600', '\\U00000041', '\\ud83d\\ude00', '\\e', '\\z', '\\$', '\\?', '\\s', 'a', 'F', '0', '9', '8', '7', "'", '$',
            '{', '}', '\u00e9', '\U0001f600', ' ', '\t', '\x01', '\x7f', '\u0080', '\u2028', '\u0085', '\\uu0041', '\\u0022', '\\u005c', '`'],
}


def gen():
    return ''.join(rng.choice(PIECES['all']) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))


def cps(s):
    return [ord(c) for c in s]


def utf16(s):
    b = s.encode('utf-16-be', 'surrogatepass')
    return [b[i] * 256 + b[i + 1] for i in range(0, len(b), 2)]


def python(lits, d):
    out = []
    for l in lits:
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out.append(cps(eval(compile(l, 'x', 'eval'))))
        except (SyntaxError, ValueError):
            out.append(None)
    return out


def js(lits, d):
    json.dump(lits, open(d + '/l.json', 'w'))
    open(d + '/a.js', 'w').write('''const ls=JSON.parse(require('fs').readFileSync('%s/l.json'));
console.log(JSON.stringify(ls.map(l=>{try{const s=(0,eval)('"use strict";('+l+')');return typeof s==='string'?[...Array(s.length).keys()].map(i=>s.charCodeAt(i)):null}catch(e){return null}})))''' % d)
    return json.loads(subprocess.check_output(['node', d + '/a.js']))


def go(lits, d):
    json.dump(lits, open(d + '/l.json', 'w'))
    open(d + '/main.go', 'w').write('''package main
import ("encoding/json";"fmt";"os";"go/scanner";"go/token";"strconv")
func main(){ b,_:=os.ReadFile("l.json"); var ls []string; json.Unmarshal(b,&ls); out:=[][]int{}
for _,l:=range ls { var s scanner.Scanner; fs:=token.NewFileSet(); f:=fs.AddFile("",fs.Base(),len(l)); s.Init(f,[]byte(l),nil,0)
_,t,lit:=s.Scan(); _,t2,_:=s.Scan(); if t2==token.SEMICOLON { _,t2,_=s.Scan() }
u,err:=strconv.Unquote(lit); if t!=token.STRING||t2!=token.EOF||s.ErrorCount>0||err!=nil {out=append(out,nil);continue}
r:=[]int{}; for i:=0;i<len(u);i++ {r=append(r,int(u[i]))}; out=append(out,r)}
j,_:=json.Marshal(out); fmt.Println(string(j))}''')
    open(d + '/go.mod', 'w').write('module x\ngo 1.20\n')
    return json.loads(subprocess.check_output(['go', 'run', '.'], cwd=d, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOCACHE=d + '/gc')))


def java(lits, d):
    json.dump(lits, open(d + '/l.json', 'w'))
    open(d + '/L.txt', 'wb').write(b'\0\n'.join(l.encode() for l in lits))
    open(d + '/V.java', 'w').write('''import javax.tools.*;import java.util.*;import java.net.*;import java.nio.file.*;import java.io.*;
public class V { public static void main(String[] a) throws Exception {
 JavaCompiler c=ToolProvider.getSystemJavaCompiler(); String[] ls=Files.readString(Path.of("L.txt")).split("\\0\\n",-1);
 for(int i=0;i<ls.length;i++){ final String src="public class C"+i+" { public static final String S = "+ls[i]+"; }"; final int k=i;
  JavaFileObject o=new SimpleJavaFileObject(URI.create("string:///C"+i+".java"),JavaFileObject.Kind.SOURCE){public CharSequence getCharContent(boolean b){return src;}};
  StringWriter w=new StringWriter(); boolean ok=c.getTask(w,null,null,List.of("-d","out","-proc:none"),null,List.of(o)).call();
  if(!ok){System.out.println("null");continue;}
  try(URLClassLoader cl=new URLClassLoader(new URL[]{new File("out").toURI().toURL()})){String s=(String)cl.loadClass("C"+k).getField("S").get(null);
   StringBuilder b=new StringBuilder("[");for(int j=0;j<s.length();j++){if(j>0)b.append(",");b.append((int)s.charAt(j));}System.out.println(b+"]");}
 }}}''')
    os.mkdir(d + '/out')
    out = subprocess.check_output(['java', '-Dfile.encoding=UTF-8', 'V.java'], cwd=d)
    return [json.loads(l) for l in out.decode().splitlines()]


def par(f, xs):
    with ThreadPoolExecutor(8) as p:
        return list(p.map(f, xs))


def c(lits, d):
    def one(x):
        i, l = x
        open('%s/%d.c' % (d, i), 'w').write('#include <stdio.h>\nstatic const unsigned char s[] = %s;\nint main(){for(unsigned i=0;i+1<sizeof s;i++)printf("%%d ",s[i]);}\n' % l)
        r = subprocess.run(['gcc', '-std=c11', '-pedantic-errors', '-o', '%s/%d' % (d, i), '%s/%d.c' % (d, i)], capture_output=True)
        if r.returncode:
            return None
        return [int(v) for v in subprocess.check_output(['%s/%d' % (d, i)]).split()]
    return par(one, list(enumerate(lits)))


def rust(lits, d):
    def one(x):
        i, l = x
        open('%s/%d.rs' % (d, i), 'w').write('#![allow(text_direction_codepoint_in_literal)]\nfn main(){let s:&str=%s;for c in s.chars(){print!("{} ",c as u32)}}' % l)
        r = subprocess.run(['rustc', '--edition=2021', '-Cdebuginfo=0', '-o', '%s/%d' % (d, i), '%s/%d.rs' % (d, i)], capture_output=True)
        if r.returncode:
            return None
        return [int(v) for v in subprocess.check_output(['%s/%d' % (d, i)]).split()]
    return par(one, list(enumerate(lits)))


def main():
    ck = vlib.Check('LEX')
    bad = 0
    for lang, f in dict(python=python, js=js, go=go, java=java, c=c, rust=rust).items():
        d = tempfile.mkdtemp()
        try:
            n = N if f not in (c, rust) else min(N, 400)
            lits = list(dict.fromkeys('"' + gen() + '"' for _ in range(n)))
            real = f(lits, d)
            t = d + '/t.ndjson'
            with open(t, 'w') as o:
                for l in lits:
                    o.write(json.dumps(dict(lang=lang, lit=cps(l))) + '\n')
            r = vlib.tlc(ck, 'DumpLex', {}, ['Export'], env=dict(TRACE=t))
            got = {}
            for line in r['lines']:
                if line.startswith('L{'):
                    x = json.loads(line[1:])
                    got[x['i']] = x['r']
            ok = 0
            for i, l in enumerate(lits):
                s = got[i + 1]
                v = s['out'][1:-1] if s['ok'] and s['out'].count(-10) == 1 and s['out'][0] == -10 and s['out'][-1] == -12 else None
                if v is not None and any(x < 0 for x in v):
                    v = None
                ok += v is not None
                if v != real[i]:
                    bad += 1
                    print('DIFFERENT', lang, ascii(l), 'spec', v, 'real', real[i])
            print(lang, len(lits), 'literals,', ok, 'well-formed')
        finally:
            shutil.rmtree(d)
    print('differences:', bad)


main()
