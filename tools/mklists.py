#!/usr/bin/env python3
"""Writes the committed lists harness/src/gen/*.rs (which conversions the crate
provides, select / shuffle combinations).  Run by hand only: the checks never
read the source text of /repo."""
import re, glob, random, os
R='/repo/src/'
OUT=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness/src/gen/')
W={'8':1,'16':2,'32':4,'64':8,'128':16,'size':8}
def ty(t):
    m=re.fullmatch(r'([iufm])(8|16|32|64|128|size)x(\d+)',t)
    if t.startswith('__m'):
        return ('U',1,{'__m128':16,'__m256':32}[re.match(r'__m\d+',t).group(0)])
    if t.startswith('isize'): return ('I',8,int(t[6:]))
    if t.startswith('usize'): return ('U',8,int(t[6:]))
    if t.startswith('msize'): return ('M',8,int(t[6:]))
    return (m.group(1).upper(),W[m.group(2)],int(m.group(3)))
def strip(s): return re.sub(r'//[^\n]*|/\*.*?\*/','',s,flags=re.S)
def emit(name,lines):
    fn=name[:-3]
    open(OUT+name,'w').write('// generated by tools/mklists.py\nfn list_%s() {\n'%fn+'\n'.join(lines)+'\n}\n')
    print(name,len(lines))
# casts: dst[..]: sources
L=[]
for f in sorted(glob.glob(R+'api/cast/v*.rs')):
    for m in re.finditer(r'impl_from_cast(_mask)?!\(\s*(\w+)\[\w+\]:\s*([^)]*)\)',strip(open(f).read())):
        d=m.group(2)
        for s in [x.strip() for x in m.group(3).split(',') if x.strip()]:
            L.append((s,d))
emit('cast.rs',['cast!{%s, %s, %s, %d, %d, %s, %d}'%((s,d)+ty(s)+ty(d)[:2]) for s,d in sorted(set(L))])
# From between vectors
L=[]
for f in sorted(glob.glob(R+'v*.rs')):
    t=strip(open(f).read())
    for m in re.finditer(r'impl_[iufm]!\(\s*\[\w+; \d+\]: (\w+)',t):
        seg=t[m.end():]; seg=seg[:seg.index(');')]
        if m.group(1).endswith('64x1'): continue
        for x in re.search(r'From:([^|]*)\|',seg).group(1).split(','):
            if x.strip(): L.append((x.strip(),m.group(1)))
emit('from.rs',['from!{%s, %s, %s, %d, %d, %s, %d}'%((s,d)+ty(s)+ty(d)[:2]) for s,d in sorted(set(L))])
# bit conversions
L=[]
for f in sorted(glob.glob(R+'api/into_bits/v*.rs')):
    for m in re.finditer(r'impl_from_bits!\(\s*(\w+)\[\w+\]:\s*([^)]*)\)',strip(open(f).read())):
        for s in [x.strip() for x in m.group(2).split(',') if x.strip()]:
            L.append((s,m.group(1)))
s=strip(open(R+'api/into_bits/arch_specific.rs').read())
for m in re.finditer(r'\[x86_64\["x86_64"\]: ([^\]]*)\].*?from:([^|]*)\| into:([^|]*)\| test',s,re.S):
    A=[x.strip() for x in m.group(1).split(',')]
    F=[x.strip() for x in m.group(2).split(',') if x.strip()]
    I=[x.strip() for x in m.group(3).split(',') if x.strip()]
    for a in A:
        for f in F: L.append((f,a))
        for i in I: L.append((a,i))
emit('bits.rs',['bits!{%s, %s, %s, %d, %d, %s}'%((s,d)+ty(s)+(ty(d)[0],)) for s,d in sorted(set(L))])
# select
fam={'i':['8','16','32','64','128','size'],'u':['8','16','32','64','128','size'],'m':['8','16','32','64','128','size'],'f':['32','64']}
lanes={'8':[2,4,8,16,32,64],'16':[2,4,8,16,32],'32':[2,4,8,16],'64':[2,4,8],'128':[1,2,4],'size':[2,4,8]}
L=[]
for n in (1,2,4,8,16,32,64):
    ms=['m%sx%d'%(b,n) for b in fam['m'] if n in lanes[b]]
    vs=['%s%sx%d'%(k,b,n) for k in 'iufm' for b in fam[k] if n in lanes[b]]
    for m in ms:
        for v in vs:
            L.append('sel!{%s, %s, %d, %s, %d, %d}'%(m,v,ty(m)[1],ty(v)[0],ty(v)[1],n))
emit('select.rs',L)
# shuffles
rnd=random.Random(20240)
L=[]
def pats(n,m):
    two=2*n
    out=[('2',[rnd.randrange(two) for _ in range(m)])]
    # each lane of the concatenation at least once over the patterns, when it fits
    perm=list(range(two)); rnd.shuffle(perm)
    out.append(('2',(perm*((m+two-1)//two))[:m]))
    out.append(('1',[rnd.randrange(n) for _ in range(m)]))
    if n==m:
        p=list(range(n)); rnd.shuffle(p); out.append(('1',p))
        out.append(('2',[two-1-j for j in range(m)]))
    return out
for k in 'iufm':
    for b in fam[k]:
        for n in lanes[b]:
            for m in lanes[b]:
                if m<2: continue
                for form,x in pats(n,m):
                    L.append('shuf!{%s%sx%d, %s%sx%d, %s, %d, %d, %s, [%s]}'%(k,b,n,k,b,m,k.upper(),W[b],n,'two' if form=='2' else 'one',', '.join(map(str,x))))
emit('shuffle.rs',L)
L=[]
for q in ('cptr','mptr'):
    for n in (2,4,8):
        for m in (2,4,8):
            for form,x in pats(n,m):
                L.append('shuf!{%sx%d<i32>, %sx%d<i32>, P, 8, %d, %s, [%s]}'%(q,n,q,m,n,'two' if form=='2' else 'one',', '.join(map(str,x))))
emit('shufptr.rs',L)

L=[]
for k in 'iufm':
    for b in fam[k]:
        for n in lanes[b]:
            L.append('dy!{%s%sx%d u%sx%d %s %d %d}'%(k,b,n,b,n,k.upper(),W[b],n))
emit('dyn.rs',L)

# gather/scatter: every element type with a few mask widths
def gather():
    out = []
    elems = [(k + str(8*w), k.upper(), w) for w in (1, 2, 4, 8, 16) for k in 'iu'] + [('f32', 'F', 4), ('f64', 'F', 8)]   # isize, usize and mask elements do not compile (E0511)
    masks = [('m8', 1), ('m16', 2), ('m32', 4), ('m64', 8), ('m128', 16), ('msize', 8)]
    j = 0
    for n in (2, 4, 8):
        for (e, k, w) in elems:
            if w * n > 64:
                continue
            ms = [m for m in masks if m[1] * n <= 64]
            pick = ms if e in ('i32', 'f64') else [ms[j % len(ms)]]
            j += 1
            for (m, mw) in pick:
                out.append('    gs!(%sx%d %s, %s %d %d; cptrx%d mptrx%d %sx%d %d);' % (e, n, e, k, w, n, n, n, m, n, mw))
    open(os.path.join(OUT, 'gather.rs'), 'w').write('fn list_gather() {\n' + '\n'.join(out) + '\n}\n')
gather()

# programs of register operations: vector, index vector, mask vector, kind, lane bytes, lanes
def progs():
    out = []
    for l in open(os.path.join(OUT, 'dyn.rs')):
        m = re.match(r'dy!\{(\w+) (\w+) (\w) (\d+) (\d+)\}', l)
        if m and m.group(3) in 'IUF':
            v, i, k, w, n = m.groups()
            mt = re.sub(r'^[iuf]', 'm', v)
            out.append('    prog!{%s %s %s %s %s %s}' % (v, i, mt, k, w, n))
    open(os.path.join(OUT, 'prog.rs'), 'w').write('fn list_prog() {\n' + '\n'.join(out) + '\n}\n')
progs()
