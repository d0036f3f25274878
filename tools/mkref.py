#!/opt/veriftools/pyvenv/bin/python
"""Writes spec/mathref.ndjson, the reference table of the elementary functions:
arguments and the correctly rounded real result (300-bit arithmetic).  Run by
hand; the table is committed and only read by TLC and the recorder.
 {"f": function, "w": 4|8, "a": bytes, "b": bytes, "r": bytes, "k": ulps}"""
import struct, random, math, json, os
import mpmath as mp
from fractions import Fraction
mp.mp.prec = 1400
random.seed(20)
def fb(x, w): return list(struct.pack('<f' if w == 4 else '<d', x))
def rnd(x, w):
    """round an mpf to the nearest float of w bytes"""
    if x == 0: return 0.0
    if mp.isinf(x): return float('inf') if x > 0 else -float('inf')
    p, emin, emax = (24, -149, 127) if w == 4 else (53, -1074, 1023)
    s = -1 if x < 0 else 1
    x = abs(x)
    e = int(mp.floor(mp.log(x, 2)))
    if e > emax + 2: return s*float('inf')
    if e < emin - 2: return s*0.0
    while mp.mpf(2)**e > x: e -= 1
    while mp.mpf(2)**(e+1) <= x: e += 1
    q = max(e - p + 1, emin)
    m = x / mp.mpf(2)**q
    n = int(mp.floor(m)); d = m - n
    if d > mp.mpf(1)/2 or (d == mp.mpf(1)/2 and n % 2): n += 1
    v = Fraction(n) * Fraction(2)**q
    if v >= Fraction(2)**(emax+1): return s*float('inf')
    return s*float(v)
def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]
def fl(x, w): return f32(x) if w == 4 else float(x)
NAN, INF = float('nan'), float('inf')
PIF = {4: f32(math.pi), 8: math.pi}
def mulround(x, w):
    v = mp.mpf(x) * mp.mpf(PIF[w])
    return rnd(v, w)
def isint(y): return y == math.floor(y)
def isodd(y): return isint(y) and (abs(y) < 2.0**120) and int(y) % 2 == 1
def real(f, x, y, w):
    """(result, exact?)"""
    if f == 'powf':
        if y == 0 or x == 1: return 1.0, True
        if math.isnan(x) or math.isnan(y): return NAN, True
        neg = math.copysign(1, x) < 0
        if math.isinf(y):
            a = abs(x)
            if a == 1: return 1.0, True
            return (INF if (a > 1) == (y > 0) else 0.0), True
        if x == 0 or math.isinf(x):
            big = math.isinf(x) == (y > 0)
            v = INF if big else 0.0
            return (-v if neg and isodd(y) else v), True
        if neg and not isint(y): return NAN, True
        v = rnd(mp.power(mp.mpf(abs(x)), mp.mpf(y)), w)
        return (-v if neg and isodd(y) else v), False
    if math.isnan(x): return NAN, True
    if f in ('sin_pi', 'cos_pi'):
        if math.isinf(x): return NAN, True
        x = mulround(x, w) if x != 0 else x
        if math.isinf(x): return NAN, True
        f = f[:3]
    if f in ('sin', 'cos'):
        if math.isinf(x): return NAN, True
        if x == 0: return (x if f == 'sin' else 1.0), True
        return rnd(mp.sin(mp.mpf(x)) if f == 'sin' else mp.cos(mp.mpf(x)), w), False
    if f == 'exp':
        if math.isinf(x): return (INF if x > 0 else 0.0), True
        if x == 0: return 1.0, True
        if x > 800: return INF, True
        if x < -800: return 0.0, True
        return rnd(mp.exp(mp.mpf(x)), w), False
    if f == 'ln':
        if x == 0: return -INF, True
        if x < 0: return NAN, True
        if math.isinf(x): return INF, True
        if x == 1: return 0.0, True
        return rnd(mp.log(mp.mpf(x)), w), False
    if f == 'tanh':
        if math.isinf(x): return math.copysign(1.0, x), True
        if x == 0: return x, True
        if abs(x) > 500: return math.copysign(1.0, x), True
        return rnd(mp.tanh(mp.mpf(x)), w), False
def args(f, w):
    top = 3.4e38 if w == 4 else 1.7e308
    sub = 2.0**-149 if w == 4 else 5e-324
    mn = 2.0**-126 if w == 4 else 2.0**-1022
    if f == 'powf':
        A = [(x, y) for x in (0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, INF, -INF, NAN, 3.0)
                    for y in (0.0, -0.0, 1.0, -1.0, 2.0, 3.0, -3.0, 0.5, -2.5, INF, -INF, NAN)]
        for _ in range(90):
            A.append((abs(random.gauss(0, 20)), random.uniform(-8, 8)))
            A.append((math.exp(random.uniform(-30, 30)), random.uniform(-2.5, 2.5)))
            A.append((-float(random.randint(1, 40)), float(random.randint(-9, 9))))
        A += [(10.0, float(k)) for k in range(-30, 31, 6)] + [(1 + 2.0**-20, 1e5), (top, 0.5), (mn, 0.5), (1.0000001, 100.), (0.1, 30.), (2.0, 0.1)]
        # integer exponents at and beyond the precision, where oddness matters; huge and tiny results
        big = [2.0**24 - 1, 2.0**24, 2.0**24 + 2, 2.0**53 - 1, 2.0**53, 2.0**31 - 1, 2.0**31, 2.0**32, 2.0**33 + 2**20, 2.0**63, 2.0**64, 2.0**70, 1e30]
        for y in big:
            for x in (-1.0, -0.0, -INF, -2.0, -0.5, 1.5):
                A += [(x, y), (x, -y)]
        A += [(-0.0, 0.5), (-INF, 0.5), (-0.0, -0.5), (-INF, -0.5), (-0.0, 1.0/3), (-INF, 1.0/3), (-8.0, 1.0/3), (-8.0, 0.5), (sub, 0.5), (sub, -0.5), (sub, 2.0), (top, 2.0), (-top, 3.0), (-sub, 3.0), (top, -1.0), (mn, -1.0), (2.0, 127.0), (2.0, -126.0), (2.0, -149.0), (2.0, 128.0), (2.0, 1023.0), (2.0, -1022.0), (2.0, -1060.0), (2.0, 1024.0), (4.0, 63.75), (1 - 2.0**-24, 1e7), (1 + 2.0**-23, 1e7), (1 - 2.0**-53, 1e15), (1 + 2.0**-52, 1e16), (3.0, sub), (0.7, mn), (NAN, 1.0), (NAN, sub), (1.0, sub)]
        for y in (-4.0, -1.5, -1.0, -0.5, 0.25, 1.0/3, 0.5, 1.5, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 31.0):
            for _ in range(6):
                A.append((math.exp(random.uniform(-2.7, 2.7)), y))
                A.append((-math.exp(random.uniform(-2.7, 2.7)), y))
        for _ in range(30):
            # results near the largest and the smallest normal and subnormal numbers
            x = math.exp(random.uniform(0.1, 3))
            e = random.choice([88.5, -87.0, -95.0] if w == 4 else [709.0, -708.0, -730.0])
            A.append((x, e / math.log(x) * random.uniform(0.98, 1.01)))
        return [(fl(min(max(x, -top), top) if not (math.isinf(x) or math.isnan(x)) else x, w), fl(min(max(y, -top), top) if not (math.isinf(y) or math.isnan(y)) else y, w)) for x, y in A]
    A = [0.0, -0.0, INF, -INF, NAN, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1e-3, -1e-3, 1e-10, sub, -sub, mn, 0.25, -0.25, 0.75, 1.5, 3.0, 10.0, -10.0]
    if f in ('sin', 'cos'):
        A += [math.pi * k / 4 for k in range(-12, 13)] + [random.uniform(-10, 10) for _ in range(80)] + [random.uniform(-1000, 1000) for _ in range(40)] + [random.choice([-1, 1]) * 10**random.uniform(-8, 6) for _ in range(40)]
    elif f in ('sin_pi', 'cos_pi'):
        A += [k / 8 for k in range(-32, 33)] + [random.uniform(-4, 4) for _ in range(80)] + [random.uniform(-300, 300) for _ in range(30)]
    elif f == 'exp':
        lim = 80 if w == 4 else 700
        A += [random.uniform(-lim, lim) for _ in range(70)] + [random.uniform(-3, 3) for _ in range(80)] + [88.0, 89.5, -87.0, -88.5, -110.0, 709.0, 710.5, -740.0, -760.0, 1e4, -1e4]
    elif f == 'ln':
        A += [math.exp(random.uniform(-60, 60)) for _ in range(90)] + [random.uniform(0.5, 2) for _ in range(60)] + [top, 1 + 2.0**-23, 1 - 2.0**-24, math.e, 1e-30, 1e30, 7.0, 100.0, -top]
    elif f == 'tanh':
        A += [random.uniform(-3, 3) for _ in range(90)] + [random.uniform(-25, 25) for _ in range(40)] + [random.choice([-1, 1]) * 10**random.uniform(-12, 0) for _ in range(30)] + [100.0, -100.0, top, -top]
    # every binade now and then, both signs; just below and above the points where implementations switch
    A += [random.choice([-1, 1]) * random.uniform(1, 2) * 2.0**e for e in (range(-149, 128, 7) if w == 4 else range(-1074, 1024, 41))]
    if f in ('sin', 'cos', 'sin_pi', 'cos_pi'):
        A += [random.choice([-1, 1]) * random.uniform(1, 2) * 2.0**e for e in range(-30, 60)] + [1e15, 1e22, top, -top, 2.0**24 + 2, 2.0**31, 2.0**32, 2.0**53 - 1]
        A += [0.1, 0.3, 1/3, 2/3, 1e5 + .25, 1e5 + .5, 4096.125]
    if f == 'exp':
        A += [(1 if k % 2 else -1) * 2.0**-k for k in range(1, 30)] + [math.log(2) * k for k in range(-20, 21)] + ([88.72, 88.73, -87.33, -87.34, -95.0, -100.0, -103.0, -103.9, -104.1] if w == 4 else [709.78, 709.79, -708.39, -708.4, -720.0, -735.0, -744.0, -745.1, -745.2])
    if f == 'ln':
        A += [2.0**k for k in range(-126, 128, 6)] + [1 + s * 2.0**-k for k in range(1, 24) for s in (1, -1)] + [sub * k for k in (2, 3, 7, 1000, 12345)] + [math.exp(k) for k in range(-20, 21, 3)]
    if f == 'tanh':
        A += [s * x for x in (0.3, 0.55, 0.62, 0.9, 2.0, 4.0, 7.9, 8.9, 9.1, 10.5, 15.0, 18.0, 19.5, 22.5, 40.0, 88.0, 89.0, 355.0, 356.0, 710.0) for s in (1, -1)] + [(1 if k % 2 else -1) * 2.0**-k for k in range(1, 40)]
    return [(fl(min(max(x, -top), top) if not (math.isinf(x) or math.isnan(x)) else x, w), 0.0) for x in A]
out = []
for w in (4, 8):
    for f in ('sin', 'cos', 'exp', 'ln', 'tanh', 'powf', 'sin_pi', 'cos_pi'):
        seen = set()
        for (x, y) in args(f, w):
            key = (tuple(fb(x, w)), tuple(fb(y, w)))
            if key in seen: continue
            seen.add(key)
            v, ex = real(f, x, y, w)
            if w == 4 and not math.isinf(v) and not math.isnan(v): v = f32(v)
            out.append(dict(f=f, w=w, a=fb(x, w), b=fb(y, w) if f == 'powf' else [], r=fb(v, w), k=0 if ex else 4))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'mathref.ndjson')
with open(p, 'w') as o:
    for e in out:
        o.write(json.dumps(e, separators=(',', ':')) + '\n')
print(len(out))
