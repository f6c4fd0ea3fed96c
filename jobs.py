"""Job tables: for every property the harness entries, their parameters and their time limits.

A job is J(entry, params, t=seconds allowed, q=True when it belongs to the quick tier, **engine options)."""

class Job:
    def __init__(self, entry, params, t, q, cost, opts):
        self.entry, self.params, self.t, self.q, self.cost, self.opts = entry, params, t, q, cost, opts

def flat(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)): r += flat(*x)
        else: r.append(int(x))
    return r

# ---- data segments (see harness/src/gen.rs)
def rnd(n, seed=1): return [0, n, seed, 0]
def small(n, k, base=0): return [1, n, k, base]
def rep(n, b): return [2, n, b, 0]
def text(n): return [3, n, 0, 0]
def fib(n, k, base=0): return [4, n, k, base]
def pairs(n): return [5, n, 0, 0]
def sym(n, lo=0, hi=255): return [6, n, lo, hi]
def back(n, dist): return [7, n, dist, 0]
def debruijn(n): return [15, n, 0, 0]
def words(n, a): return [16, n, a, 0]
def symback(n, dist, spread): return [8, n, dist, spread]
def symrep(n, lo=0, hi=255): return [9, n, lo, hi]
def upto(n, lo=0, hi=255): return [10, n, lo, hi]
def repto(n, b): return [11, n, b, 0]
def backto(n, dist): return [12, n, dist, 0]
def bits(n, val, mask): return [13, n, val, mask]
def classes(n, a, b): return [14, n, a, b]
def data(*segs): return [len(segs)] + flat(*segs)

# ---- options
MSB, LSB = 0, 1
def lzw(w=12, o=LSB, clear=256, stop=257, hb=0, hd=1, chunk=4096, ms=255): return [w, o, clear, stop, hb, hd, chunk, ms]
STD = lzw()
TD1 = lzw(12, LSB, 0, 0, 16, 4, 4096, 255)
def tiny(w=4, o=MSB, clear=4, stop=5, hb=0, hd=1, chunk=4096, ms=3): return [w, o, clear, stop, hb, hd, chunk, ms]
def lzss(w=4096, t=2, l=60, pre=32, header=1): return [w, t, l, pre, header]
LSTD = lzss()
def LZW(o): return [0] + o
def LZSS(o): return [1] + o
PORT = [2]
TD0 = [3]

# entries that need parameters outside the documented ones: run only if the library accepts them (params, bytes of a trial run)
GATES = {'h_huff': ([2, 1, 6, 3, 0, 1], '000100')}

def J(entry, *params, t=30, q=True, cost=1, **opts): return Job(entry, flat(*params), t, q, cost, opts)

def seam(w, l, at, m, back_by, seed=11):
    """a string of m bytes that begins `at` bytes before the window position wraps to 0, and a copy of it back_by later"""
    n = l - 1 - at if l - 1 >= at else w + l - 1 - at   # window position w-1 is data index l-1
    return [rnd(n, seed), rnd(m, seed + 1), rnd(back_by - m, seed + 2), back(m, back_by)]
JOBS = {}

def sweep():
    """LZW option sets of many code widths, reserved codes, headers and chunk sizes"""
    i = 0
    for w in (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64):
        for ch in (1, 2, 3, 5):
            for cl, st, hb, hd in ((256, 257, 0, 1), (257, 0, 0, 1), (0, 256, 16, 1), (0, 0, 20, w), (300, 258, 9, 9), (257, 256, 13, 2)):
                i += 1
                yield i * 40503 >> 6, lzw(w, i * 2654435761 >> 13 & 1, cl, st, hb, hd, ch)


# ------------------------------------------------------------------ C01
def c01():
    r = []
    rt = lambda o, *d, **k: r.append(J('h_round_trip', LZW(o), data(*d), **k))
    # every short message, standard options and Teledisk options
    rt(STD, upto(4, 0, 2)); rt(STD, sym(1), hash='real'); rt(STD, sym(2, 90, 105)); rt(STD, sym(2), q=False, t=200); rt(TD1, upto(4, 0, 2)); rt(lzw(12, MSB), upto(4, 254, 255)); rt(STD, sym(3, 95, 105), q=False, t=600)
    rt(STD, text(90), sym(2, 97, 100)); rt(STD, symrep(9), hash='real'); rt(STD, rep(20, 7), repto(12, 7), sym(1, 6, 8))
    # small alphabets: table full, chunk ends, each way of ending
    for o in (MSB, LSB):
        rt(tiny(4, o), sym(6, 0, 3), t=60)
        rt(tiny(4, o, chunk=3), sym(6, 0, 3), t=60)
        rt(tiny(4, o, chunk=2, clear=6, stop=4), sym(5, 0, 3))
        rt(tiny(3, o, 2, 3, ms=1), sym(9, 0, 1))
        rt(tiny(5, o, clear=0, stop=5, hb=16, hd=5, chunk=3), sym(6, 0, 3), t=60)
        rt(tiny(5, o, clear=4, stop=0, hb=11, hd=1, chunk=2), sym(5, 0, 3))
        rt(tiny(4, o), small(60, 4), sym(4, 0, 3))                   # table long since full
        rt(tiny(4, o, clear=0, stop=15), small(31, 3), sym(4, 0, 3))
        rt(tiny(4, o, clear=15, stop=14, chunk=7), small(40, 4), sym(4, 0, 3))
        rt(lzw(9, o, 256, 257), rnd(230, 3), sym(2, 0, 7))               # 9-bit table filling up
        rt(lzw(9, o, 256, 257, chunk=30), rnd(90, 3), sym(2, 0, 7))
        rt(lzw(9, o, 0, 0), rnd(20, 5), sym(2, 0, 15))
        rt(lzw(13, o, 0, 0, 13, 13, 5), rnd(11, 5), sym(2, 0, 15))
        rt(lzw(16, o, 300, 65535, 0, 1, 6), text(40), sym(2, 97, 101))
        rt(lzw(9, o, 0, 0, 16, 3, 4, 255), text(33), sym(3, 97, 98))
        rt(lzw(10, o, 257, 256, 20, 1, 9), text(33), sym(2, 97, 101))
    rt(STD, rep(3000000, 32), sym(1, 32, 33), hash='real', t=500, cost=40); rt(STD, rep(7600000, 32), sym(1, 32, 33), hash='real', t=1500, cost=40, q=False)
    r.append(J('h_lzw_any', 1, 3, 3, data(upto(4, 0, 1)), t=90, cost=5))
    r.append(J('h_lzw_any', 3, 4, 2, data(sym(3, 0, 3)), t=90, cost=5))
    r.append(J('h_lzw_any', 255, 9, 8, data(text(9), sym(1, 97, 100)), t=400, cost=5, q=False)); r.append(J('h_lzw_any', 255, 9, 2, data(sym(2, 97, 98)), t=90, cost=5)); r.append(J('h_lzw_any', 255, 9, 2, data(text(3), sym(1, 97, 98)), t=300, cost=5, q=False)); r.append(J('h_lzw_any', 255, 9, 3, data(text(5), sym(1, 97, 98)), t=300, cost=5, q=False))
    r.append(J('h_lzw_any', 1, 3, 3, data(small(7, 2), sym(3, 0, 1)), t=90, cost=5))
    for ch in (1, 2, 3):
        for o in (MSB, LSB): rt(lzw(9, o, 0, 0, 16, 9, ch), text(5), sym(2, 97, 98)); rt(tiny(4, o, 4, 0, 12, 1, ch), sym(4, 0, 3)); rt(tiny(4, o, 4, 5, 0, 1, ch), sym(4, 0, 3))
    rt(lzw(12, LSB, 0, 0, 16, 1, 2000), rnd(2010, 9), sym(2, 0, 2), hash='real', t=90, cost=6); rt(lzw(12, MSB, 0, 0, 16, 1, 5000), rnd(4200, 9), sym(1, 0, 2), hash='real', t=90, cost=7)
    # long histories: 4096 codes to the first reset; the full 12-bit table
    for n in (4090, 4100):
        rt(TD1, rnd(n, 9), sym(3, 0, 2), hash='real', t=90, cost=9)
        rt(STD, rnd(n, 9), sym(3, 0, 2), hash='real', t=90, cost=9)
    rt(lzw(12, MSB), small(9000, 16), sym(2, 0, 15), hash='real', t=90, cost=9, q=False)
    rt(lzw(12, LSB, chunk=100000), rnd(3900, 2), sym(2, 0, 3), hash='real', t=90, cost=9)
    rt(lzw(64, LSB, 256, (1 << 64) - 1), text(10), sym(2, 97, 99)); rt(lzw(64, MSB, 0, 0, 63, 1, 5), text(12), sym(1, 97, 99)); rt(lzw(64, MSB, 0, 0, 64, 1, 5), text(12), sym(1, 97, 99))
    for c in (1, 0): r.append(J('h_claim', LZW(STD), c, 1073741823, data(text(5)), t=60))
    for i, o in sweep(): rt(o, upto(5, 97, 98), q=i % 2 == 1); rt(o, rep(3, 97), upto(4, 97, 98), q=i % 2 == 0)
    # wide codes, and more than 4096 of them without a reset
    for w in (20, 24, 31, 32, 33, 48, 63): rt(lzw(w, w % 2, 256, (1 << w) - 1), text(30), sym(2, 97, 99)); rt(lzw(w, w % 2, 0, 0, 33, 1, 5), text(30), sym(2, 97, 99))
    rt(lzw(13, MSB, chunk=1000000), rnd(4400, 9), sym(2, 0, 2), hash='real', t=120, cost=8); rt(lzw(16, LSB, chunk=1000000), rnd(4400, 9), sym(2, 0, 2), hash='real', t=120, cost=8); rt(lzw(14, LSB, 0, 0, 20, 1, 9000), rnd(9100, 9), sym(1, 0, 2), hash='real', t=120, cost=8)
    # the 16 and 17 bit tables filled to the end and beyond
    rt(lzw(16, MSB, chunk=1000000), debruijn(65536), rnd(300, 9), sym(1, 0, 2), hash='real', t=200, cost=12); rt(lzw(17, LSB, chunk=1000000), debruijn(65536), rnd(1500, 9), sym(1, 0, 1), hash='real', t=200, cost=12); rt(lzw(16, LSB, 0, 0, 24, 1, 65400), debruijn(65536), rnd(300, 9), sym(1, 0, 2), hash='real', t=200, cost=12)
    rt(lzw(17, MSB, chunk=1000000), rnd(132000, 9), sym(1, 0, 1), hash='real', t=900, cost=8, q=False)
    return r
JOBS['C01'] = c01()

BIG = ((4096, 2, 300), (257, 2, 256), (256, 2, 255), (512, 254, 258), (600, 300, 400), (1024, 256, 270), (1024, 255, 300))
# ------------------------------------------------------------------ C02
def c02():
    r = []
    rt = lambda o, *d, **k: r.append(J('h_round_trip', LZSS(o), data(*d), **k))
    rt(LSTD, upto(3, 31, 33), t=60); rt(LSTD, upto(4, 31, 33), t=200, q=False); rt(LSTD, sym(2)); rt(LSTD, sym(6, 97, 98)); rt(LSTD, symrep(7)); rt(LSTD, rep(3, 120), repto(130, 120), sym(1, 120, 121))
    rt(LSTD, text(120), sym(3, 97, 100)); rt(LSTD, text(81), backto(70, 81), sym(1))
    for w, t, l in ((16, 1, 6), (8, 1, 4), (12, 2, 5), (20, 3, 9), (9, 0, 3), (64, 2, 18), (61, 2, 60), (5, 1, 4)):
        rt(lzss(w, t, l, 97), sym(6, 97, 98))
        rt(lzss(w, t, l), small(3 * w, 2, 97), sym(5, 97, 98))
        rt(lzss(w, t, l, 0), small(2 * w + 5, 3, 0), sym(4, 0, 2))
        rt(lzss(w, t, l), small(5 * w, 4, 97), symrep(l + 3, 97, 100), sym(2, 97, 100))
        rt(lzss(w, t, l), small(w, 3, 97), small(w, 3, 97), symback(2 * l, w // 2, w - w // 2 - 1) if w > 5 else sym(3, 97, 99), sym(1, 97, 99))
    r.append(J('h_lzss_any', 3, 5, data(sym(4, 97, 98)), t=120, cost=6))
    r.append(J('h_lzss_any', 3, 6, data(small(25, 2, 97), sym(2, 97, 98)), t=120, cost=6))
    r.append(J('h_lzss_any', 9, 6, data(small(60, 3, 97), sym(1, 97, 99)), t=200, cost=6, q=False))
    # more than a megabyte
    rt(LSTD, rep(1100000, 32), sym(1, 32, 33), t=300, cost=20); rt(lzss(16, 2, 16), rep(1100000, 32), sym(1, 32, 33), t=300, q=False)
    # the standard window: wrapped, copies at any distance
    rt(LSTD, rnd(4300, 3), symback(20, 100, 5), sym(1), t=120, cost=8)
    rt(LSTD, rnd(4300, 3), symback(20, 100, 255), sym(1), t=400, cost=9, q=False)
    rt(LSTD, rnd(4300, 3), symback(64, 3990, 12), sym(1), t=120, cost=8)
    rt(LSTD, rnd(4300, 3), symback(64, 3990, 105), sym(1), t=400, cost=9, q=False)
    rt(LSTD, rnd(4300, 3), symback(5, 2100, 7), sym(1), t=120, cost=8)
    rt(LSTD, rnd(4300, 3), symback(5, 2100, 255), sym(1), t=400, cost=9, q=False)
    for n in (3, 20, 60): rt(LSTD, rnd(4300, 3), symback(n, 4032, 8), sym(1, 0, 3), t=120, cost=4)
    rt(LSTD, small(9000, 2, 65), sym(4, 65, 66), t=90, cost=8)
    rt(LSTD, small(6000, 5, 65), sym(2, 65, 69), t=90, cost=8)
    # the tree is rebuilt
    rt(lzss(64, 2, 18), rnd(32800, 3), sym(1), t=90, cost=9)
    rt(lzss(64, 2, 18), rnd(32600, 3), sym(1, 0, 3), t=90, cost=9)
    rt(LSTD, fib(40000, 22, 40), sym(1), t=90, cost=9)
    for a, m in ((4, 63), (63, 62), (1, 63)): rt(LSTD, rnd(4300, 3), classes(5, a, m), text(3), t=120, cost=8, q=a == 4)
    # strings that begin just before the end of the ring and go on in its mirror
    for at in (0, 1, 2, 57, 58, 59):
        for m in (3, 58, 59, 60): rt(LSTD, *seam(4096, 60, at, m, 200), sym(1), t=60, cost=2, q=m in (3, 59, 60))
        rt(LSTD, rnd(4096), *seam(4096, 60, at, 59, 3900), sym(1), t=90, cost=4, q=at in (0, 59))
    for c in (1, 0): r.append(J('h_claim', LZSS(LSTD), c, 1073741823, data(text(5)), t=60))
    # long lookaheads and high thresholds
    for w, t, l in BIG: rt(lzss(w, t, l), text(40), sym(2, 97, 99), t=90, cost=2); rt(lzss(w, t, l), rep(l - 3, 97), symrep(9, 97, 99), rep(30, 97), t=120, cost=4, q=w < 4000); rt(lzss(w, t, l), small(w, 4, 97), *[back(t + 2, w // 2)] * 2, sym(2, 97, 99), t=90, cost=2)
    return r
JOBS['C02'] = c02()

# ------------------------------------------------------------------ C03
def c03():
    r = []
    rt = lambda *d, **k: r.append(J('h_round_trip', PORT, data(*d), **k))
    rt(upto(3, 31, 33), t=60); rt(upto(4, 31, 33), t=200, q=False); rt(sym(2)); rt(sym(7, 97, 98), t=60); rt(symrep(7)); rt(rep(3, 120), repto(130, 120), sym(1, 120, 121))
    rt(sym(5, 97, 99), t=60); rt(rep(1100000, 32), sym(1, 32, 33), t=300, cost=20)
    rt(text(120), sym(3, 97, 100)); rt(text(81), backto(70, 81), sym(1))
    rt(small(200, 2, 97), sym(6, 97, 98), t=60); rt(small(200, 3, 97), sym(4, 97, 99), t=60)
    rt(rnd(4300, 3), symback(20, 100, 5), sym(1), t=120, cost=8)
    rt(rnd(4300, 3), symback(20, 100, 255), sym(1), t=400, cost=9, q=False)
    rt(rnd(4300, 3), symback(64, 3990, 12), sym(1), t=120, cost=8)
    rt(rnd(4300, 3), symback(64, 3990, 105), sym(1), t=400, cost=9, q=False)
    rt(rnd(4300, 3), symback(5, 2100, 7), sym(1), t=120, cost=8)
    rt(rnd(4300, 3), symback(5, 2100, 255), sym(1), t=400, cost=9, q=False)
    for n in (3, 20, 60): rt(rnd(4300, 3), symback(n, 4032, 8), sym(1, 0, 3), t=120, cost=4)
    rt(small(9000, 2, 65), sym(4, 65, 66), t=90, cost=8)
    rt(small(6000, 5, 65), sym(2, 65, 69), t=90, cost=8)
    rt(text(9000), sym(2, 97, 100), t=90, cost=8)
    rt(rnd(32800, 3), sym(1), t=120, cost=9)
    rt(rnd(32400, 3), sym(1, 0, 3), t=120, cost=9)
    rt(fib(40000, 22, 40), sym(1), t=120, cost=9)
    rt(small(40000, 100, 3), sym(1, 0, 9), t=120, cost=9)
    for a, m in ((4, 63), (63, 62), (1, 63)): rt(rnd(4300, 3), classes(5, a, m), text(3), t=120, cost=8, q=a == 4)
    # strings that begin just before the end of the ring and go on in its mirror
    for at in (0, 1, 2, 57, 58, 59):
        for m in (3, 58, 59, 60): rt(*seam(4096, 60, at, m, 200), sym(1), t=60, cost=2, q=m in (3, 59, 60))
        rt(rnd(4096), *seam(4096, 60, at, 59, 3900), sym(1), t=90, cost=4, q=at in (0, 59))
    for c in (1, 0): r.append(J('h_claim', PORT, c, 4294967294, data(text(5)), t=60))
    return r
JOBS['C03'] = c03()

# ------------------------------------------------------------------ C04
def c04():
    r = []
    def sb(*d, x=False, **k):
        r.append(J('h_same_bits', data(*d), **k))
        if x: r.append(J('h_cross', data(*d), **k))
    sb(upto(3, 31, 33), x=True, t=60); sb(upto(4, 31, 33), t=200, q=False); sb(sym(2)); sb(sym(7, 97, 98), t=60); sb(symrep(7), x=True); sb(rep(3, 120), repto(130, 120), sym(1, 120, 121), t=90, cost=8)
    sb(rep(30, 32), sym(3, 32, 33), rep(20, 32), x=False)
    sb(rep(70, 32), repto(70, 32), sym(1, 32, 33), text(9), x=False)
    sb(text(120), sym(3, 97, 100), x=True); sb(small(300, 2, 97), sym(6, 97, 98), x=False, t=60); sb(small(300, 3, 0), sym(4, 0, 2), x=False, t=60)
    sb(text(81), backto(70, 81), sym(1, 0, 99), t=90, cost=8); sb(text(81), backto(70, 81), sym(1), t=200, q=False)
    sb(rep(40, 0), sym(2, 0, 1), rep(5, 0), text(30), x=False)
    sb(rnd(4300, 3), symback(20, 100, 5), sym(1), t=120, cost=8)
    sb(rnd(4300, 3), symback(20, 100, 255), sym(1), t=400, cost=9, q=False)
    sb(rnd(4300, 3), symback(64, 3990, 12), sym(1), t=120, cost=8, x=False)
    sb(rnd(4300, 3), symback(64, 3990, 105), sym(1), t=400, cost=9, q=False, x=False)
    sb(rnd(4300, 3), symback(5, 2100, 7), sym(1), t=120, cost=8, x=False)
    sb(rnd(4300, 3), symback(5, 2100, 255), sym(1), t=400, cost=9, q=False, x=False)
    for n in (3, 20, 60): sb(rnd(4300, 3), symback(n, 4032, 8), sym(1, 0, 3), t=120, cost=4)
    sb(small(9000, 2, 65), sym(4, 65, 66), t=90, cost=8, x=False)
    sb(small(9000, 2, 0), sym(4, 0, 1), t=90, cost=8, x=False)
    sb(small(6000, 5, 65), sym(2, 65, 69), t=90, cost=8, x=False)
    sb(small(4000, 3, 0), rep(200, 0), symrep(30, 0, 2), small(300, 3, 0), sym(2, 0, 2), t=90, cost=8, x=False)
    sb(text(9000), sym(2, 97, 100), t=90, cost=8, x=False)
    sb(rnd(32800, 3), sym(1), x=True, t=120, cost=9)
    sb(fib(40000, 22, 40), sym(1), t=120, cost=9, x=False)
    sb(small(40000, 100, 3), sym(1, 0, 9), t=120, cost=9, x=False)
    for a, m in ((4, 63), (63, 62), (1, 63)): sb(rnd(4300, 3), classes(5, a, m), text(3), t=120, cost=8, q=a == 4)
    # strings that begin just before the end of the ring and go on in its mirror
    for at in (0, 1, 2, 57, 58, 59):
        for m in (3, 58, 59, 60): sb(*seam(4096, 60, at, m, 200), sym(1), t=60, cost=2, q=m in (3, 59, 60))
        sb(rnd(4096), *seam(4096, 60, at, 59, 3900), sym(1), t=90, cost=4, q=at in (0, 59))
    return r
JOBS['C04'] = c04()

# ------------------------------------------------------------------ C05
def c05():
    r = []
    td = lambda m, *d, **k: r.append(J('h_td0', m, data(*d), **k))
    for m in (0,):
        td(m, upto(2, 97, 98), t=60); td(m, sym(1), hash='real', cost=5); td(m, text(60), sym(2, 97, 99))
    for v in (10, 15, 19, 20, 21, 3, 255, 128, 1):
        td(v, upto(3, 97, 99)); td(v, text(100), sym(2, 97, 100))
    td(19, rnd(4095, 4), sym(2, 0, 2), hash='real', t=90, cost=8); td(20, rnd(4095, 4), sym(1), t=90, cost=8); td(20, rnd(4095, 4), sym(2), t=300, cost=8, q=False)
    td(21, small(7000, 3, 65), sym(3, 65, 67), t=90, cost=8); td(10, small(9000, 9, 65), sym(1, 65, 67), hash='real', t=90, cost=8)
    td(21, rnd(33000, 4), sym(1), t=90, cost=8)
    for c in (1, 0):
        for lim in (3000012, 3000011): r.append(J('h_claim', TD0, c, lim, data(text(5)), t=60))
    return r
JOBS['C05'] = c05()

# ------------------------------------------------------------------ C06
def c06():
    r = []
    for comp in (1, 0):
        for ver in (10, 19, 20, 21):
            # signature and checksum arbitrary at every length 0..16
            r.append(J('h_gate', comp, 0, 17, 0b110000000011, ver, t=60))
            # each other header byte arbitrary (with the checksum)
            for i in range(2, 10): r.append(J('h_gate', comp, 12, 5, 0b110000000000 | 1 << i, ver, t=60))
        r.append(J('h_gate', comp, 0, 17, 0b111111111111, 10, t=120, cost=5)); r.append(J('h_gate', comp, 12, 5, 0b111111101111, 21, t=120, cost=5))
        r.append(J('h_gate', comp, 10, 7, 0b001111111100, 10, t=60))
        r.append(J('h_gate', comp, 12, 5, 0b110000010001, 10, t=60))
    return r
JOBS['C06'] = c06()

# ------------------------------------------------------------------ C07
def c07():
    r = []
    ab = lambda c, *d, **k: r.append(J('h_any_bytes', c, data(*d), **k))
    # LZW: every short byte string, for small and standard code widths
    for o in (MSB, LSB):
        ab(LZW(tiny(3, o, 2, 3, ms=1)), upto(2)); ab(LZW(tiny(4, o)), upto(2)); ab(LZW(tiny(4, o, 0, 5)), upto(2)); ab(LZW(tiny(4, o, 4, 0)), upto(2))
        ab(LZW(tiny(4, o, 0, 0, 8, 1)), upto(3), t=60); ab(LZW(tiny(5, o, 0, 5, 8, 5)), upto(2)); ab(LZW(lzw(9, o)), upto(2)); ab(LZW(lzw(9, o)), bits(1, 97, 3), bits(1, 1, 130), sym(1)); ab(LZW(lzw(9, o)), upto(3), t=300, q=False)
    ab(LZW(STD), upto(2)); ab(LZW(STD), bits(2, 0, 0x11), sym(1), bits(1, 0, 0x11)); ab(LZW(STD), upto(3), q=False, t=300); ab(LZW(STD), sym(5), t=120, q=False); ab(LZW(TD1), upto(4)); ab(LZW(TD1), bits(1, 24, 255), bits(1, 0, 1), bits(2, 0, 0x13), sym(1, 0, 63), t=60); ab(LZW(lzw(16, MSB)), upto(3)); ab(LZW(lzw(16, MSB)), bits(1, 0, 1), sym(1), bits(1, 0, 1), bits(1, 0, 15)); ab(LZW(lzw(12, MSB)), upto(2)); ab(LZW(lzw(12, MSB)), bits(1, 6, 1), sym(1), bits(1, 0, 15)); ab(LZW(lzw(16, MSB)), upto(4), q=False, t=300); ab(LZW(lzw(12, MSB)), upto(4), q=False, t=300); ab(LZW(TD1), bits(1, 24, 255), bits(1, 0, 1), sym(3), q=False, t=300)
    # ever longer strings, more than 4096 bytes in the end
    for o in (LSB,): ab(LZW(lzw(16, o, chunk=100000)), rep(1, 65), rep(1, 0), words(300, 258), sym(1), rep(1, 1), t=90); ab(LZW(lzw(16, o, chunk=100000)), rep(1, 65), rep(1, 0), words(4150, 258), bits(1, 97, 3), rep(1, 16), t=540, cost=45, hash='real')
    # chunk headers that claim more than there can be
    for o in (MSB, LSB):
        for hb, hd in ((64, 4), (64, 9), (63, 3), (62, 4), (33, 1 << 31)): ab(LZW(lzw(9, o, 0, 0, hb, hd, 4)), rep(7, 0xff), sym(1), text(5)); ab(LZW(lzw(9, o, 0, 0, hb, hd, 4)), rep(1, 0x80), rep(6, 0), sym(1), text(5))
    # valid streams with an arbitrary byte
    for o in (MSB, LSB):
        r.append(J('h_damaged', LZW(tiny(4, o)), 0, 12, data(small(14, 3)), t=60))
        r.append(J('h_damaged', LZW(lzw(12, o)), 0, 20, data(text(16)), t=60, hash='real'))
        r.append(J('h_damaged', LZW(lzw(9, o, 0, 0, 16, 3, 5)), 0, 3, data(text(16)), t=60, hash='real', cost=4)); r.append(J('h_damaged', LZW(lzw(9, o, 0, 0, 16, 3, 5)), 3, 20, data(text(16)), t=200, q=False))
    # LZHUF: bits at the start, after literals, and in the position code
    Z4 = lambda n: bits(1, n, 0) + []
    size = lambda n: [[13, 1, n & 255, 0], [13, 1, n >> 8 & 255, 0], [13, 1, n >> 16 & 255, 0], [13, 1, n >> 24, 0]]
    for c, h in ((LZSS(LSTD), True), (LZSS(lzss(header=0)), False), (PORT, True), (LZSS(lzss(16, 1, 6)), True), (LZSS(lzss(5, 0, 4)), True), (LZSS(lzss(61, 2, 60, header=0)), False)):
        pre = size(40) if h else []
        ab(c, *pre, sym(1)); ab(c, *pre, sym(1), rep(3, 0xff)); ab(c, *pre, rep(2, 0xff), sym(1), rep(4, 0xaa)); ab(c, *pre, rep(1, 0xf0), sym(1), rep(9, 0x0f))
        if h: ab(c, sym(1), rep(3, 0), sym(1), t=60)
        if h: ab(c, upto(4)) if c != PORT else ab(c, bits(3, 0, 1), rep(1, 0), rep(6, 0x77))
        if h: ab(c, *size(0xffffffff), rep(5, 0xff), sym(1)) if c != PORT else None
        ab(c, *pre, sym(2), q=False, t=600)
    ab(LZSS(LSTD), upto(4)); ab(PORT, upto(3))
    r.append(J('h_damaged', LZSS(LSTD), 4, 40, data(text(60)), t=120, cost=5))
    r.append(J('h_damaged', LZSS(lzss(16, 1, 6)), 4, 20, data(small(60, 3, 97)), t=120, cost=5))
    r.append(J('h_damaged', PORT, 4, 40, data(text(60)), t=120, cost=5))
    for v in (10, 19, 20, 21):
        ab(TD0 + [v], upto(2)); ab(TD0 + [v], rep(2, 0xff), sym(1), rep(4, 0xaa))
    ab(TD0 + [10], bits(1, 24, 255), bits(1, 0, 1), sym(2), rep(3, 1), t=60)
    return r
JOBS['C07'] = c07()

# offsets up to the 64-bit range
def far(r):
    M = 1 << 32
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZW(tiny(4, MSB, 0, 5, 16, 4, 3)), LZSS(LSTD), LZSS(lzss(header=0)), LZSS(lzss(16, 1, 6))):
            lo = 0 if c[0] == 0 and c[8] == 3 else 97
            for j, o in ((70000, 300), (300, 70000), (M + 5, 7), (7, M + 5), (5 * M + 65537, 3 * M + 255)):
                r.append(J('h_far', c, comp, j % M, j // M, o % M, o // M, data(small(20, 3, lo), sym(2, lo, lo + 2)), t=60))
# ------------------------------------------------------------------ C08
def c08():
    r = []
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZW(tiny(4, MSB, 0, 5, 16, 4, 3)), LZSS(LSTD), LZSS(lzss(header=0)), LZSS(lzss(16, 1, 6))):
            lo = 0 if c[0] == 0 and c[8] == 3 else 97
            for j, o, a in ((0, 1, 0), (3, 0, 0), (2, 0, 20), (5, 7, 0), (2, 3, 30), (300, 260, 0)):
                if j > 100: j, o = 60, 50
                r.append(J('h_offsets', c, comp, j, o, a, data(small(20, 3, lo), sym(2, lo, lo + 2)), t=60))
            r.append(J('h_offsets', c, comp, 2, 3, 2, data(upto(2, lo, lo + 2)), t=60))
        r.append(J('h_offsets', LZSS(LSTD), comp, 9, 9, 0, data(rnd(5000, 3), sym(1, 0, 7)), t=60, cost=4))
        r.append(J('h_offsets', LZW(TD1), comp, 12, 12, 0, data(rnd(4200, 3), sym(1, 0, 3)), t=60, cost=4, hash='real'))
        r.append(J('h_offsets', LZW(lzw(12, LSB, chunk=50)), comp, 9, 9, 0, data(text(200), sym(1, 97, 100)), t=60, cost=4))
    far(r)
    return r
JOBS['C08'] = c08()

# ------------------------------------------------------------------ C09
def c09():
    r = []
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZW(tiny(4, MSB, 0, 5, 16, 4, 3)), LZSS(LSTD), LZSS(lzss(header=0)), LZSS(lzss(16, 1, 6)), PORT, TD0):
            lo = 0 if c[0] == 0 and c[8] == 3 else 97
            for old, o, j in ((0, 0, 0), (301, 0, 0), (200, 5, 3), (7, 40, 1)):
                r.append(J('h_sizes', c, comp, old, o, j, 0, data(small(18, 3, lo), sym(2, lo, lo + 2)), t=60))
                r.append(J('h_sizes', c, comp, old, o, j, 0, data(upto(2, lo, lo + 3)), t=60))
        for c in (LZSS(LSTD), PORT): r.append(J('h_sizes', c, comp, 20000, 0, 0, 0, data(rnd(9000, 3), sym(1, 0, 7)), t=60, cost=4))
        for c in (LZW(STD), LZSS(LSTD), PORT): r.append(J('h_sizes', c, comp, 80001, 0, 0, 0, data(text(66000), sym(1, 97, 99)), t=120, cost=6, hash='real'))
        r.append(J('h_sizes', LZW(TD1), comp, 20001, 0, 0, 0, data(rnd(4200, 3), sym(1, 0, 3)), t=60, cost=4, hash='real'))
        r.append(J('h_sizes', LZW(lzw(9, MSB, chunk=11)), comp, 901, 2, 3, 0, data(text(50), sym(2, 97, 100)), t=60))
        r.append(J('h_sizes', LZW(lzw(13, LSB, 0, 0, 13, 13, 5)), comp, 901, 2, 3, 0, data(text(50), sym(2, 97, 100)), t=60))
        for c in (LZW(STD), LZW(lzw(9, MSB, 0, 257)), LZSS(LSTD), PORT):
            if not comp: r.append(J('h_sizes', c, 0, 40, 0, 0, 1, data(text(9), sym(1, 97, 99)), t=60)); r.append(J('h_sizes', c, 0, 40, 3, 2, 3, data(upto(1, 97, 99)), t=60))
    far(r)
    return r
JOBS['C09'] = c09()

# ------------------------------------------------------------------ C10
def c10():
    r = []
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZSS(LSTD), LZSS(lzss(header=0)), LZSS(lzss(16, 1, 6))):
            for j in (0, 5):
                r.append(J('h_limit', c, comp, j, 20, data(text(30), sym(1, 97, 99)), t=60))
                r.append(J('h_limit', c, comp, j, 4, data(upto(4, 97, 98)), t=60))
                r.append(J('h_limit', c, comp, j, 4, data(upto(1, 90, 110)), t=60))
                r.append(J('h_limit', c, comp, j, 127, data(text(300)), t=60))
                r.append(J('h_limit', c, comp, j, 0, data(text(30)), t=60)); r.append(J('h_limit', c, comp, j, 0, data(upto(2, 97, 98)), t=60))
            r.append(J('h_limit', c, comp, 3, 0, data(text(66000)), t=90, cost=9, hash='real'))
            for off in (0, 5): r.append(J('h_over', c, comp, off, data(text(4)), t=60)); r.append(J('h_over', c, comp, off, data(), t=60))
    for c in (LZSS(LSTD), LZSS(lzss(16, 1, 6)), PORT):
        for d in (data(), data(text(5)), data(rnd(70)), data(sym(2))): r.append(J('h_size_field', c, d, t=60))
    return r
JOBS['C10'] = c10()

# ------------------------------------------------------------------ C11
def c11():
    r = []
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZSS(LSTD), LZSS(lzss(header=0)), PORT, TD0):
            for first, free, rest in ((0, 3, 0), (0, 3, 1), (4, 3, 2), (10, 3, 3), (20, 3, 1), (33, 3, 5)):
                r.append(J('h_chunking', c, comp, first, free, rest, data(text(14), sym(1, 97, 98)), t=60))
            r.append(J('h_chunking', c, comp, 0, 4, 1, data(upto(1, 97, 97)), t=60)); r.append(J('h_chunking', c, comp, 0, 4, 1, data(upto(1)), t=200, q=False))
            r.append(J('h_chunking', c, comp, 0, 0, 1, data(text(200), rep(100, 65), sym(1, 97, 98)), t=60))
            r.append(J('h_chunking', c, comp, 0, 0, 7, data(text(200), rep(100, 65), sym(1, 97, 98)), t=60))
        # strings longer than the 8K write buffer
        r.append(J('h_chunking', LZW(lzw(12, LSB)), comp, 0, 2, 4000, data(rep(30000, 65), sym(1, 65, 66)), t=90, cost=9, hash='real'))
        r.append(J('h_chunking', LZW(lzw(9, MSB, chunk=7)), comp, 5, 3, 1, data(text(40)), t=60)); r.append(J('h_chunking', LZW(lzw(9, MSB, chunk=7)), comp, 5, 4, 1, data(text(40)), t=100, q=False))
    return r
JOBS['C11'] = c11()

# ------------------------------------------------------------------ C12
def c12():
    r = []
    RD, WR, SK, FL, ALL = 0, 1, 2, 3, 4
    EOF, AGAIN, INTR, ANY = 32, 48, 192, 240     # kinds of error
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), LZW(lzw(9, LSB, 0, 0, 9, 9, 3)), LZSS(LSTD), LZSS(lzss(header=0)), PORT, TD0):
            for mode in (0, 2, EOF, EOF + 2, AGAIN, ANY):
                r.append(J('h_fault', c, comp, ALL, 0, 256, mode, data(text(12), sym(1, 97, 98)), t=60))
                r.append(J('h_fault', c, comp, ALL, 1, 256, mode, data(text(12), sym(1, 97, 98)), t=60))
            r.append(J('h_fault', c, comp, ALL, 0, 60, 0, data(upto(1, 90, 110)), t=60))
            r.append(J('h_fault', c, comp, ALL, 200, 256, 0, data(text(40)), t=60))
            # streams longer than the buffers: the k-th read, write, seek, flush
            if c[1:2] == [9]: c = LZW(lzw(9, LSB, 0, 0, 9, 9, 300))
            for kind in (RD, WR, SK, FL):
                for v in (0, 1) if c == TD0 else (0,):
                    for mode in {RD: (0, EOF, 2), WR: (0, 2, 3, AGAIN), SK: (0, EOF, INTR, 2), FL: (0, INTR, 2)}[kind]: r.append(J('h_fault', c, comp, kind, v, 24, mode, data(rnd(17500)), t=90, cost=3, hash='real', q=mode != 2))
            r.append(J('h_fault', c, comp, WR, 0, 60, 3, data(upto(1, 90, 110)), t=60)); r.append(J('h_fault', c, comp, WR, 1, 60, 3, data(text(40)), t=60))
    return r
JOBS['C12'] = c12()

# ------------------------------------------------------------------ C13
def c13():
    r = []
    fm = lambda o, *d, **k: (r.append(J('h_lzw_format', o, data(*d), **k)), r.append(J('h_lzw_foreign', o, data(*d), **k)))
    fm(STD, upto(4, 0, 2)); fm(STD, sym(2, 65, 120)); fm(STD, sym(1)); fm(STD, sym(2), q=False, t=200); fm(STD, text(90), sym(2, 97, 100)); fm(TD1, upto(3, 0, 2)); fm(TD1, text(90), sym(2, 97, 100))
    for o in (MSB, LSB):
        fm(tiny(4, o), sym(5, 0, 3), t=60); fm(tiny(4, o, chunk=3), sym(5, 0, 3), t=60); fm(tiny(3, o, 2, 3, ms=1), sym(8, 0, 1))
        fm(tiny(5, o, clear=0, stop=5, hb=16, hd=5, chunk=3), sym(5, 0, 3)); fm(tiny(5, o, clear=4, stop=0, hb=11, hd=1, chunk=2), sym(5, 0, 3))
        fm(tiny(4, o), small(60, 4), sym(4, 0, 3)); fm(tiny(4, o, clear=0, stop=15), small(31, 3), sym(4, 0, 3)); fm(tiny(4, o, clear=15, stop=14, chunk=7), small(40, 4), sym(4, 0, 3))
        fm(tiny(4, o, clear=9, stop=7), small(20, 4), sym(4, 0, 3))
        fm(lzw(9, o), rnd(240, 3), sym(2, 0, 7)); fm(lzw(9, o, 0, 0, 16, 3, 4), text(33), sym(3, 97, 98)); fm(lzw(10, o, 257, 256, 20, 1, 9), text(33), sym(2, 97, 101))
        # arbitrary codes, in every state of the table
        for pre in (0, 1, 5, 12, 40):
            r.append(J('h_lzw_codes', tiny(4, o), 2, 0, 15, data(small(pre, 4)), t=60)); r.append(J('h_lzw_codes', tiny(4, o, 0, 5), 2, 0, 15, data(small(pre, 4)), t=60))
            r.append(J('h_lzw_codes', tiny(3, o, 2, 3, ms=1), 4, 0, 7, data(small(pre, 2)), t=60))
            r.append(J('h_lzw_codes', tiny(5, o, 0, 5, 16, 5), 2, 0, 31, data(small(pre, 4)), t=60))
        r.append(J('h_lzw_codes', lzw(9, o), 2, 250, 511, data(text(12)), t=60)); r.append(J('h_lzw_codes', lzw(12, o), 1, 0, 4095, data(text(12)), t=90))
        r.append(J('h_lzw_codes', lzw(9, o), 1, 0, 511, data(rnd(260, 3)), t=200, q=False)); r.append(J('h_lzw_codes', lzw(9, o), 1, 0, 20, data(rnd(260, 3)), t=60)); r.append(J('h_lzw_codes', lzw(9, o), 1, 250, 280, data(rnd(260, 3)), t=60)); r.append(J('h_lzw_codes', lzw(9, o), 1, 495, 511, data(rnd(260, 3)), t=60)); r.append(J('h_lzw_codes', lzw(9, o), 3, 255, 262, data(), t=60))
        r.append(J('h_lzw_bits', tiny(3, o, 2, 3, ms=1), data(upto(2)), t=60)); r.append(J('h_lzw_bits', tiny(4, o, 0, 0, 8, 1), data(sym(2), rep(2, 0x21)), t=60))
        r.append(J('h_lzw_bits', tiny(4, o, 0, 0, 8, 3), data(bits(1, 0, 15), sym(1), rep(1, 0x11), bits(1, 0, 7), rep(2, 0x21)), t=60))
    for ch in (1, 2, 3):
        for o in (MSB, LSB):
            fm(lzw(9, o, 0, 0, 16, 9, ch), text(5), sym(2, 97, 98)); fm(tiny(4, o, 0, 5, 16, 4, ch), sym(4, 0, 3)); fm(tiny(4, o, 4, 5, 16, 2, ch), sym(4, 0, 3)); fm(tiny(4, o, 4, 0, 12, 1, ch), sym(4, 0, 3)); fm(tiny(4, o, 4, 5, 0, 1, ch), sym(4, 0, 3))
    for i, o in sweep(): fm(o, upto(5, 97, 98), q=i % 2 == 0); fm(o, rep(3, 97), upto(4, 97, 98), q=i % 2 == 1)
    # a header whose value passes 2^14
    fm(lzw(12, LSB, 0, 0, 16, 1, 2000), rnd(2010, 9), sym(2, 0, 2), hash='real', t=90, cost=6); fm(lzw(12, MSB, 0, 0, 16, 1, 5000), rnd(4200, 9), sym(1, 0, 2), hash='real', t=90, cost=7)
    fm(STD, rnd(4090, 9), sym(2, 0, 2), hash='real', t=120, cost=9, q=False)
    return r
JOBS['C13'] = c13()

# ------------------------------------------------------------------ C14
def c14():
    r = []
    def f(o, port, size, pre, tail, copy=0, **k): r.append(J('h_lzhuf_format', o, port, size, data(*pre), data(*tail), copy, **k))
    for o, port in ((LSTD, 0), (LSTD, 1), (lzss(header=0), 0), (lzss(16, 1, 6), 0), (lzss(100, 0, 3, 7), 0)):
        f(o, port, 30, [], [sym(1), rep(3, 0x5a)]); f(o, port, 30, [], [rep(1, 0xff), sym(1), rep(6, 0xa5)]); f(o, port, 90, [text(20)], [sym(1), rep(9, 0xc3)])
        f(o, port, 300, [text(20)], [rep(4, 0xe7), sym(1), rep(9, 0xc3)]); f(o, port, 5, [text(2)], [sym(1), rep(9, 0xc3)]); f(o, port, 60, [rnd(40, 2)], [rep(2, 0xff), sym(1), rep(2, 1)])
        # the position code: all of its 8 leading bits and 6 following
        f(o, port, 120, [text(90)], [sym(1), rep(2, 0x35)], copy=3 if o[1] < 3 else 4); f(o, port, 120, [text(90)], [sym(1), bits(1, 0, 0xfc), rep(1, 9)], copy=3, q=False, t=300)
        f(o, port, 100, [rnd(5, 2)], [sym(1), rep(2, 0x35)], copy=3)
        f(o, port, 120, [text(90)], [rep(1, 0xf7), sym(1), rep(1, 9)], copy=3); f(o, port, 120, [text(90)], [rep(1, 0x41), sym(1), rep(1, 9)], copy=3); f(o, port, 120, [text(90)], [rep(1, 0x9c), sym(1), rep(1, 9)], copy=3)
    tk = lambda o, port, pre, *cs, **k: r.append(J('h_lzhuf_tokens', o, port, data(*pre), len(cs), *cs, **k))
    for o, port in ((LSTD, 0), (LSTD, 1), (lzss(header=0), 0)):
        tk(o, port, [text(60)], [3, 58, 1, 1], t=60); tk(o, port, [text(60)], [5, 1, 1, 200], t=60); tk(o, port, [text(60)], [5, 1, 3900, 197], t=60)
        tk(o, port, [text(60)], [5, 1, 1, 1], [60, 1, 3, 120]); tk(o, port, [], [9, 1, 4000, 97], [3, 2, 1, 20], t=60, q=False)
        for d in range(200, 4096, 500): tk(o, port, [rnd(30, 2)], [4, 1, d, 60], t=60, q=d % 1000 == 200)
    for port in (0, 1): tk(LSTD, port, [text(60)], [5, 1, 4030, 7]); tk(LSTD, port, [text(60)], [5, 1, 3960, 20])
    # every distance up to the whole window
    for o, port in ((LSTD, 0), (LSTD, 1), (lzss(header=0), 0)):
        for d in range(3997, 4097, 20): tk(o, port, [rnd(4200, 2)], [4, 1, d, 20], t=90, cost=3, q=d > 4030)
        tk(o, port, [rnd(4200, 2)], [3, 58, 4096, 1], t=90, cost=3); tk(o, port, [rnd(9, 2)], [60, 1, 4088, 9])
    for w, t, l in ((16, 1, 6), (61, 2, 60), (7, 0, 3), (300, 2, 18)):
        tk(lzss(w, t, l, 65), 0, [small(10, 3, 97)], [t + 1, l - t, 1, 3], t=60); tk(lzss(w, t, l, 65), 0, [small(3, 3, 97)], [l, 1, 1, w], [t + 1, 1, 1, min(w, 20)], t=60)
    for w, t, l in BIG:
        f(lzss(w, t, l, 65), 0, 2000, [text(20)], [sym(1), rep(9, 0xc3)], t=60); f(lzss(w, t, l, 65), 0, 2000, [text(5)], [rep(2, 0xff), sym(1), rep(9, 0xff)], t=60)
        tk(lzss(w, t, l, 65), 0, [small(10, 3, 97)], [l - 1, 2, 1, 3], t=90, cost=2); tk(lzss(w, t, l, 65), 0, [small(3, 3, 97)], [l, 1, w - 1, 2], [t + 1, 2, 1, 2], t=60)
    # long histories: rebuild of the tree
    f(LSTD, 0, 33000, [rnd(32512 - 30, 2), text(32)], [sym(1), rep(9, 0xc3)], t=90, cost=8); f(LSTD, 1, 33000, [rnd(32512 - 30, 2), text(32)], [sym(1), rep(9, 0xc3)], t=90, cost=8)
    f(LSTD, 0, 33000, [fib(30000, 22, 60)], [bits(1, 0xe0, 31), rep(9, 0xff)], t=90, cost=8); f(LSTD, 1, 33000, [fib(30000, 22, 60)], [bits(1, 0xc0, 31), rep(9, 0xff)], t=90, cost=8)
    return r
JOBS['C14'] = c14()

# ------------------------------------------------------------------ C15
def c15():
    r = [J('h_crc', n, t=60) for n in range(0, 13)] + [J('h_crc', n, t=120, q=n <= 24) for n in (16, 24, 32, 40, 60, 100)]
    r += [J('h_crc_chain', n, t=60) for n in range(0, 11)] + [J('h_crc_chain', 30, t=120)]
    r += [J('h_crc_long', s, data(rnd(a), sym(2), rnd(b, 5), sym(k)), t=60) for s, a, b, k in ((1, 255, 0, 1), (1, 253, 400, 2), (1, 0, 300, 3), (0, 511, 600, 2), (0, 4094, 10, 1), (0, 65534, 5, 2), (0, 100000, 50, 2))]
    r += [J('h_crc_burst', n, t=90, q=n <= 8) for n in (2, 3, 4, 6, 8, 10)]
    return r


JOBS['C15'] = c15()

# ------------------------------------------------------------------ C16
def c16():
    r = []
    for c in (LZW(STD), LZW(lzw(9, MSB)), LZW(tiny(4, MSB)), LZW(tiny(4, LSB, 0, 5, 16, 4, 3)), LZSS(LSTD), LZSS(lzss(16, 1, 6)), PORT):
        lo = 0 if c[0] == 0 and c[8] == 3 else 97
        for n in (1, 2, 3, 9): r.append(J('h_trailing', c, n, data(upto(3, lo, lo + 1)), t=60))
        r.append(J('h_trailing', c, 3, data(small(40, 3, lo), sym(2, lo, lo + 2)), t=60)); r.append(J('h_trailing', c, 4, data(rep(10, lo), repto(70, lo)), t=60))
    for i, o in sweep():
        if o[3]: r.append(J('h_trailing', LZW(o), 1 + i % 3, data(text(2), upto(4, 97, 98)), t=60, q=i % 2 == 0))
    # lengths at the edges of the bytes of the size field, and of the buffers
    for n in (255, 256, 257, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072):
        for c in (LZW(STD), LZSS(LSTD), PORT):
            if n < 9000 or c[0]: r.append(J('h_trailing', c, 2, data(rep(n - 1, 32), sym(1, 32, 33)), t=90, cost=2 if n < 9000 else 4, q=n < 99999))
            if n < 1100: r.append(J('h_trailing', c, 3, data(text(n - 1), sym(1, 97, 99)), t=60))
    r.append(J('h_trailing', LZW(lzw(9, MSB, chunk=8)), 3, data(text(40), sym(2, 97, 99)), t=60))
    r.append(J('h_trailing', LZSS(LSTD), 3, data(rnd(5000, 3), symback(20, 300, 24)), t=90, cost=4)); r.append(J('h_trailing', PORT, 3, data(rnd(5000, 3), symback(20, 300, 24)), t=90, cost=4))
    return r
JOBS['C16'] = c16()

# ------------------------------------------------------------------ C17
def c17():
    r = []
    for c in (LZW(STD), LZW(TD1), LZW(lzw(9, MSB)), LZW(lzw(9, LSB, 0, 0)), LZW(lzw(9, MSB, 0, 257, 16, 9, 4)), LZSS(LSTD), LZSS(lzss(16, 1, 6)), LZSS(lzss(header=0)), LZSS(lzss(64, 0, 18, header=0))):
        keep = 4 if c[0] == 1 and c[5] == 1 else 0
        r.append(J('h_truncated', c, keep, data(text(30), sym(2, 97, 99)), t=60)); r.append(J('h_truncated', c, keep, data(upto(3, 97, 98)), t=60))
        r.append(J('h_truncated', c, keep, data(rep(30, 97), symrep(20, 97, 98), text(20)), t=60)); r.append(J('h_truncated', c, keep, data(rnd(250, 4), sym(1, 0, 7)), t=300, q=c[1] == 12 or c[0] == 1)); r.append(J('h_truncated', c, keep, data(rnd(90, 4), sym(1, 0, 3)), t=200, cost=2))
    for i, o in sweep(): r.append(J('h_truncated', LZW(o), 0, data(text(3), upto(3, 97, 98)), t=60, q=i % 5 == 0 and o[0] < 34))
    # skewed data: the last symbols have long codes
    for c in (LZSS(LSTD), LZSS(lzss(16, 1, 6)), LZSS(lzss(header=0))):
        for n, k in ((300, 12), (1200, 16), (5000, 20)):
            r.append(J('h_truncated', c, 60 if n < 1000 else 200 if n < 2000 else 700, data(fib(n, k, 97), rnd(8, 5), sym(1, 0, 7)), t=120, cost=3))
        r.append(J('h_truncated', c, 4, data(fib(300, 12, 97), rnd(8, 5), rep(9, 3), text(90)), t=120, cost=3)); r.append(J('h_truncated', c, 4, data(rep(800, 7), rnd(20, 5)), t=120, cost=3))
    r.append(J('h_truncated', LZW(tiny(4, MSB)), 0, data(small(40, 4), sym(2, 0, 3)), t=60)); r.append(J('h_truncated', LZW(tiny(5, LSB, 0, 5, 16, 5, 3)), 0, data(small(20, 4), sym(2, 0, 3)), t=60))
    return r
JOBS['C17'] = c17()

# ------------------------------------------------------------------ C18
def c18():
    r = []
    h = lambda k, *d, **o: r.append(J('h_huff', k, data(*d), **o))
    h(2, sym(9, 0, 1)); h(3, sym(6, 0, 2)); h(4, sym(5, 0, 3)); h(5, sym(4, 0, 4)); h(8, sym(3, 0, 7)); h(16, sym(2, 0, 15)); h(0, sym(2))
    h(0, sym(3), q=False, t=600)
    for k in (3, 4, 5, 7):
        h(k, small(40, k), sym(4, 0, min(k - 1, 3))); h(k, fib(500, k), sym(3, 0, k - 1))
        h(k, small(32768 - k - 2, k), sym(4, 0, 1), t=90, cost=6)                  # the rebuild happens among the free symbols
        h(k, fib(32768 - k - 2, k), rep(32768, k - 1), sym(2, 0, k - 1), t=120, cost=8, q=k == 4)
    for k in (18, 20, 22): h(k, fib(32760, k), sym(2, 0, 7), t=90, cost=6)           # the longest codes
    h(22, fib(32800, 22), fib(32800, 22), sym(1, 0, 21), t=120, cost=9)
    h(0, rnd(32510, 2), sym(2, 0, 1), t=90, cost=6); h(0, rnd(32512, 2), sym(1), t=90, cost=6)
    h(0, rnd(70000, 7), sym(1), t=120, cost=9, q=False)
    rt = lambda c, *d, **k: r.append(J('h_round_trip', c, data(*d), **k))
    for c in (LZSS(LSTD), PORT):
        rt(c, rnd(32800, 3), symback(20, 300, 1), sym(1, 0, 1), t=120, cost=9); rt(c, rnd(32800, 3), symback(20, 300, 255), sym(1), t=900, q=False); rt(c, fib(33000, 22, 40), sym(1), t=120, cost=9)
        rt(c, rnd(4300, 3), classes(5, 4, 63), text(3), t=120, cost=8)
        # symbols beyond 255: matches of every length, at every distance class
        rt(c, rnd(300, 3), backto(61, 200), sym(1, 0, 31), t=120, cost=8); rt(c, rnd(4300, 5), symback(10, 3000, 255), symback(10, 1000, 255), t=120, q=False)
        for d in (70, 700, 1400, 2300, 3300, 3800): rt(c, rnd(4300, 5), symback(4, d, 255), sym(1, 0, 0), t=90, cost=5, q=d in (70, 1400, 3800))
    return r
JOBS['C18'] = c18()

# ------------------------------------------------------------------ C19
def c19():
    r = []
    Y, YY, N, EOF, ANY, YN = 1, 2, 3, 4, 0, 5
    j = lambda d, m, ex, inp, ans, order, old, ver, *seg, **k: r.append(J('h_cli', d, m, ex, inp, ans, order, old, ver, data(*seg), **k))
    for d in (1, 0):
        for m in range(4):
            lo = sym(2, 97, 100) if m != 1 else sym(1, 97, 120)
            # fresh output; existing output shorter and longer than the result; every answer
            j(d, m, 0, 0, EOF, 0, 0, 15, lo, t=60); j(d, m, 0, 0, EOF, 1, 0, 21, text(20), lo, t=60)
            for old in (0, 3, 200): j(d, m, 1, 0, Y, 0, old, 15 if old else 21, text(12), sym(1, 97, 120), t=60)
            j(d, m, 1, 0, YY, 1, 300, 21, rep(40, 97), t=60); j(d, m, 1, 0, YN, 1, 300, 15, upto(2, 97, 98), t=60)
            for ans in (N, EOF): j(d, m, 1, 0, ans, ans % 2, 20, 15, text(9), sym(1), t=60)
            j(d, m, 1, 0, ANY, 0, 60, 15, text(9), t=90, cost=3)
            # no input
            for ex, ans in ((0, EOF), (1, Y), (1, N)): j(d, m, ex, 1, ans, 0, 9, 15, text(3), t=60)
            # the data as they are: mostly not valid for the method
            if d == 0: j(d, m, 1, 3, Y, 0, 9, 15, text(11), sym(1, 97, 99), t=60); j(d, m, 0, 3, EOF, 0, 0, 21, sym(3, 97, 98), t=60); j(d, m, 1, 4, Y, 1, 50, 15 + m, text(9), sym(1, 97, 98), t=60)
            if d == 0 and m != 1: j(d, m, 1, 2, Y, 0, 9, 15, sym(1), t=60); j(d, m, 0, 2, Y, 1, 0, 15, sym(2), t=60)
        # any TD0 header
        j(d, 3, 1, 2, Y, 0, 40, 15, bits(1, 0x54, 32), bits(1, 0x44, 32), sym(2), text(5), sym(2), t=60); j(d, 3, 1, 2, Y, 1, 7, 15, upto(5), t=60)
        # unknown method
        for ex, ans in ((0, EOF), (1, Y), (1, N), (1, YN)): j(d, 4, ex, 0, ans, ex, 30, 15, text(5), sym(1), t=60)
        # longer files
        j(d, 0, 1, 0, Y, 0, 9000, 15, rnd(5000, 3), t=90, cost=5); j(d, 2, 1, 0, Y, 0, 9000, 15, rnd(1500, 3), t=90, cost=5); j(d, 3, 1, 0, Y, 0, 9000, 21, rnd(1500, 3), t=90, cost=5); j(d, 1, 1, 0, Y, 0, 9000, 15, rnd(1500, 3), t=90, cost=5)
    return r
JOBS['C19'] = c19()

# ------------------------------------------------------------------ C20
def c20():
    r = []
    T9 = LZW(tiny(4, MSB, 0, 5, 16, 4, 3)); L9 = LZW(lzw(9, MSB, chunk=9)); S16 = LZSS(lzss(16, 1, 6)); SN = LZSS(lzss(header=0))
    al = lambda c, comp, d, o, oc, f, e, **k: r.append(J('h_alone', c, comp, d, o, oc, f, e, **k))
    for c in (LZW(STD), LZW(TD1), L9, LZSS(LSTD), S16, PORT, TD0):
        for comp in (1, 0):
            d = data(text(20), sym(1, 97, 100))
            # the same function in between on other data, failing somewhere, and on bytes that are mostly not valid
            k = data(text(21))
            al(c, comp, d, c, 1, 0, data(text(33), sym(1, 97, 100)), t=90, cost=2)
            al(c, comp, k, c, 1, 12, data(text(21)), t=90, cost=3); al(c, comp, k, c, 0, 6, data(rep(2, 0x15), bits(1, 0, 0x38), rep(3, 0), rnd(12)), t=90, cost=3)
            # other functions in between, on arbitrary bytes
            for o in (LZW(STD), L9, S16, SN, TD0):
                if o == c: continue
                if o[0] == 0: al(c, comp, k, o, 0, 0, data(bits(1, 97, 2), bits(1, 0, 0x11), bits(1, 0, 0x90), text(7)), t=60, q=o in (LZW(STD), L9)); al(c, comp, d, o, 0, 0, data(bits(1, 97, 3), sym(2), text(7)), t=400, q=False)
                else: al(c, comp, k, o, 0, 0, data(bits(1, 97, 3), rep(3, 0), bits(1, 0, 0xe0), text(17)), t=60, q=o in (S16, SN)); al(c, comp, d, o, 0, 0, data(bits(1, 97, 3), rep(3, 0), sym(1), text(17)), t=400, q=False)
                al(c, comp, k, o, 1, 9, data(text(12)), t=60, q=o[0] != c[0])
    al(LZSS(LSTD), 1, data(text(200), sym(1, 97, 100)), LZSS(LSTD), 1, 0, data(rnd(5000)), t=90, cost=4); al(LZSS(LSTD), 0, data(text(200), sym(1, 97, 100)), LZSS(LSTD), 1, 0, data(rnd(33000)), t=90, cost=5)
    al(PORT, 1, data(text(200), sym(1, 97, 100)), PORT, 1, 0, data(rnd(33000)), t=90, cost=5); al(LZW(STD), 1, data(text(200), sym(1, 97, 100)), LZW(STD), 1, 0, data(rnd(4500)), t=90, cost=4, hash='real')
    # slices and streams on anything
    sl = lambda c, comp, *d, **k: r.append(J('h_slice', c, comp, data(*d), **k))
    for comp in (1, 0):
        for c in (LZW(STD), LZW(TD1), L9, T9):
            if comp and c == T9: continue
            sl(c, comp, upto(2, 97, 99), t=60); sl(c, comp, text(9), sym(1, 90, 130) if comp else sym(1), t=60)
        for c in (LZSS(LSTD), S16, SN):
            sl(c, comp, upto(1), t=60); sl(c, comp, bits(1, 1, 30), rep(3, 0), sym(1, 1, 33) if comp else sym(1), text(9), t=60)
        sl(PORT, comp, bits(1, 1, 30), rep(3, 0), sym(1, 1, 33) if comp else sym(1), text(9), t=60)
        sl(TD0, comp, bits(1, 0x54, 32), bits(1, 0x44, 32), sym(2), text(6), sym(2), text(3), t=60); sl(TD0, comp, upto(13), t=60)
    # another call first, then the reference checks
    af = lambda o, oc, f, e, which, *rest, **k: r.append(J('h_after', o, oc, f, e, which, *rest, **k))
    warm = [(LZW(STD), 1, 0, data(text(20))), (LZW(lzw(9, MSB, 0, 0, 16, 9, 5)), 1, 0, data(rnd(30))), (LZW(STD), 1, 0, data(text(1))), (LZW(STD), 1, 7, data(text(20))), (LZW(T9[1:]), 0, 0, data(small(30, 255)))]
    for o, oc, f, e in warm:
        af(o, oc, f, e, 0, tiny(4, LSB), data(small(5, 3), sym(3, 0, 3)), t=60); af(o, oc, f, e, 0, TD1, data(text(9), sym(1, 97, 120)), t=60)
        af(o, oc, f, e, 1, tiny(5, MSB, 0, 0), data(sym(2)), t=60); af(o, oc, f, e, 5, 21, data(text(9), sym(1, 97, 120)), t=60)
        af(o, oc, f, e, 4, LZW(tiny(4, LSB, 0, 5, 16, 4, 3)), data(small(5, 3), sym(3, 0, 3)), t=60)
        af(o, oc, f, e, 7, tiny(4, MSB), data(small(9, 4), sym(2, 0, 3)), t=60)
    warm = [(LZSS(LSTD), 1, 0, data(text(20))), (S16, 1, 0, data(text(20))), (S16, 0, 0, data(bits(1, 97, 3), rep(3, 0), text(17))), (PORT, 1, 0, data(text(20))), (LZSS(lzss(300, 2, 200, 7, 0)), 1, 0, data(rnd(30))), (LZSS(LSTD), 1, 9, data(text(20)))]
    for o, oc, f, e in warm:
        for s in (lzss(64, 1, 18), LSTD, lzss(16, 0, 3, 97, 0)):
            af(o, oc, f, e, 2, s, 0, 0, data(text(12), sym(1, 97, 120)), t=60); af(o, oc, f, e, 3, s, 0, 20, data(text(9)), data(bits(1, 0x4a, 0x15), rep(9, 0xff)), 0, t=60)
        af(o, oc, f, e, 2, LSTD, 1, 0, data(text(12), sym(1, 97, 120)), t=60); af(o, oc, f, e, 5, 10, data(text(9), sym(1, 97, 120)), t=60)
    return r
JOBS['C20'] = c20()

# ------------------------------------------------------------------ C21
def c21():
    r = []
    g = lambda o, port, at, *d, **k: r.append(J('h_greedy', o, port, at, data(*d), **k))
    for port in (0, 1):
        G = lambda at, *d, **k: g(LSTD, port, at, *d, **k)
        G(0, upto(3, 31, 33)); G(0, sym(2), t=120, cost=2); G(0, sym(6, 97, 98)); G(0, symrep(7)); G(0, rep(3, 120), repto(130, 120), sym(1, 120, 121), t=90, cost=4, q=False); G(0, rep(3, 120), repto(20, 120), sym(1, 120, 121), t=60)
        G(0, text(120), sym(3, 97, 100)); G(0, rep(70, 32), sym(3, 32, 33), rep(70, 32)); G(0, small(300, 2, 97), sym(4, 97, 98), t=60); G(200, small(500, 3, 97), sym(3, 97, 99), t=60)
        G(0, rep(40, 0), sym(2, 0, 1), rep(5, 0), text(30)); G(0, text(81), backto(65, 81), t=60, cost=4)
        for m, w in ((100, 3), (3990, 3), (2100, 3)):
            G(4290, rnd(4300, 3), symback(64 if m > 3000 else 20, m, w), sym(1), t=120, cost=8); G(4290, rnd(4300, 3), symback(20, m, 105), sym(1), t=600, cost=8, q=False)
        G(4290, rnd(4300, 3), classes(5, 4, 63), text(3), t=120, cost=8)
        G(4290, rnd(4300, 3), symback(20, 4032, 8), sym(1, 0, 3), t=120, cost=4)
        G(8990, small(9000, 2, 65), sym(3, 65, 66), t=120, cost=8, q=port == 0); G(5990, small(6000, 5, 65), sym(2, 65, 69), t=120, cost=8, q=port == 1)
        G(32790, rnd(32800, 3), sym(1), t=120, cost=8)
        for at in (0, 1, 2, 57, 58, 59):
            for m in (3, 58, 59, 60): G(0, *seam(4096, 60, at, m, 200), sym(1), t=60, cost=2, q=m in (3, 59, 60) and at in (0, 1, 58, 59))
            G(7900, rnd(4096), *seam(4096, 60, at, 59, 3900), sym(1), t=120, cost=4, q=at == 0)
    g(lzss(header=0), 0, 0, upto(2, 31, 33)); g(lzss(header=0), 0, 0, text(100), sym(2, 97, 100))
    for w, t, l in ((16, 1, 6), (8, 1, 4), (12, 2, 5), (20, 3, 9), (9, 0, 3), (64, 2, 18), (61, 2, 60), (5, 1, 4), (256, 2, 18)):
        for h in (0, 1): g(lzss(w, t, l, 97, h), 0, 0, sym(6, 97, 98), q=h == 1)
        g(lzss(w, t, l), 0, 0, small(3 * w, 2, 97), sym(5, 97, 98), t=60)
        g(lzss(w, t, l, 0), 0, 0, small(2 * w + 5, 3, 0), sym(4, 0, 2), t=60)
        g(lzss(w, t, l), 0, 0, small(5 * w, 4, 97), symrep(l + 3, 97, 100), sym(2, 97, 100), t=60)
        g(lzss(w, t, l), 0, 0, rep(l + 1, 32), repto(l + 3, 32), sym(2, 32, 33), t=60)
        if w > 5: g(lzss(w, t, l), 0, 0, small(w, 3, 97), small(w, 3, 97), symback(2 * l, w // 2, w - w // 2 - 1), sym(1, 97, 99), t=60, q=w < 200)
    for w, t, l in BIG: g(lzss(w, t, l), 0, 0, text(40), sym(2, 97, 99), t=90, cost=2); g(lzss(w, t, l), 0, 0, rep(l - 3, 97), symrep(9, 97, 99), rep(30, 97), t=120, cost=4, q=w < 4000); g(lzss(w, t, l), 0, 0 if t < 9 else w + t, small(w, 4, 97), *[back(t + 2, w // 2)] * 2, sym(2, 97, 99), t=90, cost=2)
    return r
JOBS['C21'] = c21()
