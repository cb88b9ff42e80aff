"""C13: histories of parser collections against Parser.tla (abstract) and the model of its representation (ParserColl)."""
from common import *
import parser as P

def history(r, ps):
    """one random history; the collection is tracked only as far as needed to choose valid operations"""
    vs = P.VARS[:r.choice([1, 2, 3, 7])]
    pool = [e for e in (P.rand_expr(r, vs, r.choice([0, 1, 1, 2])) for _ in range(r.choice([2, 3, 5, 8]))) if P.defined(e)] or [vs[0]]
    # equal functions in another form and functions that differ in one number or sign
    for e in list(pool):
        k = r.random()
        if k < .3: pool.append('(%s)' % e)
        elif k < .5: pool.append('(%s)*2/2' % e)
        elif k < .6: pool.append('%s*1' % r.choice(vs)); pool.append('%s' % r.choice(vs))
        elif k < .8: pool.append('(%s)+1' % e)
        elif k < .9: pool.append('-(%s)' % e)
    pi = r.choice([0, 0, 1, 2, 17, 298, 299])
    # functions that agree in one of the two fields used to detect equal functions
    if r.random() < .4: pool.append('%s+%d*%s' % (pool[0], ps[pi], r.choice(vs)))
    if r.random() < .4: pool.append('%s+%d*%s' % (pool[0], ps[pi + 1 if pi < 299 else pi - 1], r.choice(vs)))
    kind = r.choice(['list', 'list', 'file', 'file', 'empty', 'listempty'])
    eq, keep = r.random() < .6, r.random() < .6
    if kind == 'empty': eq = keep = False
    fs = [] if kind in ('empty', 'listempty') else [r.choice(pool) for _ in range(r.choice([1, 2, 4, 6, 9]))]
    h = P.new('list' if kind == 'listempty' else kind, eq, keep, pi, vs, fs)
    n = len(fs)                 # upper bound of the number of evaluated functions (duplicates may be dropped)
    exact = True
    rpn = keep or n == 0        # reverse Polish form available for all functions
    preok, pref, otfpre = True, pi, False
    if kind == 'empty': preok = True
    def ev():
        o = []
        x = P.values(r, len(vs), 1, ps[pi])
        if keep and not otfpre: o.append('E plain 1 ' + x)
        if preok and pref == pi: o += ['E pre 1 ' + x, 'E pre2 1 ' + x]
        w = r.choice([2, 4, 8])
        if r.random() < .3 and preok and pref == pi: o.append('E %s %d %s' % (r.choice(['pre', 'pre2']), w, P.values(r, len(vs), w, ps[pi])))
        return o
    h += ev()
    for _ in range(r.choice([1, 2, 4, 8])):
        k = r.random()
        if k < .25:
            pi = r.choice([0, 1, 2, 3, 50, 299]); h.append('P %d' % pi)
        elif k < .45 and rpn and not otfpre and kind != 'empty':
            m = r.choice([1, 1, 2, 4])
            for _ in range(m):
                nd = eq and r.random() < .5
                h.append('A %d %s' % (nd, r.choice(pool)))
                if nd: exact = False
                n += 1
            preok = False
        elif k < .55 and kind == 'empty' and n == 0 and not otfpre:
            x = r.choice(pool)
            h.append('F %d %s' % (r.random() < .8 or '((' in x or '+-' in x or '-+' in x, x))
            n += 1; h.append('R %d' % (len(h) > 1 and any(l[0] in 'REPT' for l in h[1:]))); pref = pi; rpn = False
            h += ev()
            continue
        elif k < .7 and not eq and (not keep or n == 0) and preok and not (kind == 'empty' and n == 0):
            # a parser which only holds precomputed tokens
            h.append('Q %d %s' % (r.randrange(4), r.choice(pool))); n += 1; otfpre = True; rpn = False; pref = pi
        elif k < .85 and exact and n > 0:
            keepset = [i for i in range(n) if r.random() < .6]
            r.shuffle(keepset)
            h.append('T ' + ' '.join(map(str, keepset))); n = len(keepset)
        # bring the tokens to the current field
        if not preok and rpn and (r.random() < .7):
            h.append('R 1'); preok, pref = True, pi
            if not keep: rpn = False
        elif preok and pref != pi and r.random() < .8:
            h.append('R 0'); pref = pi
        if keep and r.random() < .2 and not otfpre and rpn: h.append('R 1'); preok, pref = True, pi
        if r.random() < .3: h.append('S %d' % (rpn and not otfpre))
        h += ev()
    if not preok and rpn: h.append('R 1'); preok, pref = True, pi
    elif preok and pref != pi: h.append('R 0'); pref = pi
    h += ev()
    return h

def check(c):
    c.model('ParserColl'); c.model('ParserColl', 'ParserCollEq')
    r, ps = c.rng, P.primes()
    hs = [history(r, ps) for _ in range(c.n(1500, 30000))]
    P.run(c, 'default', hs, 'h')
    P.run(c, 'flint', hs[::c.n(10, 4)], 'h')

ffv.main('C13', 'model_checking', check)
