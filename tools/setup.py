#!/usr/bin/env python3
"""Checks the tools: the arithmetic overrides of TLC agree with the TLA+ definitions they replace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ffv
S = ffv.SPEC
for a, b, subs in (('BigNum', 'BigNumPure', [('MODULE BigNum', 'MODULE BigNumPure')]), ('PolyZ', 'PolyZPure', [('MODULE PolyZ', 'MODULE PolyZPure'), ('EXTENDS BigNum,', 'EXTENDS BigNumPure,')]), ('Expr', 'ExprPure', [('MODULE Expr ', 'MODULE ExprPure ')])):
    t = open('%s/%s.tla' % (S, a)).read()
    for x, y in subs: t = t.replace(x, y)
    if t != open('%s/%s.tla' % (S, b)).read(): sys.exit('%s.tla is not the copy of %s.tla' % (b, a))
for m in ('BigNumTest', 'PolyZTest', 'ExprTest'):
    r = ffv.tlc(m)
    if not r.ok(): sys.exit('%s fails:\n%s' % (m, r.out[-3000:]))
    print(m, 'ok')
