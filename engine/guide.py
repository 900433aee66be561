"""Simplification during symbolic execution, under the assumptions of an
obligation.

`Guide` is asked by the symbolic execution for every symbolic condition `c` on
a path `pc`: if the solver shows that (assumptions and pc) imply c (or not c),
the execution follows only that branch.  `rewrite` replaces computed values
that are provably equal (always, under the assumptions) to a constant or to a
bit range of a specification term, which may be named by a fresh variable
(an over-approximation: the variable is only constrained by its axioms).

Stimuli filter the questions: a condition that takes both values on stimuli
that follow the path is never asked.  Products are replaced by unconstrained
values in the questions, which can only make them less often decidable."""
import os
import sys
import time

import lin
import smt
import terms as t


class Rule:
    """how: 'sat' or 'lin' (equal polynomials), or 'affine' (the value is
    +-term + constant).  term: specification term; name: of the variable that replaces it (None:
    the term itself is used)"""

    def __init__(self, term, name=None, how='sat', axioms=None, minw=16,
                 wide=None, trusted=False):
        self.trusted = trusted  # axioms need no proof (integer products)
        self.term = term
        self.how = how
        self.minw = minw
        self.wide = wide or (lambda v: v)
        self.var = t.var(name, term.w) if name else None
        self.axioms = axioms(self.var) if axioms and name else []
        self.pat = self.wide(self.var if name else term)
        self.hits = 0


class Guide:
    def __init__(self, assume, pats, rules=(), budget=240.0, each=5.0,
                 maxsize=20000, branches=True, inputs=()):
        self.assume = [a for a in assume if a is not t.TRUE]
        self.rules = list(rules)
        self.vals = []
        self.pats = []
        self.real = []
        self.facts = []
        self.left = budget
        self.each = each
        self.maxsize = maxsize
        self.branches = branches
        self.asked = self.decided = 0
        self.known = {}
        self.memo = {}
        self.back = {}          # variable id -> term
        for r in self.rules:
            if r.var is not None:
                self.back[r.var.id] = r.term
        self.extra = []
        self.inputs = [v for v in t.variables(
            self.assume + [r.term for r in self.rules] + list(inputs))
            if v.id not in self.back]
        for p in pats:
            if not any(r.how == 'lin' and r.var.p in p for r in self.rules
                       if r.var is not None):
                self.add(p)
        for r in self.rules:
            for a in r.axioms:
                if a is t.TRUE:
                    continue
                if not r.trusted:
                    g, = t.substitute([t.not_(a)], {r.var.id: r.term})
                    k, _ = smt.sweep(self.assume + self.extra, [g],
                                     timeout=20, pats=self.pats[:64])
                    if k != 'unsat':
                        if os.environ.get('ABS_V'):
                            print('   axiom of %s not shown' % r.var.p,
                                  file=sys.stderr)
                        continue
                self.extra.append(a)
        for p in pats:
            if any(r.how == 'lin' and r.var.p in p for r in self.rules
                   if r.var is not None):
                self.add(p, True)

    def add(self, p, free=False):
        """a stimulus; free: the variables of the 'lin' rules, if given,
        need not have the value of their terms"""
        p = dict(p)
        v = {}
        cut = False
        for r in self.rules:
            if r.var is not None:
                if free and r.how == 'lin' and r.var.p in p:
                    cut = True
                    continue
                p[r.var.p] = self.ev([r.term], p, v)[0]
        asm = self.assume + (self.extra if cut else [])
        if asm and not all(self.ev(asm, p, v)):
            return False
        self.pats.append(p)
        self.vals.append(v)
        self.real.append(not cut)
        return True

    def learn(self, env):
        """a model refuted a candidate"""
        for y in self.inputs:
            env.setdefault(y.p, smt.RANGES.get(y.p, (0, 0))[0])
        if not self.add(env):
            self.add(env, True)

    def good(self):
        return [p for p, r in zip(self.pats, self.real) if r]

    def ev(self, roots, env, v):
        for x in t.topo_stop(roots, v):
            if x.op == 'const':
                v[x.id] = x.p
            elif x.op == 'var':
                v[x.id] = env.get(x.p, 0) & t.mask(x.w)
            else:
                v[x.id] = t.ev1(x, [v[y.id] for y in x.a])
        return [v[x.id] for x in roots]

    # ---- proofs --------------------------------------------------------------
    def unfold(self, xs):
        """the rules' variables replaced by their terms"""
        for _ in range(len(self.back) + 1):
            vs = [v for v in t.variables(xs) if v.id in self.back]
            if not vs:
                break
            xs = t.substitute(xs, {v.id: self.back[v.id] for v in vs})
        return xs

    def implied(self, pc, x, each=None):
        """do the assumptions and pc imply x?"""
        k = (pc.id, x.id)
        if k in self.known:
            return self.known[k]
        if self.left <= 0:
            return False
        t0 = time.time()
        q = self.assume + self.extra + [pc, t.not_(x)]
        order = t.topo(q)
        if len(order) > self.maxsize:
            return False
        m = {}
        for y in order:
            if y.op in ('mul', 'udiv', 'urem') and not any(
                    z.op == 'const' for z in y.a):
                m[y.id] = t.fresh('any', y.w)
        if m:
            q = t.substitute(q, m)
        self.asked += 1
        r, env = smt.check(q, timeout=min(each or self.each,
                                          max(1, self.left)))
        self.left -= time.time() - t0
        if r == 'sat':
            self.learn(env)
        if os.environ.get('ABS_V') == '2' and r != 'unsat':
            print('   implied %s %.1f s: %s' % (r, time.time() - t0, t.show(x, 8)[:1500]), file=sys.stderr)
        self.known[k] = r == 'unsat'
        self.decided += r == 'unsat'
        if r == 'unsat' and len(order) < 1500:
            self.facts.append(t.or_(t.not_(pc), x))
        return r == 'unsat'

    # ---- branches ------------------------------------------------------------
    def split(self, pc, c):
        """set of values c takes on stimuli that follow pc"""
        s = set()
        for p, v in zip(self.pats, self.vals):
            a, b = self.ev([pc, c], p, v)
            if a:
                s.add(b)
                if len(s) == 2:
                    break
        return s

    def __call__(self, pc, c):
        """TRUE, FALSE or None"""
        if not self.branches:
            return None
        s = self.split(pc, c)
        if len(s) == 2:
            return None
        for b in (s or {0, 1}):
            if self.implied(pc, c if b else t.not_(c)):
                return t.TRUE if b else t.FALSE
        return None

    # ---- values --------------------------------------------------------------
    def rewrite(self, x, pc=t.TRUE):
        """term with the value of x wherever pc holds"""
        if not self.rules or x.op in ('const', 'var') or not self.pats:
            return x
        k = (x.id, pc.id)
        y = self.memo.get(k)
        if y is None:
            y = self.rewrite1(x, pc)
            self.memo[k] = y
        return y

    def rewrite1(self, x, pc):
        on = [i for i, (p, v) in enumerate(zip(self.pats, self.vals))
              if pc is t.TRUE or self.ev([pc], p, v)[0]]
        if len(on) < 4:
            return x
        vals = [self.ev([x], self.pats[i], self.vals[i])[0] for i in on]
        v0 = vals[0]
        if all(v == v0 for v in vals):
            y = t.const(v0, x.w)
            if len(vals) > 8 and (x.w <= 64 and self.implied(
                    pc, t.eq(x, y), 1) or self.exact(pc, x, y)):
                return y
            return x
        m = t.mask(x.w)
        for r in self.rules:
            s = r.pat
            if r.how == 'lin':
                k = [i for i, j in enumerate(on) if self.real[j]]
                if len(k) < 4:
                    continue
                on1, vals1 = [on[i] for i in k], [vals[i] for i in k]
            else:
                on1, vals1 = on, vals
            v0 = vals1[0]
            if r.how == 'affine':
                if not r.minw <= x.w <= s.w:
                    continue
                s = t.trunc(s, x.w)
                sv = [self.ev([s], self.pats[i], self.vals[i])[0]
                      for i in on]
                y = None
                if all((b - a - v0 + sv[0]) & m == 0
                       for a, b in zip(sv, vals)):
                    y = t.add(s, t.const((v0 - sv[0]) & m, x.w))
                elif all((b + a - v0 - sv[0]) & m == 0
                         for a, b in zip(sv, vals)):
                    y = t.sub(t.const((v0 + sv[0]) & m, x.w), s)
                if y is x:
                    return x
                if y is not None and self.equal(r, pc, x, y):
                    r.hits += 1
                    return y
                continue
            if not r.minw <= x.w <= s.w:
                continue
            sv = [self.ev([s], self.pats[i], self.vals[i])[0] for i in on1]
            for l in range(s.w - x.w + 1):
                if (sv[0] >> l) & m == v0 and all(
                        (a >> l) & m == b for a, b in zip(sv, vals1)):
                    y = t.extract(s, l + x.w - 1, l)
                    if y is x:
                        return x
                    if self.equal(r, pc, x, y):
                        r.hits += 1
                        return y
                    if os.environ.get('ABS_V'):
                        print('   not shown: %s%d = %s@%d' % (
                            x.op, x.w, r.var.p if r.var is not None
                            else '-', l), file=sys.stderr)
                    break
        return x

    def exact(self, pc, x, y):
        """x = y, with the terms of the rules shown by SAT in place"""
        m = {r.var.id: r.term for r in self.rules
             if r.var is not None and r.how != 'lin'}
        vs = [v for v in t.variables([x]) if v.id in m]
        if not vs:
            return False
        xs = [x, pc] + self.assume
        for _ in m:
            xs = t.substitute(xs, m)
        return self.prove(xs[1], t.ne(xs[0], y), xs[2:])

    def equal(self, r, pc, x, y):
        if r.how == 'lin':
            L = lin.Lin()
            a, b = L.forms(self.unfold([x, y]))
            self.decided += a is not None and a == b
            self.asked += 1
            return a is not None and a == b
        if r.var is None:
            return self.prove(pc, t.ne(x, y), self.assume)
        x, y, pc, *asm = t.substitute([x, y, pc] + self.assume,
                                      {r.var.id: r.term})
        return self.prove(pc, t.ne(x, y), asm)

    def prove(self, pc, g, asm):
        """is g impossible under the assumptions and pc?"""
        if g is t.FALSE:
            return True
        if t.isc(g) or self.left <= 0:
            return False
        t0 = time.time()
        self.asked += 1
        k, env = smt.sweep(list(asm) + self.extra
                           + [pc] * (pc is not t.TRUE), [g],
                           timeout=min(4 * self.each, self.left),
                           pats=self.pats[:64])
        if k == 'sat':
            self.learn(env)
        self.left -= time.time() - t0
        if os.environ.get('ABS_V') == '2' and k != 'unsat':
            print(t.show(g, 8)[:1800], file=sys.stderr)
        if os.environ.get('ABS_V'):
            print('   %s %.1f s (%d nodes)' % (k, time.time() - t0, len(t.topo(self.assume+[pc,g]))), file=sys.stderr)
        self.decided += k == 'unsat'
        return k == 'unsat'
