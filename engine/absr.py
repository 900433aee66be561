"""Abstraction steps: sub-terms of an obligation that are provably equal to
(bit ranges of) a specification term are replaced by a fresh variable.

Candidates are found by evaluating the obligation on the stimuli and proved
either by SAT (`sat`) or as equal integer polynomials (`lin`).  Replacing a
term by an unconstrained variable only adds behaviours, so `unsat` remains
valid; a model must be checked against the real operands."""
import os
import time

import lin
import smt
import terms as t


class Step:
    def __init__(self, term, name, how, axioms=(), minw=16, wide=None):
        self.term = term        # specification term
        self.name = name
        self.how = how
        self.axioms = axioms    # function(var) -> list of facts
        self.minw = minw
        self.wide = wide or (lambda v: v)   # padded form that is searched


def candidates(roots, s, pats, minw):
    """nodes (outermost first) with the values of a bit range of s"""
    order = t.topo(list(roots) + [s])
    vals = [t.evaluate([s], e, order, full=True) for e in pats]
    sv = [v[s.id] for v in vals]
    stop = set()
    out = []
    inside = set(x.id for x in t.topo([s]))
    st = list(roots)
    seen = set()
    first = vals[0]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if minw <= x.w <= s.w and x.a and x is not s:
            m = t.mask(x.w)
            v0 = first[x.id]
            hit = None
            if any(v[x.id] != v0 for v in vals):
                for l in range(s.w - x.w + 1):
                    if (sv[0] >> l) & m == v0 and all(
                            (y >> l) & m == v[x.id]
                            for y, v in zip(sv, vals)):
                        hit = l
                        break
            if hit is not None:
                out.append((x, hit))
                stop.add(x.id)
                if x.id not in inside:
                    continue
        st.extend(x.a)
    return out


def confirm(cand, s, pats):
    roots = [x for x, _ in cand] + [s]
    order = t.topo(roots)
    ok = [True] * len(cand)
    for e in pats:
        v = t.evaluate(roots, e, order)
        for i, (x, l) in enumerate(cand):
            if (v[-1] >> l) & t.mask(x.w) != v[i]:
                ok[i] = False
    return [c for c, k in zip(cand, ok) if k]


def prune(roots, assume, pats, timeout=40, rounds=12):
    """replaces conditions that are constant under the assumptions"""
    order = t.topo(list(roots))
    pats = list(pats)
    size = {}
    for x in order:         # (over-)estimated size of the cone
        size[x.id] = min(10 ** 6, 1 + sum(size[y.id] for y in x.a)) \
            if x.op not in ('mul', 'udiv', 'urem') else 10 ** 6
    cond = set(x.a[0].id for x in order if x.op == 'ite')
    c = [x for x in order if x.id in cond and x.a and size[x.id] < 400]
    if not c:
        return list(roots)
    full = t.topo(list(roots) + c)
    first = t.evaluate(c, pats[0], full)
    live = dict((x.id, (x, v)) for x, v in zip(c, first))

    def drop(e):
        v = t.evaluate([x for x, _ in live.values()], e, full)
        for (x, y), z in zip(list(live.values()), v):
            if y != z:
                del live[x.id]
    for e in pats[1:]:
        drop(e)
        if not live:
            return list(roots)
    end = time.time() + timeout
    for _ in range(rounds):
        if not live or time.time() > end:
            break
        g = t.disj(*[t.not_(x) if v else x for x, v in live.values()])
        if g is t.FALSE:
            k = 'unsat'
        else:
            k, env = smt.sweep(assume, [g], timeout=end - time.time() + 1,
                               pats=pats)
        if k == 'unsat':
            return t.substitute(list(roots), dict(
                (i, t.const(v, 1)) for i, (x, v) in live.items()))
        if k != 'sat':
            break
        for x in t.variables(list(roots) + list(assume)):
            env.setdefault(x.p, smt.RANGES.get(x.p, (0, 0))[0])
        n = len(live)
        drop(env)
        pats.append(env)
        if len(live) == n:
            break
    return list(roots)


def apply(steps, roots, assume, pats, timeout=60, log=None):
    """returns (roots, extra assumptions, fresh variables)"""
    roots = list(roots)
    extra = []
    fresh = []
    terms = [s.term for s in steps]
    penv = [dict(e) for e in pats]
    for i, st in enumerate(steps):
        s = terms[i]
        t0 = time.time()
        cand = candidates(roots, st.wide(s), penv[:40], st.minw)
        ws = st.wide(s)
        m = {}
        v = t.var(st.name, s.w)
        for e in penv:
            e[v.p] = t.evaluate([s], e)[0]
        if st.how == 'lin':
            L = lin.Lin()
            fs = L.forms([x for x, _ in cand]
                         + [t.extract(ws, l + x.w - 1, l) for x, l in cand])
            k = len(cand)
            good = [fs[j] is not None and fs[j] == fs[k + j]
                    for j in range(k)]
        else:
            # drop chance hits, then all at once, then one by one
            cand = confirm(cand, ws, penv)
            gs = [t.ne(x, t.extract(ws, l + x.w - 1, l)) for x, l in cand]
            k, _ = smt.sweep(assume + extra, [t.disj(*gs)], timeout=timeout,
                             pats=penv)
            good = [True] * len(gs) if k == 'unsat' else []
            for g in gs[len(good):]:
                k, _ = smt.sweep(assume + extra, [g], timeout=timeout / 3,
                                 pats=penv)
                good.append(k == 'unsat')
        for (x, l), ok in zip(cand, good):
            if ok:
                m[x.id] = t.extract(st.wide(v), l + x.w - 1, l)
        if m:
            m[s.id] = v
        if log and os.environ.get('ABS_V') == '2':
            for (x, l), ok in zip(cand, good):
                if not ok:
                    log('   ! ' + x.op + '%d@%d ' % (x.w, l) + t.show(x, 7)[:1500])
        if log:
            log('%s: %d of %d candidates, %.1f s' % (
                st.name, sum(good), len(cand), time.time() - t0))
        if log and os.environ.get('ABS_V'):
            log('   ' + ' '.join('%s%s%d@%d' % ('' if ok else '!', x.op, x.w, l)
                                 for (x, l), ok in zip(cand, good)))
        if not m:
            continue
        n = len(roots)
        k = len(extra)
        rest = terms[i + 1:]
        out = t.substitute(roots + extra + rest, m)
        roots, extra = out[:n], out[n:n + k]
        terms[i + 1:] = out[n + k:]
        if log and os.environ.get('ABS_V'):
            log('   muls left %d, nodes %d' % (sum(x.op == 'mul' for x in t.topo(roots)), len(t.topo(roots))))
        extra += [x for x in st.axioms(v) if x is not t.TRUE] \
            if st.axioms else []
        fresh.append(v)
    return roots, extra, penv
