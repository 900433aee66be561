"""Symbolic executor for the LLVM IR of the harness.

One call of a function is executed once, with states merged at join points
(weak topological order), loops unrolled until their guard folds to false (or
is shown unsatisfiable / the unwinding bound is reached, which is recorded as
an obligation).  A call followed by `unreachable` is a panic: its path
condition is recorded.
"""
import llparse as L
import terms as t

PW = 64


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts          # ((guard, objid, offset term64), ...)


def ptr(obj, off=0):
    return Ptr(((t.TRUE, obj, t.const(off, PW)),))


class Obj:
    __slots__ = ('id', 'size', 'init', 'ro', 'name')

    def __init__(self, id, size, init=None, ro=False, name=''):
        self.id, self.size, self.init, self.ro, self.name = \
            id, size, init, ro, name


class State:
    __slots__ = ('pc', 'env', 'mem', 'facts')

    def __init__(self, pc, env, mem, facts):
        self.pc, self.env, self.mem, self.facts = pc, env, mem, facts


class Unsupported(Exception):
    pass


def mite(c, a, b):
    """ite on arbitrary executor values"""
    if a is b:
        return a
    if isinstance(a, t.T) and isinstance(b, t.T):
        return t.ite(c, a, b)
    if isinstance(a, tuple):
        return tuple(mite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        nc = t.not_(c)
        if c is t.TRUE:
            return a
        if c is t.FALSE:
            return b
        m = {}
        for g, o, off in a.alts:
            m[o] = (t.and_(c, g), off)
        for g, o, off in b.alts:
            g = t.and_(nc, g)
            if o in m:
                g0, off0 = m[o]
                m[o] = (t.or_(g0, g), t.ite(c, off0, off))
            else:
                m[o] = (g, off)
        return Ptr(tuple((g, o, off) for o, (g, off) in m.items()
                         if g is not t.FALSE))
    if isinstance(a, Ptr) and isinstance(b, t.T):   # e.g. null as integer
        return mite(c, a, Ptr(((t.TRUE, 0, b),)))
    if isinstance(b, Ptr) and isinstance(a, t.T):
        return mite(c, Ptr(((t.TRUE, 0, a),)), b)
    raise Unsupported('merge %r %r' % (a, b))


class Exec:
    def __init__(self, mod, max_iter=600, feasible=None, feas_from=2,
                 hook=None, guide=None):
        self.mod = mod
        self.guide = guide      # decides branches (see guide.py)
        self.hook = hook        # replaces calls: (ex, name, args, state)
        self.objs = {0: Obj(0, 1 << 62, None, True, 'null')}
        self.globobj = {}
        self.panics = []        # (pc, text)
        self.unwind = []        # (pc, text)
        self.ub = []            # (pc, text)
        self.funcs_seen = {}
        self.max_iter = max_iter
        self.feasible = feasible
        self.feas_from = feas_from
        self.nobj = 0
        self.insts = 0
        self.undef = 0
        self.oob = []
        self.stack = []
        self.iters = {}

    # ---- memory ------------------------------------------------------------
    def new_obj(self, size, name='', init=None, ro=False):
        self.nobj += 1
        self.objs[self.nobj] = Obj(self.nobj, size, init, ro, name)
        return self.nobj

    def glob_obj(self, name):
        o = self.globobj.get(name)
        if o is None:
            if name in self.mod.funcs or name not in self.mod.globs:
                o = self.new_obj(0, name, None, True)
            else:
                kind, size, ty, init = self.mod.glob(name)
                o = self.new_obj(size, name, {}, kind == 'constant')
                self._init(o, 0, ty, init)
            self.globobj[name] = o
        return o

    def _init(self, o, off, ty, v):
        cells = self.objs[o].init
        k = v[0]
        if k == 'bytes':
            cells[off] = (v[1], len(v[1]))      # raw bytes cell
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                eo = (L.field_off(ty, i) if ty[0] == 'struct'
                      else i * L.size_of(ty[2]))
                self._init(o, off + eo, et, ev)
        elif k == 'zero':
            n = L.size_of(ty)
            cells[off] = (bytes(n), n)
        elif k == 'int':
            n = L.size_of(ty)
            cells[off] = ((v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'),
                          n)
        elif k == 'undef':
            n = L.size_of(ty)
            cells[off] = (bytes(n), n)
        else:
            cells[off] = (('lazy', ty, v), L.size_of(ty))

    def _cells(self, mem, o):
        c = mem.get(o)
        if c is None:
            c = self.objs[o].init
            if c is None:
                c = {}
        return c

    def _fix(self, val, n):
        if isinstance(val, bytes):
            return t.const(int.from_bytes(val, 'little'), 8 * n)
        if isinstance(val, tuple) and val and val[0] == 'lazy':
            return self.constval(val[1], val[2])
        return val

    def read(self, mem, o, off, n):
        """n bytes at concrete offset -> term of 8n bits or Ptr"""
        cells = self._cells(mem, o)
        c = cells.get(off)
        if c is not None and c[1] == n:
            return self._fix(c[0], n)
        if off < 0 or off + n > self.objs[o].size:
            self.undef += 1
            return t.fresh('oob', 8 * n)
        # assemble (little endian) from overlapping cells
        keys = self._over(cells, off, n)
        parts = []
        pos = off
        for k in keys:
            v, sz = cells[k]
            if k > pos:
                parts.append(t.fresh('undef', 8 * (k - pos)))
                pos = k
            lo = pos - k
            hi = min(off + n, k + sz) - k
            if isinstance(v, bytes):
                parts.append(t.const(int.from_bytes(v[lo:hi], 'little'),
                                     8 * (hi - lo)))
            else:
                v = self._fix(v, sz)
                if isinstance(v, Ptr):
                    raise Unsupported('partial read of a pointer')
                parts.append(t.extract(v, 8 * hi - 1, 8 * lo))
            pos = k + hi
        if pos < off + n:
            parts.append(t.fresh('undef', 8 * (off + n - pos)))
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = t.concat(r, p)
        return r

    def _over(self, cells, off, n):
        if len(cells) > 64 and n <= 32:
            # avoid scanning: probe nearby keys first
            ks = [k for k in range(off - 64, off + n)
                  if k in cells and k + cells[k][1] > off]
            cov = sum(min(off + n, k + cells[k][1]) - max(off, k) for k in ks)
            if cov == n:
                return ks
        return sorted(k for k, (v, sz) in cells.items()
                      if k < off + n and k + sz > off)

    def write(self, mem, o, off, val, n):
        ob = self.objs[o]
        if off < 0 or off + n > ob.size or ob.ro:
            raise Unsupported('store out of bounds (%s+%d)' % (ob.name, off))
        cells = dict(self._cells(mem, o))
        c = cells.get(off)
        if not (c is not None and c[1] == n):
            for k in self._over(cells, off, n):
                v, sz = cells.pop(k)
                if k < off:
                    self._put(cells, v, sz, k, 0, off - k)
                if k + sz > off + n:
                    self._put(cells, v, sz, k, off + n - k, sz)
        cells[off] = (val, n)
        mem[o] = cells

    def _put(self, cells, v, sz, k, lo, hi):
        if isinstance(v, bytes):
            cells[k + lo] = (v[lo:hi], hi - lo)
        else:
            v = self._fix(v, sz)
            if isinstance(v, Ptr):
                raise Unsupported('partial overwrite of a pointer')
            cells[k + lo] = (t.extract(v, 8 * hi - 1, 8 * lo), hi - lo)

    def cand(self, off, size, n):
        """candidate concrete offsets of a symbolic offset"""
        if t.isc(off):
            k = off.p
            if k >> 63:
                k -= 1 << 64
            return [k]
        cs = consts_of(off)
        if cs is not None:
            return [c - (1 << 64) if c >> 63 else c for c in sorted(cs)]
        z = min(t.tz(off), 12)
        step = 1 << z
        base = 0
        o2 = off
        if off.op == 'add' and t.isc(off.a[1]):
            z2 = min(t.tz(off.a[0]), 12)
            if z2 > z:
                step = 1 << z2
                base = off.a[1].p % step
        hi = min(t.ub(off), size - n)
        r = list(range(base, hi + 1, step))
        if len(r) > 4096:
            raise Unsupported('symbolic offset with %d candidates' % len(r))
        return r

    def load(self, st, p, n):
        if not isinstance(p, Ptr):
            raise Unsupported('load through integer')
        res = None
        for g, o, off in p.alts:
            ob = self.objs[o]
            if o == 0:
                if res is None and len(p.alts) == 1:
                    self.undef += 1
                    res = t.fresh('nullload', 8 * n)
                continue
            ks = self.cand(off, ob.size, n)
            if not ks:
                v = t.fresh('oob', 8 * n)
            else:
                v = self.table(off, [(k, self.read(st.mem, o, k, n))
                                     for k in ks])
            res = v if res is None else mite(g, v, res)
        return res

    def table(self, off, kv):
        """balanced selection; the last entry is the default"""
        if len(kv) == 1:
            return kv[0][1]
        m = len(kv) // 2
        c = t.ult(off, t.const(kv[m][0], PW))
        if kv[0][0] < 0:
            c = t.slt(off, t.const(kv[m][0], PW))
        return mite(c, self.table(off, kv[:m]), self.table(off, kv[m:]))

    def store(self, st, p, val, n):
        if not isinstance(p, Ptr):
            raise Unsupported('store through integer')
        single = len(p.alts) == 1
        for g, o, off in p.alts:
            if o == 0:
                continue
            ob = self.objs[o]
            ks = self.cand(off, ob.size, n)
            if len(ks) == 1 and single:
                self.write(st.mem, o, ks[0], val, n)
                continue
            for k in ks:
                c = t.and_(g, t.eq(off, t.const(k, PW))) if len(ks) > 1 else g
                if c is t.FALSE:
                    continue
                old = self.read(st.mem, o, k, n)
                self.write(st.mem, o, k, mite(c, val, old), n)

    def memcpy(self, st, d, s, n):
        if not t.isc(n):
            ubn = t.ub(n)
            if ubn > 4096:
                raise Unsupported('memcpy of symbolic length')
            tmp = [self.load(st, gep(s, t.const(i, PW)), 1)
                   for i in range(ubn)]
            for i in range(ubn):
                di = gep(d, t.const(i, PW))
                try:
                    old = self.load(st, di, 1)
                    self.store(st, di, mite(t.ult(t.const(i, PW), n),
                                            tmp[i], old), 1)
                except Unsupported:
                    break
            return
        n = n.p
        if n == 0:
            return
        if len(s.alts) == 1 and len(d.alts) == 1 and \
                t.isc(s.alts[0][2]) and t.isc(d.alts[0][2]):
            so, sf = s.alts[0][1], s.alts[0][2].p
            do, df = d.alts[0][1], d.alts[0][2].p
            if so == 0:
                return
            cells = self._cells(st.mem, so)
            pieces = []
            for k in sorted(k for k, (v, sz) in cells.items()
                            if k < sf + n and k + sz > sf):
                v, sz = cells[k]
                lo, hi = max(sf, k), min(sf + n, k + sz)
                if lo == k and hi == k + sz:
                    pieces.append((k - sf, v, sz))
                else:
                    pieces.append((lo - sf, self.read(st.mem, so, lo,
                                                      hi - lo), hi - lo))
            for o, v, sz in pieces:
                self.write(st.mem, do, df + o, v, sz)
            return
        # general: word-wise
        w = 8 if n % 8 == 0 else 1
        vals = [self.load(st, gep(s, t.const(i, PW)), w)
                for i in range(0, n, w)]
        for i, v in zip(range(0, n, w), vals):
            self.store(st, gep(d, t.const(i, PW)), v, w)

    def memset(self, st, d, v, n):
        if not t.isc(n):
            ubn = t.ub(n)
            if ubn > 4096:
                raise Unsupported('memset of symbolic length')
            for i in range(ubn):
                di = gep(d, t.const(i, PW))
                try:
                    old = self.load(st, di, 1)
                    self.store(st, di, mite(t.ult(t.const(i, PW), n), v, old),
                               1)
                except Unsupported:
                    break
            return
        n = n.p
        if n == 0:
            return
        if t.isc(v) and len(d.alts) == 1 and t.isc(d.alts[0][2]):
            o, off = d.alts[0][1], d.alts[0][2].p
            self.write(st.mem, o, off, bytes([v.p]) * n, n)
            return
        for i in range(n):
            self.store(st, gep(d, t.const(i, PW)), v, 1)

    # ---- values ------------------------------------------------------------
    def constval(self, ty, v):
        return self.val(None, ty, v)

    def undefval(self, ty):
        k = ty[0]
        if k == 'i':
            self.undef += 1
            return t.fresh('undef', ty[1])
        if k == 'ptr':
            return ptr(0, 8)
        if k == 'struct':
            return tuple(self.undefval(x) for x in ty[1])
        if k == 'array':
            return tuple(self.undefval(ty[2]) for _ in range(ty[1]))
        if k == 'f':
            return t.fresh('undef', ty[1])
        raise Unsupported('undef %r' % (ty,))

    def val(self, env, ty, v):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            return t.const(v[1], ty[1])
        if k == 'zero':
            if ty[0] == 'i' or ty[0] == 'f':
                return t.const(0, ty[1])
            if ty[0] == 'ptr':
                return ptr(0)
            if ty[0] == 'struct':
                return tuple(self.val(env, x, v) for x in ty[1])
            if ty[0] == 'array':
                return tuple(self.val(env, ty[2], v) for _ in range(ty[1]))
        if k == 'undef':
            return self.undefval(ty)
        if k == 'glob':
            return ptr(self.glob_obj(v[1]))
        if k == 'gep':
            return self.gepv(env, v[1], self.val(env, ('ptr',), v[2]), v[3])
        if k == 'inttoptr':
            x = self.val(env, v[1], v[2])
            return Ptr(((t.TRUE, 0, t.resize(x, PW)),)) \
                if isinstance(x, t.T) else x
        if k == 'agg':
            return tuple(self.val(env, a, b) for a, b in v[1])
        if k == 'bytes':
            return tuple(t.const(b, 8) for b in v[1])
        raise Unsupported('value %r' % (v,))

    def gepv(self, env, bt, base, idx):
        off = t.const(0, PW)
        ty = bt
        for j, (it, iv) in enumerate(idx):
            x = self.val(env, it, iv)
            if j and ty[0] == 'struct':
                off = t.add(off, t.const(L.field_off(ty, x.p), PW))
                ty = ty[1][x.p]
                continue
            if j:
                ty = ty[2]
            x = t.sext(x, PW) if x.w < PW else t.trunc(x, PW)
            off = t.add(off, t.mul(x, t.const(L.size_of(ty), PW)))
        return gep(base, off)

    def ptrint(self, p):
        """integer value of a pointer (objects live at symbolic addresses)"""
        if isinstance(p, t.T):
            return p
        r = None
        for g, o, off in p.alts:
            v = off if o == 0 else t.add(t.var('addr!%d' % o, PW), off)
            r = v if r is None else t.ite(g, v, r)
        return r

    def icmp(self, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, t.T):
                a = Ptr(((t.TRUE, 0, a),))
            if isinstance(b, t.T):
                b = Ptr(((t.TRUE, 0, b),))
            r = t.FALSE
            for g1, o1, f1 in a.alts:
                for g2, o2, f2 in b.alts:
                    g = t.and_(g1, g2)
                    if g is t.FALSE:
                        continue
                    if o1 == o2:
                        c = cmpop(pr, f1, f2)
                    elif pr == 'eq':
                        c = t.FALSE
                    elif pr == 'ne':
                        c = t.TRUE
                    else:
                        raise Unsupported('pointer order')
                    r = t.or_(r, t.and_(g, c))
            return r
        return cmpop(pr, a, b)

    # ---- execution ---------------------------------------------------------
    def call(self, name, args, st):
        """returns (value or None, state or None)"""
        if self.hook is not None:
            r = self.hook(self, name, args, st)
            if r is not None:
                return r
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('external ' + name)
        if name in self.stack and self.feasible is not None \
                and not self.feasible(st.pc):
            self.unwind.append((st.pc, name + ' (recursion infeasible)'))
            return None, None
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        if len(self.stack) > 40:
            raise Unsupported('recursion')
        self.stack.append(name)
        act = Activation(self, f)
        env = {}
        for (ty, r), v in zip(f.params, args):
            env[r] = v
        r = act.run(State(st.pc, env, dict(st.mem), st.facts))
        self.stack.pop()
        return r


def gep(p, off):
    if not isinstance(p, Ptr):
        return t.add(p, off)
    if t.isc(off) and off.p == 0:
        return p
    return Ptr(tuple((g, o, t.add(f, off)) for g, o, f in p.alts))


def consts_of(x, lim=64):
    """set of constants if x is a tree of ites over constants"""
    out = set()
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if len(seen) > 400:
            return None
        if t.isc(y):
            out.add(y.p)
        elif y.op == 'ite':
            st.append(y.a[1])
            st.append(y.a[2])
        else:
            return None
        if len(out) > lim:
            return None
    return out


def cmpop(pr, a, b):
    if pr == 'eq':
        return t.eq(a, b)
    if pr == 'ne':
        return t.ne(a, b)
    if pr == 'ult':
        return t.ult(a, b)
    if pr == 'ule':
        return t.ule(a, b)
    if pr == 'ugt':
        return t.ult(b, a)
    if pr == 'uge':
        return t.ule(b, a)
    if pr == 'slt':
        return t.slt(a, b)
    if pr == 'sle':
        return t.sle(a, b)
    if pr == 'sgt':
        return t.slt(b, a)
    if pr == 'sge':
        return t.sle(b, a)
    raise Unsupported('icmp ' + pr)


def sat_mask(w):
    return t.const((1 << w) - 1, w)


class Activation:
    def __init__(self, ex, f):
        self.ex, self.f = ex, f
        self.pending = {}       # block -> list of (pred, State)
        self.rets = []

    def run(self, st):
        self.pending[self.f.entry] = [(None, st)]
        self.comps(self.f.wto)
        if not self.rets:
            return None, None
        val, s = self.rets[0]
        for v2, s2 in self.rets[1:]:
            val, s = (mite(s2.pc, v2, val) if val is not None else None,
                      self.merge2(s, s2, ()))
        return val, s

    def comps(self, part):
        for c in part:
            if isinstance(c, tuple):
                self.loop(c)
            else:
                self.block(c)

    def loop(self, c):
        _, h, body = c
        ex = self.ex
        k = 0
        while self.pending.get(h):
            inc = self.pending[h]
            if k:
                pc = t.disj(*[s.pc for _, s in inc])
                if pc is t.FALSE:
                    del self.pending[h]
                    break
                if k > ex.max_iter:
                    ex.unwind.append((pc, '%s %s' % (self.f.name, h)))
                    del self.pending[h]
                    break
                if k >= ex.feas_from and ex.feasible is not None \
                        and not ex.feasible(pc):
                    ex.unwind.append((pc, '%s %s (shown infeasible)'
                                      % (self.f.name, h)))
                    del self.pending[h]
                    break
            k += 1
            self.block(h)
            self.comps(body)
        key = self.f.name + h
        ex.iters[key] = max(ex.iters.get(key, 0), k)

    def merge2(self, a, b, live):
        """merge two states (disjoint path conditions)"""
        c = b.pc
        pc = t.or_(a.pc, b.pc)
        env = {}
        for r in live:
            if r in a.env:
                if r in b.env:
                    env[r] = mite(c, b.env[r], a.env[r])
                else:
                    env[r] = a.env[r]
            elif r in b.env:
                env[r] = b.env[r]
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        return State(pc, env, self.merge_mem(c, a.mem, b.mem), facts)

    def merge_mem(self, c, ma, mb):
        if ma is mb:
            return ma
        out = {}
        for o in set(ma) | set(mb):
            x = ma.get(o)
            y = mb.get(o)
            if x is y:
                out[o] = x
                continue
            if x is None or y is None:
                ini = self.ex.objs[o].init
                if ini is None:
                    out[o] = x if x is not None else y
                    continue
                x = ini if x is None else x
                y = ini if y is None else y
            cells = {}
            ks = sorted(set(x) | set(y))
            if all(k in x and k in y and x[k][1] == y[k][1] for k in ks):
                for k in ks:
                    cells[k] = self.mcell(c, y[k], x[k])
            else:
                bounds = set()
                cover = []
                for z in (x, y):
                    for k, (v, n) in z.items():
                        bounds.add(k)
                        bounds.add(k + n)
                bl = sorted(bounds)
                for lo, hi in zip(bl, bl[1:]):
                    inx = bool(self.ex._over(x, lo, hi - lo))
                    iny = bool(self.ex._over(y, lo, hi - lo))
                    if not inx and not iny:
                        continue
                    n = hi - lo
                    vx = self.ex.read({o: x}, o, lo, n) if inx else None
                    vy = self.ex.read({o: y}, o, lo, n) if iny else None
                    if vx is None:
                        cells[lo] = (vy, n)
                    elif vy is None:
                        cells[lo] = (vx, n)
                    else:
                        cells[lo] = (mite(c, vy, vx), n)
            out[o] = cells
        return out

    def mcell(self, c, y, x):
        if y is x or y[0] is x[0]:
            return x
        if isinstance(x[0], bytes) and x[0] == y[0]:
            return x
        n = x[1]
        return (mite(c, self.ex._fix(y[0], n), self.ex._fix(x[0], n)), n)

    def goto(self, src, dst, st):
        if st.pc is t.FALSE:
            return
        self.pending.setdefault(dst, []).append((src, st))

    def block(self, b):
        inc = self.pending.pop(b, None)
        if not inc:
            return
        ex, f = self.ex, self.f
        ins = f.blocks[b]
        live = f.livein[b]
        # evaluate phis per incoming edge, then merge
        states = []
        nphi = 0
        while ins[nphi].op == 'phi':
            nphi += 1
        for src, st in inc:
            env = {r: st.env[r] for r in live if r in st.env}
            if nphi:
                new = {}
                for i in ins[:nphi]:
                    for v, l in i.args:
                        if l == src:
                            new[i.dst] = ex.val(st.env, i.ty, v)
                            break
                    else:
                        raise Unsupported('phi')
                env.update(new)
            states.append(State(st.pc, env, st.mem, st.facts))
        st = states[0]
        if len(states) > 1:
            lv = set(live) | {i.dst for i in ins[:nphi]}
            for s2 in states[1:]:
                st = self.merge2(st, s2, lv)
            if ex.guide is not None:
                for i in ins[:nphi]:
                    v = st.env.get(i.dst)
                    if isinstance(v, t.T):
                        st.env[i.dst] = ex.guide.rewrite(v, st.pc)
        st.mem = dict(st.mem)
        st.env = dict(st.env)
        self.exec(b, ins, nphi, st)

    def cond(self, st, c):
        if t.isc(c):
            return c
        v = st.facts.get(c.id)
        if v is not None:
            return v
        if c.op == 'not':
            v = st.facts.get(c.a[0].id)
            if v is not None:
                return t.not_(v)
        if c.op == 'and':
            x, y = self.cond(st, c.a[0]), self.cond(st, c.a[1])
            if x is not c.a[0] or y is not c.a[1]:
                return t.and_(x, y)
        if c.op == 'or':
            x, y = self.cond(st, c.a[0]), self.cond(st, c.a[1])
            if x is not c.a[0] or y is not c.a[1]:
                return t.or_(x, y)
        return c

    def guided(self, st, c):
        if self.ex.guide is None or t.isc(c):
            return c
        r = self.ex.guide(st.pc, c)
        return c if r is None else r

    def assume(self, facts, c, v):
        d = dict(facts)
        work = [(c, v)]
        while work:
            c, v = work.pop()
            if t.isc(c):
                continue
            d[c.id] = t.TRUE if v else t.FALSE
            n = t.not_(c)
            d[n.id] = t.FALSE if v else t.TRUE
            if c.op == 'not':
                work.append((c.a[0], not v))
            elif c.op == 'and' and v:
                work += [(c.a[0], True), (c.a[1], True)]
            elif c.op == 'or' and not v:
                work += [(c.a[0], False), (c.a[1], False)]
        return d

    def exec(self, b, ins, i, st):
        ex = self.ex
        env = st.env
        n = len(ins)
        while i < n:
            I = ins[i]
            op = I.op
            ex.insts += 1
            if op in L.BIN:
                x = ex.val(env, I.ty, I.args[0])
                y = ex.val(env, I.ty, I.args[1])
                env[I.dst] = v = BINF[op](x, y)
                if ex.guide is not None:
                    env[I.dst] = ex.guide.rewrite(v, st.pc)
            elif op == 'icmp':
                x = ex.val(env, I.ty, I.args[0])
                y = ex.val(env, I.ty, I.args[1])
                env[I.dst] = v = self.cond(st, ex.icmp(I.x, x, y))
                if ex.guide is not None and isinstance(v, t.T):
                    env[I.dst] = ex.guide.rewrite(v, st.pc)
            elif op == 'select':
                c = self.guided(st, self.cond(
                    st, ex.val(env, ('i', 1), I.args[0])))
                env[I.dst] = v = mite(c, ex.val(env, I.ty, I.args[1]),
                                      ex.val(env, I.ty, I.args[2]))
                if ex.guide is not None and isinstance(v, t.T) and \
                        not t.isc(c):
                    env[I.dst] = ex.guide.rewrite(v, st.pc)
            elif op == 'zext':
                env[I.dst] = t.zext(ex.val(env, I.x, I.args[0]), I.ty[1])
            elif op == 'sext':
                env[I.dst] = t.sext(ex.val(env, I.x, I.args[0]), I.ty[1])
            elif op == 'trunc':
                env[I.dst] = t.trunc(ex.val(env, I.x, I.args[0]), I.ty[1])
            elif op == 'freeze':
                env[I.dst] = ex.val(env, I.ty, I.args[0])
            elif op == 'load':
                nb = L.size_of(I.ty)
                v = ex.load(st, ex.val(env, ('ptr',), I.args[0]), nb)
                if I.ty[0] == 'i':
                    if isinstance(v, Ptr):
                        v = ex.ptrint(v)
                    if v.w != I.ty[1]:
                        v = t.trunc(v, I.ty[1])
                elif I.ty[0] == 'ptr':
                    if not isinstance(v, Ptr):
                        v = Ptr(((t.TRUE, 0, v),))
                else:
                    raise Unsupported('load ' + repr(I.ty))
                env[I.dst] = v
            elif op == 'store':
                v = ex.val(env, I.ty, I.args[0])
                nb = L.size_of(I.ty)
                p = ex.val(env, ('ptr',), I.args[1])
                if isinstance(v, tuple):
                    for j, x in enumerate(v):
                        et = I.ty[1][j] if I.ty[0] == 'struct' else I.ty[2]
                        eo = L.field_off(I.ty, j) if I.ty[0] == 'struct' \
                            else j * L.size_of(et)
                        if isinstance(x, t.T) and x.w != 8 * L.size_of(et):
                            x = t.zext(x, 8 * L.size_of(et))
                        ex.store(st, gep(p, t.const(eo, PW)), x,
                                 L.size_of(et))
                else:
                    if isinstance(v, t.T) and v.w != 8 * nb:
                        v = t.zext(v, 8 * nb)
                    ex.store(st, p, v, nb)
            elif op == 'getelementptr':
                env[I.dst] = ex.gepv(env, I.ty,
                                     ex.val(env, ('ptr',), I.args[0]),
                                     list(zip(I.x, I.args[1:])))
            elif op == 'alloca':
                env[I.dst] = ptr(ex.new_obj(L.size_of(I.ty), I.dst))
            elif op == 'extractvalue':
                v = ex.val(env, I.ty, I.args[0])
                for k in I.x:
                    v = v[k]
                env[I.dst] = v
            elif op == 'insertvalue':
                v = ex.val(env, I.ty, I.args[0])
                et = I.ty
                for k in I.x:
                    et = et[1][k] if et[0] == 'struct' else et[2]
                x = ex.val(env, et, I.args[1])
                env[I.dst] = ins_at(v, I.x, x)
            elif op == 'ptrtoint':
                v = ex.ptrint(ex.val(env, I.x, I.args[0]))
                env[I.dst] = t.resize(v, I.ty[1])
            elif op == 'inttoptr':
                v = ex.val(env, I.x, I.args[0])
                env[I.dst] = v if isinstance(v, Ptr) else \
                    Ptr(((t.TRUE, 0, t.resize(v, PW)),))
            elif op == 'bitcast':
                env[I.dst] = ex.val(env, I.x, I.args[0])
            elif op == 'br':
                if len(I.x) == 1:
                    self.goto(b, I.x[0], st)
                    return
                c = self.cond(st, ex.val(env, ('i', 1), I.args[0]))
                if I.x[0] == I.x[1]:
                    self.goto(b, I.x[0], st)
                    return
                c = self.guided(st, c)
                if t.isc(c):
                    self.goto(b, I.x[0 if c.p else 1], st)
                    return
                nc = t.not_(c)
                self.goto(b, I.x[0], State(t.and_(st.pc, c), env, st.mem,
                                           self.assume(st.facts, c, True)))
                self.goto(b, I.x[1], State(t.and_(st.pc, nc), env, st.mem,
                                           self.assume(st.facts, c, False)))
                return
            elif op == 'switch':
                v = ex.val(env, I.ty, I.args[0])
                d, cs = I.x
                by = {}
                rest = t.TRUE
                for k, l in cs:
                    c = self.cond(st, t.eq(v, t.const(k, v.w)))
                    c = self.guided(st, c)
                    by[l] = t.or_(by.get(l, t.FALSE), c)
                    rest = t.and_(rest, t.not_(c))
                by[d] = t.or_(by.get(d, t.FALSE), rest)
                for l, c in by.items():
                    if c is not t.FALSE:
                        c = self.guided(st, c)
                    if c is t.FALSE:
                        continue
                    self.goto(b, l, State(t.and_(st.pc, c), env, st.mem,
                                          self.assume(st.facts, c, True)))
                return
            elif op == 'ret':
                v = ex.val(env, I.ty, I.args[0]) if I.args else None
                self.rets.append((v, st))
                return
            elif op == 'unreachable':
                ex.ub.append((st.pc, '%s %s' % (self.f.name, b)))
                return
            elif op in ('call', 'invoke'):
                nx = ins[i + 1] if i + 1 < n else None
                if nx is not None and nx.op == 'unreachable':
                    if not I.x[0].startswith('@llvm.'):
                        ex.panics.append((st.pc, '%s: %s'
                                          % (self.f.name, I.x[0])))
                        return
                else:
                    st2 = self.docall(I, st)
                    if st2 is None:
                        return
                    if st2 is not st:
                        st = st2
                        env = st.env
                    if op == 'invoke':
                        self.goto(b, I.x[2], st)
                        return
            else:
                raise Unsupported(I.text)
            i += 1
        raise Unsupported('fell off block')

    def docall(self, I, st):
        ex = self.ex
        name, ats = I.x[0], I.x[1]
        env = st.env
        if name.startswith('@llvm.lifetime') or \
                name.startswith('@llvm.experimental.noalias') or \
                name.startswith('@llvm.assume') or \
                name.startswith('@llvm.dbg'):
            return st
        if name == 'asm':
            raise Unsupported('inline assembly')
        a = [ex.val(env, ty, v) for ty, v in zip(ats, I.args)]
        if name.startswith('@llvm.'):
            r = self.intrinsic(name, a, I, st)
            if I.dst:
                env[I.dst] = r
            return st
        if name.startswith('%'):
            fp = env[name]
            r = s2 = None
            for g, o, off in fp.alts:
                pc = t.and_(st.pc, g)
                if pc is t.FALSE:
                    continue
                r1, s1 = ex.call(ex.objs[o].name, a, State(
                    pc, {}, st.mem, self.assume(st.facts, g, True)))
                if s1 is None:
                    continue
                if s2 is None:
                    r, s2 = r1, s1
                else:
                    r = mite(s1.pc, r1, r) if r is not None else None
                    s2 = self.merge2(s2, s1, ())
        else:
            r, s2 = ex.call(name, a, st)
        if s2 is None:
            return None
        s2.env = env
        if I.dst:
            env[I.dst] = r
        return s2

    def intrinsic(self, name, a, I, st):
        ex = self.ex
        nm = name[6:]
        k = nm.split('.')[0]
        if k == 'memcpy' or k == 'memmove':
            ex.memcpy(st, a[0], a[1], a[2])
            return None
        if k == 'memset':
            ex.memset(st, a[0], a[1], a[2])
            return None
        if k == 'ctlz':
            return t.clz(a[0])
        if k == 'cttz':
            return t.ctz(a[0])
        if k == 'ctpop':
            return t.pop(a[0])
        if k in ('ucmp', 'scmp'):
            w = I.ty[1]
            lt = t.ult if k == 'ucmp' else t.slt
            return t.ite(lt(a[0], a[1]), t.const(-1, w),
                         t.ite(t.eq(a[0], a[1]), t.const(0, w),
                               t.const(1, w)))
        if k in ('fshl', 'fshr'):
            w = a[0].w
            c = t.concat(a[0], a[1])
            s = t.urem(a[2], t.const(w, w))
            if k == 'fshl':
                return t.extract(t.shl(c, t.zext(s, 2 * w)), 2 * w - 1, w)
            return t.extract(t.lshr(c, t.zext(s, 2 * w)), w - 1, 0)
        if k == 'umin':
            return t.ite(t.ult(a[0], a[1]), a[0], a[1])
        if k == 'umax':
            return t.ite(t.ult(a[0], a[1]), a[1], a[0])
        if k == 'smin':
            return t.ite(t.slt(a[0], a[1]), a[0], a[1])
        if k == 'smax':
            return t.ite(t.slt(a[0], a[1]), a[1], a[0])
        if k == 'abs':
            z = t.const(0, a[0].w)
            return t.ite(t.slt(a[0], z), t.neg(a[0]), a[0])
        if k == 'bswap':
            r = t.const(0, 0)
            r = None
            for i in range(0, a[0].w, 8):
                x = t.extract(a[0], i + 7, i)
                r = x if r is None else t.concat(r, x)
            return r
        if k == 'bitreverse':
            r = None
            for i in range(a[0].w):
                x = t.extract(a[0], i, i)
                r = x if r is None else t.concat(r, x)
            return r
        w = a[0].w if a and isinstance(a[0], t.T) else 0
        if nm.startswith('usub.sat'):
            return t.ite(t.ult(a[0], a[1]), t.const(0, w), t.sub(a[0], a[1]))
        if nm.startswith('uadd.sat'):
            return t.ite(t.uaddo(a[0], a[1]), sat_mask(w), t.add(a[0], a[1]))
        if nm.startswith('sadd.sat') or nm.startswith('ssub.sat'):
            f = t.add if nm.startswith('sadd') else t.sub
            s = f(t.sext(a[0], w + 1), t.sext(a[1], w + 1))
            hi = t.const((1 << (w - 1)) - 1, w)
            lo = t.const(1 << (w - 1), w)
            return t.ite(t.slt(t.sext(hi, w + 1), s), hi,
                         t.ite(t.slt(s, t.sext(lo, w + 1)), lo,
                               t.trunc(s, w)))
        if nm.startswith('uadd.with.overflow'):
            return (t.add(a[0], a[1]), t.uaddo(a[0], a[1]))
        if nm.startswith('usub.with.overflow'):
            return (t.sub(a[0], a[1]), t.ult(a[0], a[1]))
        if nm.startswith('umul.with.overflow'):
            p = t.mul(t.zext(a[0], 2 * w), t.zext(a[1], 2 * w))
            return (t.trunc(p, w), t.ne(t.extract(p, 2 * w - 1, w),
                                        t.const(0, w)))
        if '.with.overflow' in nm and nm[0] == 's':
            W = 2 * w if nm.startswith('smul') else w + 1
            f = {'sadd': t.add, 'ssub': t.sub, 'smul': t.mul}[nm[:4]]
            p = f(t.sext(a[0], W), t.sext(a[1], W))
            r = t.trunc(p, w)
            return (r, t.ne(t.sext(r, W), p))
        if nm.startswith('is.constant'):
            return t.FALSE
        if nm.startswith('expect'):
            return a[0]
        if k == 'fabs':
            return t.and_(a[0], t.const((1 << (w - 1)) - 1, w))
        raise Unsupported(name)


def ins_at(v, ix, x):
    if not ix:
        return x
    l = list(v)
    l[ix[0]] = ins_at(l[ix[0]], ix[1:], x)
    return tuple(l)


BINF = {
    'add': t.add, 'sub': t.sub, 'mul': t.mul, 'udiv': t.udiv,
    'sdiv': t.sdiv, 'urem': t.urem, 'srem': t.srem, 'and': t.and_,
    'or': t.or_, 'xor': t.xor, 'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr,
}


def run_entry(ex, name, ins, outs, pc=t.TRUE):
    """Call a C-ABI entry point.

    outs: list of byte sizes of output buffers (passed first);
    ins: list of ('w', [terms 128]) in-memory operands, ('v', term) scalars,
         ('b', [byte terms]) byte buffers.
    returns (ret, [list of output objects' read function], state)"""
    mem = {}
    args = []
    oo = []
    for n in outs:
        o = ex.new_obj(n, 'out')
        oo.append(o)
        args.append(ptr(o))
    for k, v in ins:
        if k == 'v':
            args.append(v)
        elif k == 'w':
            o = ex.new_obj(16 * len(v), 'in')
            mem[o] = {16 * i: (x, 16) for i, x in enumerate(v)}
            args.append(ptr(o))
        else:
            o = ex.new_obj(len(v), 'in')
            mem[o] = {i: (x, 1) for i, x in enumerate(v)}
            args.append(ptr(o))
    r, s = ex.call(name, args, State(pc, {}, mem, {}))
    return r, oo, s
