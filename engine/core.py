"""Infrastructure of the checks: build, symbolic execution of an entry point,
solver cases, native replay, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import llparse
import native
import smt
import symex as S
import terms as t

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
LUTS = ('pow2_div_pow5_lut', 'pow5_div_pow2_lut', 'pow2_div_pow10_lut',
        'pow10_div_pow2_lut')


class CheckError(Exception):
    """the check itself failed (never a verdict on the code)"""


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        raise CheckError('%s failed:\n%s' % (' '.join(cmd),
                                             p.stdout.decode()[-3000:]))


class Build:
    """compiles the working tree of /repo and the harness into a scratch
    directory: native library and LLVM IR of the same compilation"""

    def __init__(self, checked=False):
        self.dir = tempfile.mkdtemp(prefix='f256chk')
        smt.TMP = self.dir
        self.t0 = time.time()
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, HOME='/root')
        env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
        env.pop('RUSTFLAGS', None)
        d = self.dir
        F = ['-O', '--edition', '2021', '-C', 'panic=abort',
             '-C', 'codegen-units=1', '-C', 'no-vectorize-loops',
             '-C', 'no-vectorize-slp', '-A', 'warnings']
        if checked:
            F += ['-C', 'overflow-checks=on', '-C', 'debug-assertions=on']
        sw = subprocess.Popen(
            ['g++', '-O2', '-w', '-o', d + '/sweep', HERE + '/sweep.cc',
             '-lminisat'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ext = []
        ps = []
        for n in LUTS:
            src = '%s/%s/src/lib.rs' % (REPO, n)
            if not os.path.exists(src):
                src = '%s/harness/stubs/f256_%s.rs' % (VERIF, n)
            ps.append((n, subprocess.Popen(
                ['rustc'] + F + ['--crate-type', 'rlib', '--crate-name',
                                 'f256_' + n, src, '-o',
                                 'libf256_%s.rlib' % n], cwd=d, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            ext += ['--extern', 'f256_%s=libf256_%s.rlib' % (n, n)]
        for n, p in ps:
            o = p.communicate()[0]
            if p.returncode:
                raise CheckError('stub %s: %s' % (n, o.decode()[-2000:]))
        sh(['rustc'] + F + ['--crate-type', 'rlib', '--crate-name', 'f256',
                            '--cfg', 'feature="std"',
                            REPO + '/src/lib.rs'] + ext
           + ['-o', 'libf256.rlib', '-C', 'embed-bitcode=yes'], d, env)
        sh(['rustc'] + F + ['-C', 'lto=fat', '--crate-type', 'cdylib',
                            '--crate-name', 'harness',
                            VERIF + '/harness/harness.rs', '--extern',
                            'f256=libf256.rlib', '-L', '.',
                            '--emit=llvm-ir=h.ll,link=libh.so'], d, env)
        o = sw.communicate()[0]
        if sw.returncode:
            raise CheckError('sweep.cc: ' + o.decode()[-2000:])
        smt.SWEEP = d + '/sweep'
        self.lib = d + '/libh.so'
        self.mod = llparse.Module(d + '/h.ll')
        with open(d + '/h.ll', 'rb') as f:
            self.ir_sha = hashlib.sha256(f.read()).hexdigest()[:16]
        self.secs = time.time() - self.t0

    def native(self, calls, timeout=60):
        return native.run(self.lib, calls, timeout)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class TinyBuild:
    """src/big_uint of the working tree with words of W bits"""

    def __init__(self, W):
        d = self.dir = tempfile.mkdtemp(prefix='tiny', dir=B.dir)
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, HOME='/root')
        env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
        env.pop('RUSTFLAGS', None)
        with open(VERIF + '/harness/tiny.rs') as f:
            src = f.read().replace('@REPO@', REPO).replace('@W@', str(W))
        with open(d + '/tiny.rs', 'w') as f:
            f.write(src)
        try:
            sh(['rustc', '-O', '--edition', '2021', '-C', 'panic=abort',
                '-C', 'codegen-units=1', '-C', 'no-vectorize-loops',
                '-C', 'no-vectorize-slp', '-A', 'warnings', '--crate-type',
                'cdylib', '--crate-name', 'tiny', 'tiny.rs',
                '--emit=llvm-ir=t.ll,link=libt.so'], d, env)
        except CheckError as e:
            raise S.Unsupported('the traits of src/big_uint changed: %s' % e)
        self.lib = d + '/libt.so'
        self.mod = llparse.Module(d + '/t.ll')

    def native(self, calls, timeout=60):
        return native.run(self.lib, calls, timeout)


B = None          # the Build of this process


# --------------------------------------------------------------------------
# symbolic run of a harness entry point

class Run:
    """result of the symbolic execution of one entry point"""

    def __init__(self, entry, args, outs=(32,), pc=t.TRUE, max_iter=600,
                 feasible=None, **kw):
        self.entry = entry
        self.args = args
        self.outs = list(outs)
        t0 = time.time()
        ins = []
        for k, v in args:
            if k == 'w':          # 256-bit (or wider) pattern, high word first
                n = v.w // 128
                ins.append(('w', [t.extract(v, v.w - 1 - 128 * i,
                                            v.w - 128 - 128 * i)
                                  for i in range(n)]))
            elif k == 'v':
                ins.append(('v', v))
            else:
                ins.append((k, v))
        ex = S.Exec(B.mod, max_iter=max_iter, feasible=feasible, **kw)
        self.ex = ex
        self.ret, oo, s = S.run_entry(ex, '@' + entry, ins, outs, pc)
        self.out = []
        for o, n in zip(oo, outs):
            ws = [ex.read(s.mem, o, i, min(16, n - i))
                  for i in range(0, n, 16)]
            ws = [x if x.w == 8 * min(16, n - 16 * i) else x
                  for i, x in enumerate(ws)]
            r = ws[0]
            for x in ws[1:]:
                r = t.concat(r, x)   # first word is the high one
            self.out.append(r)
        self.res = self.out[0] if self.out else None
        self.panic = t.disj(*[p for p, _ in ex.panics])
        self.lost = t.disj(*([p for p, _ in ex.unwind]
                             + [p for p, _ in ex.oob]))
        self.secs = time.time() - t0

    def calldata(self, env):
        """native call for a concrete environment"""
        ins = []
        env = dict(env)
        for k, v in self.args:      # inputs the obligation does not mention
            for y in t.variables(v if k == 'b' else [v]):
                env.setdefault(y.p, smt.RANGES.get(y.p, (0, 0))[0])
        for k, v in self.args:
            if k == 'w':
                x, = t.evaluate([v], env)
                n = v.w // 128
                ins.append(('w', [(x >> (128 * (n - 1 - i))) & t.mask(128)
                                  for i in range(n)]))
            elif k == 'v':
                x, = t.evaluate([v], env)
                ins.append(('v', x, v.w))
            elif k == 'b':
                ins.append(('b', bytes(t.evaluate(v, env))))
            else:
                raise CheckError('argument kind ' + k)
        return (self.entry, ins, self.outs)

    def natout(self, r):
        """native result -> (ret, out values in the layout of self.out)"""
        ret, outs = r
        vals = []
        for v, n in zip(outs, self.outs):
            if n % 16 == 0:
                x = 0
                for i in range(n // 16):
                    x = (x << 128) | ((v >> (128 * i)) & t.mask(128))
                v = x
            vals.append(v)
        return ret, vals


# --------------------------------------------------------------------------
# patterns (simulation stimuli of the solver, vacuity witnesses)

def rnd_value(R, w, lo, hi):
    k = R.randrange(10)
    if k == 0:
        v = lo
    elif k == 1:
        v = hi
    elif k == 2:
        v = R.randint(lo, hi)
    elif k == 3:
        v = R.getrandbits(w) >> R.randrange(w)
    elif k == 4:
        v = 1 << R.randrange(w)
    elif k == 5:
        v = t.mask(w) ^ t.mask(R.randrange(w + 1))
    elif k == 6:
        v = t.mask(R.randrange(w + 1))
    elif k == 7:
        v = R.randint(lo, min(hi, lo + 300))
    elif k == 8:
        v = R.randint(max(lo, hi - 300), hi)
    else:
        v = R.getrandbits(w)
    if not lo <= v <= hi:
        v = lo + v % (hi - lo + 1)
    return v


def rnd_float(R):
    """256-bit pattern, biased to corners"""
    e = R.choice([0, 0, 1, 2, 0x7fffe, 0x7ffff, 0x3ffff, R.randrange(1 << 19),
                  0x3ffff + R.randrange(-300, 300),
                  0x3ffff + R.randrange(-300, 300), R.randrange(600)])
    f = rnd_value(R, 236, 0, t.mask(236))
    return (R.getrandbits(1) << 255) | (e << 236) | f


def patterns(vs, n, seed=0, gen=None):
    R = random.Random(SEED * 1000003 + seed)
    out = []
    for i in range(n):
        env = {}
        for v in vs:
            lo, hi = smt.RANGES.get(v.p, (0, t.mask(v.w)))
            if v.w == 256 and v.p not in smt.RANGES:
                env[v.p] = rnd_float(R)
            else:
                env[v.p] = rnd_value(R, v.w, lo, hi)
        if gen is not None:
            env.update(gen(R))
        out.append(env)
    return out


def finish(rec, t0, st0):
    rec['secs'] = round(time.time() - t0, 2)
    for q in ('queries', 'sat', 'unsat', 'unknown', 'solver_s', 'build_s'):
        rec['q_' + q] = smt.STATS[q] - st0.get(q, 0)
    return rec


# --------------------------------------------------------------------------
# cases

class Case:
    """One solver obligation: a function that builds and decides it."""

    def __init__(self, name, fn, weight=1.0, essential=True):
        self.name = name
        self.fn = fn
        self.weight = weight


class Res(dict):
    pass


def decide(name, runs, bad, assume=(), cuts=(), gen=None, npats=512,
           timeout=120, method='sweep', expected=None, nval=6, lemmas=(),
           budget=300, known=()):
    """Is `bad` reachable under `assume`?  runs: the Run objects involved (for
    replay and for validating the translation).  Returns a result record."""
    t0 = time.time()
    st0 = dict(smt.STATS)
    assume = [a for a in assume if a is not t.TRUE]
    lost = t.disj(*[r.lost for r in runs])
    # the encoding is complete only where no bound was hit
    goal = t.or_(bad, lost)
    vs = t.variables([goal] + list(assume) + [r.res for r in runs
                                              if r.res is not None]
                     + [x for r in runs for k, v in r.args
                        for x in (v if isinstance(v, list) else [v])])
    pats = patterns(vs, npats, hash_name(name), gen)
    rec = Res(case=name, verdict=None, nodes=len(t.topo([goal])),
              functions=sorted(set(f for r in runs
                                   for f in r.ex.funcs_seen)),
              insts=sum(r.ex.insts for r in runs))
    # validate: encoding against the compiled library on stimuli that satisfy
    # the assumptions (also the vacuity witness)
    good = []
    order = t.topo(list(assume)) if assume else []
    for p in pats:
        if not assume or all(t.evaluate(list(assume), p, order)):
            good.append(p)
            if len(good) >= nval:
                break
    if not good:
        k, env = smt.check(list(assume) + range_terms(vs), timeout=60)
        if k == 'unsat':
            rec.update(verdict='vacuous', secs=time.time() - t0)
            return rec
        if k == 'sat':
            for v in vs:
                env.setdefault(v.p, smt.RANGES.get(v.p, (0, 0))[0])
            good.append(env)
            pats.append(env)
    rec['witnesses'] = len(good)
    rec['validated'] = validate(runs, good)
    if goal is t.FALSE:
        rec.update(verdict='unsat', secs=time.time() - t0, trivial=True)
        return rec
    k, env = solve(list(assume), [goal], timeout, pats, cuts, method, budget)
    rec['verdict'] = k
    rec['secs'] = round(time.time() - t0, 2)
    for q in ('queries', 'sat', 'unsat', 'unknown', 'solver_s', 'build_s'):
        rec['q_' + q] = smt.STATS[q] - st0.get(q, 0)
    if k == 'sat':
        for v in vs:
            env.setdefault(v.p, smt.RANGES.get(v.p, (0, 0))[0])
        rec['replay'] = replay(name, runs, bad, env, expected)
    return rec


def hash_name(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


def range_terms(vs):
    out = []
    for v in vs:
        if v.p in smt.RANGES:
            lo, hi = smt.RANGES[v.p]
            out += [t.ule(t.const(lo, v.w), v), t.ule(v, t.const(hi, v.w))]
    return [x for x in out if x is not t.TRUE]


def solve(assume, goals, timeout, pats, cuts, method, budget=300):
    if method == 'kissat':
        return smt.check(assume + goals, timeout=timeout)
    if method == 'both':
        r = smt.check(assume + goals, timeout=timeout / 3)
        if r[0] != 'unknown':
            return r
    return smt.sweep(assume, goals, timeout=timeout, pats=pats, cuts=cuts,
                     budget=budget)


def validate(runs, envs):
    n = 0
    for r in runs:
        if not envs:
            continue
        nat = B.native([r.calldata(e) for e in envs])
        roots = [x for x in r.out] + [r.panic, r.lost]
        if r.ret is not None and isinstance(r.ret, t.T):
            roots.append(r.ret)
        order = t.topo(roots)
        for e, x in zip(envs, nat):
            v = t.evaluate(roots, e, order)
            k = len(r.out)
            if v[k + 1]:
                continue
            if x == 'hang':
                raise CheckError('native call hangs: %r' % (r.calldata(e),))
            if (x == 'abort') != bool(v[k]):
                raise CheckError('encoding and library disagree on a panic: '
                                 '%r' % (r.calldata(e),))
            if x == 'abort':
                n += 1
                continue
            ret, outs = r.natout(x)
            if outs != v[:k] or (len(roots) > k + 2 and
                                 (ret & t.mask(r.ret.w)) != v[k + 2]):
                raise CheckError('encoding and library disagree: %r native %r '
                                 'encoded %r' % (r.calldata(e),
                                                 [hex(o) for o in outs],
                                                 [hex(o) for o in v[:k]]))
            n += 1
    return n


def hexcall(c):
    name, ins, outs = c
    a = []
    for x in ins:
        if x[0] == 'w':
            a.append('0x' + ''.join('%032x' % w for w in x[1]))
        elif x[0] == 'b':
            a.append(repr(bytes(x[1])))
        else:
            a.append('%#x' % x[1])
    return '%s(%s)' % (name, ', '.join(a))


def replay(name, runs, bad, env, expected):
    """Run the counterexample against the compiled library."""
    calls = [r.calldata(env) for r in runs]
    nat = B.native(calls)
    ok = True           # does the library agree with the encoding?
    lines = []
    for r, c, x in zip(runs, calls, nat):
        roots = list(r.out) + [r.panic, r.lost]
        if r.ret is not None and isinstance(r.ret, t.T):
            roots.append(r.ret)
        v = t.evaluate(roots, env)
        k = len(r.out)
        if v[k + 1]:
            ok = False
            lines.append('%s: outside the encoded bounds' % hexcall(c))
            continue
        if x in ('abort', 'hang'):
            lines.append('%s -> %s' % (hexcall(c), x))
            if x == 'hang' or not v[k]:
                ok = False
            continue
        ret, outs = r.natout(x)
        lines.append('%s -> %s' % (hexcall(c), ', '.join(
            [hex(o) for o in outs] + (['ret %d' % ret] if r.ret is not None
                                      else []))))
        if v[k] or outs != v[:k]:
            ok = False
        if len(roots) > k + 2 and (ret & t.mask(r.ret.w)) != v[k + 2]:
            ok = False
    b, = t.evaluate([bad], env)
    exp = None
    if expected is not None:
        try:
            e = expected if isinstance(expected, t.T) else None
            exp = '%#x' % t.evaluate([e], env)[0] if e is not None \
                else str(expected)
        except Exception:       # only for display
            exp = '?'
    return dict(case=name, reproduced=bool(ok and b), calls=lines,
                expected=exp, env={k: hex(v) for k, v in env.items()})


# --------------------------------------------------------------------------
# pool

def _child(case, conn):
    try:
        smt.STATS.update(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                         build_s=0.0)
        t0 = time.time()
        r = case.fn()
        if isinstance(r, dict):
            r = [r]
            r[0]['secs'] = round(time.time() - t0, 2)
        conn.send(('ok', r))
    except CheckError as e:
        conn.send(('err', 'CheckError: %s' % e))
    except S.Unsupported as e:
        conn.send(('unsup', str(e)))
    except BaseException:
        conn.send(('err', traceback.format_exc()[-3000:]))
    conn.close()
    os._exit(0)


def run_cases(cases, deadline, jobs=None, on_result=None):
    """runs the cases in parallel processes; returns (results, skipped)"""
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    todo = sorted(cases, key=lambda c: -c.weight)
    live = []
    results = []
    skipped = []
    stop = False
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < jobs and not stop:
            if time.time() > deadline - 10:
                skipped += [c.name for c in todo]
                todo = []
                break
            c = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(c, w))
            p.start()
            w.close()
            live.append((c, p, r))
        if stop:
            for c, p, r in live:
                kill_tree(p.pid)
                p.join()
            skipped += [c.name for c in todo] + [c.name for c, _, _ in live]
            break
        ready = mp.connection.wait([r for _, _, r in live], timeout=1.0)
        nl = []
        for c, p, r in live:
            if r in ready:
                try:
                    k, v = r.recv()
                except EOFError:
                    k, v = 'err', 'worker of case %s died' % c.name
                p.join()
                results.append((c.name, k, v))
                if on_result and on_result(c.name, k, v):
                    stop = True
            elif time.time() > deadline:
                kill_tree(p.pid)
                p.join()
                skipped.append(c.name)
            else:
                nl.append((c, p, r))
        live = nl
    return results, skipped


def kill_tree(pid):
    kids = []
    try:
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    with open('/proc/%s/stat' % d) as f:
                        s = f.read()
                    if int(s[s.rindex(')') + 2:].split()[1]) == pid:
                        kids.append(int(d))
                except (OSError, ValueError):
                    pass
    except OSError:
        pass
    for k in kids:
        kill_tree(k)
    try:
        os.kill(pid, 9)
    except OSError:
        pass


# --------------------------------------------------------------------------
# driver

def known_findings(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid
                and k.get('status') == 'open']


def still_fails(k):
    """does the recorded witness still fail in the current tree?"""
    w = k.get('witness')
    if not w:
        return True
    ins = []
    for x in w['args']:
        if isinstance(x, str):
            v = int(x, 16)
            ins.append(('w', [v >> 128, v & t.mask(128)]))
        else:
            ins.append(('v', x, 32))
    r, = B.native([(w['entry'], ins, w.get('outs', []))])
    got = r if isinstance(r, str) else (
        r[0] & 0xff if not w.get('outs') else '%#x' % (
            ((r[1][0] & t.mask(128)) << 128) | (r[1][0] >> 128)))
    return got == w['got']


def run_check(pid, title, make_cases, tier, bounds, outside, deadline,
              checked=False, explain='', stubs=()):
    global B
    t0 = time.time()
    import multiprocessing.connection  # noqa: F401
    rc = 0
    viol = []
    errs = []
    try:
        B = Build(checked)
        cases = make_cases(tier)
        end = t0 + deadline

        def on(name, k, v):
            if k == 'ok':
                for r in v:
                    if r.get('verdict') == 'sat':
                        if r['replay']['reproduced']:
                            viol.append(r)
                            return True
                        errs.append('case %s: the counterexample does not '
                                    'reproduce: %s' % (name, r['replay']))
            elif k == 'err':
                errs.append('case %s: %s' % (name, v))
            if os.environ.get('VERIF_V'):
                print('  [%6.1f] %s %s' % (
                    time.time() - t0, name,
                    ' '.join('%s/%.1f' % (r['verdict'], r.get('secs', 0))
                             for r in v) if k == 'ok' else k + ' ' + v[-1500:]),
                    file=sys.stderr, flush=True)
            return False

        results, skipped = run_cases(cases, end, on_result=on)
        recs = [r for _, k, v in results if k == 'ok' for r in v]
        unsup = [(n, v) for n, k, v in results if k == 'unsup']
        cnt = {}
        for r in recs:
            cnt[r['verdict']] = cnt.get(r['verdict'], 0) + 1
        unk = [r['case'] for r in recs if r['verdict'] == 'unknown']
        cov = dict(
            explanation=explain or (
                'Symbolic execution of the LLVM IR that rustc emits for the '
                'current working tree of /repo; each obligation is the '
                'negated property over symbolic inputs, decided by a SAT '
                'solver (kissat / minisat with SAT sweeping) or z3.'),
            functions_encoded=sorted(set(demangle(f) for r in recs
                                         for f in r.get('functions', []))),
            instructions_encoded=sum(r.get('insts', 0) for r in recs),
            bounds=bounds, outside_the_bounds=outside,
            obligations=len(recs), discharged=cnt.get('unsat', 0),
            refuted=cnt.get('sat', 0), vacuous=cnt.get('vacuous', 0),
            undecided_in_time=unk, not_run=skipped,
            not_encodable=[list(x) for x in unsup],
            solver_queries=int(sum(r.get('q_queries', 0) for r in recs)),
            solver_seconds=round(sum(r.get('q_solver_s', 0)
                                     for r in recs), 2),
            vacuity_witnesses=sum(r.get('witnesses', 0) for r in recs),
            encoding_validated_against_native_runs=sum(
                r.get('validated', 0) for r in recs),
            ir_sha256=B.ir_sha, build_s=round(B.secs, 1),
            cases=[dict(case=r['case'], verdict=r['verdict'],
                        s=r.get('secs', 0), nodes=r.get('nodes', 0))
                   for r in recs][:400],
        )
        ev = dict(property=pid, tier=tier, seed=SEED, level='other',
                  coverage=cov, wall_s=round(time.time() - t0, 1),
                  violations=len(viol),
                  assumptions=['the LLVM IR of rustc -O for x86-64 is the '
                               'code that runs', 'the IR-to-term translation '
                               '(validated on native runs in each case)',
                               'minisat, kissat'] + list(stubs))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in known_findings(pid):
            if not still_fails(k):
                continue
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        for n, v in unsup:
            print('not encodable: %s: %s' % (n, v))
        if viol:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            r = viol[0]['replay']
            path = '%s/replays/%s.json' % (VERIF, pid)
            with open(path, 'w') as f:
                json.dump(dict(property=pid, title=title, **r), f, indent=1)
            for ln in r['calls']:
                print('  ' + ln)
            if r['expected']:
                print('  expected ' + r['expected'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        elif errs:
            print('\n'.join(errs)[:6000])
            rc = 2
        print('%s: %d obligations, %d discharged, %d undecided, %d not run, '
              '%.1f s' % (pid, len(recs), cnt.get('unsat', 0), len(unk),
                          len(skipped), time.time() - t0))
        for n in unk[:20]:
            print('  undecided within the time limit: %s' % n)
        for n in skipped[:20]:
            if not viol:
                print('  not run: %s' % n)
    except CheckError as e:
        print('error: %s' % e)
        rc = 2
    finally:
        if B is not None:
            B.close()
    sys.stdout.flush()
    return rc


def demangle(f):
    f = f.lstrip('@').strip('"')
    if f.startswith('_ZN'):
        out = []
        i = 3
        while i < len(f) and f[i].isdigit():
            j = i
            while f[j].isdigit():
                j += 1
            n = int(f[i:j])
            out.append(f[j:j + n])
            i = j + n
        if out and len(out[-1]) == 17 and out[-1][0] == 'h':
            out.pop()
        s = '::'.join(out)
        for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '),
                     ('$RF$', '&'), ('..', '::'), ('$u7b$', '{'),
                     ('$u7d$', '}'), ('$LP$', '('), ('$RP$', ')'),
                     ('$C$', ',')):
            s = s.replace(a, b)
        return s
    return f
