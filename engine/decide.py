"""Path exploration and decision of obligations for one harness case (see DESIGN.md)."""
import os, sys, ctypes, math, time, subprocess, tempfile, json, random, signal, resource
from fractions import Fraction
import numpy as np
import z3
import nf
from nf import *

sys.setrecursionlimit(100000)
RTOL_PROVE = 1e-9       # relative tolerance of the claim (rounding abstraction)
RTOL_NATIVE = 1e-7      # a native replay must exceed this to be a violation
BIG = 1e300


class Late(Exception):
    """the time allowed for one step is used up"""


class limit:
    def __init__(self, seconds): self.s = max(0.05, seconds)

    def __enter__(self):
        signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def fire(self, *a): raise Late()

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class Run:
    """one execution of the instrumented harness: the trace of one path"""

    def __init__(self, exe, case, datadir, given, timeout=120):
        fd, path = tempfile.mkstemp(prefix="symtrace.")
        os.close(fd)
        args = [exe, case, datadir, path] + [f"{k}={v!r}" for k, v in given.items()]
        env = dict(os.environ, OPENBLAS_NUM_THREADS="1")
        self.given = dict(given)
        self.outcome, self.events, self.inputs, self.lost, self.fns = None, [], [], {}, []
        self.dag = Dag()
        self.nnodes = 0
        try:
            p = subprocess.run(args, capture_output=True, timeout=timeout, env=env)
            self.rc = p.returncode
            self.stderr = p.stderr.decode("utf-8", "replace")[-2000:]
        except subprocess.TimeoutExpired:
            self.rc, self.stderr = "timeout", ""
        try:
            self.parse(path)
        finally:
            os.unlink(path)
        if self.outcome is None:
            self.outcome = f"crash rc={self.rc} {self.stderr[-600:]}"

    def parse(self, path):
        d = self.dag
        with open(path) as f:
            for line in f:
                p = line.rstrip("\n").split("\t")
                k = p[0]
                if k == "N": d.add_raw(int(p[1]), int(p[2]), int(p[3]), int(p[4]), float(p[5]))
                elif k == "I":
                    i = int(p[5])
                    d.inputs[i] = (p[1], float(p[2]), float(p[3]))
                    self.inputs.append((p[1], float(p[2]), float(p[3]), float(p[4]), i))
                elif k == "X": self.lost[p[1]] = int(p[2])
                elif k == "F": self.fns.append(p[1])
                elif k == "Z": self.outcome, self.nnodes = p[1], int(p[2])
                else:
                    self.events.append((k, p[1], int(p[2]), int(p[3]), int(p[4]), float(p[5]), float(p[6]),
                                        float(p[7]), float(p[8]), p[9]))
        self.cuts = {e[2]: e[3] for e in self.events if e[0] == "C"}

    def hashes(self):
        if hasattr(self, "_h"): return self._h
        h = {}
        d = self.dag
        for i in sorted(d.op):
            op = d.op[i]
            if op == CONST: h[i] = hash(("c", d.v[i]))
            elif op == INPUT: h[i] = hash(("i", d.inputs[i][0]))
            elif op in nf.UN: h[i] = hash((op, h.get(d.a[i])))
            else: h[i] = hash((op, h.get(d.a[i]), h.get(d.b[i])))
        self._h = h
        return h


class ToZ3:
    """exact real-arithmetic translation of DAG nodes; transcendental functions become fresh reals
    constrained by sound lemmas (sign, monotone bounds over the input box)."""

    def __init__(self, dag, iv):
        self.dag, self.iv = dag, iv
        self.memo, self.side, self.vars = {}, [], {}

    def num(self, v):
        if v != v or abs(v) == INF: raise ValueError("non-finite constant")
        return z3.RealVal(str(Fraction(v)))

    def bound(self, t, i):
        l, h = self.iv.get(i, (-INF, INF))
        if -BIG < l: self.side.append(t >= self.num(l))
        if h < BIG: self.side.append(t <= self.num(h))

    def node(self, root):
        for i in self.dag.topo([root]):
            if i not in self.memo: self.memo[i] = self._node(i)
        return self.memo[root]

    def fresh(self, i, tag):
        t = z3.Real(f"{tag}!{i}")
        self.bound(t, i)
        return t

    def _node(self, i):
        d = self.dag
        op = d.op[i]
        if op == CONST: return self.num(d.v[i])
        if op == INPUT:
            t = z3.Real(f"in!{i}")
            self.vars[i] = t
            self.bound(t, i)
            return t
        A = self.memo[d.a[i]]
        if op in nf.UN:
            if op == NEG: return -A
            if op == ABS: return z3.If(A >= 0, A, -A)
            if op == SQRT:
                t = self.fresh(i, "sqrt"); self.side += [t >= 0, t * t == A]; return t
            if op == CBRT:
                t = self.fresh(i, "cbrt"); self.side += [t * t * t == A]; return t
            if op == EXP:
                t = self.fresh(i, "exp"); self.side += [t > 0, t >= 1 + A]; return t
            if op == LOG:
                t = self.fresh(i, "log"); self.side += [A > 0, t <= A - 1]; return t
            if op == FLOOR: return z3.ToReal(z3.ToInt(A))
            if op == TRUNC: return z3.If(A >= 0, z3.ToReal(z3.ToInt(A)), -z3.ToReal(z3.ToInt(-A)))
            return self.fresh(i, f"fn{op}")
        B = self.memo[d.b[i]]
        if op == ADD: return A + B
        if op == SUB: return A - B
        if op == MUL: return A * B
        if op == DIV:
            if d.op[d.b[i]] != CONST: self.side.append(B != 0)
            return A / B
        if op == POW:
            if d.op[d.b[i]] == CONST:
                e = d.v[d.b[i]]
                if e == int(e) and 0 < abs(e) <= 12:
                    r = A
                    for _ in range(int(abs(e)) - 1): r = r * A
                    if e < 0: self.side.append(A != 0); r = 1 / r
                    return r
                if e == 0.5:
                    t = self.fresh(i, "sqrt"); self.side += [t >= 0, t * t == A]; return t
            return self.fresh(i, "pow")
        if op == FMIN: return z3.If(A <= B, A, B)
        if op == FMAX: return z3.If(A >= B, A, B)
        if op == LT: return A < B
        if op == LE: return A <= B
        if op == GT: return A > B
        if op == GE: return A >= B
        if op == EQ: return A == B
        if op == NE: return A != B
        if op in (AND, OR, XOR):
            A, B = [x if z3.is_bool(x) else (x != 0) for x in (A, B)]
            return {AND: z3.And, OR: z3.Or, XOR: z3.Xor}[op](A, B)
        return self.fresh(i, f"fn{op}")


class Case:
    def __init__(self, prop, exe, case, datadir, tier, seed, opts, deadline, known=()):
        self.prop, self.exe, self.case, self.datadir = prop, exe, case, datadir
        self.tier, self.seed, self.deadline = tier, seed, deadline
        self.max_paths = opts.get("max_paths", 60 if tier == "quick" else 400)
        self.step = opts.get("step", 20 if tier == "quick" else 200)
        self.known = set(known)
        self.st = {"paths": 0, "branches": 0, "flips_unsat_z3": 0, "flips_unsat_bounds": 0, "flips_reached": 0,
                   "flips_unknown": 0, "obligations": 0, "discharged": 0, "undecided": [], "solver_s": 0.0,
                   "queries": 0, "max_nodes": 0, "runs": 0, "reach": 0, "truncated": False, "native_checked": 0,
                   "structural": 0, "assumed_away": 0, "validated": 0, "values_compared": 0, "translation_mismatch": [], "late": 0}
        self.violations, self.fns, self.outcomes, self.lost = [], set(), {}, {}
        self.known_hit = []
        self.proven = set()
        self.samples = []
        self.never, self.unknown_at = set(), {}
        self.rng = np.random.default_rng(seed + 12345)
        self.inputs_seen = {}

    # ---------------------------------------------------------------- runs
    def run(self, given):
        self.st["runs"] += 1
        return Run(self.exe, self.case, self.datadir, given)

    def solver(self, timeout_ms, logic=None):
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set("timeout", int(timeout_ms))
        return s

    def ask(self, s):
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.st["solver_s"] += time.time() - t
        self.st["queries"] += 1
        return r

    def explore(self):
        work, seen_path, seen_flip = [{}], set(), set()
        while work:
            if self.st["paths"] >= self.max_paths or time.time() > self.deadline:
                self.st["truncated"] = True
                break
            given = work.pop(0)
            r = self.run(given)
            for f in r.fns: self.fns.add(f)
            for k, n in r.lost.items(): self.lost[k] = self.lost.get(k, 0) + n
            h = r.hashes()
            br = [(e[2], e[3], e[9]) for e in r.events if e[0] == "B"]
            sig = tuple((h[c], t) for c, t, _ in br) + (r.outcome.split(" ")[0],)
            if sig in seen_path: continue
            seen_path.add(sig)
            key = r.outcome[:60]
            self.outcomes[key] = self.outcomes.get(key, 0) + 1
            for n, lo, hi, v, i in r.inputs: self.inputs_seen.setdefault(n, (lo, hi))
            if r.outcome == "assumed-away":
                self.st["assumed_away"] += 1
            else:
                self.st["paths"] += 1
            self.st["max_nodes"] = max(self.st["max_nodes"], r.nnodes)
            self.prepare(r, br)
            if r.outcome == "ok":
                self.st["reach"] += 1
                self.validate(r)
                if self.violations and self.tier == "quick": return
                self.obligations(r)
            elif r.outcome == "assumed-away":
                pass
            else:
                self.bad_outcome(r)
            if self.violations and self.tier == "quick":
                return
            # flip branches
            for n, (c, t, where) in enumerate(br):
                if time.time() > self.deadline:
                    self.st["truncated"] = True
                    break
                fkey = (tuple((h[x], y) for x, y, _ in br[:n]), h[c], 1 - t)
                fkey = hash(fkey)
                if fkey in seen_flip: continue
                seen_flip.add(fkey)
                self.st["branches"] += 1
                try:
                    with limit(min(self.step, max(0.5, self.deadline - time.time()))): g = self.flip(r, br, n)
                except (Late, MemoryError, z3.Z3Exception, ctypes.ArgumentError):
                    g = None
                    self.st["late"] += 1
                    self.st["flips_unknown"] += 1
                if g is not None: work.append(g)

    def prepare(self, r, br):
        d = r.dag
        iv = {}
        # cut variables take the bounds of what they replace
        for e in r.events:
            if e[0] == "C" and e[3]:
                d.intervals([e[3]], iv)
                iv[e[2]] = iv[e[3]]
        roots = [c for c, _, _ in br]
        # an input pinned to a constant by this path
        pin = {}
        for c, t, _ in br:
            if (d.op[c] == EQ and t) or (d.op[c] == NE and not t):
                x, y = d.a[c], d.b[c]
                if d.op[y] == INPUT: x, y = y, x
                if d.op[x] == INPUT and d.op[y] == CONST and x not in r.cuts:
                    pin[x] = d.v[y]
                    iv[x] = (d.v[y], d.v[y])
        r.solved, r.fixed = [], set()
        tie = self.path_equations(r, br, pin, iv)
        for e in r.events:
            if e[0] in "EDGO": roots += [x for x in e[2:5] if x]
        rr = [x for x in roots if x in d.op]
        d.intervals(rr, iv)
        hard = [c for c in {c for c, _, _ in br} if iv[c][0] != iv[c][1]]
        hard += [x for e in r.events if e[0] == "G" for x in e[2:4] if x]
        if hard:
            try:
                with limit(10 if self.tier == "quick" else 60): d.refine(hard, iv)
            except Late:
                self.st["late"] += 1
        # propagate the tightened bounds upward once more
        iv2 = {}
        for i in d.topo(rr):
            o = iv.get(i)
            if i in r.cuts or d.op[i] in (CONST, INPUT):
                iv2[i] = o; continue
            d.bound1(i, iv2)
            n = iv2[i]
            if o is not None: iv2[i] = (max(o[0], n[0]), min(o[1], n[1]))
        iv.update(iv2)
        r.iv = iv
        r.pins = tuple(sorted((d.inputs[x][0], v) for x, v in pin.items())) + tuple(sorted((d.inputs[x][0], d.inputs[y][0]) for x, y in tie.items())) + tuple(r.solved)
        r.pinned = set(pin) | set(tie) | set(tie.values()) | r.fixed
        r.nf0 = r.nf1 = None
        # samples of the input box evaluated on every branch condition
        N = int(min(192, max(24, 1.5e7 / max(1, r.nnodes))))
        env = {}
        free = [x for x in r.inputs if not x[0].startswith("cut:")]
        for j, (n, lo, hi, v, i) in enumerate(free):
            u = self.rng.random(N)
            if lo > 0 and hi / lo > 50:
                s = np.where(self.rng.random(N) < 0.5, lo + (hi - lo) * u, lo * (hi / lo) ** u)
            else:
                s = lo + (hi - lo) * u
            # half of the samples perturb only a few inputs of this run
            keep = np.arange(N) % 2 == 1
            pick = self.rng.random(N) < 2.0 / max(2, len(free))
            s = np.where(keep & ~pick, v, s)
            s[0] = v
            env[i] = np.clip(s, lo, hi)
            if i in pin: env[i] = np.full(N, pin[i])
        for x, y in tie.items():
            if x in env and y in env: env[x] = env[y]
        if r.cuts:
            vals = d.evaluate([x for x in r.cuts.values() if x], env) if False else {}
            for c, old in r.cuts.items():
                if old:
                    env[c] = d.evaluate([old], env)[old] * np.ones(N)
        r.env, r.N = env, N
        if br:
            val = d.evaluate([c for c, _, _ in br], env)
            r.bools = {c: np.broadcast_to(np.asarray(val[c]).astype(bool), (N,)) for c, _, _ in br}
        else:
            r.bools = {}
        r.br = br
        m = np.ones(N, bool)
        for c, t, _ in br: m &= (r.bools[c] == bool(t))
        r.onpath = m

    def path_equations(self, r, br, pin, iv):
        """equalities between expressions on this path: an input that must be zero, a constant, or another input"""
        d, tie = r.dag, {}
        for c, t, _ in br:
            if not ((d.op[c] == EQ and t) or (d.op[c] == NE and not t)): continue
            x, y = d.a[c], d.b[c]
            if d.op[x] in (INPUT, CONST) and d.op[y] in (INPUT, CONST) and CONST in (d.op[x], d.op[y]): continue
            try:
                with limit(1):
                    if len(d.topo([x, y])) > 400: continue
                    d.intervals([x, y], iv)
                    M = NF(d, iv, 50)
                    P = M.clean(M.padd(M.of(x), M.of(y), -1.0))
            except (Late, TooBig, OverflowError, ValueError): continue
            inp = lambda a: M.at.kind[a][0] == "in"
            if len(P) == 1:
                m, = P
                z = [a for a, e in m if e > 0 and M.at.iv[a][0] <= 0 <= M.at.iv[a][1]]
                if len(z) == 1 and inp(z[0]):
                    i = M.at.kind[z[0]][1]
                    if i not in r.cuts: pin[i] = 0.0; iv[i] = (0.0, 0.0)
            elif len(P) == 2:
                (m, (c1, _)), (n, (c2, _)) = P.items()
                q = M.mmul(m, M.mpow(n, -1.0))
                if not all(inp(a) and abs(e) == 1 for a, e in q): continue
                k = -c2 / c1
                if len(q) == 1:
                    i = M.at.kind[q[0][0]][1]
                    v = k if q[0][1] == 1 else 1 / k
                    if i not in r.cuts: pin[i] = v; iv[i] = (v, v)
                elif len(q) == 2 and q[0][1] * q[1][1] == -1 and abs(k - 1) < 1e-12:
                    i, j = sorted((M.at.kind[q[0][0]][1], M.at.kind[q[1][0]][1]))
                    if i in r.cuts or j in r.cuts or i in tie or j in tie or i in pin or j in pin: continue
                    tie[j] = i
                    d.alias[j] = i
            if self.solve_for(r, M, P, pin, tie, iv): continue
            if len(P) % 2 == 0 and 2 < len(P) <= 60:
                # (u - v) * (sum of terms of one sign) == 0  =>  u == v
                ins = [a for a in {a for m in P for a, _ in m} if inp(a)]
                for u in ins:
                    for v in ins:
                        i, j = M.at.kind[u][1], M.at.kind[v][1]
                        if i >= j or d.v[i] != d.v[j] or {i, j} & (set(r.cuts) | set(tie) | set(pin)): continue
                        if not self.difference(M, P, u, v): continue
                        tie[j] = i
                        d.alias[j] = i
        return tie

    def solve_for(self, r, M, P, pin, tie, iv):
        """P == 0 with two or three terms in the inputs: express one input by the others"""
        d, at = r.dag, M.at
        if not 2 <= len(P) <= 3: return False
        atoms = {a for m in P for a, _ in m}
        if not all(at.kind[a][0] == "in" for a in atoms) or not all(e in (1, 2, 3, -1, -2, -3) for m in P for _, e in m): return False
        for u in sorted(atoms, key=lambda a: -at.kind[a][1]):
            i = at.kind[u][1]
            home = [m for m in P if u in dict(m)]
            if len(home) != 1 or dict(home[0])[u] != 1 or i in r.cuts or i in tie or i in pin or i in d.alias: continue
            if any(at.kind[a][1] in r.cuts for a in atoms): continue
            def term(m, c):
                x = d.const(c)
                for a, e in m:
                    for _ in range(int(abs(e))): x = d.mk(MUL if e > 0 else DIV, x, at.kind[a][1])
                return x
            rest = tuple(x for x in home[0] if x[0] != u)
            lo, hi = M.miv(rest)
            if not (lo > 0 or hi < 0 or len(P) == 2 and () in P): continue      # the divisor may vanish
            den = term(rest, -P[home[0]][0])
            num = d.const(0)
            for m, (c, _) in P.items():
                if m is not home[0]: num = d.mk(ADD, num, term(m, c))
            x = d.mk(DIV, num, den)
            if i in d.topo_alias([x]) or not math.isfinite(d.v[x]): continue
            d.intervals([x], iv)
            d.alias[i] = x
            r.fixed |= {at.kind[a][1] for a in atoms}
            r.solved.append((d.inputs[i][0], tuple(sorted((tuple(sorted((d.inputs[at.kind[a][1]][0], e) for a, e in m)), c) for m, (c, _) in P.items()))))
            return True
        return False

    def difference(self, M, P, u, v):
        """is P = (u - v) * S with every term of S of the same strict sign?"""
        sign = 0
        for m, (c, s) in P.items():
            e = dict(m)
            if (u in e) == (v in e): return False
            w, o = (u, v) if u in e else (v, u)
            if e[w] not in (1, -1): return False
            if e[w] == -1 and not (M.at.iv[u][0] > 0 and M.at.iv[v][0] > 0): return False
            k = e[w] * (1 if w == u else -1)       # terms in 1/u - 1/v have the opposite sign
            rest = tuple(x for x in m if x[0] != w)
            n = M.mmul(rest, ((o, e[w]),))
            if n not in P or abs(P[n][0] + c) > 1e-12 * abs(c): return False
            l, h = M.miv(rest)
            if not (l > 0 or h < 0): return False
            g = k * (1 if c > 0 else -1) * (1 if l > 0 else -1)
            if sign and g != sign: return False
            sign = g
        return sign != 0

    def point(self, r, k):
        return {n: float(r.env[i][k]) for n, lo, hi, v, i in r.inputs if not n.startswith("cut:")}

    def flip(self, r, br, n):
        c, t, where = br[n]
        iv = r.iv.get(c, (0, 1))
        if iv == (1, 1) and t or iv == (0, 0) and not t:
            self.st["flips_unsat_bounds"] += 1
            return None
        hk = (r.hashes()[c], t)
        if hk in self.never:
            self.st["flips_unsat_z3"] += 1
            return None
        m = np.ones(r.N, bool)
        for x, y, _ in br[:n]: m &= (r.bools[x] == bool(y))
        m &= (r.bools[c] != bool(t))
        if m.any():
            self.st["flips_reached"] += 1
            return self.point(r, int(np.argmax(m)))
        # bounds of the compared difference in normal form (exact for linear expressions)
        op = r.dag.op[c]
        if op in (LT, LE, GT, GE, EQ, NE):
            b = self.nf_bounds(r, r.dag.a[c], r.dag.b[c])
            if b is not None:
                v = ival(op, b, (0.0, 0.0))
                if v[0] == v[1] and bool(v[0]) == bool(t):
                    self.st["flips_unsat_bounds"] += 1
                    self.never.add(hk)
                    return None
        # solver: (box only, then cone of the prefix, then the whole prefix) & not c
        for scope in ("box", "cone", "all"):
            tr = ToZ3(r.dag, r.iv)
            s = self.solver(700 if self.tier == "quick" else 6000)
            try:
                e = tr.node(c)
                s.add(z3.Not(e) if t else e)
                cone = r.dag.depends([c])
                for x, y, _ in br[:n]:
                    if scope == "box": break
                    xi = r.iv.get(x, (0, 1))
                    if xi[0] == xi[1]: continue
                    if scope == "cone" and not (r.dag.depends([x]) <= cone): continue
                    b = tr.node(x)
                    s.add(b if y else z3.Not(b))
                s.add(*tr.side)
            except (ValueError, RecursionError):
                self.st["flips_unknown"] += 1
                return None
            q = self.ask(s)
            if q == z3.unsat:
                self.st["flips_unsat_z3"] += 1
                if scope == "box": self.never.add(hk)
                return None
            if q == z3.unknown:
                if scope != "all": continue
                self.st["flips_unknown"] += 1
                return None
            g = self.model(r, tr, s.model())
            # does the model really follow the prefix?
            ok = self.follows(r, br[:n], c, t, g)
            if ok:
                self.st["flips_reached"] += 1
                return g
        self.st["flips_unknown"] += 1
        self.unknown_at[where] = self.unknown_at.get(where, 0) + 1
        return None

    def nf_bounds(self, r, a, b):
        try:
            if r.nf0 is None: r.nf0 = NF(r.dag, r.iv, limit=1, cap=3000)
            r.nf0.deadline = time.time() + 1.0
            P = r.nf0.padd(r.nf0.of(a), r.nf0.of(b), -1.0)
            b0 = r.nf0.piv(r.nf0.clean(P))
            r.nf1 = r.nf1 or NF(r.dag, r.iv, limit=600, cap=3000)
            r.nf1.deadline = time.time() + 1.0
            P = r.nf1.padd(r.nf1.of(a), r.nf1.of(b), -1.0)
            b1 = r.nf1.piv(r.nf1.clean(P))
            lo, hi = max(b0[0], b1[0]), min(b0[1], b1[1])
            if lo < 0 < hi:
                # sign after clearing (positive) denominators and expanding sums
                P, f = r.nf1.reduce(P)
                if r.nf1.miv(f)[0] > 0:
                    b2 = r.nf1.piv(r.nf1.fold(r.nf1.clean(P)))
                    if b2[0] >= 0: lo = 0.0 if b2[0] == 0 else 1e-300
                    if b2[1] <= 0: hi = 0.0 if b2[1] == 0 else -1e-300
            return (lo, hi)
        except (TooBig, OverflowError, ValueError, ZeroDivisionError):
            return None

    def follows(self, r, prefix, c, t, g):
        env = {i: g[n] for n, lo, hi, v, i in r.inputs if n in g}
        for x, old in r.cuts.items():
            if old: env[x] = r.dag.evaluate([old], env)[old]
        val = r.dag.evaluate([x for x, _, _ in prefix] + [c], env)
        return all(bool(val[x]) == bool(y) for x, y, _ in prefix) and bool(val[c]) != bool(t)

    def model(self, r, tr, m):
        g = {}
        for n, lo, hi, v, i in r.inputs:
            if n.startswith("cut:"): continue
            x = None
            if i in tr.vars:
                q = m.eval(tr.vars[i])
                try:
                    if z3.is_rational_value(q): x = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
                    elif z3.is_algebraic_value(q):
                        q = q.approx(40); x = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
                except (OverflowError, AttributeError):
                    x = None
            if x is None: x = v
            g[n] = min(max(x, lo), hi)
        return g

    # ---------------------------------------------------------------- outcomes
    def bad_outcome(self, r):
        """an uncaught exception or crash on an admissible input: confirm by replay"""
        lab = "outcome"
        r2 = self.run(self.given_of(r))
        if r2.outcome.split(" ")[0] == r.outcome.split(" ")[0]:
            self.violate(r, lab, f"{r.outcome[:400]}")

    def given_of(self, r):
        return {n: v for n, lo, hi, v, i in r.inputs if not n.startswith("cut:")}

    def violate(self, r, label, what, given=None):
        key = f"{self.case}:{label}"
        rec = {"property": self.prop, "case": self.case, "label": label, "what": what,
               "inputs": given if given is not None else self.given_of(r), "exe": os.path.basename(self.exe)}
        if key in self.known:
            if key not in [k["key"] for k in self.known_hit]: self.known_hit.append(dict(rec, key=key))
            return
        self.violations.append(rec)

    # ---------------------------------------------------------------- the encoding against the real code
    def validate(self, r):
        """run the real code at another input of the same path and compare every recorded value with the
        value the encoding predicts there (a shadow lost on the way would show here)"""
        r.untrusted = set()
        if self.st["validated"] >= (3 if self.tier == "quick" else 12): return
        ks = np.nonzero(r.onpath)[0]
        ks = ks[ks != 0]
        if not len(ks): return
        k = int(ks[len(ks) // 2])
        r2 = self.run(self.point(r, k))
        ev1 = [e for e in r.events if e[0] in "EDGO"]
        ev2 = [e for e in r2.events if e[0] in "EDGO"]
        if r2.outcome != r.outcome or [e[:2] for e in ev1] != [e[:2] for e in ev2]: return
        b2 = [(e[3], e[9]) for e in r2.events if e[0] == "B"]
        if b2 != [(t, w) for c, t, w in r.br]: return
        roots = [x for e in ev1 for x in e[2:5] if x]
        try:
            val = r.dag.evaluate(roots, {i: r.env[i][k] for i in r.env})
        except NotImplementedError:
            return
        self.st["validated"] += 1
        for e1, e2 in zip(ev1, ev2):
            for j in (2, 3, 4):
                if j == 4 and e1[0] != "D": continue
                pred = float(val[e1[j]]) if e1[j] else e1[j + 3]
                act = e2[j + 3]
                self.st["values_compared"] += 1
                if pred == act or (pred != pred and act != act): continue
                if abs(pred - act) <= 1e-7 * max(abs(pred), abs(act), e1[8]): continue
                if abs(pred - act) <= 1e-10 * self.termscale(r2, e2): continue
                r.untrusted.add((e1[0], e1[1]))
                self.st["translation_mismatch"].append(f"{e1[1]}: encoding {pred!r}, code {act!r}")
            if e1[0] == "E":
                bad = self.native_eq(r2, e2)
                if bad:
                    self.violate(r2, e2[1], bad)
                    return

    def native_eq(self, r, e):
        x, y, scale = e[5], e[6], e[8]
        if not (math.isfinite(x) and math.isfinite(y)):
            return f"non-finite: {x!r} vs {y!r}"
        mag = max(abs(x), abs(y), scale)
        if abs(x - y) > RTOL_NATIVE * mag and abs(x - y) > 1e-11 * self.termscale(r, e):
            return f"{x!r} != {y!r} (gap {abs(x-y)/mag if mag else 0:.3g})"
        return None

    # ---------------------------------------------------------------- obligations
    def obligations(self, r):
        h = r.hashes()
        if self.falsify(r): return
        NFo = {}
        for e in r.events:
            k, label, a, b, c, va, vb, vc, scale, _ = e
            if k not in "EDGT": continue
            if k == "D" and b in r.pinned: continue     # no derivative on a path that fixes the variable
            if self.violations and self.tier == "quick": return
            self.st["obligations"] += 1
            if k == "T":
                self.st["structural"] += 1
                if a: self.st["discharged"] += 1
                else: self.violate(r, label, "assertion false on this path")
                continue
            hk = (k, h.get(a, ("v", va)), h.get(b, ("v", vb)), h.get(c, ("v", vc)) if k == "D" else 0)
            hk += r.pins
            if k != "G" and hk in self.proven:
                self.st["discharged"] += 1
                if k == "E" and a and b: r.dag.equate(a, b)
                continue
            left = self.deadline - time.time()
            if left <= 0:
                self.st["undecided"].append({"label": label, "why": "time budget of the case"})
                continue
            try:
                with limit(min(left, self.step)):
                    if k == "G": self.check_ge(r, e)
                    elif self.check_eq(r, e, NFo):
                        self.proven.add(hk)
                        self.st["discharged"] += 1
                        if k == "E" and a and b: r.dag.equate(a, b)
            except (Late, MemoryError, z3.Z3Exception, ctypes.ArgumentError) as ex:
                NFo.clear()
                self.st["late"] += 1
                self.st["undecided"].append({"label": label, "why": type(ex).__name__})

    def falsify(self, r):
        """evaluate every equality on the sampled inputs of this path; a gap is replayed on the real code"""
        d = r.dag
        L = []
        nk = {}
        for e in r.events:
            k, label, a, b, c, va, vb, vc, scale, _ = e
            if k not in "ED": continue
            idx = nk.get((k, label), 0)
            nk[(k, label)] = idx + 1
            if not (a or b): continue
            try:
                if k == "E": left, right = a or d.const(va), b or d.const(vb)
                elif b in r.pinned: continue
                else:
                    with limit(5): left, right = (d.diff(a, b) if a else d.const(0.0)), c or d.const(vc)
            except (NotImplementedError, KeyError, Late):
                continue
            if d.isc(left) and d.isc(right): continue
            L.append((e, idx, left, right, scale))
        if not L: return False
        t = {}
        try:
            with limit(min(20, max(1.0, self.deadline - time.time()))):
                val = d.evaluate([x for y in L for x in y[2:4]], r.env)
        except (Late, MemoryError, NotImplementedError, FloatingPointError):
            return False
        hits = []
        for e, idx, left, right, scale in L:
            with np.errstate(all="ignore"):
                x = np.broadcast_to(np.asarray(val[left], float), (r.N,))
                y = np.broadcast_to(np.asarray(val[right], float), (r.N,))
                gap = np.abs(x - y) / np.maximum(np.maximum(np.abs(x), np.abs(y)), max(scale, 1e-290))
            gap = np.where(r.onpath & np.isfinite(gap), gap, -1)
            j = int(np.argmax(gap))
            if gap[j] > RTOL_NATIVE: hits.append((float(gap[j]), j, e, idx))
        hits.sort(key=lambda x: -x[0])
        tried = {}
        for gap, j, e, idx in hits:
            n = tried.get(e[1], 0)
            if n >= 2 or sum(tried.values()) >= 12: continue
            tried[e[1]] = n + 1
            g = self.point(r, j)
            bad = self.replay(e[0], e[1], idx, g, r)
            if bad:
                self.violate(r, e[1], f"{bad} [encoding: relative gap {gap:.3g}]", g)
                if self.violations and self.tier == "quick": return True
        return False

    def native_gap(self, k, label, idx, r):
        """relative gap of the idx-th event with this label in a native run"""
        ev = [e for e in r.events if e[0] == k and e[1] == label]
        if idx >= len(ev): return None
        return ev[idx]

    def check_eq(self, r, e, N):
        k, label, a, b, c, va, vb, vc, scale, _ = e
        d = r.dag
        if k == "D":
            if not b: raise RuntimeError(f"{label}: derivative variable is concrete")
            try:
                left = d.diff(a, b) if a else d.const(0.0)
            except NotImplementedError as ex:
                return self.undecided(r, e, str(ex), None, None)
            right = c if c else d.const(vc)
        else:
            left = a if a else d.const(va)
            right = b if b else d.const(vb)
        if d.isc(left) and d.isc(right):
            x, y = d.v[left], d.v[right]
            self.st["native_checked"] += 1
            if abs(x - y) <= RTOL_NATIVE * max(abs(x), abs(y), scale): return True
            if k == "E":
                self.violate(r, label, f"{x!r} != {y!r}")
                return False
        verdict, info = "unknown", ""
        d.intervals([left, right], r.iv)
        q = self.tier == "quick"
        # progressively stronger normal forms: products of sums kept as atoms; then expanded
        sh = d.shared(left, right)
        for lvl, (limit, cap, tmax) in enumerate([(400, 4000, 2)] * bool(sh) + [(1, 30000, 16), (4000, 60000, 15 if q else 60), (20000, 400000, 40 if q else 300)]):
            try:
                if lvl == 0 and sh:         # subexpressions shared by both sides as unknowns
                    M = NF(d, r.iv, limit, cap)
                    M.opaque(sh)
                else:
                    if (limit, cap) not in N: N[(limit, cap)] = NF(d, r.iv, limit, cap)
                    M = N[(limit, cap)]
                M.deadline = time.time() + tmax
                Lp, Rp = M.of(left), M.of(right)
                for pp, nd in ((Lp, left), (Rp, right)):     # the normal form must evaluate to the node's value here
                    pv, ps, v0 = M.pval(pp), M.pscale(pp), d.v[nd]
                    if math.isfinite(pv) and math.isfinite(v0) and abs(pv - v0) > 1e-6 * max(abs(v0), ps, 1e-3 * scale):
                        raise ValueError(f"normal form evaluates to {pv!r}, expression to {v0!r}")
                P = M.padd(Lp, Rp, -1.0)
                verdict, info = self.zero(r, M, P, scale, d, left, right)
                if verdict == "unsat": break
                # a concrete counterexample ends the search early
                if verdict == "sat" and lvl > bool(sh): break
            except TooBig:
                info = info or "normal form too large"
            except (OverflowError, MemoryError, ValueError) as ex:
                info = repr(ex)
        if verdict == "unsat" and (k, label) in r.untrusted:
            self.st["undecided"].append({"label": label, "why": "encoding does not match the code's value"})
            return False
        if verdict == "unsat":
            if len(self.samples) < 4:
                self.samples.append({"obligation": label, "verdict": "unsat", "terms": info})
            return True
        return self.undecided(r, e, info, left, right)

    def zero(self, r, N, P, scale, d, left, right):
        """is |P| <= RTOL * (sum of |contributions|) + RTOL*scale for every value of the atoms in the box?"""
        for stage in (0, 1):
            factor = ()
            if stage == 1:
                P, factor = N.reduce(P)
            P = N.fold(P)
            bad = {m: cs for m, cs in P.items() if abs(cs[0]) > RTOL_PROVE * cs[1]}
            if stage == 0 and bad: continue
            # numeric sanity of the normal form at the concolic point
            if stage == 0 or not bad:
                pass
            s = self.solver(4000, "QF_LRA")
            terms, tol = [], []
            items = sorted(P.items(), key=lambda kv: -abs(kv[1][0]))
            if len(items) > 300 and not bad:
                # group noise: one bound variable for the tail (its coefficients are all within tolerance)
                items = items[:300]
            q = lambda v: z3.RealVal(str(Fraction(v)))
            for j, (m, (cf, sc)) in enumerate(items):
                if not (math.isfinite(cf) and math.isfinite(sc)): return "unknown", "non-finite coefficient"
                x = z3.Real(f"m{j}"); u = z3.Real(f"u{j}")
                l, h = N.miv(m)
                if -BIG < l and l == l: s.add(x >= q(l))
                if h < BIG and h == h: s.add(x <= q(h))
                s.add(u >= x, u >= -x)
                terms.append(q(cf) * x)
                tol.append(q(RTOL_PROVE * sc) * u)
            sv = q(0)
            if scale > 0:
                f = z3.Real("factor")
                l, h = N.miv(factor)
                if l < 0 < h: f_ok = False
                else:
                    f_ok = True
                    lo = min(abs(l), abs(h))
                    if lo < BIG: s.add(f >= q(lo))
                    else: s.add(f >= 0)
                    if factor == (): s.add(f == 1)
                    sv = q(RTOL_PROVE * scale) * f
            lhs = z3.Sum(terms) if terms else q(0)
            rhs = (z3.Sum(tol) if tol else q(0)) + sv
            s.add(z3.Or(lhs > rhs, -lhs > rhs))
            v = self.ask(s)
            if v == z3.unsat:
                return "unsat", f"{len(P)} monomials, {len(bad)} residual, stage {stage}"
            if stage == 1:
                show = "; ".join(f"{cs[0]:.3g}*{N.mono_str(m)}" for m, cs in list(bad.items())[:4])
                return "sat", f"{len(bad)} residual monomials: {show}"
        return "unknown", ""

    def quick_refute(self, r, e, left, right, info):
        k, label, a, b, c, va, vb, vc, scale, _ = e
        idx = [x for x in r.events if x[0] == k and x[1] == label].index(e)
        for gap, g in self.candidates(r, left, right, scale)[:2]:
            bad = self.replay(k, label, idx, g, r)
            if bad:
                self.violate(r, label, f"{bad} [solver: {info}]", g)
                return True
        return False

    def candidates(self, r, left, right, scale):
        try:
            val = r.dag.evaluate([left, right], r.env)
        except NotImplementedError:
            return []
        L = np.broadcast_to(np.asarray(val[left], float), (r.N,))
        R = np.broadcast_to(np.asarray(val[right], float), (r.N,))
        with np.errstate(all="ignore"):
            gap = np.abs(L - R) / np.maximum(np.maximum(np.abs(L), np.abs(R)), max(scale, 1e-290))
        gap = np.where(r.onpath & np.isfinite(gap), gap, -1)
        order = np.argsort(-gap)[:4]
        return [(float(gap[j]), self.point(r, int(j))) for j in order if gap[j] > RTOL_NATIVE]

    def undecided(self, r, e, info, left, right):
        """the abstraction does not prove it: look for a concrete input on this path and replay it"""
        k, label, a, b, c, va, vb, vc, scale, _ = e
        d = r.dag
        idx = [x for x in r.events if x[0] == k and x[1] == label].index(e)
        cands = self.candidates(r, left, right, scale) if left is not None else []
        cands.append((0.0, self.given_of(r)))
        # exact nonlinear query with the path condition (small expressions only)
        if left is not None and len(cands) == 1:
            g = self.nra(r, left, right, scale)
            if g == "unsat":
                return True
            if g: cands.insert(0, (1.0, g))
        for gap, g in cands[:5]:
            bad = self.replay(k, label, idx, g, r)
            if bad:
                self.violate(r, label, f"{bad} [solver: {info}]", g)
                return False
        self.st["undecided"].append({"label": label, "why": info[:300]})
        return False

    def nra(self, r, left, right, scale):
        tr = ToZ3(r.dag, r.iv)
        s = self.solver(2000 if self.tier == "quick" else 20000)
        try:
            if len(r.dag.topo([left, right])) > 600: return None
            L, R = tr.node(left), tr.node(right)
            t = z3.Real("tol!")
            tolv = max(scale, 1e-30) * 1e-8
            s.add(z3.Or(L - R > tr.num(tolv) + tr.num(1e-8) * z3.If(L > 0, L, -L), R - L > tr.num(tolv) + tr.num(1e-8) * z3.If(L > 0, L, -L)))
            for x, y, _ in r.br:
                xi = r.iv.get(x, (0, 1))
                if xi[0] == xi[1]: continue
                bb = tr.node(x)
                s.add(bb if y else z3.Not(bb))
            s.add(*tr.side)
        except (ValueError, RecursionError):
            return None
        q = self.ask(s)
        if q == z3.unsat: return "unsat"
        if q == z3.sat: return self.model(r, tr, s.model())
        return None

    def replay(self, k, label, idx, g, r0):
        r = self.run(g)
        ev = [x for x in r.events if x[0] == k and x[1] == label]
        if idx >= len(ev): return None
        e = ev[idx]
        scale = e[8]
        self.st["native_checked"] += 1
        if k == "E":
            return self.native_eq(r, e)
        if k == "D":
            # derivative of the real code's output by central differences at three steps
            name = r.dag.inputs[e[3]][0]
            lo, hi = r.dag.inputs[e[3]][1:]
            x0 = g.get(name, r.dag.v[e[3]])
            g0 = e[7]
            est = []
            for hrel in (3e-4, 1e-4, 3e-5):
                step = hrel * max(abs(x0), 1e-3 * (hi - lo))
                fs = []
                for sgn in (-2, -1, 1, 2):
                    q = dict(g); q[name] = x0 + sgn * step
                    rr = self.run(q)
                    ee = [x for x in rr.events if x[0] == k and x[1] == label]
                    if idx >= len(ee): break
                    fs.append(ee[idx][5])
                if len(fs) == 4:
                    est.append((fs[0] - 8 * fs[1] + 8 * fs[2] - fs[3]) / (12 * step))
            if len(est) < 2: return None
            spread = max(est) - min(est)
            best = sorted(est)[len(est) // 2]
            if abs(best - g0) > 1e-5 * max(abs(best), abs(g0), scale) + 3 * spread:
                return f"derivative by finite differences {best!r} != {g0!r}"
            return None
        return None

    def termscale(self, r, e):
        """sum of magnitudes of the leaf terms entering a and b (rounding scale)"""
        try:
            d = r.dag
            tot = 0.0
            for x in (e[2], e[3]):
                if not x: continue
                m = {}
                for i in d.topo([x]):
                    op = d.op[i]
                    v = abs(d.v[i])
                    if op in (ADD, SUB): m[i] = m[d.a[i]] + m[d.b[i]]
                    elif op == NEG: m[i] = m[d.a[i]]
                    elif op == MUL: m[i] = m[d.a[i]] * m[d.b[i]]
                    elif op == DIV: m[i] = m[d.a[i]] / abs(d.v[d.b[i]]) if d.v[d.b[i]] else v
                    else: m[i] = v
                tot += m[x]
            return tot if math.isfinite(tot) else 0.0
        except (OverflowError, ZeroDivisionError):
            return 0.0

    # ---------------------------------------------------------------- inequalities
    def check_ge(self, r, e):
        k, label, a, b, c, va, vb, vc, scale, _ = e
        d = r.dag
        A = a if a else d.const(va)
        B = b if b else d.const(vb)
        diff = d.mk(SUB, A, B)
        slack = 1e-9 * scale
        if d.isc(diff):
            self.st["native_checked"] += 1
            if d.v[diff] >= -slack and True: self.st["discharged"] += 1
            else: self.violate(r, label, f"{va!r} < {vb!r}")
            return
        hk = ("G", r.hashes().get(a, va), r.hashes().get(b, vb), tuple((r.hashes()[x], y) for x, y, _ in r.br))
        d.intervals([diff], r.iv)
        # falsification candidates
        val = d.evaluate([diff], r.env)[diff]
        val = np.broadcast_to(np.asarray(val, float), (r.N,))
        val = np.where(r.onpath & np.isfinite(val), val, INF)
        worst = int(np.argmin(val))
        if val[worst] < -max(slack, 1e-12 * abs(va)):
            if self.replay_ge(r, e, self.point(r, worst)): return
        v, g = self.ge_query(r, A, B, diff, slack, r.iv, 0, [24 if self.tier == "quick" else 200])
        if v == "unsat":
            self.st["discharged"] += 1
            return
        if g is not None and self.replay_ge(r, e, g): return
        self.st["undecided"].append({"label": label, "why": f"inequality {v}"})

    def replay_ge(self, r, e, g):
        idx = [x for x in r.events if x[0] == e[0] and x[1] == e[1]].index(e)
        rr = self.run(g)
        ev = [x for x in rr.events if x[0] == e[0] and x[1] == e[1]]
        self.st["native_checked"] += 1
        if idx < len(ev):
            x, y, sc = ev[idx][5], ev[idx][6], ev[idx][8]
            if not (x - y >= -1e-9 * max(sc, 0) - 1e-11 * self.termscale(rr, ev[idx])):
                self.violate(rr, e[1], f"{x!r} < {y!r}", g)
                return True
        return False

    def ge_query(self, r, A, B, diff, slack, iv, depth, budget):
        """PC & A - B < -slack, by bounds then z3, splitting the box when the solver gives up"""
        lo = iv.get(diff, (-INF, INF))[0]
        if lo >= -slack:
            # verdict recorded through the solver on the bound lemma
            s = self.solver(1000, "QF_LRA")
            x = z3.Real("x")
            s.add(x >= z3.RealVal(str(Fraction(lo))), x < z3.RealVal(str(Fraction(-slack))))
            if self.ask(s) == z3.unsat: return "unsat", None
        if budget[0] <= 0: return "unknown", None
        budget[0] -= 1
        tr = ToZ3(r.dag, iv)
        s = self.solver(1500 if self.tier == "quick" else 8000)
        try:
            s.add(tr.node(A) - tr.node(B) < tr.num(-slack))
            for x, y, _ in r.br:
                xi = iv.get(x, (0, 1))
                if xi[0] == xi[1]:
                    if bool(xi[0]) != bool(y): return "unsat", None
                    continue
                bb = tr.node(x)
                s.add(bb if y else z3.Not(bb))
            s.add(*tr.side)
        except (ValueError, RecursionError):
            return "unknown", None
        q = self.ask(s)
        if q == z3.unsat: return "unsat", None
        if q == z3.sat:
            g = self.model(r, tr, s.model())
            env = {i: g[n] for n, l, h, v, i in r.inputs if n in g}
            for x, old in r.cuts.items():
                if old: env[x] = r.dag.evaluate([old], env)[old]
            val = r.dag.evaluate([diff] + [x for x, _, _ in r.br], env)
            if val[diff] < -slack and all(bool(val[x]) == bool(y) for x, y, _ in r.br):
                return "sat", g
        # split the widest (relative) input in the cone
        cone = [i for i in r.dag.depends([diff]) if r.dag.inputs[i][1] < r.dag.inputs[i][2] or True]
        best, bw = None, 0
        for i in cone:
            l, h = iv.get(i, r.dag.inputs[i][1:])
            l0, h0 = r.dag.inputs[i][1:]
            if h0 <= l0: continue
            w = (h - l) / (h0 - l0)
            if w > bw: best, bw = i, w
        if best is None or depth > 14: return "unknown", None
        l, h = iv.get(best, r.dag.inputs[best][1:])
        mid = math.sqrt(l * h) if l > 0 and h / l > 50 else 0.5 * (l + h)
        for part in ((l, mid), (mid, h)):
            iv2 = {best: part}
            for i in r.dag.inputs:
                if i != best and i in iv and r.dag.op.get(i) == INPUT and i not in r.cuts: iv2[i] = iv[i]
            for ct, old in r.cuts.items():
                if old: r.dag.intervals([old], iv2); iv2[ct] = iv2[old]
            r.dag.intervals([diff, A, B] + [x for x, _, _ in r.br], iv2)
            v, g = self.ge_query(r, A, B, diff, slack, iv2, depth + 1, budget)
            if v != "unsat": return v, g
        return "unsat", None


def run_case(args):
    prop, exe, case, datadir, tier, seed, opts, budget, known = args
    t0 = time.time()
    c = Case(prop, exe, case, datadir, tier, seed, opts, t0 + budget, known)
    err = None
    resource.setrlimit(resource.RLIMIT_AS, (int(3.6e9), resource.RLIM_INFINITY))
    try:
        c.explore()
    except Exception as ex:
        import traceback
        err = traceback.format_exc()[-3000:]
    st = c.st
    st.update(case=case, wall_s=round(time.time() - t0, 2), solver_s=round(st["solver_s"], 2), outcomes=c.outcomes,
              lost=c.lost, unknown_at=c.unknown_at, fns=sorted(c.fns), violations=c.violations, known=c.known_hit, samples=c.samples,
              inputs={k: v for k, v in list(c.inputs_seen.items())}, error=err)
    return st


if __name__ == "__main__":
    exe, case = sys.argv[1:3]
    st = run_case(("X", exe, case, "/verif/data", sys.argv[3] if len(sys.argv) > 3 else "quick", 1, {}, 300, ()))
    fn = st.pop("fns")
    if st["error"]: print(st["error"])
    print(json.dumps(st, indent=1, default=str)[:6000])
    print(len(fn), "functions")
