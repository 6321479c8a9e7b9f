"""Expression DAG utilities: interval bounds, numeric evaluation, differentiation, and a normal form
(generalised polynomials over atoms) in which identities of real arithmetic become coefficient
comparisons.  See DESIGN.md section "Decision procedure"."""
import math, time
import numpy as np

CONST, INPUT = 0, 1
ADD, SUB, MUL, DIV, REM, POW, FMIN, FMAX, ATAN2, COPYSIGN, HYPOT, FMOD = range(2, 14)
(NEG, ABS, SQRT, EXP, LOG, LOG10, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, CBRT, EXPM1, LOG1P,
 FLOOR, CEIL, TRUNC, ROUND, RINT, EXP2, LOG2, F32, ERF, TGAMMA) = range(20, 48)
LT, LE, GT, GE, EQ, NE, AND, OR, XOR = range(60, 69)
UN = {NEG, ABS, SQRT, EXP, LOG, LOG10, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, CBRT, EXPM1, LOG1P,
      FLOOR, CEIL, TRUNC, ROUND, RINT, EXP2, LOG2, F32, ERF, TGAMMA}
NAMES = {ADD: "+", SUB: "-", MUL: "*", DIV: "/", POW: "pow", NEG: "neg", ABS: "abs", SQRT: "sqrt", EXP: "exp",
         LOG: "log", LOG10: "log10", SIN: "sin", COS: "cos", TAN: "tan", LT: "<", LE: "<=", GT: ">", GE: ">=",
         EQ: "==", NE: "!=", AND: "and", OR: "or", XOR: "xor", FMIN: "fmin", FMAX: "fmax", TANH: "tanh",
         SINH: "sinh", COSH: "cosh", ATAN: "atan", ASIN: "asin", ACOS: "acos", CBRT: "cbrt", ERF: "erf"}
INF = float("inf")


class Dag:
    """Nodes are ids; local nodes may be appended (derivatives, specs)."""

    def __init__(self):
        self.op, self.a, self.b, self.v = {}, {}, {}, {}
        self.cons = {}
        self.inputs = {}      # id -> (name, lo, hi)
        self.next = 1 << 40
        self.consts = {}
        self.alias = {}       # node -> simpler node proved equal to it

    def add_raw(self, i, op, a, b, v):
        self.op[i], self.a[i], self.b[i], self.v[i] = op, a, b, v
        if op == CONST:
            self.consts.setdefault(v, i)
        elif op != INPUT:
            self.cons[(op, a, b)] = i

    def const(self, v):
        v = float(v)
        i = self.consts.get(v)
        if i is None:
            i = self.next; self.next += 1
            self.add_raw(i, CONST, 0, 0, v)
            self.consts[v] = i
        return i

    def isc(self, i, v=None):
        return self.op[i] == CONST and (v is None or self.v[i] == v)

    def mk(self, op, a, b=0):
        if op == MUL:
            if self.isc(a, 0.0) or self.isc(b, 0.0): return self.const(0)
            if self.isc(a, 1.0): return b
            if self.isc(b, 1.0): return a
        elif op == ADD:
            if self.isc(a, 0.0): return b
            if self.isc(b, 0.0): return a
        elif op == SUB:
            if self.isc(b, 0.0): return a
            if a == b: return self.const(0)
        elif op == DIV:
            if self.isc(a, 0.0): return self.const(0)
            if self.isc(b, 1.0): return a
        elif op == NEG:
            if self.isc(a): return self.const(-self.v[a])
        k = (op, a, b)
        i = self.cons.get(k)
        if i is None:
            try:
                v = apply(op, self.v[a], self.v[b] if op not in UN else 0.0)
            except (ValueError, ZeroDivisionError, OverflowError):
                v = float("nan")
            if self.isc(a) and (op in UN or self.isc(b)) and v == v:
                return self.const(v)
            i = self.next; self.next += 1
            self.add_raw(i, op, a, b, v)
        return i

    def topo(self, roots, skip=()):
        """operands first; nodes in skip (already processed) are not entered"""
        out, seen, st = [], set(), [(r, False) for r in roots]
        while st:
            i, done = st.pop()
            if done:
                out.append(i); continue
            if i in seen or i == 0 or i in skip: continue
            seen.add(i)
            st.append((i, True))
            op = self.op[i]
            if op not in (CONST, INPUT):
                st.append((self.a[i], False))
                if op not in UN: st.append((self.b[i], False))
        return out

    def depends(self, roots):
        return {i for i in self.topo(roots) if self.op[i] == INPUT}

    # ---- numeric evaluation (vectorised): env id -> array
    def evaluate(self, roots, env):
        val = {}
        with np.errstate(all="ignore"):
            for i in self.topo(roots):
                op = self.op[i]
                if op == CONST: val[i] = self.v[i]
                elif op == INPUT: val[i] = env[i] if i in env else self.v[i]
                else: val[i] = apply_np(op, val[self.a[i]], val[self.b[i]] if op not in UN else None)
        return val

    # ---- forward differentiation d root / d x
    def diff(self, root, x):
        d = {}
        for i in self.topo([root]):
            op = self.op[i]
            if i == x: d[i] = self.const(1); continue
            if op in (CONST, INPUT): d[i] = self.const(0); continue
            a, b = self.a[i], self.b[i]
            da = d[a]; db = d[b] if op not in UN else None
            z = self.isc(da, 0.0) and (db is None or self.isc(db, 0.0))
            if z: d[i] = self.const(0); continue
            m = self.mk
            if op == ADD: r = m(ADD, da, db)
            elif op == SUB: r = m(SUB, da, db)
            elif op == MUL: r = m(ADD, m(MUL, da, b), m(MUL, a, db))
            elif op == DIV: r = m(SUB, m(DIV, da, b), m(DIV, m(MUL, i, db), b))
            elif op == POW:
                r = self.const(0)
                if not self.isc(da, 0.0):
                    r = m(MUL, m(MUL, b, m(POW, a, m(SUB, b, self.const(1)))), da)
                if not self.isc(db, 0.0):
                    r = m(ADD, r, m(MUL, m(MUL, i, m(LOG, a)), db))
            elif op == NEG: r = m(NEG, da)
            elif op == ABS: r = da if self.v[a] >= 0 else m(NEG, da)
            elif op == SQRT: r = m(DIV, da, m(MUL, self.const(2), i))
            elif op == EXP: r = m(MUL, i, da)
            elif op == LOG: r = m(DIV, da, a)
            elif op == LOG10: r = m(DIV, da, m(MUL, a, self.const(math.log(10))))
            elif op == SIN: r = m(MUL, m(COS, a), da)
            elif op == COS: r = m(NEG, m(MUL, m(SIN, a), da))
            elif op == TAN: r = m(MUL, m(ADD, self.const(1), m(MUL, i, i)), da)
            elif op == TANH: r = m(MUL, m(SUB, self.const(1), m(MUL, i, i)), da)
            elif op == SINH: r = m(MUL, m(COSH, a), da)
            elif op == COSH: r = m(MUL, m(SINH, a), da)
            elif op == ATAN: r = m(DIV, da, m(ADD, self.const(1), m(MUL, a, a)))
            elif op == ASIN: r = m(DIV, da, m(SQRT, m(SUB, self.const(1), m(MUL, a, a))))
            elif op == ACOS: r = m(NEG, m(DIV, da, m(SQRT, m(SUB, self.const(1), m(MUL, a, a)))))
            elif op == CBRT: r = m(DIV, m(MUL, da, i), m(MUL, self.const(3), a))
            elif op == EXPM1: r = m(MUL, m(EXP, a), da)
            elif op == LOG1P: r = m(DIV, da, m(ADD, self.const(1), a))
            elif op in (FLOOR, CEIL, TRUNC, ROUND, RINT): r = self.const(0)
            elif op == F32: r = da
            elif op == FMIN: r = da if self.v[a] <= self.v[b] else db
            elif op == FMAX: r = da if self.v[a] >= self.v[b] else db
            else: raise NotImplementedError(f"derivative of op {op}")
            d[i] = r
        return d[root]

    # ---- interval bounds (outward slack)
    def intervals(self, roots, iv):
        for i in self.topo(roots, iv):
            if i not in iv: self.bound1(i, iv)
        return iv

    def topo_alias(self, roots, skip=()):
        """as topo, entering the simpler equal of a node instead of its operands"""
        out, seen, st = [], set(), [(r, False) for r in roots]
        al = self.alias
        while st:
            i, done = st.pop()
            if done:
                out.append(i); continue
            if i in seen or i == 0 or i in skip: continue
            seen.add(i)
            st.append((i, True))
            op = self.op[i]
            if i in al: st.append((al[i], False))
            elif op not in (CONST, INPUT):
                st.append((self.a[i], False))
                if op not in UN: st.append((self.b[i], False))
        return out

    def equate(self, x, y):
        """record x == y (proved on this path)"""
        if x in self.alias or y in self.alias or x == y: return
        if self.op[x] in (CONST, INPUT) and self.op[y] in (CONST, INPUT): return
        cx, cy = self.topo_alias([x]), self.topo_alias([y])
        if len(cx) > len(cy): x, y, cx, cy = y, x, cy, cx
        if y in cx or self.op[y] in (CONST, INPUT): return
        self.alias[y] = x

    def shared(self, left, right):
        """maximal subexpressions occurring on both sides (inputs and constants excluded)"""
        L, R = set(self.topo_alias([left])), set(self.topo_alias([right]))
        both = L & R
        out = {x for x in (left, right) if x in both}
        for i in (L | R) - both:
            op = self.op[i]
            if op in (CONST, INPUT): continue
            for x in (self.alias[i],) if i in self.alias else ((self.a[i],) if op in UN else (self.a[i], self.b[i])):
                if x in both: out.add(x)
        out = {self.alias.get(x, x) for x in out}
        return {x for x in out if self.op[x] not in (CONST, INPUT)}

    def bound1(self, i, iv):
        op = self.op[i]
        if op == CONST: iv[i] = (self.v[i], self.v[i])
        elif op == INPUT:
            n, lo, hi = self.inputs[i]
            iv[i] = (lo, hi)
        else:
            try:
                r = ival(op, iv[self.a[i]], iv[self.b[i]] if op not in UN else None, self.a[i] == self.b[i])
                iv[i] = r if op >= LT else widen(r)
            except (ValueError, ZeroDivisionError, OverflowError):
                iv[i] = (-INF, INF)

    def refine(self, roots, iv, pieces=300, top=3):
        """tighten bounds by subdividing the range of one input at a time (every other input stays at its
        full range), for the inputs that enter most subexpressions"""
        order = self.topo(roots)
        dep, cnt = {}, {}
        for i in order:
            op = self.op[i]
            if op == CONST: dep[i] = frozenset()
            elif op == INPUT:
                lo, hi = iv.get(i, self.inputs[i][1:])
                dep[i] = frozenset([i]) if lo < hi else frozenset()
            else:
                x = dep[self.a[i]]
                if op not in UN:
                    y = dep[self.b[i]]
                    if y is not x and not y <= x: x = (x | y) if not x <= y else y
                dep[i] = x
                for j in x: cnt[j] = cnt.get(j, 0) + 1
        for x in sorted(cnt, key=lambda j: -cnt[j])[:top]:
            lo, hi = iv.get(x, self.inputs[x][1:])
            if not (abs(lo) < FMX and abs(hi) < FMX): continue
            if lo > 0 and hi / lo > 20: g = lo * (hi / lo) ** np.linspace(0, 1, pieces + 1)
            else: g = np.linspace(lo, hi, pieces + 1)
            g[0], g[-1] = lo, hi
            arr = {x: (g[:-1], g[1:])}
            full = np.ones(pieces)
            with np.errstate(all="ignore"):
                for i in order:
                    if i == x or x not in dep[i]: continue
                    op = self.op[i]
                    def get(j):
                        if j in arr: return arr[j]
                        return iv.get(j) or (self.v[j], self.v[j])
                    A = get(self.a[i])
                    B = get(self.b[i]) if op not in UN else None
                    r = ival_np(op, A, B, self.a[i] == self.b[i])
                    o = iv.get(i, (-INF, INF))
                    if r is None:
                        continue
                    l, h = r
                    bad = ~(l == l) | ~(h == h)
                    l = np.where(bad, -INF, l) * full; h = np.where(bad, INF, h) * full
                    if op < LT:
                        l = np.where(np.isfinite(l), l - 1e-13 * np.abs(l), l); h = np.where(np.isfinite(h), h + 1e-13 * np.abs(h), h)
                    l = np.maximum(l, o[0]); h = np.minimum(h, o[1])
                    arr[i] = (l, h)
                    iv[i] = (max(float(np.min(l)), o[0]), min(float(np.max(h)), o[1]))

    def show(self, i, depth=6):
        op = self.op[i]
        if op == CONST: return repr(self.v[i])
        if op == INPUT: return self.inputs[i][0]
        if depth == 0: return "…"
        a = self.show(self.a[i], depth - 1)
        if op in UN: return f"{NAMES.get(op, op)}({a})"
        b = self.show(self.b[i], depth - 1)
        return f"({a} {NAMES.get(op, op)} {b})"


FMX = 1e300


def ival_np(op, A, B, same):
    al, ah = A
    if op == NEG: return -ah, -al
    if op == ABS:
        m, M = np.minimum(np.abs(al), np.abs(ah)), np.maximum(np.abs(al), np.abs(ah))
        return np.where((al <= 0) & (ah >= 0), 0.0, m), M
    if op == SQRT: return np.sqrt(np.maximum(al, 0)), np.sqrt(ah)
    if op == EXP: return np.exp(al), np.exp(ah)
    if op == TANH: return np.tanh(al), np.tanh(ah)
    if op in (LOG, LOG10):
        f = np.log if op == LOG else np.log10
        return np.where(al > 0, f(np.maximum(al, 1e-320)), -INF), np.where(ah > 0, f(np.maximum(ah, 1e-320)), INF)
    if op in (SIN, COS): return -np.ones_like(al), np.ones_like(al)
    if op in UN: return None
    bl, bh = B
    if op == ADD: return al + bl, ah + bh
    if op == SUB: return al - bh, ah - bl
    if op == MUL:
        p = [np.nan_to_num(x, nan=0.0, posinf=INF, neginf=-INF) for x in (al * bl, al * bh, ah * bl, ah * bh)]
        l, h = np.minimum.reduce(p), np.maximum.reduce(p)
        if same: l = np.where((al <= 0) & (ah >= 0), 0.0, l)
        return l, h
    if op == DIV:
        ok = (bl > 0) | (bh < 0)
        p = [al / bl, al / bh, ah / bl, ah / bh]
        l, h = np.minimum.reduce(p), np.maximum.reduce(p)
        return np.where(ok, l, -INF), np.where(ok, h, INF)
    if op == POW:
        if np.ndim(bl) == 0 and bl == bh:
            p, q = np.power(np.asarray(al, float), bl), np.power(np.asarray(ah, float), bl)
            ok = np.asarray(al) > 0
            return np.where(ok, np.minimum(p, q), -INF), np.where(ok, np.maximum(p, q), INF)
        return None
    if op == FMIN: return np.minimum(al, bl), np.minimum(ah, bh)
    if op == FMAX: return np.maximum(al, bl), np.maximum(ah, bh)
    if op in (GT, GE): al, ah, bl, bh, op = bl, bh, al, ah, {GT: LT, GE: LE}[op]
    if op == LT: return np.where(ah < bl, 1.0, 0.0), np.where(al >= bh, 0.0, 1.0)
    if op == LE: return np.where(ah <= bl, 1.0, 0.0), np.where(al > bh, 0.0, 1.0)
    return None


def apply(op, x, y):
    if op == ADD: return x + y
    if op == SUB: return x - y
    if op == MUL: return x * y
    if op == DIV: return x / y
    if op == POW: return math.pow(x, y)
    return float(apply_np(op, np.float64(x), np.float64(y)))


_np_un = {NEG: np.negative, ABS: np.abs, SQRT: np.sqrt, EXP: np.exp, LOG: np.log, LOG10: np.log10, SIN: np.sin,
          COS: np.cos, TAN: np.tan, ASIN: np.arcsin, ACOS: np.arccos, ATAN: np.arctan, SINH: np.sinh, COSH: np.cosh,
          TANH: np.tanh, CBRT: np.cbrt, EXPM1: np.expm1, LOG1P: np.log1p, FLOOR: np.floor, CEIL: np.ceil,
          TRUNC: np.trunc, ROUND: np.round, RINT: np.rint, EXP2: np.exp2, LOG2: np.log2,
          ERF: np.vectorize(math.erf, otypes=[float]), TGAMMA: np.vectorize(math.gamma, otypes=[float])}


def apply_np(op, x, y):
    if op in _np_un: return _np_un[op](x)
    if op == F32: return np.float64(np.float32(x))
    if op == ADD: return x + y
    if op == SUB: return x - y
    if op == MUL: return x * y
    if op == DIV: return np.divide(x, y)
    if op == POW: return np.power(np.asarray(x, dtype=float), y)
    if op == FMIN: return np.minimum(x, y)
    if op == FMAX: return np.maximum(x, y)
    if op == ATAN2: return np.arctan2(x, y)
    if op == COPYSIGN: return np.copysign(x, y)
    if op == HYPOT: return np.hypot(x, y)
    if op == FMOD: return np.fmod(x, y)
    if op == LT: return np.less(x, y)
    if op == LE: return np.less_equal(x, y)
    if op == GT: return np.greater(x, y)
    if op == GE: return np.greater_equal(x, y)
    if op == EQ: return np.equal(x, y)
    if op == NE: return np.not_equal(x, y)
    if op == AND: return np.logical_and(x, y)
    if op == OR: return np.logical_or(x, y)
    if op == XOR: return np.logical_xor(x, y)
    raise NotImplementedError(op)


def widen(p):
    lo, hi = p
    if lo != lo or hi != hi: return (-INF, INF)
    return (lo - 1e-13 * abs(lo) if lo not in (INF, -INF) else lo,
            hi + 1e-13 * abs(hi) if hi not in (INF, -INF) else hi)


def _mul(x, y):
    if x == 0 or y == 0: return 0.0
    return x * y


def _exp(x):
    try: return math.exp(x)
    except OverflowError: return INF


def ival(op, A, B, same=False):
    al, ah = A
    if op == NEG: return (-ah, -al)
    if op == ABS: return (0.0 if al <= 0 <= ah else min(abs(al), abs(ah)), max(abs(al), abs(ah)))
    if op == SQRT: return (math.sqrt(max(al, 0)), math.sqrt(ah) if ah < INF else INF)
    if op == EXP: return (_exp(al), _exp(ah))
    if op in (LOG, LOG10, LOG2):
        f = {LOG: math.log, LOG10: math.log10, LOG2: math.log2}[op]
        return (f(al) if al > 0 else -INF, f(ah) if 0 < ah < INF else INF)
    if op in (SIN, COS): return (-1.0, 1.0)
    if op == TANH: return (math.tanh(al), math.tanh(ah))
    if op == ATAN: return (math.atan(al), math.atan(ah))
    if op in (SINH,): return (math.sinh(al), math.sinh(ah))
    if op == COSH: return (1.0, max(math.cosh(al), math.cosh(ah)))
    if op in (FLOOR,): return (math.floor(al) if al > -INF else al, math.floor(ah) if ah < INF else ah)
    if op in (TRUNC, ROUND, RINT, CEIL): return (al - 1, ah + 1)
    if op == CBRT: return (float(np.cbrt(al)), float(np.cbrt(ah)))
    if op == F32: return (al - abs(al) * 1e-7, ah + abs(ah) * 1e-7)
    if op == ERF: return (math.erf(al), math.erf(ah))
    if op in UN: return (-INF, INF)
    bl, bh = B
    if op == ADD: return (al + bl, ah + bh)
    if op == SUB: return (al - bh, ah - bl)
    if op == MUL:
        if same: return (0.0 if al <= 0 <= ah else min(al * al, ah * ah), max(al * al, ah * ah))
        p = [_mul(al, bl), _mul(al, bh), _mul(ah, bl), _mul(ah, bh)]
        return (min(p), max(p))
    if op == DIV:
        if bl > 0 or bh < 0:
            q = [al / bl if al not in (INF, -INF) or bl not in (INF, -INF) else float("nan"),
                 al / bh if bh not in (INF, -INF) else 0.0, ah / bl if bl not in (INF, -INF) else 0.0,
                 ah / bh if bh not in (INF, -INF) else 0.0]
            if any(x != x for x in q): return (-INF, INF)
            return (min(q), max(q))
        if bl == 0 and bh > 0:
            if al >= 0: return ((al / bh if bh < INF else 0.0), INF)
            if ah <= 0: return (-INF, (ah / bh if bh < INF else 0.0))
        return (-INF, INF)
    if op == POW:
        if al >= 0 and al != INF:
            if bl == bh:
                e = bl
                if e == 0: return (1.0, 1.0)
                def pw(x):
                    if x == 0: return 0.0 if e > 0 else INF
                    if x == INF: return INF if e > 0 else 0.0
                    try: return math.pow(x, e)
                    except OverflowError: return INF
                return tuple(sorted((pw(al), pw(ah))))
            if al > 0:
                L = ival(MUL, ival(LOG, A, None), B)
                return (_exp(L[0]), _exp(L[1]))
            return (0.0, INF)
        if bl == bh and bl == int(bl) and bl > 0:
            n = int(bl)
            if n % 2: return (al ** n, ah ** n)
            return (0.0 if al <= 0 <= ah else min(al ** n, ah ** n), max(al ** n, ah ** n))
        return (-INF, INF)
    if op == FMIN: return (min(al, bl), min(ah, bh))
    if op == FMAX: return (max(al, bl), max(ah, bh))
    if op == ATAN2: return (-math.pi, math.pi)
    if op == HYPOT: return (0.0, INF)
    if op in (LT, LE, GT, GE, EQ, NE):
        if op in (GT, GE): al, ah, bl, bh, op = bl, bh, al, ah, {GT: LT, GE: LE}[op]
        if op == LT:
            if ah < bl: return (1, 1)
            if al >= bh: return (0, 0)
        if op == LE:
            if ah <= bl: return (1, 1)
            if al > bh: return (0, 0)
        if op in (EQ, NE):
            t = 1 if op == EQ else 0
            if ah < bl or bh < al: return (1 - t, 1 - t)
            if al == ah == bl == bh: return (t, t)
        return (0, 1)
    if op == AND: return (min(al, bl), min(ah, bh))
    if op == OR: return (max(al, bl), max(ah, bh))
    if op == XOR:
        if al == ah and bl == bh: return (int(al != bl),) * 2
        return (0, 1)
    return (-INF, INF)


# ------------------------------------------------------------------------------------------------
class TooBig(Exception):
    pass


TINY = 1e-250        # additive guard constants (SmallNumber, 1e-300) are zero in the encoding
DROP = 1e-12          # a coefficient this small relative to the sum of its contributions is rounding noise
EXPTOL = 1e-9


class Atoms:
    """atom kinds: ('in', id) | ('poly', poly) | ('exp', mono) | ('fn', op, polykey..)"""

    def __init__(self, dag, ivs):
        self.dag, self.ivs = dag, ivs
        self.kind, self.val, self.iv = [], [], []
        self.byinput = {}
        self.byexp = {}
        self.polys = {}      # signature -> list of (atom, poly)
        self.fns = {}
        self.exps = {}       # atom -> sorted list of known exponents

    def new(self, kind, val, iv):
        self.kind.append(kind); self.val.append(val); self.iv.append(iv)
        return len(self.kind) - 1

    def input(self, i):
        if i not in self.byinput:
            n, lo, hi = self.dag.inputs[i]
            self.byinput[i] = self.new(("in", i), self.dag.v[i], (lo, hi))
        return self.byinput[i]

    def snap(self, atom, e, ref):
        if e == int(e) and abs(e) < 1e9: return float(e)
        if abs(e) <= EXPTOL * ref: return 0.0
        r = round(e)
        if r != 0 and abs(e - r) <= 1e-11 * max(1.0, abs(e)): return float(r)
        L = self.exps.setdefault(atom, [])
        for x in L:
            if abs(x - e) <= EXPTOL * abs(x): return x
        L.append(e)
        return e


class NF:
    """poly: dict mono -> (coef, abssum);  mono: tuple of (atom, exponent) sorted by atom"""
    ONE = ()

    def __init__(self, dag, ivs, limit=4000, cap=400000):
        self.cap = cap
        self.deadline = None
        self.dag = dag
        self.ivs = ivs
        self.at = Atoms(dag, ivs)
        self.memo = {}
        self.limit = limit
        self.mulmemo = {}
        self.logmemo = {}

    # -- monomials
    def mmul(self, m, n):
        if not m: return n
        if not n: return m
        k = (m, n)
        r = self.mulmemo.get(k)
        if r is not None: return r
        out, i, j = [], 0, 0
        while i < len(m) and j < len(n):
            if m[i][0] < n[j][0]: out.append(m[i]); i += 1
            elif m[i][0] > n[j][0]: out.append(n[j]); j += 1
            else:
                e1, e2 = m[i][1], n[j][1]
                e = self.at.snap(m[i][0], e1 + e2, max(abs(e1), abs(e2)))
                if e != 0: out.append((m[i][0], e))
                i += 1; j += 1
        out.extend(m[i:]); out.extend(n[j:])
        r = tuple(out)
        self.mulmemo[k] = r
        return r

    def mpow(self, m, e):
        out = []
        for a, x in m:
            y = self.at.snap(a, x * e, abs(x * e))
            if y != 0: out.append((a, y))
        return tuple(out)

    def mval(self, m):
        r, L = 1.0, 0.0
        for a, e in m:
            k = self.at.kind[a]
            if k[0] == "exp":
                L += e * self.mval(k[1]); continue
            try: r *= self.at.val[a] ** e
            except (ZeroDivisionError, OverflowError): return float("nan")
            if isinstance(r, complex): return float("nan")
        if L:
            try: r *= math.exp(L)
            except OverflowError: return INF if r > 0 else float("nan")
        return r

    def miv(self, m):
        r, L = (1.0, 1.0), None
        for a, e in m:
            k = self.at.kind[a]
            if k[0] == "exp":
                x = ival(MUL, self.miv(k[1]), (e, e))
                L = x if L is None else (L[0] + x[0], L[1] + x[1])
                continue
            r = ival(MUL, r, ival(POW, self.at.iv[a], (e, e)) if e != 1 else self.at.iv[a])
        if L is not None:
            if L[0] != L[0] or L[1] != L[1]: L = (-INF, INF)
            r = ival(MUL, r, (_exp(L[0]), _exp(L[1])))
        return r

    def fold(self, p):
        """powers of e kept symbolic against overflow are merged back into coefficients"""
        E = self.at.byexp.get(())
        if E is None: return p
        g = {}
        for m, cs in p.items():
            k = 0.0
            for a, e in m:
                if a == E: k = e
            g.setdefault(tuple((a, e) for a, e in m if a != E), []).append((k, cs))
        r = {}
        for m, L in g.items():
            K = max(k for k, cs in L)
            c = sum(cs[0] * math.exp(k - K) for k, cs in L)
            s = sum(cs[1] * math.exp(k - K) for k, cs in L)
            f = _exp(K)
            if K == 0 or (1e-280 < f < 1e280 and s * f < 1e290 and s * f > 1e-290): r[m] = (c * f, s * f)
            else: r[self.mmul(m, ((E, K),))] = (c, s)
        return r

    def pval(self, p):
        return sum(c * self.mval(m) for m, (c, s) in p.items())

    def pscale(self, p):
        return sum(s * abs(self.mval(m)) for m, (c, s) in p.items())

    def piv(self, p):
        lo = hi = 0.0
        for m, (c, s) in p.items():
            l, h = ival(MUL, self.miv(m), (c, c))
            lo += l; hi += h
        if lo != lo or hi != hi: return (-INF, INF)
        return (lo, hi)

    # -- polynomials
    def pconst(self, c):
        return {} if c == 0 else {(): (c, abs(c))}

    def padd(self, p, q, sgn=1.0):
        r = dict(p)
        for m, (c, s) in q.items():
            o = r.get(m)
            if o is None: r[m] = (sgn * c, s)
            else:
                c2, s2 = o[0] + sgn * c, o[1] + s
                r[m] = (c2 if abs(c2) > DROP * s2 else 0.0, s2)
        return r

    def clean(self, p):
        return {m: cs for m, cs in p.items() if cs[0] != 0.0}

    def pmul(self, p, q):
        if len(p) > 1 and len(q) > 1 and len(p) * len(q) > self.limit:
            return None
        return self.pmul_big(p, q)

    def pmul_big(self, p, q):
        cap = self.cap
        if len(p) * len(q) > 10 * cap: raise TooBig()
        if self.deadline and time.time() > self.deadline: raise TooBig()
        r = {}
        for m, (c, s) in p.items():
            for n, (d, t) in q.items():
                k = self.mmul(m, n)
                o = r.get(k)
                if o is None: r[k] = (c * d, s * t)
                else:
                    c2, s2 = o[0] + c * d, o[1] + s * t
                    r[k] = (c2 if abs(c2) > DROP * s2 else 0.0, s2)
        if len(r) > cap: raise TooBig()
        return r

    def split(self, p):
        """p = c * m * p' with p' canonical; returns (c, m, p' or None when p is a monomial)"""
        p = self.clean(p)
        if not p: return 0.0, (), None
        if len(p) == 1:
            (m, (c, s)), = p.items()
            return c, m, None
        # common monomial: smallest exponent of each atom (0 where absent)
        common, cnt = {}, {}
        for m in p:
            for a, e in m:
                cnt[a] = cnt.get(a, 0) + 1
                if a not in common or e < common[a]: common[a] = e
        common = {a: (e if cnt[a] == len(p) else min(e, 0.0)) for a, e in common.items()}
        common = {a: e for a, e in common.items() if e != 0}
        g = tuple(sorted(common.items()))
        if g:
            gi = self.mpow(g, -1.0)
            p = {self.mmul(m, gi): cs for m, cs in p.items()}
        lead = min(p, key=lambda m: (len(m), m))
        c = p[lead][0]
        q = {m: (x / c, s / abs(c)) for m, (x, s) in p.items()}
        v = self.pval(q)
        if v < 0:
            c = -c
            q = {m: (-x, s) for m, (x, s) in q.items()}
        return c, g, q

    def polyatom(self, q):
        sig = tuple(sorted(q))
        key = hash(sig)
        for a, p2 in self.at.polys.get(key, ()):
            if len(p2) == len(q) and all(m in p2 and abs(p2[m][0] - c) <= 1e-10 * (abs(c) + 0 * s) for m, (c, s) in q.items()):
                return a
        a = self.at.new(("poly", q), self.pval(q), self.piv(q))
        self.at.polys.setdefault(key, []).append((a, q))
        return a

    def pos(self, atom):
        return self.at.iv[atom][0] >= 0 or self.at.kind[atom][0] == "exp"

    def asmono(self, p, positive=False):
        """p as (coef, mono) introducing a poly atom when needed. With positive=True every atom in the
        monomial is nonnegative, or the whole is one atom."""
        c, g, q = self.split(p)
        if q is None:
            if positive and (c < 0 or not all(self.pos(a) for a, e in g)):
                if not p: return 0.0, ()
                # whole thing as an opaque atom
                neg = [(a, e) for a, e in g if not self.pos(a)]
                rest = tuple((a, e) for a, e in g if self.pos(a))
                if c < 0 or neg:
                    inner = {tuple(neg): (1.0 if c > 0 else -1.0, 1.0)}
                    at = self.polyatom(inner)
                    return abs(c), self.mmul(rest, ((at, 1.0),))
            return c, g
        if positive:
            if c < 0:
                q = {m: (-x, s) for m, (x, s) in q.items()}; c = -c
            neg = tuple((a, e) for a, e in g if not self.pos(a))
            if neg:
                q = {self.mmul(m, neg): cs for m, cs in q.items()}
                g = tuple((a, e) for a, e in g if self.pos(a))
        a = self.polyatom(q)
        return c, self.mmul(g, ((a, 1.0),))

    def ppow(self, p, e):
        p = self.clean(p)
        if e == 0: return self.pconst(1.0)
        if not p: return {} if e > 0 else {(): (float("inf"), float("inf"))}
        if e == int(e) and 0 < e <= 8:
            r = p
            for _ in range(int(e) - 1):
                r2 = self.pmul(r, p)
                if r2 is None: break
                r = r2
            else:
                return r
        c, m = self.asmono(p, positive=(e != int(e)))
        m = self.mpow(m, e)
        try: cc = c ** e
        except (ZeroDivisionError, OverflowError): cc = float("nan")
        if isinstance(cc, complex): cc = float("nan")
        if c > 0 and not 1e-150 < cc < 1e150:
            cc = 1.0
            m = self.mmul(m, ((self.expatom(()), e * math.log(c)),))
        return {m: (cc, abs(cc))}

    def times(self, p, q):
        if not p or not q: return {}
        r = self.pmul(p, q)
        if r is None:
            c1, m1 = self.asmono(p)
            c2, m2 = self.asmono(q)
            r = {self.mmul(m1, m2): (c1 * c2, abs(c1 * c2))}
        return r

    def fnatom(self, key, polys, val, iv):
        """opaque function atom with polynomial arguments (tolerant matching)"""
        polys = [self.clean(p) for p in polys]
        sig = (key, tuple(tuple(sorted(p)) for p in polys))
        for a, ps in self.at.fns.get(sig, ()):
            if all(abs(ps[i][m][0] - c) <= 1e-10 * abs(c) for i, p in enumerate(polys) for m, (c, s) in p.items()):
                return a
        a = self.at.new(("fn", key, polys), val, iv)
        self.at.fns.setdefault(sig, []).append((a, polys))
        return a

    def expatom(self, m):
        if m not in self.at.byexp:
            v = self.mval(m)
            try: ev = math.exp(v)
            except OverflowError: ev = INF
            l, h = self.miv(m)
            self.at.byexp[m] = self.at.new(("exp", m), ev, (_exp(l), _exp(h)))
        return self.at.byexp[m]

    def plog(self, p):
        """log|p|: of a product factor by factor; of a sum as numerator over denominator, expanded, so that
        equal rational functions get one canonical argument"""
        p = self.clean(p)
        if len(p) == 1:
            (m, (c, s)), = p.items()
            if not any(self.at.kind[a][0] == "poly" for a, e in m): return self.plog1(p)
            r = self.plog1({tuple((a, e) for a, e in m if self.at.kind[a][0] != "poly"): (c, s)})
            for a, e in m:
                if self.at.kind[a][0] == "poly":
                    r = self.padd(r, self.times(self.plogatom(a), self.pconst(e)))
            return r
        c, g, q = self.split(p)
        r = self.plog({g: (c, abs(c))})
        return self.padd(r, self.plogatom(self.polyatom(q)))

    def plogatom(self, a):
        if a in self.logmemo: return self.logmemo[a]
        cap, self.cap = self.cap, min(self.cap, 800)
        r = None
        try:
            q, f = self.reduce(dict(self.at.kind[a][1]))
            q = self.clean(q)
            if q:       # log|q| - log|f|
                r = self.plog(q) if len(q) == 1 else self.plog1(q)
                for x, e in f:
                    r = self.padd(r, self.times(self.plogatom(x), self.pconst(e)), -1.0)
        except TooBig:
            r = None
        finally:
            self.cap = cap
        if r is None: r = self.plog1({((a, 1.0),): (1.0, 1.0)})
        self.logmemo[a] = r
        return r

    def plog1(self, p):
        """log|p| as a combination of logs of atoms (p is positive wherever the code takes its log)"""
        c, m = self.asmono(p)
        r = self.pconst(math.log(abs(c))) if c else {(): (float("nan"), INF)}
        for a, e in m:
            k = self.at.kind[a]
            if k[0] == "exp":
                r = self.padd(r, {k[1]: (e, abs(e))})
            else:
                v = abs(self.at.val[a])
                l, h = self.at.iv[a]
                if l < 0: l, h = 0.0, max(-l, h)
                la = self.fnatom("log", [{((a, 1.0),): (1.0, 1.0)}], math.log(v) if v > 0 else float("nan"),
                                 ival(LOG, (l, h), None))
                r = self.padd(r, {((la, 1.0),): (e, abs(e))})
        return r

    def pexp(self, p):
        coef, mono = 1.0, ()
        for m, (c, s) in self.clean(p).items():
            if m == ():
                if abs(c) < 150: coef *= math.exp(c)
                else: mono = self.mmul(mono, ((self.expatom(()), c),))
                continue
            # exp(c * log x) = x**c
            if len(m) == 1 and m[0][1] == 1.0:
                k = self.at.kind[m[0][0]]
                if k[0] == "fn" and k[1] == "log":
                    (mm, _), = k[2][0].items()
                    mono = self.mmul(mono, self.mpow(mm, c))
                    continue
            a = self.expatom(m)
            mono = self.mmul(mono, ((a, self.at.snap(a, c, abs(c))),))
        return {mono: (coef, abs(coef))}

    def of(self, i):
        if i == 0: raise ValueError
        al = self.dag.alias
        for n, j in enumerate(self.dag.topo_alias([i], self.memo)):
            if j not in self.memo:
                self.memo[j] = self.memo[al[j]] if j in al else self._of(j)
            if n % 256 == 0 and self.deadline and time.time() > self.deadline: raise TooBig()
        return self.memo[i]

    def opaque(self, nodes):
        for j in nodes:
            a = self.at.new(("node", j), self.dag.v[j], self.ivs.get(j, (-INF, INF)))
            self.memo[j] = {((a, 1.0),): (1.0, 1.0)}

    def _of(self, j):
        d = self.dag
        op = d.op[j]
        if op == CONST: return self.pconst(d.v[j] if abs(d.v[j]) > TINY else 0.0)
        if op == INPUT:
            l, h = self.ivs.get(j, (0.0, 1.0))
            if l == h: return self.pconst(l)
            return {((self.at.input(j), 1.0),): (1.0, 1.0)}
        A = self.memo[d.a[j]]
        if op not in UN:
            B = self.memo[d.b[j]]
            if op == ADD: return self.padd(A, B)
            if op == SUB: return self.padd(A, B, -1.0)
            if op == MUL: return self.times(self.clean(A), self.clean(B))
            if op == DIV:
                if self.same(A, B): return self.pconst(1.0)
                return self.times(self.clean(A), self.ppow(B, -1.0))
            if op == POW:
                Bc = self.clean(B)
                if not Bc: return self.pconst(1.0)
                if set(Bc) == {()}:
                    return self.ppow(A, Bc[()][0])
                return self.pexp(self.times(Bc, self.plog(A)))
            if op == HYPOT:
                return self.ppow(self.padd(self.ppow(A, 2.0), self.ppow(B, 2.0)), 0.5)
            a = self.fnatom(op, [A, B], d.v[j], self.ivs.get(j, (-INF, INF)))
            return {((a, 1.0),): (1.0, 1.0)}
        if op == NEG: return {m: (-c, s) for m, (c, s) in A.items()}
        if op == SQRT: return self.ppow(A, 0.5)
        if op == CBRT: return self.ppow(A, 1.0 / 3.0)
        if op == EXP: return self.pexp(A)
        if op == EXPM1: return self.padd(self.pexp(A), self.pconst(1.0), -1.0)
        if op == EXP2: return self.pexp(self.times(A, self.pconst(math.log(2))))
        if op == LOG: return self.plog(A)
        if op == LOG10: return self.times(self.plog(A), self.pconst(1.0 / math.log(10.0)))
        if op == LOG2: return self.times(self.plog(A), self.pconst(1.0 / math.log(2.0)))
        if op == LOG1P: return self.plog(self.padd(A, self.pconst(1.0)))
        if op == SINH:
            E = self.pexp(A); return self.padd(self.times(E, self.pconst(0.5)), self.times(self.ppow(E, -1.0), self.pconst(0.5)), -1.0)
        if op == COSH:
            E = self.pexp(A); return self.padd(self.times(E, self.pconst(0.5)), self.times(self.ppow(E, -1.0), self.pconst(0.5)))
        if op == TANH:
            E = self.pexp(self.times(A, self.pconst(2.0)))
            return self.times(self.padd(E, self.pconst(1.0), -1.0), self.ppow(self.padd(E, self.pconst(1.0)), -1.0))
        if op == TAN:
            Ac = self.clean(A)
            s = self.fnatom(SIN, [Ac], math.sin(d.v[d.a[j]]), (-1, 1))
            c = self.fnatom(COS, [Ac], math.cos(d.v[d.a[j]]), (-1, 1))
            return {((s, 1.0), (c, -1.0)) if s < c else ((c, -1.0), (s, 1.0)): (1.0, 1.0)}
        if op == ABS:
            l, h = self.ivs.get(d.a[j], (-INF, INF))
            if l >= 0: return A
            if h <= 0: return {m: (-c, s) for m, (c, s) in A.items()}
            c, g, q = self.split(A)
            a = self.fnatom(ABS, [self.clean(A)] if self.pval(A) >= 0 else [{m: (-c, s) for m, (c, s) in self.clean(A).items()}],
                            d.v[j], (0.0, INF))
            return {((a, 1.0),): (1.0, 1.0)}
        if op in (SIN, COS):
            Ac = self.clean(A)
            if set(Ac) <= {()}: return self.pconst((math.sin if op == SIN else math.cos)(Ac[()][0] if Ac else 0.0))
            neg = Ac[min(Ac)][0] < 0                    # odd and even symmetry
            if neg: Ac = {m: (-c, s) for m, (c, s) in Ac.items()}
            v = d.v[j] if op == COS or not neg else -d.v[j]
            l, h = self.ivs.get(j, (-INF, INF))
            a = self.fnatom(op, [Ac], v, (-h, -l) if op == SIN and neg else (l, h))
            return {((a, 1.0),): (-1.0 if op == SIN and neg else 1.0, 1.0)}
        if op == F32:
            a = self.fnatom(op, [A], d.v[j], (-INF, INF))
            return {((a, 1.0),): (1.0, 1.0)}
        a = self.fnatom(op, [A], d.v[j], self.ivs.get(j, (-INF, INF)))
        return {((a, 1.0),): (1.0, 1.0)}

    def same(self, p, q):
        p, q = self.clean(p), self.clean(q)
        return len(p) == len(q) and all(m in q and abs(q[m][0] - c) <= 1e-14 * abs(c) for m, (c, s) in p.items())

    # -- reduce: clear denominators and expand poly atoms, newest first.
    def reduce(self, p, extra=()):
        """returns (p', factor) with p' = p * factor, factor a monomial of nonzero poly atoms; poly atoms
        occur in p' only with fractional exponents in (0,1)."""
        p = dict(p)
        factor = ()
        while True:
            # newest poly atom with an integer part in its exponents
            best = None
            for m, (c, s) in p.items():
                for a, e in m:
                    if self.at.kind[a][0] == "poly" and (e >= 1 or e < 0) and (best is None or a > best): best = a
            # sin^2 + cos^2
            if best is None:
                q = self.trig(p)
                if q is not None:
                    p = q; continue
                return p, factor
            a = best
            emin = 0.0
            for m in p:
                for x, e in m:
                    if x == a and e < emin: emin = e
            n = -math.floor(emin)
            if n:
                f = ((a, float(n)),)
                factor = self.mmul(factor, f)
                p = {self.mmul(m, f): cs for m, cs in p.items()}
            P = self.at.kind[a][1]
            byk = {}
            for m, cs in p.items():
                e = 0.0
                for x, y in m:
                    if x == a: e = y
                k = math.floor(e + 1e-9)
                rest = tuple((x, y) for x, y in m if x != a)
                fr = self.at.snap(a, e - k, max(abs(e), 1.0))
                if abs(fr) > 1e-9: rest = self.mmul(rest, ((a, fr),))
                byk.setdefault(k, {})[rest] = cs
            r, pw = {}, self.pconst(1.0)
            for k in range(0, int(max(byk)) + 1):
                if k: pw = self.pmul_big(pw, P)
                if k in byk: r = self.padd(r, self.pmul_big(byk[k], pw))
            p = r
            if len(p) > self.cap: raise TooBig()

    def trig(self, p):
        """rewrite one cos(x)^2 -> 1 - sin(x)^2 when sin(x) also occurs"""
        for m in p:
            for a, e in m:
                k = self.at.kind[a]
                if k[0] == "fn" and k[1] == COS and e >= 2:
                    s = self.fnatom(SIN, k[2], math.sin(self.pval(k[2][0])), (-1, 1))
                    r = {}
                    for m2, cs in p.items():
                        d = dict(m2)
                        if d.get(a, 0) >= 2:
                            base = self.mmul(m2, ((a, -2.0),))
                            r = self.padd(r, {base: cs})
                            r = self.padd(r, {self.mmul(base, ((s, 2.0),)): cs}, -1.0)
                        else:
                            r = self.padd(r, {m2: cs})
                    return r
        return None

    def mono_str(self, m):
        out = []
        for a, e in m:
            k = self.at.kind[a]
            if k[0] == "in": n = self.dag.inputs[k[1]][0]
            elif k[0] == "exp": n = f"exp[{self.mono_str(k[1])}]"
            elif k[0] == "poly": n = f"P{a}"
            elif k[0] == "node": n = f"N{k[1]}"
            else: n = f"{NAMES.get(k[1], k[1])}#{a}"
            out.append(n if e == 1 else f"{n}^{e:.6g}")
        return "*".join(out) or "1"
