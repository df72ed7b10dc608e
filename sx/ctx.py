"""Path explorer and SMT back end.

A case is a function run once per path.  Branches on symbolic conditions consult z3 for the
feasibility of both sides under the path condition; the explorer re-executes the case for every
feasible combination of decisions.  `unknown` counts as feasible, so no path is dropped because the
solver gave up.
"""
import math
import time
from fractions import Fraction

import z3

from . import num as N
from .num import SNum, SBool, Gen, GENS, MONOS, EXPS, Cyc, Unsupported, PathAbort


class Budget(N.SymControl):
    pass


STATS = {"queries": 0, "solver_time": 0.0, "unknown": 0, "unsat": 0, "sat": 0}

Q = lambda x: z3.RealVal(str(Fraction(x)))


def _frac_val(v):
    """python Fraction approximation of a z3 numeral."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError("not a numeral: %s" % v)


class Trans:
    """SNum -> z3, global per process (z3 terms are solver independent)."""

    def __init__(self):
        self.g = {}  # gen id -> z3 var
        self.defs = {}  # gen id -> (list of constraints, set of gens they mention)
        self.extra = {}  # auxiliary name -> (var, constraints)
        self.building = set()

    # every translation collects the generators used
    def gen(self, gid, used):
        used.add(gid)
        v = self.g.get(gid)
        if v is not None:
            return v
        G = GENS[gid]
        name = "%s!%d" % (G.name if G.kind == "var" else G.kind, gid)
        if G.kind == "inf":
            raise Unsupported("infinity reached the solver")
        v = z3.Bool(name) if G.kind == "ind" else z3.Int(name) if G.isint else z3.Real(name)
        self.g[gid] = v
        self.defs[gid] = None
        return v

    def define(self, gid):
        """Constraints defining gid; returns (constraints, used gens)."""
        d = self.defs.get(gid)
        if d is not None:
            return d
        G = GENS[gid]
        v = self.g[gid]
        used = set()
        cs = []
        k = G.kind
        if G.kind == "ind":
            self.defs[gid] = ([v == self.b(G.args[0], used)], used)
            return self.defs[gid]
        if G.pos:
            cs.append(v > 0)
        elif G.nonneg:
            cs.append(v >= 0)
        R = lambda p: self.re(p, used)
        vr = z3.ToReal(v) if G.isint else v
        if k == "sqrt":
            if G.key[1] == "g":
                cs += [v >= 0, v * v == self.gen(G.args[1], used)]
            else:
                cs += [v >= 0, v * v == R(G.args[0])]
        elif k == "alias":
            cs += [v == R(G.args[0])]
        elif k == "cabs":
            cs += [v >= 0, v * v == R(G.args[1])]
        elif k == "ind":
            raise AssertionError
        elif k == "angle":
            cs += [v > Q(Fraction(-314159265358979324, 10 ** 17)), v <= Q(Fraction(314159265358979324, 10 ** 17))]
            try:
                c, s = self.cplx(G.phasor, used)
                cs += [z3.Implies(s > 0, v > 0), z3.Implies(s < 0, v < 0),
                       z3.Implies(z3.And(s == 0, c > 0), v == 0)]
            except Unsupported:
                pass
        elif k == "floor":
            x = R(G.args[0])
            cs += [vr <= x, x < vr + 1]
        elif k == "rint":
            x = R(G.args[0])
            h = Q(Fraction(1, 2))
            cs += [x - h <= vr, vr <= x + h, z3.Implies(z3.Or(vr == x + h, vr == x - h), v % 2 == 0)]
        elif k == "idiv":
            a, b = self.intexpr(G.args[0], used), self.intexpr(G.args[1], used)
            br = G.args[1].rational()
            if br is not None and br > 0:
                cs += [br * v <= a, a < br * v + br]
            else:
                cs += [z3.If(b > 0, z3.And(b * v <= a, a < b * v + b), z3.And(b * v >= a, a > b * v + b))]
        elif k in ("max", "min"):
            xs = [R(a) for a in G.args]
            cs += [(vr >= x if k == "max" else vr <= x) for x in xs]
            cs += [z3.Or([vr == x for x in xs])]
        self.defs[gid] = (cs, used)
        return self.defs[gid]

    def aux(self, name, mk):
        r = self.extra.get(name)
        if r is None:
            r = self.extra[name] = mk()
        return r

    def cyc(self, c, used):
        """(re, im) of a coefficient."""
        if not isinstance(c, Cyc):
            return Q(c), None
        m = c.m
        re, im = Q(0), Q(0)
        for i, x in enumerate(c.v):
            if x:
                a, b = self.root(i, m, used)
                if a is not None:
                    re = re + Q(x) * a
                if b is not None:
                    im = im + Q(x) * b
        return z3.simplify(re), z3.simplify(im)

    def root(self, k, m, used):
        g = math.gcd(k, m)
        k, m = k // g, m // g
        if m == 1:
            return Q(1), None
        if m == 2:
            return Q(-1), None
        if m == 4:
            return None, Q(1 if k == 1 else -1)

        def part(x):
            # x = cos or sin value
            for q, nm in ((Fraction(1, 2), None), (Fraction(1, 2), 2), (Fraction(1, 2), 3)):
                t = float(q) * (math.sqrt(nm) if nm else 1)
                if abs(abs(x) - t) < 1e-12:
                    s = Q(q if x > 0 else -q)
                    if nm is None:
                        return s
                    gid = next(iter(MONOS[next(iter(N.sqrt(N.lift(nm)).t))][0]))[0]
                    return s * self.gen(gid, used)
            if abs(x) < 1e-12:
                return Q(0)
            nm = "cyc_%s" % repr(round(x, 13))

            def mk():
                v = z3.Real(nm)
                e = Fraction(1, 10 ** 13)
                f = Fraction(x)
                return v, [v > Q(f - e), v < Q(f + e)]

            v, _ = self.aux(nm, mk)
            used.add(nm)
            return v

        a = 2 * math.pi * k / m
        return part(math.cos(a)), part(math.sin(a))

    def mono(self, gens, used):
        out = None
        for g, e in gens:
            v = self.gen(g, used)
            if GENS[g].kind == "ind":
                v = z3.If(v, Q(1), Q(0))
            elif GENS[g].isint:
                v = z3.ToReal(v)
            if e < 0:
                nm = "inv!%d" % g

                def mk(v=v, nm=nm, g=g):
                    w = z3.Real(nm)
                    return w, [w * v == 1] + ([w > 0] if GENS[g].pos else [])

                v, _ = self.aux(nm, mk)
                used.add(nm)
                e = -e
            for _ in range(e):
                out = v if out is None else out * v
        return out

    def phasor(self, eid, used):
        """(cos, sin, scale) z3 of exp(E)."""
        E = EXPS[eid]
        c, s, mag = Q(1), Q(0), None
        for m, q in E.t.items():
            gens, e2 = MONOS[m]
            r = N._imag_rational(q)
            if r is None or e2:
                raise Unsupported("exponential reached the solver")
            r = Fraction(r)
            base = PHASE_BASE.get(m, Fraction(1))
            k = r / base
            if k.denominator != 1 or abs(k) > 40:
                base, k = r, 1
            k = int(k)
            nm = "ph!%d!%s" % (m, base)

            def mk(nm=nm):
                a, b = z3.Real(nm + "c"), z3.Real(nm + "s")
                return (a, b), [a * a + b * b == 1]

            (a, b), _ = self.aux(nm, mk)
            used.add(nm)
            if k < 0:
                b, k = -b, -k
            for _ in range(k):
                c, s = c * a - s * b, c * b + s * a
        return c, s

    def cplx(self, p, used):
        if p.t is None:
            raise Unsupported("nan reached the solver")
        res, ims = [], []
        for m, c in p.t.items():
            gens, eid = MONOS[m]
            a, b = self.cyc(c, used)
            mo = self.mono(gens, used)
            if eid:
                pc, ps = self.phasor(eid, used)
                if b is None:
                    a, b = a * pc, a * ps
                else:
                    a, b = a * pc - b * ps, a * ps + b * pc
            res.append(a if mo is None else a * mo)
            if b is not None:
                ims.append(b if mo is None else b * mo)
        re = z3.Sum(res) if len(res) > 1 else (res[0] if res else Q(0))
        im = z3.Sum(ims) if len(ims) > 1 else (ims[0] if ims else Q(0))
        return re, im

    def re(self, p, used):
        if p.ty == "i":
            return z3.ToReal(self.intexpr(p, used)) if N.all_int(p) else self.cplx(p, used)[0]
        if N.all_int(p) and p.t:
            return z3.ToReal(self.intexpr(p, used))
        return self.cplx(p, used)[0]

    def intexpr(self, p, used):
        if not N.all_int(p):
            raise Unsupported("non-integer expression where an integer is needed")
        out = []
        for m, c in p.t.items():
            t = None
            for g, e in MONOS[m][0]:
                v = self.gen(g, used)
                if GENS[g].kind == "ind":
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                for _ in range(e):
                    t = v if t is None else t * v
            c = z3.IntVal(int(c))
            out.append(c if t is None else c * t)
        if not out:
            return z3.IntVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def b(self, x, used):
        if x is True or x is False:
            return z3.BoolVal(x)
        op = x.op
        if op in ("<0", "<=0", "==0"):
            p = x.args[0]
            if N.all_int(p):
                e = self.intexpr(p, used)
            else:
                e = self.re(p, used)
            return e < 0 if op == "<0" else e <= 0 if op == "<=0" else e == 0
        if op == "and":
            return z3.And([self.b(a, used) for a in x.args])
        if op == "or":
            return z3.Or([self.b(a, used) for a in x.args])
        if op == "not":
            return z3.Not(self.b(x.args[0], used))
        raise Unsupported(op)


class Relax(Trans):
    """Monomials as independent signed variables: a sound over-approximation (unsat carries over)
    that leaves the solver linear constraints only."""

    def __init__(self):
        super().__init__()
        self.m = {}
        self.side = []

    def start(self, ctx=None):
        self.m, self.side = {}, []
        if ctx is not self.ctx:
            self.ctx, self.signs = ctx, {}

    ctx, signs = None, {}

    def _gsign(self, g, e):
        G = GENS[g]
        if G.pos:
            return "pos"
        r = self.signs.get(g)
        if r is None:
            r = self.signs[g] = self.ctx is not None and self.ctx.gen_positive(g)
        if r:
            return "pos"
        if G.nonneg and e > 0 or e % 2 == 0:
            return "nonneg"
        return None

    def mag(self, gens):
        v = self.m.get(gens)
        if v is None:
            v = z3.Real("mm!%d" % len(self.m))
            self.m[gens] = v
            s = {self._gsign(g, e) for g, e in gens}
            self.side.append(v == 1 if not gens else v > 0 if s == {"pos"} else v >= 0 if None not in s else z3.BoolVal(True))
            if None in s:
                self.m[(gens, "free")] = True
        return v

    def lin(self, p):
        out = []
        for m, c in p.t.items():
            gens, eid = MONOS[m]
            v = self.mag(gens)
            if not eid and not isinstance(c, Cyc):
                out.append(Q(c) * v)
                continue
            if (gens, "free") in self.m:
                raise Unsupported("sign")
            a, b = self.cyc(c, set()) if not isinstance(c, Cyc) else self._bounds(c)
            if not eid:
                out.append(a * v if not isinstance(a, tuple) else self._between(a, v))
                continue
            # |Re(c e^{i t})| <= |c|
            E = EXPS[eid]
            for q in E.t.values():
                r = N._imag_rational(q)
                if r is None:
                    raise Unsupported("not a phase")
            if not all(MONOS[k][1] == 0 and all(GENS[g].kind != "ind" for g, _ in MONOS[k][0]) for k in E.t):
                raise Unsupported("not a phase")
            # real coefficients keep the pairing of e^{it} and e^{-it}
            if isinstance(c, Cyc):
                z = complex(c)
                lim = Q(Fraction(abs(z)).limit_denominator(10 ** 15) + Fraction(1, 10 ** 12))
                w = z3.Real("mw!%d" % len(self.side))
                self.side += [w <= lim * v, w >= -lim * v]
                out.append(w)
            else:
                key = (gens, min(E.key(), (-E).key()))
                w = self.m.get(key)
                if w is None:
                    w = self.m[key] = z3.Real("mc!%d" % len(self.side))
                    self.side += [w <= v, w >= -v]
                out.append(Q(c) * w)
        return z3.Sum(out) if out else Q(0)

    def _bounds(self, c):
        x = complex(c)
        f, e = Fraction(x.real), Fraction(1, 10 ** 12)
        return (Q(f - e), Q(f + e)), None

    def _between(self, ab, v):
        w = z3.Real("mb!%d" % len(self.side))
        self.side += [w >= ab[0] * v, w <= ab[1] * v]
        return w

    def b(self, x, used=None):
        if x is True or x is False:
            return z3.BoolVal(x)
        op = x.op
        if op in ("<0", "<=0", "==0"):
            e = self.lin(x.args[0])
            return e < 0 if op == "<0" else e <= 0 if op == "<=0" else e == 0
        if op == "and":
            return z3.And([self.b(a) for a in x.args])
        if op == "or":
            return z3.Or([self.b(a) for a in x.args])
        if op == "not":
            return z3.Not(self.b(x.args[0]))
        raise Unsupported(op)


PHASE_BASE = {}  # exponent monomial -> base multiple
TR = Trans()
RELAX = Relax()


_qcache = {}


class Ctx:
    """State of one path."""

    def __init__(self, prefix, timeout_ms=4000):
        self.prefix = prefix  # list of decisions
        self.trace = []  # decisions taken: (value, alternatives still open)
        self.known = {}  # canonical poly key -> set of signs
        self.polys = {}
        self.kb = {}  # compound SBool key -> bool
        self.conds = []
        self.entries = []  # (z3 constraint, frozenset of variables)
        self.index = {}  # variable -> entry numbers
        self.defined = set()
        self.timeout = timeout_ms
        self.vars = {}
        self.notes = set()
        self.unknown_branch = 0
        self.last_model = None

    # -- solver ---------------------------------------------------------------------
    def _entry(self, e, used):
        i = len(self.entries)
        self.entries.append((e, frozenset(used)))
        for u in used:
            self.index.setdefault(u, []).append(i)

    def ensure(self, used):
        work = list(used)
        done = self.defined
        while work:
            g = work.pop()
            if g in done:
                continue
            done.add(g)
            if isinstance(g, str):
                for c in TR.extra[g][1]:
                    u = {g}
                    if g.startswith("inv!"):
                        u.add(int(g[4:]))
                    self._entry(c, u)
                if g.startswith("inv!"):
                    work.append(int(g[4:]))
                continue
            cs, us = TR.define(g)
            for c in cs:
                self._entry(c, us | {g})
            work.extend(us)

    def slice(self, used):
        """Constraints connected to the given variables, and the variables of that component."""
        seen, ents = set(), set()
        work = list(used)
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for i in self.index.get(v, ()):
                if i not in ents:
                    ents.add(i)
                    work.extend(self.entries[i][1])
        return sorted(ents), seen

    def solve(self, cons, seen, timeout=None, want_model=False):
        """Verdict on a list of z3 constraints over the given variables."""
        key = frozenset(c.get_id() for c in cons)
        if not want_model:
            r = _qcache.get(key)
            if r is not None:
                return r[0]
        t0 = time.time()
        mixed = any(not isinstance(g, str) and (GENS[g].isint or GENS[g].kind == "ind") for g in seen)
        to = timeout or self.timeout
        tries = (("smt", to),) if mixed else (("QF_NRA", to // 2), ("smt", to // 2))
        r = z3.unknown
        for kind, t in tries:
            s = z3.Solver() if kind == "smt" else z3.SolverFor(kind)
            s.set("timeout", int(max(100, t)))
            s.add(*cons)
            r = s.check()
            if r != z3.unknown:
                break
        self.last_model = s.model() if r == z3.sat else None
        STATS["queries"] += 1
        STATS["solver_time"] += time.time() - t0
        STATS[str(r)] += 1
        if r != z3.unknown:
            _qcache[key] = (r, cons)  # keep the terms alive so that ids stay unique
        return r

    def gen_positive(self, g):
        """Is a generator positive everywhere on this path?"""
        used = set()
        try:
            e = TR.b(N.gen_num(GENS[g]) <= 0, used)
            return self.query(e, used, 2000) == z3.unsat
        except Unsupported:
            return False

    def relaxed(self, x):
        """Is x true whatever the values, by its monomials' signs alone?"""
        r = RELAX
        r.start(self)
        try:
            e = r.b(x)
        except Unsupported:
            return False
        return self.solve([z3.Not(e)] + r.side, set(), 2000) == z3.unsat

    def query(self, e, used, timeout=None, want_model=False):
        self.ensure(used)
        ents, seen = self.slice(used)
        return self.solve([self.entries[i][0] for i in ents] + [e], seen, timeout, want_model)

    def components(self):
        left = set(self.index)
        out = []
        while left:
            v = next(iter(left))
            ents, seen = self.slice([v])
            left -= seen
            out.append((ents, seen))
        return out

    def witness(self, extra=None, used=(), timeout=None):
        """(verdict, env) for the whole path, component by component."""
        if extra is not None:
            self.ensure(used)
        verdict = z3.sat
        env = {}
        gset = set(used)
        comps = self.components()
        done_extra = extra is None
        if extra is not None:
            ents, seen = self.slice(used)
            comps = [(e, s) for e, s in comps if not (s & seen)] + [(ents, seen)]
        for ents, seen in comps:
            cons = [self.entries[i][0] for i in ents]
            if extra is not None and seen & gset:
                cons = cons + [extra]
                done_extra = True
            r = self.solve(cons, seen, timeout, want_model=True)
            if r == z3.unsat:
                return r, None
            if r == z3.unknown:
                verdict = r
                continue
            self._read(self.last_model, seen, env)
        if not done_extra:
            r = self.solve([extra], set(), timeout, want_model=True)
            if r != z3.sat:
                return r, None
        return verdict, env

    def _read(self, model, seen, env):
        for name, gid in self.vars.items():
            if gid in seen:
                x = model.eval(TR.g[gid], model_completion=True)
                try:
                    env[name] = _frac_val(x)
                except ValueError:
                    pass

    def add(self, b):
        used = set()
        e = TR.b(b, used)
        self.ensure(used)
        self._entry(e, used)
        self.conds.append(b)

    # -- knowledge ------------------------------------------------------------------
    def atom(self, b):
        """(canonical key, flip) for an atomic condition."""
        p = b.args[0]
        lead = p.t[max(p.t)]
        z = complex(lead) if isinstance(lead, Cyc) else lead
        neg = (z.real if isinstance(z, complex) else z) < 0
        q = -p if neg else p
        return q.key(), neg

    def allowed(self, b):
        """signs of b's poly for which b is true, in canonical orientation."""
        k, neg = self.atom(b)
        s = {"<0": {-1}, "<=0": {-1, 0}, "==0": {0}}[b.op]
        if neg:
            s = {-x for x in s}
        return k, s

    def lookup(self, b):
        if b is True or b is False:
            return b
        if b.op in ("<0", "<=0", "==0"):
            k, s = self.allowed(b)
            kn = self.known.get(k)
            if kn is None:
                return None
            if kn <= s:
                return True
            if not (kn & s):
                return False
            return None
        if b.op == "not":
            r = self.lookup(b.args[0])
            return None if r is None else not r
        r = self.kb.get(b.key())
        if r is not None:
            return r
        rs = [self.lookup(a) for a in b.args]
        if b.op == "and":
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        elif b.op == "or":
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def learn(self, b, val):
        if b is True or b is False:
            return
        if b.op in ("<0", "<=0", "==0"):
            k, s = self.allowed(b)
            kn = self.known.get(k, {-1, 0, 1})
            self.known[k] = kn = kn & s if val else kn - s
            if kn == {0}:
                self.polys[k] = b.args[0]
            return
        if b.op == "not":
            return self.learn(b.args[0], not val)
        self.kb[b.key()] = val
        if b.op == "and" and val:
            for a in b.args:
                self.learn(a, True)
        if b.op == "or" and not val:
            for a in b.args:
                self.learn(a, False)

    def pinned(self):
        """Generators that the path equates with a constant."""
        out = {}
        for k, signs in self.known.items():
            if signs == {0}:
                p = self.polys.get(k)
                if p is None:
                    continue
                gs = [m for m in p.t if m]
                if len(gs) == 1:
                    gens, eid = MONOS[gs[0]]
                    if not eid and len(gens) == 1 and gens[0][1] == 1:
                        c, d = p.t[gs[0]], p.t.get(0, 0)
                        if not isinstance(c, Cyc) and not isinstance(d, Cyc):
                            out[gens[0][0]] = N.lift(Fraction(-d) / Fraction(c))
        return out

    # -- branching ------------------------------------------------------------------
    def branch(self, b):
        r = self.lookup(b)
        if r is not None:
            return r
        if b.op in ("and", "or") and len(b.args) <= 6:
            # short circuit, so that atoms become known
            if b.op == "and":
                for a in b.args:
                    if not self.branch(a):
                        return False
                return True
            for a in b.args:
                if self.branch(a):
                    return True
            return False
        if b.op == "not":
            return not self.branch(b.args[0])
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            val = d[0]
            self.trace.append(d)
        else:
            val, open_ = self.decide(b)
            self.trace.append((val, open_))
            self.tick()
        self.learn(b, val)
        self.add(b if val else N.b_not(b))
        return val

    def decide(self, b):
        """Pick a side; returns (value, is the other side still open)."""
        used = set()
        e = TR.b(b, used)
        rt = self.query(e, used)
        if rt == z3.unsat:
            return False, False
        rf = self.query(z3.Not(e), used)
        if rf == z3.unsat:
            return True, False
        if z3.unknown in (rt, rf):
            self.unknown_branch += 1
        return True, True

    def tick(self):
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Budget("time budget of the case exhausted")
        if len(self.trace) > MAX_DEPTH[0]:
            raise Budget("too many decisions on one path")

    def choose(self, n):
        """Free choice among n alternatives."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d[0]
        self.trace.append((0, ("choice", n)))
        return 0

    def concretize(self, p):
        """Fork on the value of an integer expression."""
        p = p.with_ty("i")
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trace.append(d)
                _, v, eq = d[0]
            else:
                used = set()
                e = TR.intexpr(p, used)
                self.ensure(used)
                ents, seen = self.slice(used)
                cons = [self.entries[i][0] for i in ents]
                r = self.solve(cons, seen, want_model=True)
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Budget("solver gave up enumerating an integer")
                v = self.last_model.eval(e, model_completion=True).as_long()
                # is another value possible?
                r2 = self.solve(cons + [e != v], seen)
                eq = True
                self.trace.append((("int", v, True), False if r2 == z3.unsat else ("int", v)))
                self.tick()
            b = N.compare(p, N.lift(v), "==")
            if isinstance(b, bool):
                if b != eq:
                    raise PathAbort()
            else:
                self.learn(b, eq)
                self.add(b if eq else N.b_not(b))
            if eq:
                return v

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort()
        r = self.lookup(b)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        self.learn(b, True)
        self.add(b)

    def note(self, msg):
        self.notes.add(msg)


DEADLINE = [None]
MAX_DEPTH = [2000]
CUR = [None]


def _branch(b):
    return CUR[0].branch(b)


def _concretize(p):
    return CUR[0].concretize(p)


def _note(m):
    if CUR[0] is not None:
        CUR[0].note(m)


def install(ctx):
    CUR[0] = ctx
    N.HOOKS.branch = _branch if ctx else None
    N.HOOKS.concretize = _concretize if ctx else None
    N.HOOKS.note = _note if ctx else None
    N.HOOKS.lookup = ctx.lookup if ctx else None


def next_prefix(trace):
    """The next decision prefix in depth-first order, or None."""
    t = list(trace)
    while t:
        val, open_ = t.pop()
        if open_ is True:
            return t + [(not val, False)]
        if isinstance(open_, tuple):
            if open_[0] == "choice":
                n = open_[1]
                if val + 1 < n:
                    return t + [(val + 1, open_)]
            elif open_[0] == "int":
                return t + [(("int", open_[1], False), False)]
    return None


def explore(run, max_paths=100000, timeout_ms=4000):
    """Yield (ctx, result or exception) for every path of run(ctx)."""
    prefix = []
    n = 0
    while prefix is not None:
        ctx = Ctx(prefix, timeout_ms)
        install(ctx)
        try:
            try:
                res = ("ok", run(ctx))
            except PathAbort:
                res = ("abort", None)
            n += 1
            yield ctx, res
        finally:
            install(None)
        if n >= max_paths:
            raise Budget("more than %d paths" % max_paths)
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Budget("time budget of the case exhausted")
        prefix = next_prefix(ctx.trace)
