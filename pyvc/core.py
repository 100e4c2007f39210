"""Path context: path conditions, decisions, obligations (one object per path).

The verifier explores a unit (a contract over real functions) by re-execution:
every data-dependent decision goes through ``Ctx.branch``; the two outcomes are
separate paths, and each obligation met on a path is discharged by the solver
under that path's condition.
"""
import time as _time
import z3


class PathEnd(BaseException):
    """The current path is finished (loop cut, infeasible assumption...)."""

    def __init__(self, *args):
        super().__init__(*args)
        if CUR is not None:
            CUR.dead = True


class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for."""

    def __init__(self, *args):
        super().__init__(*args)
        if CUR is not None:
            CUR.dead = True


class Discard(BaseException):
    """Concrete mode: the drawn input does not satisfy the precondition."""


class ContractFail(BaseException):
    """Concrete mode: a contract is false on a concrete run."""

    def __init__(self, name, detail=""):
        super().__init__(name, detail)
        self.name = name
        self.detail = detail


CUR = None  # current context (symbolic or concrete)


def cur():
    return CUR


def set_cur(ctx):
    global CUR
    CUR = ctx


class Obl:
    """One discharged or failed obligation instance."""

    __slots__ = ("name", "status", "time", "backend", "model", "smt", "abstract", "why", "loose")

    def __init__(self, name, status, tm, backend, model=None, smt=None, abstract=False, why=""):
        self.name = name
        self.status = status
        self.time = tm
        self.backend = backend
        self.model = model
        self.smt = smt
        self.abstract = abstract
        self.why = why
        # failed on a path that unrolls a loop the unit has no contract for
        self.loose = bool(CUR is not None and getattr(CUR, "loose", False))


class Ctx:
    """Symbolic path context."""

    symbolic = True

    def __init__(self, unit, prefix, opts):
        self.unit = unit
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_ms", 4000))
        self.solver.set("random_seed", opts.get("seed", 0))
        if not opts.get("mbqi", True):
            self.solver.set("mbqi", False)
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.pending = []
        self.counter = {}
        self.inputs = {}
        self.obls = []
        self.covers = set()
        self.notes = []
        self.dead = False
        self.abstract = False  # a loop cut / havoc happened on this path
        self.bounded = set()
        self.g = type("Ghost", (), {})()
        self.loops = list(getattr(unit, "loops", ()) or ())
        self.contracts = {}
        self.solver_time = 0.0
        self.queries = 0
        self.pc = []
        self.memo = {}
        self.crcs = []
        self.called = set()
        self.summarised = set()
        self.deadline = opts.get("deadline")
        self.auto_havoc = opts.get("auto_havoc", {})
        self.houdini_dead = opts.get("houdini_dead", set())
        self.depth = 0
        self.loose = False
        # indices of the loops under contract
        self.indices = ()

    # -- terms ---------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    # -- solver --------------------------------------------------------
    def _check(self, *extra):
        self.queries += 1
        if self.deadline and _time.time() > self.deadline:
            raise Unsupported("time budget of the unit used up")
        t = _time.time()
        res = self.solver.check(*extra)
        self.solver_time += _time.time() - t
        return res

    def add(self, cond):
        """Add a fact to the path condition (an axiom instance or a decision)."""
        if isinstance(cond, bool):
            if cond:
                return
            cond = z3.BoolVal(False)
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        from .sym import zbool

        if self.dead:
            return
        c = zbool(cond)
        if isinstance(c, bool):
            if not c:
                raise PathEnd("assume false")
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.add(c)
        if z3.is_false(c) or self._check() == z3.unsat:
            raise PathEnd("infeasible assumption")

    def branch(self, cond):
        """Decide a condition; explores both outcomes over the whole run."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.dead:
            return False
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(val)
            self.add(c if val else z3.Not(c))
            return val
        rt = self._check(c)
        rf = self._check(z3.Not(c))
        can_t = rt != z3.unsat
        can_f = rf != z3.unsat
        if not can_t and not can_f:
            self.dead = True
            raise PathEnd("infeasible path")
        self.pos += 1
        if can_t and can_f:
            self.pending.append(self.trail + [False])
            val = True
        else:
            val = can_t
        self.trail.append(val)
        self.prefix.append(val)
        self.add(c if val else z3.Not(c))
        if len(self.trail) > self.opts.get("max_depth", 4000):
            raise Unsupported("path too long")
        return val

    def entails(self, cond):
        """Is the condition a consequence of the path condition?"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ("ent", c.get_id(), len(self.pc))
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        res = self._check(z3.Not(c)) == z3.unsat
        self.memo[key] = (res, c)
        return res

    def ite(self, cond, a, b):
        """Conditional term, resolved when the path condition decides it."""
        c = z3.simplify(cond)
        if z3.is_true(c) or self.entails(c):
            return a
        if z3.is_false(c) or self.entails(z3.Not(c)):
            return b
        return z3.If(c, a, b)

    # -- obligations ---------------------------------------------------
    def check(self, name, cond, abstract=False):
        """An obligation: must hold on this path for all values."""
        from .sym import zbool

        if self.dead:
            return
        c = zbool(cond)
        t = _time.time()
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        abstract = abstract or self.abstract
        if z3.is_true(c):
            self.obls.append(Obl(name, "ok", _time.time() - t, "simplifier"))
            return
        status, model, backend, why = self.solve_neg(c)
        smt = None
        if status != "ok":
            smt = self.smt2(c)
        elif self.opts.get("keep_smt"):
            smt = self.smt2(c)
        self.obls.append(
            Obl(name, status, _time.time() - t, backend, model, smt, abstract, why)
        )
        # continue under the (now established or reported) fact
        self.add(c)
        if status != "ok" and self._check() == z3.unsat:
            raise PathEnd("failed obligation")

    def smt2(self, c):
        s = z3.Solver()
        s.add(self.pc)
        s.add(z3.Not(c))
        return s.to_smt2()

    def solve_neg(self, c):
        """Discharge pc |= c.  Returns (status, model, backend, why)."""
        neg = z3.Not(c)
        self.solver.set("timeout", self.opts.get("obl_ms", 20000))
        try:
            res = self._check(neg)
            if res == z3.unsat:
                return "ok", None, "z3", ""
            if res == z3.sat:
                return "refuted", self.extract(self.solver.model()), "z3", ""
        finally:
            self.solver.set("timeout", self.opts.get("branch_ms", 4000))
        # second try: fresh non-incremental solver
        s = z3.Solver()
        s.set("timeout", self.opts.get("obl_ms", 20000))
        s.add(self.pc)
        s.add(neg)
        t = _time.time()
        res = s.check()
        self.solver_time += _time.time() - t
        if res == z3.unsat:
            return "ok", None, "z3-fresh", ""
        if res == z3.sat:
            return "refuted", self.extract(s.model()), "z3-fresh", ""
        why = s.reason_unknown()
        res = cvc5_check(s.to_smt2(), self.opts.get("obl_ms", 20000))
        if res == "unsat":
            return "ok", None, "cvc5", ""
        return "unknown", None, "z3+cvc5", why

    def extract(self, model):
        """Concrete values of the unit's inputs in a counter-model."""
        out = {}
        for name, (kind, obj) in self.inputs.items():
            try:
                out[name] = (kind, concretise(model, kind, obj))
            except Exception as exc:  # pylint: disable=broad-except
                out[name] = (kind, None)
                self.notes.append("model extraction %s: %s" % (name, exc))
        return out

    def cover(self, name):
        if not self.dead:
            self.covers.add(name)

    def unrolling(self):
        """A loop without a contract in a unit that reasons by loop contracts:
        its ghost state says nothing about this loop."""
        if self.loops:
            self.loose = True

    def note_bounded(self, what):
        self.bounded.add(what)


def concretise(model, kind, obj):
    """Evaluate an input in a model; JSON-friendly results."""

    def ev(term):
        return model.eval(term, model_completion=True)

    if kind == "int":
        return ev(obj).as_long()
    if kind == "bool":
        return z3.is_true(ev(obj))
    if kind == "real":
        val = ev(obj)
        if z3.is_algebraic_value(val):
            val = val.approx(20)
        return [val.numerator_as_long(), val.denominator_as_long()]
    if kind == "str":
        return ev(obj).as_string()
    if kind == "bytes":
        n, fun = obj
        num = ev(n).as_long()
        num = max(0, min(num, 4096))
        return [ev(fun(z3.IntVal(i))).as_long() % 256 for i in range(num)]
    if kind == "choice":
        return obj
    raise ValueError(kind)


def cvc5_check(smt2, ms):
    """Ask cvc5 about a query written out as SMT-LIB; 'unsat'/'sat'/'unknown'."""
    try:
        import cvc5

        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption("tlimit-per", str(int(ms)))
        solver.setOption("strings-exp", "true")
        parser = cvc5.InputParser(solver)
        parser.setStringInput(
            cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2, "q"
        )
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(solver, sm)).strip()
            if out in ("sat", "unsat"):
                res = out
        return res
    except Exception:  # pylint: disable=broad-except
        return "unknown"
