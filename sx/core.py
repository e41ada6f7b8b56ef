"""Path exploration: depth-first by re-execution, every branch decided by z3."""
import time as _time
import z3
from . import rt
from .rt import PathEnd, Unsupported, SxSignal, EngineError

INT = z3.IntSort()


class Stats(object):
    def __init__(self):
        self.paths = 0            # complete paths
        self.cut = 0              # paths ended by an assumption
        self.bound_hits = 0
        self.decisions = 0        # branch decisions taken (symbolic)
        self.feas_queries = 0
        self.check_queries = 0    # assertion queries given to the solver
        self.discharged = 0       # assertions proved (unsat or constant true on the path)
        self.discharged_solver = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.concretized = {}     # site -> count: values fixed without covering all alternatives
        self.reached = {}
        self.functions = set()
        self.assumptions = set()

    def as_dict(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        d["assumptions"] = sorted(self.assumptions)
        return d


class Explorer(object):
    """Explores all paths of fn(cx, **case)."""

    def __init__(self, fn, case, query_timeout_ms=15000, max_paths=200000, max_steps=20000,
                 time_limit=None, samples=6, max_violations=4, hang_is_violation=False, seed=1, known=(),
                 prefixes=None, slice_s=None):
        self.fn = fn
        self.case = case
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed)
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = None if time_limit is None else _time.time() + time_limit
        self.violations = []
        self.samples = []
        self.n_samples = samples
        self.max_violations = max_violations
        self.hang_is_violation = hang_is_violation
        self.incomplete = []
        self.stack = []
        self.seed = seed
        self.known = known            # predicates over violation messages: recorded findings
        self.known_hits = {}
        self.prefixes = prefixes
        self.slice_s = slice_s        # give the pending branches back after this time

    def explore(self):
        self.stack = [[]] if self.prefixes is None else [list(p) for p in self.prefixes]
        t0 = _time.time()
        while self.stack:
            if self.slice_s is not None and _time.time() - t0 > self.slice_s:
                return self           # the pending branches are in self.stack
            if self.stats.paths + self.stats.cut >= self.max_paths:
                self.incomplete.append("path limit %d reached" % self.max_paths)
                break
            if self.deadline is not None and _time.time() > self.deadline:
                self.incomplete.append("time limit reached with %d pending branches" % len(self.stack))
                break
            prefix = self.stack.pop()
            self.run_path(prefix)
            if len(self.violations) >= self.max_violations:
                break
        return self

    def run_path(self, prefix):
        self.solver.push()
        cx = SymCx(self, prefix)
        rt.cx = cx
        rt.symbolic = True
        completed = False
        try:
            try:
                self.fn(cx, **self.case)
                completed = True
            except PathEnd:
                pass
            except Unsupported as e:
                cx.note_incomplete("unsupported: %s" % (e,))
            except EngineError as e:
                cx.note_incomplete("engine: %s" % (e,))
            except SxSignal:
                pass
            except RecursionError:
                cx.note_incomplete("recursion limit in harness")
            except Exception as e:
                self.escaped(cx, e)
            if completed and not cx.dead:
                self.stats.paths += 1
                self.maybe_sample(cx)
            elif not cx.violated:
                self.stats.cut += 1
        finally:
            cx.dead = True
            cx.cleanup()
            rt.cx = None
            self.solver.pop()

    def escaped(self, cx, e):
        """An exception left the harness: the code under test raised where the harness expects no exception."""
        where = rt.origin(e)
        if where is None or cx.dead:
            import traceback
            last = traceback.extract_tb(e.__traceback__)[-1]
            cx.note_incomplete("harness: %s: %s at %s:%d" % (type(e).__name__, e, last.filename, last.lineno))
            return
        try:
            cx.fail("EXCEPTION %s escapes from %s" % (type(e).__name__, where))
        except SxSignal:
            pass

    def maybe_sample(self, cx):
        # reservoir by spreading: keep the first few and then every 2^k-th path
        n = self.stats.paths
        if len(self.samples) < self.n_samples and (n <= 2 or (n & (n - 1)) == 0 or n % 97 == 0):
            m = cx.get_model()
            if m is not None:
                self.samples.append({"assignment": cx.assignment(m), "observed": cx.eval_observed(m)})

    def check_sat(self, *assumptions):
        t = _time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += _time.time() - t
        return r


class SymCx(object):
    """The context handed to a harness in a symbolic run."""

    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.solver = ex.solver
        self.prefix = prefix
        self.trail = []
        self.memo = {}
        self.keep = []          # keep z3 asts alive while their ids are used as keys
        self.vars = {}          # name -> (kind, payload)
        self.counts = {}
        self.model = None
        self.dead = False
        self.violated = False
        self.steps = 0
        self.observed = []
        self.fresh_n = 0
        self.digit_cache = {}
        self.accessed = {}      # source name -> list of z3 index exprs
        self.alike = []       # equal windows of opaque sources
        self.cleanups = []
        self.threads = None
        self.st = {}            # per-path state of the environment stubs
        self.case = ex.case

    # ------------------------------------------------------------ solver
    def cleanup(self):
        for f in reversed(self.cleanups):
            try:
                f()
            except BaseException:
                pass

    def alive(self):
        if self.dead:
            raise PathEnd()

    def add(self, e):
        """Assert a constraint without checking."""
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def query(self, e):
        """Is e feasible under the path condition?  -> True / False / None"""
        self.ex.stats.feas_queries += 1
        r = self.ex.check_sat(e)
        if r == z3.sat:
            self._qmodel = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        self.ex.stats.unknown += 1
        self._qmodel = None
        return None

    def decide(self, e):
        """Branch on a z3 boolean."""
        self.alive()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        neg = False
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "b":
                raise EngineError("non-deterministic re-execution: %s / %s" % (d, e))
            v = d[1]
            forced = d[2]
            self.trail.append(d)
            if not forced:
                self.add(e if v else z3.Not(e))
        else:
            if self.model is None:
                r = self.query(z3.BoolVal(True))
                if r is False:
                    # path condition became infeasible
                    self.dead = True
                    raise PathEnd()
                self.model = self._qmodel
            mv = None
            if self.model is not None:
                ev = self.model.eval(e, model_completion=True)
                if z3.is_true(ev):
                    mv = True
                elif z3.is_false(ev):
                    mv = False
            if mv is None:
                t = self.query(e)
                tm = self._qmodel if t else None
                f = self.query(z3.Not(e))
                fm = self._qmodel if f else None
            elif mv:
                t, tm = True, self.model
                f = self.query(z3.Not(e))
                fm = self._qmodel if f else None
            else:
                f, fm = True, self.model
                t = self.query(e)
                tm = self._qmodel if t else None
            t = t is not False
            f = f is not False
            if t and f:
                v = True
                forced = False
                self.ex.stack.append(self.trail + [("b", False, False)])
                self.ex.stats.decisions += 1
                self.solver.add(e)
                self.model = tm
            elif t:
                v, forced = True, True
                self.model = tm
            elif f:
                v, forced = False, True
                self.model = fm
            else:
                self.dead = True
                raise PathEnd()
            self.trail.append(("b", v, forced))
        self.memo[k] = v
        self.keep.append(e)
        ne = z3.simplify(z3.Not(e))
        self.memo[ne.get_id()] = not v
        self.keep.append(ne)
        return v

    def concretize(self, e, limit=64, what="value"):
        """Fork over all values of an integer expression."""
        self.alive()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "v":
                    raise EngineError("non-deterministic re-execution: %s / %s" % (d, e))
                v, taken = d[1], d[2]
                self.trail.append(d)
                if taken:
                    self.add(e == v)
                    return v
                self.add(e != v)
                n += 1
                continue
            r = self.query(z3.BoolVal(True))
            if not r:
                self.dead = True
                raise PathEnd()
            self.model = self._qmodel
            v = self.model.eval(e, model_completion=True).as_long()
            more = self.query(e != v)
            if more is not False:
                if n + 1 >= limit:
                    self.note_concretized("%s: more than %d values" % (what, limit))
                else:
                    self.ex.stack.append(self.trail + [("v", v, False)])
                self.ex.stats.decisions += 1
            self.trail.append(("v", v, True))
            self.add(e == v)
            return v

    def note_concretized(self, site):
        c = self.ex.stats.concretized
        c[site] = c.get(site, 0) + 1

    def note_incomplete(self, why):
        if why not in self.ex.incomplete:
            self.ex.incomplete.append(why)

    # ------------------------------------------------------------ inputs
    def _name(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def fresh(self, hint="t"):
        self.fresh_n += 1
        return z3.Int("%s!%d" % (hint, self.fresh_n))

    def fresh_real(self, hint="r"):
        self.fresh_n += 1
        return z3.Real("%s!%d" % (hint, self.fresh_n))

    def int(self, name, lo=None, hi=None):
        from .values import SymInt
        self.alive()
        name = self._name(name)
        v = z3.Int(name)
        self.vars[name] = ("int", v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        from .values import SymBool
        self.alive()
        name = self._name(name)
        v = z3.Bool(name)
        self.vars[name] = ("bool", v)
        return SymBool(v)

    def real(self, name, lo=None, hi=None):
        from .values import SymReal, real_val
        self.alive()
        name = self._name(name)
        # multiples of 1/1024: such sums and differences are exact in IEEE doubles, so replays are exact
        n = z3.Int(name)
        v = z3.ToReal(n) / 1024
        self.ex.stats.assumptions.add("clock readings and delays are multiples of 1/1024 s; "
                                      "arithmetic on them is exact")
        self.vars[name] = ("real", v)
        if lo is not None:
            self.add(v >= real_val(lo))
        if hi is not None:
            self.add(v <= real_val(hi))
        return SymReal(v)

    def choice(self, name, n):
        """A symbolic variable over range(n), split at once (all values explored)."""
        self.alive()
        name = self._name(name)
        v = z3.Int(name)
        self.vars[name] = ("int", v)
        if n == 1:
            self.solver.add(v == 0)
            return 0
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "k":
                raise EngineError("non-deterministic re-execution: %s / %s" % (d, name))
            k = d[1]
        else:
            k = 0
            d = ("k", 0)
            for j in range(n - 1, 0, -1):
                self.ex.stack.append(self.trail + [("k", j)])
            self.ex.stats.decisions += 1
        self.trail.append(d)
        self.solver.add(v == k)   # v is fresh: a model of the path stays one after setting v
        self.model = None if self.model is None else self.model
        return k

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def fault(self, name):
        """A symbolic fault: does this operation fail?"""
        return self.choice("fault:" + name, 2) == 1

    def bytes(self, name, lo=0, hi=None):
        """Byte string of symbolic length with arbitrary content (lazily represented)."""
        from .values import opaque, SymBytes
        return opaque(self, self._name(name), lo, hi, SymBytes)

    def text(self, name, lo=0, hi=None):
        """ASCII text of symbolic length with arbitrary content."""
        from .values import opaque, SymStr
        self.ex.stats.assumptions.add("text of symbolic length is ASCII")
        return opaque(self, self._name(name), lo, hi, SymStr)

    def cells(self, name, n, lo=0, hi=255):
        """Byte string of exactly n symbolic bytes."""
        from .values import SymBytes, mkseq
        return mkseq(SymBytes, [("e", [self._cell(name, i, lo, hi) for i in range(n)])] if n else [])

    def chars(self, name, n, lo=0, hi=127):
        from .values import SymStr, mkseq
        return mkseq(SymStr, [("e", [self._cell(name, i, lo, hi) for i in range(n)])] if n else [])

    def _cell(self, name, i, lo, hi):
        nm = self._name("%s[%d]" % (name, i))
        v = z3.Int(nm)
        self.vars[nm] = ("int", v)
        self.add(z3.And(v >= lo, v <= hi))
        return v

    # ------------------------------------------------------------ assertions
    def assume(self, cond):
        from .values import SymBool
        self.alive()
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            if z3.is_false(e):
                self.dead = True
                raise PathEnd()
            self.add(e)
            if len(self.trail) >= len(self.prefix) and self.model is None:
                if self.query(z3.BoolVal(True)) is False:
                    self.dead = True
                    raise PathEnd()
                self.model = self._qmodel
        elif not cond:
            self.dead = True
            raise PathEnd()

    def check(self, cond, msg):
        from .values import SymBool, SymInt
        self.alive()
        st = self.ex.stats
        if isinstance(cond, SymInt):
            cond = SymBool(cond.e != 0)
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                st.discharged += 1
                return True
            st.check_queries += 1
            r = self.ex.check_sat(z3.Not(e))
            if r == z3.unsat:
                st.discharged += 1
                st.discharged_solver += 1
                return True
            if r == z3.unknown:
                st.unknown += 1
                self.note_incomplete("solver gave no answer for: %s" % msg)
                return None
            model = self.solver.model()
        elif cond:
            st.discharged += 1
            return True
        else:
            st.check_queries += 1
            r = self.ex.check_sat()
            if r == z3.unsat:
                self.dead = True
                raise PathEnd()
            if r == z3.unknown:
                st.unknown += 1
                self.note_incomplete("solver gave no answer for: %s" % msg)
                self.dead = True
                raise PathEnd()
            model = self.solver.model()
        self.violated = True
        v = {"msg": msg, "assignment": self.assignment(model)}
        for k in self.ex.known:
            if k in msg:
                self.ex.known_hits.setdefault(k, v)
                break
        else:
            self.ex.violations.append(v)
        self.dead = True
        raise PathEnd()

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        r = self.ex.stats.reached
        r[label] = r.get(label, 0) + 1

    def observe(self, *values):
        self.observed.append([list(v) if type(v) is list else dict(v) if type(v) is dict else v for v in values])

    def stop(self):
        """End this path here (bound of the exploration)."""
        self.dead = True
        raise PathEnd()

    def step(self):
        self.steps += 1
        if self.steps > self.ex.max_steps:
            self.ex.stats.bound_hits += 1
            if self.ex.hang_is_violation:
                self.fail("HANG: execution does not end within %d loop iterations" % self.ex.max_steps)
            self.note_incomplete("loop bound of %d iterations per path reached" % self.ex.max_steps)
            self.dead = True
            raise PathEnd()
        if self.dead:
            raise PathEnd()

    # ------------------------------------------------------------ models
    def get_model(self):
        if self.ex.check_sat() == z3.sat:
            return self.solver.model()
        return None

    def assignment(self, model):
        out = {}
        for name, (kind, v) in self.vars.items():
            if kind == "int":
                out[name] = str(model.eval(v, model_completion=True).as_long())
            elif kind == "bool":
                out[name] = bool(z3.is_true(model.eval(v, model_completion=True)))
            elif kind == "real":
                r = model.eval(v, model_completion=True)
                if z3.is_algebraic_value(r):
                    r = r.approx(20)
                out[name] = "%s/%s" % (r.numerator_as_long(), r.denominator_as_long())
            elif kind == "opaque":
                ln = model.eval(v["len"], model_completion=True).as_long()
                pts = {}
                for ix in self.accessed.get(name, []):
                    i = model.eval(ix, model_completion=True).as_long()
                    c = model.eval(v["fn"](ix), model_completion=True).as_long()
                    pts[str(i)] = c
                out[name] = {"len": ln, "at": pts, "hi": v["hi"]}
        self._equate(model, out)
        return out

    def _equate(self, model, out):
        """Contents which this path takes to be equal get equal values."""
        from .replay import opaque_cell
        link = {}

        def find(c):
            while c in link:
                c = link[c]
            return c

        cells = []
        for a, i, b, j, n in self.alike:
            i, j, n = [model.eval(e, model_completion=True).as_long() for e in (i, j, n)]
            if a not in out or b not in out or n + len(cells) > 100000:
                continue
            for k in range(n):
                p, q = find((a, i + k)), find((b, j + k))
                if not p == q:
                    # the narrower range stands for both
                    if out[p[0]]["hi"] > out[q[0]]["hi"]:
                        p, q = q, p
                    link[q] = p
                cells.append((a, i + k))
                cells.append((b, j + k))
        fixed = {}
        for name, i in cells:
            if str(i) in out[name]["at"]:
                fixed[find((name, i))] = out[name]["at"][str(i)]
        for name, i in cells:
            r = find((name, i))
            if r not in fixed:
                fixed[r] = opaque_cell(r[0], out[r[0]], r[1])
        for name, i in cells:
            out[name]["at"][str(i)] = fixed[find((name, i))]

    def eval_observed(self, model):
        from .replay import canon
        from .values import evaluate
        ass = self.assignment(model)
        return [canon([evaluate(v, model, ass) for v in vs]) for vs in self.observed]
