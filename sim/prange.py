"""The seam for numba's parallel loops: functions compiled with parallel=True are rebuilt (at import, from their source) so that
the iterations of every ``prange`` loop are distributed over simulated workers and interleaved statement by statement by a seeded
schedule.  Off by default: without a schedule the loop runs in order, as it does with the JIT disabled.

Variables assigned in the body are private to an iteration (as they are in numba); ``x op= v`` on a plain variable that is
otherwise only read is a reduction.  An in-place update of an array element is a read and a write, another worker may run
in between."""
import ast
import inspect
import textwrap

_state = {"schedule": None}
kernels = []


class Schedule:
    def __init__(self, rng, workers):
        self.rng, self.workers = rng, workers
        self.switches = 0
        self.loops = 0
        self.trace = 0

    def drive(self, gens):
        """``gens``: one generator per iteration, in order; contiguous chunks go to workers, as numba's static schedule does."""
        self.loops += 1
        n, w = len(gens), max(1, min(self.workers, len(gens)))
        cuts = [n * i // w for i in range(w + 1)]
        queue = [list(range(cuts[i], cuts[i + 1])) for i in range(w)]
        out = [None] * n
        live = [i for i in range(w) if queue[i]]
        cur = None
        while live:
            if cur not in live or self.rng.chance(0.45):
                new = self.rng.choice(live)
                self.switches += new != cur
                self.trace = (self.trace * 31 + new + 1) & 0xFFFFFFFF
                cur = new
            k = queue[cur][0]
            try:
                next(gens[k])
            except StopIteration as e:
                out[k] = e.value
                queue[cur].pop(0)
                if not queue[cur]:
                    live.remove(cur)
        order = list(range(n))
        if w > 1:
            self.rng.shuffle(order)
        return out, order


def _run(make, seq):
    items = list(seq)
    s = _state["schedule"]
    if s is not None:
        return s.drive([make(i) for i in items])
    out = []
    for i in items:
        g = make(i)
        try:
            while True:
                next(g)
        except StopIteration as e:
            out.append(e.value)
    return out, range(len(items))


def _is_prange(n):
    return isinstance(n, ast.Call) and (getattr(n.func, "attr", None) == "prange" or getattr(n.func, "id", None) == "prange")


class _Body(ast.NodeTransformer):
    """Inside of a parallel loop: a scheduling point before every statement, element updates split."""

    def __init__(self):
        self.depth = 0

    def stmts(self, body):
        out = []
        for st in body:
            out.append(ast.Expr(ast.Yield(None)))
            if isinstance(st, ast.AugAssign) and isinstance(st.target, (ast.Subscript, ast.Attribute)):
                load = ast.parse(ast.unparse(st.target), mode="eval").body
                out += [ast.Assign([ast.Name("_rd", ast.Store())], ast.Call(ast.Name("_copy", ast.Load()), [load], [])), ast.Expr(ast.Yield(None)),
                        ast.Assign([st.target], ast.BinOp(ast.Name("_rd", ast.Load()), st.op, st.value))]
                continue
            if isinstance(st, ast.Continue) and self.depth == 0:
                out.append(ast.Return(ast.Name("_red_now", ast.Load())))
                continue
            inner = isinstance(st, (ast.For, ast.While))
            self.depth += inner
            for f in ("body", "orelse"):
                if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.Lambda, ast.IfExp)):
                    setattr(st, f, self.stmts(getattr(st, f)))
            self.depth -= inner
            out.append(st)
        return out


def _names(body, ctx):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ctx):
                out.add(n.id)
    return out


class _Loops(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_For(self, node):
        if not _is_prange(node.iter):
            self.generic_visit(node)
            return node
        self.k += 1
        name = "_iteration%d" % self.k
        aug = {n.target.id for st in node.body for n in ast.walk(st) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        plain = set()
        for st in node.body:
            for n in ast.walk(st):
                t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.For)) else []
                for x in t:
                    plain |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        red = sorted(aug - plain)
        body = _Body().stmts(node.body)
        pre = []
        for r in red:
            pre.append(ast.parse("%s = _zero(_outer_%s)" % (r, r)).body[0])
        ret = "return (%s)" % "".join(r + ", " for r in red) if red else "return ()"

        class Fix(ast.NodeTransformer):
            def visit_Return(s, n):
                return ast.parse(ret).body[0]

            def visit_Name(s, n):
                return n
        fn = ast.parse("def %s(_item):\n    pass\n" % name).body[0]
        if red:
            fn.args.defaults = []
            fn.args.args += [ast.arg("_outer_" + r) for r in red]
            fn.args.defaults = [ast.Name(r, ast.Load()) for r in red]
        bind = ast.Assign([node.target], ast.Name("_item", ast.Load()))
        fn.body = pre + [bind] + [Fix().visit(b) for b in body] + [ast.parse(ret).body[0]]
        out = [fn, ast.parse("_out, _order = _prange_run(%s, range(%s))" % (name, ", ".join(ast.unparse(a) for a in node.iter.args))).body[0]]
        for j, r in enumerate(red):
            out.append(ast.parse("for _o in _order:\n    %s = %s + _out[_o][%d]" % (r, r, j)).body[0])
        return out


def _zero(v):
    import numpy as np
    return np.zeros_like(v) if isinstance(v, np.ndarray) else type(v)(0)


def _copy(v):
    import copy
    return copy.copy(v)


def rebuild(f):
    """The same function with scheduled parallel loops; None when it has none or its source can not be had."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    except (OSError, SyntaxError, TypeError):
        return None
    fn = tree.body[0]
    if not any(isinstance(n, ast.For) and _is_prange(n.iter) for n in ast.walk(fn)):
        return None
    fn.decorator_list = []
    g = f.__globals__
    g.update(_prange_run=_run, _zero=_zero, _copy=_copy)
    scope = {}
    try:
        mod = ast.Module([_Loops().visit(fn)], [])
        ast.fix_missing_locations(mod)
        exec(compile(mod, f.__code__.co_filename, "exec"), g, scope)
    except (SyntaxError, ValueError, TypeError):
        return None
    r = scope[fn.name]
    r.__wrapped__ = f
    kernels.append("%s:%s" % (f.__module__, f.__name__))
    return r


_installed = False


def install():
    """Must run before the system's modules are imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import numba

    def seam(orig):
        def deco(*a, **kw):
            if a and callable(a[0]):
                d = orig(*a, **kw)
                return (rebuild(a[0]) or d) if kw.get("parallel") else d
            o = orig(*a, **kw)

            def wrap(f):
                return (rebuild(f) if kw.get("parallel") else None) or o(f)
            return wrap
        return deco
    numba.njit = seam(numba.njit)
    numba.jit = seam(numba.jit)


class scheduled:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        _state["schedule"] = self.s
        return self.s

    def __exit__(self, *a):
        _state["schedule"] = None
        return False
