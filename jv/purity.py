"""Frame condition `modifies nothing` of a function, from its source: no statement of the function, or of an astrodynx function it
refers to, can change an argument, a default value or module state.

Values are fresh (made by an expression evaluated in the call) or shared (a parameter, a part of one, a default, a global, or a
name bound to any of these).  Changing a shared value needs one of: assignment to or deletion of a subscript/attribute of it, an
augmented assignment to a name bound to it, a mutating method called on it, `global`/`nonlocal`, or a callee outside the packages
assumed not to modify their arguments (jax, diffrax, numpy, builtins).  None present: proved.  Otherwise undecided here, and the
bounded check on concrete calls stands in."""
import ast
import inspect
import textwrap
import types

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "update", "setdefault", "clear", "remove", "sort", "reverse", "fill", "resize",
            "put", "itemset", "setflags", "partition", "byteswap", "add", "discard", "write", "writelines", "setfield"}
PACKAGES = ("jax", "diffrax", "equinox", "jaxtyping", "numpy", "math", "functools", "operator", "typing", "optimistix", "lineax")
STATEFUL = {"open", "setattr", "delattr", "exec", "eval", "input", "print", "globals", "vars", "locals", "__import__", "id", "iter", "next"}


class Undecided(Exception):
    pass


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e


class Frame(ast.NodeVisitor):
    def __init__(self, fn, shared, globals_, callees):
        self.shared, self.g, self.callees = set(shared), globals_, callees
        self.local = set(shared)
        self.fn = fn

    # ---- which expressions may denote a shared value
    def is_shared(self, e):
        if isinstance(e, ast.NamedExpr):
            return self.is_shared(e.value)
        if isinstance(e, (ast.IfExp,)):
            return self.is_shared(e.body) or self.is_shared(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.is_shared(v) for v in e.values)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return any(self.is_shared(v) for v in e.elts)
        if isinstance(e, ast.Dict):
            return any(self.is_shared(v) for v in e.values if v is not None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "set", "sorted") and e.func.id not in self.local:
            return False                # a new container
        if isinstance(e, ast.Call):     # a method or callee may hand back (part of) what it was given
            return any(self.is_shared(a) for a in list(e.args) + [k.value for k in e.keywords] + [e.func])
        r = root(e)
        if isinstance(r, ast.Name):
            return r.id in self.shared or r.id not in self.local
        if isinstance(r, ast.Call) and r is not e:
            return self.is_shared(r)
        return False

    def bind(self, target, shared):
        for t in ast.walk(target):
            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                self.local.add(t.id)
                (self.shared.add if shared else (lambda n: None))(t.id)
            if isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(t.ctx, (ast.Store, ast.Del)):
                if self.is_shared(t.value):
                    raise Undecided(f"{self.fn}: writes to {ast.unparse(t)}")

    # ---- statements
    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.bind(t, self.is_shared(n.value))

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
            self.bind(n.target, self.is_shared(n.value))

    def visit_NamedExpr(self, n):
        self.visit(n.value)
        self.bind(n.target, self.is_shared(n.value))

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if self.is_shared(n.target):
            raise Undecided(f"{self.fn}: {ast.unparse(n)}")
        self.bind(n.target, self.is_shared(n.value))

    def visit_Delete(self, n):
        for t in n.targets:
            self.bind(t, False)

    def visit_For(self, n):
        self.visit(n.iter)
        self.bind(n.target, self.is_shared(n.iter))
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_comprehension(self, n):
        self.visit(n.iter)
        self.bind(n.target, self.is_shared(n.iter))
        for c in n.ifs:
            self.visit(c)

    def _comp(self, n):
        for g in n.generators:
            self.visit(g)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                self.visit(getattr(n, f))
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_With(self, n):
        for i in n.items:
            self.visit(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, True)
        for s in n.body:
            self.visit(s)

    def _no(self, n):
        raise Undecided(f"{self.fn}: {type(n).__name__.lower()} statement")
    visit_Global = visit_Nonlocal = visit_ClassDef = visit_AsyncFunctionDef = visit_Yield = visit_YieldFrom = visit_Await = _no

    # ---- nested functions see the same names; their parameters may be bound to shared values
    def visit_FunctionDef(self, n):
        self.local.add(n.name)
        a = n.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        self.local |= set(ps)
        self.shared |= set(ps)
        for d in a.defaults + [d for d in a.kw_defaults if d]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Lambda(self, n):
        ps = [x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        self.local |= set(ps)
        self.shared |= set(ps)
        self.visit(n.body)

    # ---- expressions
    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and self.is_shared(f.value):
            r = root(f.value)
            # jax's functional update x.at[i].add(v), and functions of a package (jnp.add, jnp.sort)
            at = any(isinstance(s, ast.Attribute) and s.attr == "at" for s in ast.walk(f.value))
            if not at and not (isinstance(r, ast.Name) and r.id not in self.local and isinstance(self.g.get(r.id), types.ModuleType)):
                raise Undecided(f"{self.fn}: {ast.unparse(f)}(...)")
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id not in self.local:
            self.refer(n.id, self.g.get(n.id, getattr(__import__("builtins"), n.id, None)))

    def visit_Attribute(self, n):
        r = root(n)
        if isinstance(r, ast.Name) and r.id not in self.local and isinstance(self.g.get(r.id), types.ModuleType):
            o = self.g[r.id]
            chain = []
            e = n
            while isinstance(e, ast.Attribute):
                chain.append(e.attr)
                e = e.value
            if e is r:
                for a in reversed(chain):
                    o = getattr(o, a, None)
                self.refer(ast.unparse(n), o)
                return
        self.generic_visit(n)

    def refer(self, name, o):
        """a global or package value the function mentions"""
        if isinstance(o, types.ModuleType):
            if o.__name__.split(".")[0] not in PACKAGES + ("astrodynx",):
                raise Undecided(f"{self.fn}: uses module {o.__name__}")
            return
        w = inspect.unwrap(o) if callable(o) else o
        if isinstance(w, types.FunctionType) and str(w.__module__).split(".")[0] == "astrodynx":
            self.callees.append(o)
            return
        if isinstance(o, type) and str(o.__module__).split(".")[0] == "astrodynx":
            return          # record classes: construction
        if isinstance(o, types.BuiltinFunctionType) or (isinstance(o, type) and o.__module__ == "builtins"):
            if getattr(o, "__name__", "") in STATEFUL:
                raise Undecided(f"{self.fn}: calls {o.__name__}")
            return
        m = str(getattr(o, "__module__", "") or type(o).__module__).split(".")[0]
        if m in PACKAGES or m in ("builtins", "typing", "numpy", "jaxlib", "types"):
            return
        raise Undecided(f"{self.fn}: refers to {name} ({m})")


def decorators(node, g):
    for d in node.decorator_list:
        t = ast.unparse(d)
        if not t.replace("functools.", "").startswith(("jax.jit", "jit", "partial(jax.jit", "partial(jit", "jax.named_call", "eqx.filter_jit")):
            raise Undecided(f"{node.name}: decorator {t}")


def modifies_nothing(f):
    """None when the frame condition is proved for f, else why it is undecided"""
    todo, done = [f], set()
    try:
        while todo:
            o = todo.pop()
            w = inspect.unwrap(o)
            if id(w) in done:
                continue
            done.add(id(w))
            if not isinstance(w, types.FunctionType):
                raise Undecided(f"{o!r}: not a function")
            if w.__closure__:
                raise Undecided(f"{w.__name__}: closure")
            try:
                node = ast.parse(textwrap.dedent(inspect.getsource(w))).body[0]
            except Exception as e:
                raise Undecided(f"{w.__name__}: {e!r}")
            if not isinstance(node, ast.FunctionDef):
                raise Undecided(f"{w.__name__}: not a plain function")
            decorators(node, w.__globals__)
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
            v = Frame(w.__name__, ps, w.__globals__, todo)
            for _ in range(3):          # names bound to shared values later in a loop body
                for s in node.body:
                    v.visit(s)
    except Undecided as u:
        return str(u)
    except RecursionError as e:
        return repr(e)
    return None
