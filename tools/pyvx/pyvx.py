#!/usr/bin/env python3
"""pyvx: mechanical translation of Python functions of /repo into a Verus file.

usage: pyvx.py TEMPLATE REPO OUT.rs REPORT.json [-D K=V]... [--skip i,j] [--probe]

The template is a Verus file over the dynamically typed value `V` and the heap of contracts/shim_py.rs.  Every
`/*@pybody ... @*/` block is replaced by the translation of the named function's body, taken from /repo's current
source: one call of an operation per evaluation step of the Python text, in Python's evaluation order, each of which
may raise.  Nothing is simplified and nothing is looked up anywhere else; a construct the translation does not know,
or an operation without a contract in the template, leaves the body out (the check is then undecided).

  x.m(a, k=b)      -> m_m_1__k(&x, &a, &b, w)?       f(a)  -> c_f_1(&a, w)?    json.dumps(a) -> c_json_dumps_1(&a, w)?
  x.a              -> a_a(&x, w)?                    x[i]  -> op_getitem       x[i] = v -> op_setitem
  x[i] += v        -> op_getitem, op_iadd, op_setitem (so it is not atomic, and inserts a default first)
  for t in e: B    -> op_iter once, then a loop over op_next
  try/except/finally/with -> every exit out of the block runs what Python runs there
"""
import ast, json, os, re, sys


class Lost(Exception):
    pass


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Div: "div", ast.BitOr: "or", ast.BitAnd: "and"}
CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}


class Spec:
    def __init__(self, text):
        self.file = self.item = None
        self.params, self.locals = [], None
        self.start = self.end = ""
        self.loops = {}
        self.inserts = []
        self.globals_ok = set()
        self.calls = {}
        self.kwargs = []          # parameters that callers name: these names are part of the contract
        self.defaults = {}        # default values callers rely on, as source text
        self.generator = False
        cur = None
        for l in text.split("\n"):
            m = re.match(r"\s*@(\w+)\s*(.*)", l)
            if m:
                k, a = m.group(1), m.group(2)
                cur = None
                if k == "file": self.file = a.strip()
                elif k == "item": self.item = a.strip()
                elif k == "params": self.params = a.split()
                elif k == "locals": self.locals = a.split()
                elif k == "kwargs": self.kwargs = a.split()
                elif k == "default":
                    n, v = a.split("=", 1)
                    self.defaults[n.strip()] = v.strip()
                elif k == "generator": self.generator = True
                elif k == "global": self.globals_ok |= set(a.split())
                elif k in ("start", "end"): cur = (k,)
                elif k in ("loop", "pre", "head", "top", "bottom", "post"):
                    cur = (k, int(a.split()[0]))
                elif k in ("before", "after"):
                    pat, txt = a.split("=>>", 1) if "=>>" in a else (a, "")
                    self.inserts.append([k, pat.strip(), txt.strip()])
                    cur = ("ins", len(self.inserts) - 1)
                else:
                    raise SystemExit("pyvx: unknown directive @" + k)
                continue
            if cur is None:
                if l.strip():
                    raise SystemExit("pyvx: stray text in a body block: " + l)
                continue
            if cur[0] == "start": self.start += l + "\n"
            elif cur[0] == "end": self.end += l + "\n"
            elif cur[0] == "ins": self.inserts[cur[1]][2] += "\n" + l
            else:
                d = self.loops.setdefault(cur[1], {})
                d[cur[0]] = d.get(cur[0], "") + l + "\n"


class Lits:
    """every string literal gets a number of its own; the empty string is 0"""

    def __init__(self):
        self.n = {"": 0}

    def code(self, s):
        return self.n.setdefault(s, len(self.n))


def own_nodes(fn):
    """nodes of the function itself, without those of functions and comprehensions inside"""
    todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += list(ast.iter_child_nodes(n))


def find_item(tree, item):
    """the function, by name or by enclosing function and name; what encloses it must not reach into it"""
    node, outer = tree, set()
    for part in item.split("."):
        hits = [n for n in (tree.body if node is tree else own_nodes(node)) if isinstance(n, ast.FunctionDef) and n.name == part]
        if not hits:
            raise Lost("there is no function " + item)
        if len(hits) > 1:
            raise Lost("%s is defined %d times" % (item, len(hits)))
        if node is not tree:
            a = node.args
            outer |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            for n in own_nodes(node):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load): outer.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name: outer.add(n.name)
        node = hits[0]
        if node.decorator_list:
            raise Lost("%s has a decorator" % part)
    if tree is not node:
        # the name must still mean this function where it is called
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == node.name and not isinstance(n.ctx, ast.Load):
                raise Lost("%s is assigned elsewhere" % node.name)
    own = {x.arg for x in node.args.args + node.args.kwonlyargs}
    own |= {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    free = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} - own
    if free & outer:
        raise Lost("%s uses variables of the function around it: %s" % (item, ", ".join(sorted(free & outer))))
    return node


class Gen:
    def __init__(self, spec, fn, lits, modnames):
        self.spec, self.fn, self.lits = spec, fn, lits
        self.out = []           # (text, source line)
        self.line = fn.lineno
        self.t = 0
        self.nloop = 0
        self.ctx = []           # enclosing finally / with / except / loop
        self.calls = set()
        self.consts = {}
        self.used_ins = set()
        self.modnames = modnames
        self.notes = []
        a = fn.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Lost("star parameters")
        self.argnames = [x.arg for x in a.args + a.kwonlyargs]
        dflt = dict(zip(reversed([x.arg for x in a.args]), reversed(a.defaults)))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, v in spec.defaults.items():
            if n not in dflt or ast.unparse(dflt[n]) != v:
                raise Lost("the default of %s is not %s" % (n, v))
        for n in spec.kwargs:
            if n not in self.argnames:
                raise Lost("callers name a parameter %s" % n)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn))
        if isgen != spec.generator:
            raise Lost("is %s generator" % ("a" if isgen else "no"))
        order = []
        for n in self.walk_own(fn):
            for t in self.targets(n):
                if t not in order and t not in self.argnames:
                    order.append(t)
        self.assigned = set(order)
        for n in self.walk_own(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for g in n.names:
                    if g in self.assigned:
                        if g not in spec.globals_ok:
                            raise Lost("assigns the global " + g)
                        self.notes.append("the global %s is treated as a local" % g)
        names = {}
        if spec.locals is not None and len(spec.locals) == len(order):
            names = dict(zip(order, spec.locals))
        if len(spec.params) == len(self.argnames):
            pos = [n for n in self.argnames if n not in spec.kwargs]
            if set(spec.kwargs) - set(spec.params):
                raise SystemExit("pyvx: @kwargs that are no @params")
            names.update(zip(pos, [n for n in spec.params if n not in spec.kwargs]))
            names.update({n: n for n in spec.kwargs})
        elif spec.params or self.argnames:
            raise Lost("takes %d parameters" % len(self.argnames))
        # a global is the variable of that name, wherever it is assigned
        glob = {g for n in self.walk_own(fn) if isinstance(n, ast.Global) for g in n.names}
        names.update({g: g for g in order if g in glob})
        known = set(spec.locals or []) | set(spec.params)
        self.names = {n: names.get(n, n if n in known else "v_" + n) for n in order + self.argnames}
        taken = set()
        for n, r in list(self.names.items()):
            if r in ("w", "type", "match", "ref", "in", "fn", "let", "use", "mod", "impl", "box", "move", "loop", "where", "self", "dyn", "pub", "struct", "enum") or re.match(r"t\d+$|__", r):
                r = "l_" + r
            if r in taken:
                raise Lost("variables could not be told apart")
            taken.add(r)
            self.names[n] = r
        self.order = order

    def walk_own(self, fn):
        """nodes of the function itself, in source order, without nested functions and comprehensions' own variables"""
        def rec(n):
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and n is not fn:
                return
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                pass
            for c in ast.iter_child_nodes(n):
                yield from rec(c)
        for s in fn.body:
            yield from rec(s)

    def targets(self, n):
        def names(t):
            if isinstance(t, ast.Name): yield t.id
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: yield from names(e)
            elif isinstance(t, ast.Starred): yield from names(t.value)
        if isinstance(n, ast.Assign):
            for t in n.targets: yield from names(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)): yield from names(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: yield from names(i.optional_vars)
        elif isinstance(n, ast.NamedExpr): raise Lost("assignment expression")
        elif isinstance(n, ast.ExceptHandler) and n.name: yield n.name
        elif isinstance(n, (ast.Import, ast.ImportFrom, ast.ClassDef, ast.Delete, ast.AsyncFor, ast.AsyncWith, ast.Await, ast.YieldFrom)) and not isinstance(n, ast.YieldFrom):
            raise Lost("unsupported statement " + type(n).__name__)

    # ---------------------------------------------------------------- output
    def emit(self, text):
        for l in text.split("\n"):
            self.out.append((l, self.line))

    def ghost(self, text):
        for l in text.rstrip("\n").split("\n"):
            if l.strip():
                self.out.append((l, None))

    def tmp(self):
        self.t += 1
        return "t%d" % self.t

    # ---------------------------------------------------------------- exceptions and other exits
    def unwind(self, upto, e=None):
        """code that leaves the contexts above index `upto`, innermost first"""
        saved = self.ctx
        i = len(self.ctx) - 1
        while i >= upto:
            k = saved[i]
            self.ctx = saved[:i]
            if k[0] == "finally":
                self.stmts(k[1])
            elif k[0] == "with":
                self.emit_call("op_exit", [k[1]])
            elif k[0] == "except" and e is not None:
                tail = k[2]
                diverges_all = False
                for typ, body in k[1]:
                    if typ is None:
                        self.handler(body, tail, i)
                        diverges_all = True
                        break
                    self.emit("if exc_is(&%s, %d) {" % (e, self.exc(typ)))
                    self.handler(body, tail, i)
                    self.emit("}")
                if diverges_all:
                    self.ctx = saved
                    return True
            i -= 1
        self.ctx = saved
        return False

    def handler(self, body, tail, depth):
        self.stmts(body)
        if self.diverges(body):
            return
        if tail is None:
            raise Lost("an exception handler whose continuation is not at the end of a loop body or function")
        if tail[0] == "loop":
            self.do_continue(tail[1], check=False)
        else:
            self.emit("return Ok(none_());")

    def raise_(self, e):
        if not self.unwind(0, e):
            self.emit("return Err(%s);" % e)

    def emit_call(self, f, args, exact=None):
        """a call that may raise; returns the variable holding the result"""
        self.calls.add(f)
        t = exact or self.tmp()
        call = "%s(%s)" % (f, ", ".join(["&" + a for a in args] + ["w"]))
        if any(c[0] in ("finally", "with", "except") for c in self.ctx):
            self.emit("let %s = match %s { Ok(__v) => __v, Err(__e) => {" % (t, call))
            self.raise_("__e")
            self.emit("} };")
        else:
            self.emit("let %s = match %s { Ok(__v) => __v, Err(__e) => { return Err(__e); } };" % (t, call))
        return t

    def exc(self, name):
        return 1000 + self.lits.code("exception " + name)

    def diverges(self, body):
        if not body: return False
        s = body[-1]
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)): return True
        if isinstance(s, ast.If): return bool(s.orelse) and self.diverges(s.body) and self.diverges(s.orelse)
        return False

    # ---------------------------------------------------------------- expressions
    def const(self, v):
        if v is None: return self.let("none_()")
        if v is Ellipsis: return self.let("none_()")
        if isinstance(v, bool): return self.let("bool_(%s)" % str(v).lower())
        if isinstance(v, int):
            if not (-2 ** 63 <= v < 2 ** 63): raise Lost("a large number")
            return self.let("int_(%d)" % v if v >= 0 else "int_(%di64)" % v)
        if isinstance(v, str): return self.let("lit_%d()" % self.lits.code(v))
        if isinstance(v, bytes): return self.let("lit_%d()" % self.lits.code("bytes:" + v.hex()))
        if isinstance(v, float): return self.let("lit_%d()" % self.lits.code("float:" + repr(v)))
        raise Lost("constant %r" % (v,))

    def let(self, e):
        t = self.tmp()
        self.emit("let %s = %s;" % (t, e))
        return t

    def dotted(self, e):
        p = []
        while isinstance(e, ast.Attribute):
            p.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id not in self.names:
            return [e.id] + p[::-1]
        return None

    def cond(self, e):
        """a Rust expression of type bool"""
        t = self.expr(e)
        return "truthy(&%s, w)" % t

    def expr(self, e):
        """emits the evaluation; returns a variable of type V that is not assigned again before it is used"""
        if hasattr(e, "lineno"):
            self.line = e.lineno
        if isinstance(e, ast.Constant): return self.const(e.value)
        if isinstance(e, ast.Name):
            if e.id in self.names: return self.names[e.id]
            self.calls.add("gv_" + e.id)
            return self.let("gv_%s(w)" % e.id)
        if isinstance(e, ast.Attribute):
            d = self.dotted(e)
            if d:
                f = "gv_" + "_".join(d)
                self.calls.add(f)
                return self.let("%s(w)" % f)
            return self.emit_call("a_" + e.attr, [self.expr(e.value)])
        if isinstance(e, ast.Call): return self.call(e)
        if isinstance(e, ast.Subscript):
            b = self.hold(e.value, [e.slice])
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                if s.step is not None: raise Lost("slice with a step")
                lo = self.hold(s.lower, [s.upper]) if s.lower is not None else self.let("none_()")
                hi = self.expr(s.upper) if s.upper is not None else self.let("none_()")
                return self.emit_call("op_slice", [b, lo, hi])
            return self.emit_call("op_getitem", [b, self.expr(e.slice)])
        if isinstance(e, ast.BinOp):
            if type(e.op) not in BIN: raise Lost("operator " + type(e.op).__name__)
            a = self.hold(e.left, [e.right])
            return self.emit_call("op_" + BIN[type(e.op)], [a, self.expr(e.right)])
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return self.let("bool_(!%s)" % self.cond(e.operand))
            if isinstance(e.op, ast.USub):
                if isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int): return self.const(-e.operand.value)
                return self.emit_call("op_neg", [self.expr(e.operand)])
            raise Lost("operator " + type(e.op).__name__)
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1: raise Lost("chained comparison")
            a = self.hold(e.left, e.comparators)
            return self.emit_call("op_" + CMP[type(e.ops[0])], [a, self.expr(e.comparators[0])])
        if isinstance(e, ast.BoolOp):
            v = self.tmp()
            self.emit("let mut %s = none_();" % v)
            def rec(vals):
                x = self.expr(vals[0])
                self.emit("%s = %s.cp();" % (v, x))
                if len(vals) > 1:
                    self.emit("if %struthy(&%s, w) {" % ("" if isinstance(e.op, ast.And) else "!", v))
                    rec(vals[1:])
                    self.emit("}")
            rec(e.values)
            return v
        if isinstance(e, ast.IfExp):
            v = self.tmp()
            self.emit("let mut %s = none_();" % v)
            self.emit("if %s {" % self.cond(e.test))
            self.emit("%s = %s.cp();" % (v, self.expr(e.body)))
            self.emit("} else {")
            self.emit("%s = %s.cp();" % (v, self.expr(e.orelse)))
            self.emit("}")
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if isinstance(e, ast.Tuple):
                if any(isinstance(x, ast.Starred) for x in e.elts): raise Lost("star in a tuple")
                xs = [self.hold(x, e.elts[i + 1:]) for i, x in enumerate(e.elts)]
                self.calls.add("op_tuple%d" % len(xs))
                return self.let("op_tuple%d(%s)" % (len(xs), ", ".join("&" + x for x in xs)))
            # Python builds the elements first; the object comes into being afterwards
            xs = [(isinstance(x, ast.Starred), self.hold(x.value if isinstance(x, ast.Starred) else x, e.elts[i + 1:])) for i, x in enumerate(e.elts)]
            kind = "list" if isinstance(e, ast.List) else "set"
            l = self.let("new_%s(w)" % kind)
            self.calls.add("new_" + kind)
            for star, x in xs:
                if star: self.emit_call(kind + "_extend", [l, x])
                else:
                    self.calls.add(kind + "_push")
                    self.emit("%s_push(&%s, &%s, w);" % (kind, l, x))
            return l
        if isinstance(e, ast.Dict):
            xs = []
            for k, v in zip(e.keys, e.values):
                if k is None: raise Lost("** in a dict display")
                later = e.keys + e.values
                xs.append((self.hold(k, later), self.hold(v, later)))
            d = self.let("new_dict(w)")
            self.calls.add("new_dict")
            for k, v in xs:
                self.calls.add("dict_put")
                self.emit("dict_put(&%s, &%s, &%s, w);" % (d, k, v))
            return d
        if isinstance(e, ast.JoinedStr):
            acc = self.let("lit_0()")
            for p in e.values:
                if isinstance(p, ast.Constant): x = self.const(p.value)
                else:
                    if p.conversion != -1: raise Lost("conversion in an f-string")
                    y = self.expr(p.value)
                    if p.format_spec is not None: raise Lost("format in an f-string")
                    x = self.emit_call("op_format", [y])
                acc = self.emit_call("op_strcat", [acc, x])
            return acc
        if isinstance(e, (ast.ListComp, ast.DictComp)):
            if len(e.generators) != 1 or e.generators[0].is_async: raise Lost("nested comprehension")
            g = e.generators[0]
            own = set()
            def names(t):
                if isinstance(t, ast.Name): own.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts: names(x)
                else: raise Lost("comprehension target")
            names(g.target)
            it = self.expr(g.iter)
            saved = dict(self.names)
            for n in own:
                self.names[n] = n if n not in saved.values() else "c_" + n
            isl = isinstance(e, ast.ListComp)
            acc = self.let("new_list(w)" if isl else "new_dict(w)")
            self.calls.add("new_list" if isl else "new_dict")
            accn = "__acc%d" % self.nloop
            self.emit("let %s = %s;" % (accn, acc))
            def body():
                for c in g.ifs:
                    self.emit("if %s {" % self.cond(c))
                if isl:
                    x = self.expr(e.elt)
                    self.calls.add("list_push")
                    self.emit("list_push(&%s, &%s, w);" % (accn, x))
                else:
                    k = self.hold(e.key, [e.value])
                    v = self.expr(e.value)
                    self.calls.add("dict_put")
                    self.emit("dict_put(&%s, &%s, &%s, w);" % (accn, k, v))
                for c in g.ifs:
                    self.emit("}")
            decl = sorted(self.names[n] for n in own)
            self.for_loop(it, g.target, body, decl)
            self.names = saved
            return accn
        if isinstance(e, ast.Yield):
            if e.value is None: raise Lost("empty yield")
            return self.emit_call("op_yield", [self.expr(e.value)])
        if isinstance(e, ast.YieldFrom):
            return self.emit_call("op_yield_from", [self.expr(e.value)])
        raise Lost("expression " + type(e).__name__)

    def hold(self, e, later):
        """like expr; copies a variable if something evaluated later could assign it (nothing can: no := is supported)"""
        return self.expr(e)

    def call(self, e):
        f = e.func
        if any(isinstance(a, ast.Starred) for a in e.args): raise Lost("star argument")
        if any(k.arg is None for k in e.keywords): raise Lost("** argument")
        kws = sorted(k.arg for k in e.keywords)
        sfx = "__" + "_".join(kws) if kws else ""
        d = self.dotted(f)
        if isinstance(f, ast.Name) and f.id in self.names:
            recv, name = [self.names[f.id]], "op_call%d" % len(e.args)
            if f.id in self.argnames or f.id in self.assigned:
                # the callee is evaluated before the arguments
                pass
        elif d and (len(d) == 1 or d[0] in self.modnames):
            recv, name = [], "c_%s_%d" % ("_".join(d), len(e.args))
        elif isinstance(f, ast.Attribute):
            recv, name = [self.expr(f.value)], "m_%s_%d" % (f.attr, len(e.args))
        else:
            raise Lost("call of an expression")
        args = [self.expr(a) for a in e.args]
        kv = {k.arg: self.expr(k.value) for k in e.keywords}
        self.line = e.lineno
        return self.emit_call(name + sfx, recv + args + [kv[k] for k in kws])

    # ---------------------------------------------------------------- statements
    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.emit("%s = %s.cp();" % (self.names[target.id], v))
        elif isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in target.elts): raise Lost("star target")
            t = self.emit_call("op_unpack%d" % len(target.elts), [v])
            for i, x in enumerate(target.elts):
                y = self.let("%s.%d" % (t, i)) if False else "%s.%d" % (t, i)
                self.assign(x, y)
        elif isinstance(target, ast.Subscript):
            if isinstance(target.slice, ast.Slice): raise Lost("slice assignment")
            b = self.expr(target.value)
            k = self.expr(target.slice)
            self.emit_call("op_setitem", [b, k, v])
        elif isinstance(target, ast.Attribute):
            b = self.expr(target.value)
            self.emit_call("set_" + target.attr, [b, v])
        else:
            raise Lost("target " + type(target).__name__)

    def do_continue(self, idx, check=True):
        """continue the loop at context index idx"""
        k = self.ctx[idx]
        self.ghost(self.spec.loops.get(k[1], {}).get("bottom", ""))
        inner = [c for c in self.ctx[idx + 1:] if c[0] == "loop"]
        k[2]["label"] = k[2]["label"] or bool(inner)
        self.emit("continue%s;" % (" 'l%d" % k[1] if inner else ""))

    def for_loop(self, it, target, body, decl=()):
        n = self.nloop
        self.nloop += 1
        sp = self.spec.loops.get(n, {})
        self.emit_call("op_iter", [it], exact="__it%d" % n)
        self.ghost(sp.get("pre", ""))
        info = dict(label=False)
        pos = len(self.out)
        self.emit("loop")
        self.ghost(sp.get("loop", ""))
        self.emit("{")
        for x in decl:
            self.emit("let mut %s = none_();" % x)
        self.ghost(sp.get("head", ""))
        x = self.emit_call("op_next", ["__it%d" % n])
        self.emit("let %s = match %s { Some(__x) => __x, None => { break; } };" % (x + "x", x))
        self.ghost(sp.get("top", ""))
        self.ctx.append(("loop", n, info))
        self.assign(target, x + "x")
        end = body()
        self.ctx.pop()
        if end is not True:
            self.ghost(sp.get("bottom", ""))
        self.emit("}")
        if info["label"]:
            self.out[pos] = ("'l%d: loop" % n, self.out[pos][1])
        self.ghost(sp.get("post", ""))

    def stmts(self, body, tail=None):
        for i, s in enumerate(body):
            self.stmt(s, tail if i == len(body) - 1 else None)

    def stmt(self, s, tail=None):
        self.line = s.lineno
        src = ast.unparse(s)
        for j, (w, pat, txt) in enumerate(self.spec.inserts):
            if w == "before" and src.startswith(pat):
                self.used_ins.add(j)
                self.ghost(txt)
        self.stmt1(s, tail)
        for j, (w, pat, txt) in enumerate(self.spec.inserts):
            if w == "after" and src.startswith(pat):
                self.used_ins.add(j)
                self.ghost(txt)

    def stmt1(self, s, tail):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): return
            self.expr(s.value)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets: self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.expr(s.value))
        elif isinstance(s, ast.AugAssign):
            op = "op_i" + BIN[type(s.op)] if type(s.op) in BIN else None
            if op is None: raise Lost("augmented operator")
            if isinstance(s.target, ast.Name):
                n = self.names.get(s.target.id)
                v = self.expr(s.value)
                r = self.emit_call(op, [n, v])
                self.emit("%s = %s.cp();" % (n, r))
            elif isinstance(s.target, ast.Subscript):
                b = self.expr(s.target.value)
                k = self.expr(s.target.slice)
                g = self.emit_call("op_getitem", [b, k])
                v = self.expr(s.value)
                r = self.emit_call(op, [g, v])
                self.emit_call("op_setitem", [b, k, r])
            else: raise Lost("augmented target")
        elif isinstance(s, ast.If):
            self.emit("if %s {" % self.cond(s.test))
            self.stmts(s.body, tail)
            if s.orelse:
                self.emit("} else {")
                self.stmts(s.orelse, tail)
            self.emit("}")
        elif isinstance(s, ast.For):
            if s.orelse: raise Lost("for-else")
            it = self.expr(s.iter)
            idx = len(self.ctx)
            def body():
                self.stmts(s.body, ("loop", idx))
                return self.diverges(s.body)
            self.for_loop(it, s.target, body)
        elif isinstance(s, ast.While):
            if s.orelse: raise Lost("while-else")
            n = self.nloop
            self.nloop += 1
            sp = self.spec.loops.get(n, {})
            self.ghost(sp.get("pre", ""))
            info = dict(label=False)
            pos = len(self.out)
            self.emit("loop")
            self.ghost(sp.get("loop", ""))
            self.emit("{")
            self.ghost(sp.get("head", ""))
            self.emit("if !%s { break; }" % self.cond(s.test))
            self.ghost(sp.get("top", ""))
            idx = len(self.ctx)
            self.ctx.append(("loop", n, info))
            self.stmts(s.body, ("loop", idx))
            self.ctx.pop()
            if not self.diverges(s.body): self.ghost(sp.get("bottom", ""))
            self.emit("}")
            if info["label"]: self.out[pos] = ("'l%d: loop" % n, self.out[pos][1])
            self.ghost(sp.get("post", ""))
        elif isinstance(s, (ast.Continue, ast.Break)):
            idx = max(i for i, c in enumerate(self.ctx) if c[0] == "loop")
            self.unwind(idx + 1)
            if isinstance(s, ast.Continue): self.do_continue(idx)
            else:
                self.emit("break;")
        elif isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value is not None else self.let("none_()")
            self.unwind(0)
            self.ghost(self.spec.end)
            self.emit("return Ok(%s.cp());" % v)
        elif isinstance(s, ast.Raise):
            if s.exc is None: raise Lost("bare raise")
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if not isinstance(x, ast.Name): raise Lost("raise of an expression")
            e = self.let("exc_new(%d)" % self.exc(x.id))
            self.raise_(e)
        elif isinstance(s, ast.Assert):
            self.emit("if !%s {" % self.cond(s.test))
            e = self.let("exc_new(%d)" % self.exc("AssertionError"))
            self.raise_(e)
            self.emit("}")
        elif isinstance(s, ast.With):
            base = len(self.ctx)
            for i in s.items:
                m = self.expr(i.context_expr)
                v = self.emit_call("op_enter", [m])
                if i.optional_vars is not None: self.assign(i.optional_vars, v)
                self.ctx.append(("with", m))
            self.stmts(s.body)
            if not self.diverges(s.body):
                self.unwind(base)
            del self.ctx[base:]
        elif isinstance(s, ast.Try):
            if s.orelse: raise Lost("try-else")
            depth = len(self.ctx)
            if s.finalbody: self.ctx.append(("finally", s.finalbody))
            if s.handlers:
                hs = []
                for h in s.handlers:
                    if h.name: raise Lost("except ... as")
                    if h.type is None: hs.append((None, h.body))
                    else:
                        d = self.dotted(h.type)
                        if not d: raise Lost("exception type")
                        hs.append((None if d == ["Exception"] else ".".join(d), h.body))
                # what follows the whole statement: the end of a loop body, or of the function
                if s.finalbody: tail = None
                self.ctx.append(("except", hs, tail))
            self.stmts(s.body)
            if s.handlers: self.ctx.pop()
            if s.finalbody:
                self.ctx.pop()
                if not self.diverges(s.body): self.stmts(s.finalbody)
            assert len(self.ctx) == depth
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        elif isinstance(s, ast.FunctionDef):
            self.notes.append("the nested function %s is called under its own contract" % s.name)
        else:
            raise Lost("statement " + type(s).__name__)

    def run(self):
        for a in self.argnames:
            r = self.names[a]
            self.emit("let mut %s = %s.cp();" % (r, r if r in self.spec.params else r))
        for n in self.order:
            self.emit("let mut %s = unbound_();" % self.names[n])
        self.ghost(self.spec.start)
        self.stmts(self.fn.body, ("fn",))
        if not self.diverges(self.fn.body):
            self.ghost(self.spec.end)
            self.emit("return Ok(none_());")
        for j, (w, pat, txt) in enumerate(self.spec.inserts):
            if j not in self.used_ins:
                raise Lost("anchor not found: " + pat)
        for n in self.spec.loops:
            if n >= self.nloop:
                raise Lost("loop %d is gone" % n)


def main():
    av = sys.argv[1:]
    tpl, repo, out, rep = av[:4]
    defs, skip, probe, i = {}, set(), False, 4
    while i < len(av):
        if av[i] == "-D":
            k, v = av[i + 1].split("=", 1)
            defs[k] = v
            i += 2
        elif av[i] == "--skip":
            skip = {int(x) for x in av[i + 1].split(",")}
            i += 2
        elif av[i] == "--probe":
            probe = True
            i += 1
        else:
            raise SystemExit("pyvx: " + av[i])

    def expand(path, depth=0):
        r = []
        for l in open(path).read().split("\n"):
            m = re.match(r"\s*//@include (\S+)", l)
            r += expand(os.path.join(os.path.dirname(path), m.group(1)), depth + 1) if m else [l]
        return r
    text = "\n".join(expand(tpl))
    # text macros: //@macro NAME(a, b) ... //@endmacro, used as a line `@@NAME(x ;; y)`
    macros = {}
    def grab(m):
        macros[m.group(1)] = ([x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3))
        return ""
    text = re.sub(r"^//@macro (\w+)\(([^)]*)\)\n(.*?)^//@endmacro\n", grab, text, flags=re.M | re.S)
    def use(m):
        ps, body = macros[m.group(1)]
        args = [x.strip() for x in m.group(2).split(";;")]
        assert len(ps) == len(args), m.group(0)
        for p, a in zip(ps, args):
            body = body.replace("${%s}" % p, a)
        return body
    while re.search(r"^@@(\w+)\((.*)\)$", text, flags=re.M):
        text = re.sub(r"^@@(\w+)\((.*)\)$", use, text, flags=re.M)
    for k, v in defs.items():
        text = text.replace("${%s}" % k, v)
    lits = Lits()
    # S"abc" in the template is the value of the literal 'abc'; X"Name" the exception class
    text = re.sub(r'\bS"([^"\n]*)"', lambda m: "PV::Str(%dint)" % lits.code(ast.literal_eval("\"" + m.group(1) + "\"")), text)
    text = re.sub(r'\bX"([^"\n]*)"', lambda m: "%dint" % (1000 + lits.code("exception " + m.group(1))), text)
    have = set(re.findall(r"\bfn (\w+)", text))
    res, bodies, mp = "", [], []
    while True:
        i = text.find("/*@pybody")
        if i < 0:
            break
        j = text.index("@*/", i)
        res += text[:i]
        spec = Spec(text[i + 9:j])
        info = dict(file=spec.file, item=spec.item, status="ok", why=[], uncontracted_callees=[], lines=[0, 0], rewrites=[])
        gen_lines = []
        try:
            try:
                tree = ast.parse(open(os.path.join(repo, spec.file)).read())
            except (OSError, SyntaxError) as e:
                raise Lost(str(e))
            fn = find_item(tree, spec.item)
            mods = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Import): mods |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, ast.ImportFrom): mods |= {a.asname or a.name for a in n.names}
            info["lines"] = [fn.lineno, fn.end_lineno]
            g = Gen(spec, fn, lits, mods)
            g.run()
            info["rewrites"] = g.notes
            missing = sorted(c for c in g.calls if c not in have)
            if missing:
                info["status"], info["uncontracted_callees"] = "uncontracted", missing
            gen_lines = g.out
        except Lost as e:
            info["status"], info["why"] = "lost", [str(e)]
        n = len(bodies)
        if n in skip or info["status"] != "ok":
            t = "assume(false); vx_unreached()"
            gen_lines = [(t, info["lines"][0])]
            if n in skip: info["skipped"] = True
            res = re.sub(r"\n[ ]*hide\([^\n]*\n\s*$", "\n", res)  # nothing to hide from: Verus would not find what it prunes
        elif probe:
            gen_lines = [("if vx_nondet() { assert(false); }", None)] + gen_lines
        first = res.count("\n") + 1
        for k, (l, src) in enumerate(gen_lines):
            mp.append([first + k, src or info["lines"][0], n])
        res += "\n".join(l for l, _ in gen_lines)
        bodies.append(info)
        text = text[j + 3:]
    # the literals
    marker = "//@literals"
    res += text
    lit = "".join("#[verifier::external_body] pub fn lit_%d() -> (r: V) ensures r@ == PV::Str(%dint) { unimplemented!() } // %s\n" % (c, c, json.dumps(s)) for s, c in lits.n.items())
    k = res.index(marker)
    # the literals stand after everything else, so that no line number moves
    assert k > max([0] + [sum(len(x) + 1 for x in res.split("\n")[:a - 1]) for a, _, _ in mp[-1:]])
    res = res[:k] + lit + res[k + len(marker):]
    open(out, "w").write(res)
    json.dump(dict(bodies=bodies, map=mp), open(rep, "w"), indent=1)


main()
