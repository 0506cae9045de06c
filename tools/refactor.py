"""Rewrite every function of a copy of the package without changing what it does, to see that the checks judge behaviour only.

usage: refactor.py /repo SCRATCH   then   NM_REPO=SCRATCH python3 check.py C01 ...
"""
import ast, os, shutil, sys
SRC, DST = sys.argv[1:3]  # DST is replaced
class Locals(ast.NodeTransformer):
    """rename the locals of functions without nested scopes that are tricky"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f for n in ast.walk(f)): return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        calls = {n.func.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        if calls & {"locals", "eval", "exec", "vars"}: return f
        imported = {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - imported
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names: n.id = n.id + "_r"
        return f
class Ret(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f); return f
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Name, ast.Constant)): return r
        return [ast.Assign([ast.Name("outcome_", ast.Store())], r.value), ast.Return(ast.Name("outcome_", ast.Load()))]
class Ifs(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])
    def visit_AugAssign(self, n):
        return n
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("iter", ast.Load()), [n.iter], [])
        return n
class Extract(ast.NodeTransformer):
    cls = None
    def visit_ClassDef(self, c):
        old, self.cls = self.cls, c.name
        body = []
        for s in c.body:
            body += self.split(s) if isinstance(s, ast.FunctionDef) else [s]
        c.body = body; self.cls = old
        return c
    def split(self, f):
        a = f.args
        if f.name.startswith("__") or a.vararg or a.kwarg or a.kwonlyargs: return [f]
        deco = [d.id if isinstance(d, ast.Name) else "?" for d in f.decorator_list]
        if self.cls and any(d in ("classmethod", "staticmethod", "?") for d in deco): return [f]
        if any(isinstance(n, ast.Nonlocal) for n in ast.walk(f)): return [f]
        name = f"_{f.name}_{self.cls or 'body'}"
        names = [x.arg for x in a.args]
        inner = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), [s for s in f.body], [], type_params=[])
        if self.cls: call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), name, ast.Load()), [ast.Name(x, ast.Load()) for x in names[1:]], [])
        else: call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        f.body = [ast.Return(call)]
        return [inner, f]
    def visit_Module(self, m):
        body = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef): body += self.split(s)
            elif isinstance(s, ast.ClassDef): body.append(self.visit_ClassDef(s))
            else: body.append(s)
        m.body = body
        return m
if os.path.exists(DST): shutil.rmtree(DST)
shutil.copytree(SRC, DST, symlinks=True)
for root, _, files in os.walk(DST + "/neutrinomass"):
    for fn in files:
        if fn.endswith(".py") and "test" not in fn and "/tests" not in root:
            p = os.path.join(root, fn)
            t = ast.parse(open(p).read())
            for T in (Locals, Ret, Ifs, Extract):
                t = T().visit(t)
                ast.fix_missing_locations(t)
            text = ast.unparse(t)
            compile(text, p, "exec")
            open(p, "w").write(text + "\n")
