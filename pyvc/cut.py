"""Loop cutting: a loop is verified by its invariant instead of being unrolled.

cut(module, function, ordinal, spec) rewrites the loop in the loaded source into
    entry:  the invariant holds for the values on entry           (obligation)
    step:   from arbitrary values satisfying the invariant at an arbitrary iteration, the real body is executed and
            the invariant must hold again                          (obligation), the path ends there
    exit:   execution continues from arbitrary values satisfying the invariant after the last iteration
spec(k, n) -> object with
    havoc(k, locals) -> dict of fresh values for every variable the body assigns (the invariant is assumed in it)
    inv(k, locals)   -> list of (condition, label)
    local            -> names assigned in the body that are not read afterwards before being assigned
"""
import ast

from .core import PathEnd, SInt, Undecided, ctx, fresh_int
from . import load


def stored(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                pass
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in n.generators:
                    for m in ast.walk(g.target):
                        if isinstance(m, ast.Name):
                            out.discard(m.id)
    return out


def has_jump(body):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


class Cutter:
    def __init__(self, spec, name):
        self.spec, self.name = spec, name

    def enter(self, seq, loc):
        seq = list(seq)
        n = len(seq)
        s = self.spec
        for c, lab in s.inv(0, loc, n):
            ctx().prove(c, "%s: invariant on entry: %s" % (self.name, lab))
        k = ctx().choice(n + 1)
        self.k, self.n = k, n
        self.step = k < n
        self.elem = seq[k] if k < n else None
        self.h = s.havoc(k, loc, n)
        return self

    def get(self, names, loc):
        miss = [x for x in names if x not in self.h and x not in getattr(self.spec, "local", ())]
        if miss:
            raise Undecided("loop of %s assigns %s, which the invariant does not describe" % (self.name, miss))
        return [self.h[x] if x in self.h else loc.get(x) for x in names]

    def back(self, loc):
        for c, lab in self.spec.inv(self.k + 1, loc, self.n):
            ctx().prove(c, "%s: invariant preserved: %s" % (self.name, lab))
        raise PathEnd()


def cut(module, func, spec, ordinal=0):
    """register the transformation (before the module is loaded)"""
    key = "vc_cut_%s_%d" % (func, ordinal)
    name = "%s loop %d" % (func, ordinal)

    def tr(tree):
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef) and f.name == func:
                loops = [n for n in ast.walk(f) if isinstance(n, ast.For)]
                if ordinal >= len(loops):
                    spec.missing = True
                    return tree
                lp = loops[ordinal]
                if has_jump(lp.body) or lp.orelse or any(isinstance(n, ast.Break) for st in lp.body for n in ast.walk(st)):
                    spec.missing = True
                    return tree
                names = sorted(stored(lp.body))
                src = "\n".join([
                    "%s_o = %s.enter(None, locals())" % (key, key),
                    "[%s] = %s_o.get(%r, locals())" % (", ".join(names), key, names),
                    "if %s_o.step:" % key,
                    "    for _vc_t in (%s_o.elem,):" % key,
                    "        pass",
                    "    %s_o.back(locals())" % key])
                new = ast.parse(src).body
                new[0].value.args[0] = lp.iter
                new[2].body[0].target = lp.target
                new[2].body[0].body = lp.body
                spec.found = True

                class R(ast.NodeTransformer):
                    def visit_For(self, node):
                        if node is lp:
                            return new
                        return self.generic_visit(node)
                R().visit(f)
        return tree
    load.FINDER.transforms.setdefault(module, []).append(tr)

    @load.hook(module)
    def _h(m):
        setattr(m, key, Cutter(spec, name))


class WCutter:
    """while loop: invariant on entry, preserved by one iteration from arbitrary values, measure decreases"""
    def __init__(self, spec, name):
        self.spec, self.name = spec, name

    def enter(self, loc):
        for c, lab in self.spec.inv(loc):
            ctx().prove(c, "%s: invariant on entry: %s" % (self.name, lab))
        self.step = ctx().choice(2) == 0
        self.h = self.spec.havoc(loc)
        self.spec.entered = True
        return self

    get = Cutter.get

    def begin(self, cond, loc):
        if not cond:
            raise PathEnd()
        self.m0 = self.spec.measure(loc)

    def back(self, loc):
        for c, lab in self.spec.inv(loc):
            ctx().prove(c, "%s: invariant preserved: %s" % (self.name, lab))
        m = self.spec.measure(loc)
        ctx().prove(m < self.m0, "%s: terminates" % self.name)
        ctx().prove(m >= 0, "%s: terminates (bounded)" % self.name)
        raise PathEnd()

    def leave(self, cond):
        if cond:
            raise PathEnd()


def cut_while(module, func, spec, ordinal=0):
    key = "vc_wcut_%s_%d" % (func, ordinal)
    name = "%s loop %d" % (func, ordinal)

    def tr(tree):
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef) and f.name == func:
                loops = [n for n in ast.walk(f) if isinstance(n, ast.While)]
                if ordinal >= len(loops):
                    spec.missing = True
                    return tree
                lp = loops[ordinal]
                if has_jump(lp.body) or lp.orelse or any(isinstance(n, (ast.Break, ast.Continue)) for st in lp.body for n in ast.walk(st)):
                    spec.missing = True
                    return tree
                names = sorted(set(stored(lp.body)) | set(getattr(spec, "objects", ())))
                src = "\n".join([
                    "%s_o = %s.enter(locals())" % (key, key),
                    "[%s] = %s_o.get(%r, locals())" % (", ".join(names), key, names),
                    "if %s_o.step:" % key,
                    "    %s_o.begin(TEST, locals())" % key,
                    "    pass",
                    "    %s_o.back(locals())" % key,
                    "else:",
                    "    %s_o.leave(TEST)" % key])
                new = ast.parse(src).body

                class S(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return lp.test if n.id == "TEST" else n
                i = new[2]
                i.body[0] = S().visit(i.body[0])
                i.orelse[0] = S().visit(i.orelse[0])
                i.body[1:2] = lp.body
                spec.found = True

                class R(ast.NodeTransformer):
                    def visit_While(self, node):
                        if node is lp:
                            return new
                        return self.generic_visit(node)
                R().visit(f)
                ast.fix_missing_locations(tree)
        return tree
    load.FINDER.transforms.setdefault(module, []).append(tr)

    @load.hook(module)
    def _h(m):
        setattr(m, key, WCutter(spec, name))
