"""Forward dataflow in which calls to helpers are followed with the state of the call (so that extracting a helper changes nothing)."""
from collections import defaultdict


def own_object(f, n):
    """Is the call made on the caller's own object (or is it a static or free function)?"""
    if f.k(n) == 'CXXMemberCallExpr':
        return f.obj(n) is not None and f.path(f.obj(n)) in (('this',), ('this', '*'))
    return False


def local_lambda(prog, f, n):
    n = f.strip_all(n)
    d = f.nodes[n]
    if d['k'] == 'LambdaExpr':
        return prog.fns.get(d.get('lid'))
    if d['k'] == 'DeclRefExpr' and 'v' in d:
        ff, v = f.lookup_var(d['v'])
        if v and 'init' in v and not v.get('param'):
            m = ff.strip_all(v['init'])
            if ff.k(m) == 'LambdaExpr':
                return prog.fns.get(ff.nodes[m].get('lid'))
    return None


class Inliner:
    """step(f, st, e, rec) -> st for every CFG element; edge(f, st, blk, lab, rec) -> st or None; join(a, b).
    inline(f, n, g) says which calls are followed. rec is True in the reporting pass, once per function and entry state."""

    def __init__(self, prog, step, join, edge=None, inline=None, at_exit=None, bind=None, depth=12):
        self.P, self._step, self._join, self._edge = prog, step, join, edge
        self.inline = inline or (lambda f, n, g: own_object(f, n) and f.cls == g.cls)
        self.at_exit = at_exit
        self.bind = bind
        self.memo = {}
        self.done = set()
        self.stack = []
        self.depth = depth
        self.functions = set()

    def called(self, f, e):
        if not f.is_call(e):
            return []
        d = f.nodes[e]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()':
            lam = local_lambda(self.P, f, f.kids(e)[1])
            if lam is not None:
                return [lam]
        return [g for g in self.P.targets(f, e) if self.inline(f, e, g)]

    def element(self, f, st, e, rec):
        st = self._step(f, st, e, rec)
        if isinstance(e, int) and st is not None:
            gs = [g for g in self.called(f, e) if g.cfg is not None]
            if gs and len(self.stack) < self.depth:
                res = None
                for g in gs:
                    if g.id in self.stack:
                        continue
                    s = self.bind(f, e, g, st) if self.bind else st
                    o = self.run(g, s, rec)
                    if o is None:
                        continue
                    res = o if res is None else self._join(res, o)
                if res is not None:
                    st = res
        return st

    def transfer(self, f, st, blk, rec):
        for e in blk.elems:
            st = self.element(f, st, e, rec)
        return st

    def run(self, f, st, rec=False):
        """State at normal exits (None when there is none)."""
        key = (f.id, st)
        if key in self.memo and (not rec or key in self.done):
            return self.memo[key]
        if rec:
            self.done.add(key)
        self.functions.add(f.id)
        self.stack.append(f.id)
        cfg = f.cfg
        edge = (lambda s, b, l: self._edge(f, s, b, l, False)) if self._edge else None
        inn, out = cfg.solve(st, lambda s, b: self.transfer(f, s, b, False), self._join, edge)
        if rec:
            for b, s in list(inn.items()):
                s = self.transfer(f, s, cfg.blocks[b], True)
                if self._edge:
                    for _, lab in cfg.edges(b):
                        self._edge(f, s, cfg.blocks[b], lab, True)
        res = None
        exits = cfg.normal_exit_preds()
        for b in exits:
            if b not in out:
                continue
            o = out[b]
            if self._edge:
                os = [self._edge(f, o, cfg.blocks[b], lab, False) for s, lab in cfg.edges(b) if s == cfg.exit]
                os = [x for x in os if x is not None]
                if not os:
                    continue
                o = os[0]
                for x in os[1:]:
                    o = self._join(o, x)
            if rec and self.at_exit:
                self.at_exit(f, o, b)
            res = o if res is None else self._join(res, o)
        self.stack.pop()
        self.memo[key] = res
        return res
