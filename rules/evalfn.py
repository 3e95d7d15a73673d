"""Evaluation of small functions over finite abstract domains: every value is either a constant or a symbol whose comparisons are answered by the caller.

This is an interpreter of the program's representation (its control flow graph) over an abstract domain; no code of the program is executed. Whatever is not understood
raises Unknown, and the caller leaves the function undecided."""
from collections import namedtuple

Sym = namedtuple('Sym', 'root key')         # an object or value reached from a root through a chain of components
Sym.__str__ = lambda s: s.root + '.' + '.'.join(s.key)


class Unknown(Exception):
    pass


class Thrown(Exception):
    def __init__(self, f, n):
        self.f = f
        self.n = n


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
         '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}
STR = ('std::basic_string', 'std::basic_string_view', 'std::string', 'std::string_view')


class Env(dict):
    pass


class Evaluator:
    """Subclasses answer what is not constant: compare(), truth(), call(), member(), effect()."""
    STEPS = 4000

    def __init__(self, prog):
        self.P = prog
        self.steps = 0
        self.depth = 0

    # ---- to be overridden
    def compare(self, f, n, op, a, b):
        raise Unknown('comparison')

    def truth(self, f, n, v):
        raise Unknown('condition')

    def call(self, f, n, env):
        """Value of a call, or NotImplemented to step into it."""
        return NotImplemented

    def leaf(self, f, n, env):
        raise Unknown('%s at %s' % (f.k(n), f.loc(n)))

    def effect(self, f, n, env):
        pass

    # ---- running
    def run(self, f, args=(), this=None, captured=None):
        if f.cfg is None:
            raise Unknown('no body: ' + f.qn)
        self.depth += 1
        if self.depth > 25:
            self.depth -= 1
            raise Unknown('depth')
        env = Env(captured or {})
        env['this'] = this
        for i, p in enumerate(f.params):
            if i < len(args):
                env[p['id']] = args[i]
        try:
            return self.blocks(f, env)
        finally:
            self.depth -= 1

    def blocks(self, f, env):
        cfg = f.cfg
        b = cfg.entry
        while True:
            self.steps += 1
            if self.steps > self.STEPS:
                raise Unknown('steps')
            blk = cfg.blocks[b]
            for e in blk.elems:
                if not isinstance(e, int):
                    continue
                k = f.k(e)
                if k == 'ReturnStmt':
                    c = f.kids(e)
                    return self.eval(f, c[0], env) if c and f.t(c[0]) != 'void' else None
                if k == 'CXXThrowExpr':
                    raise Thrown(f, e)
                self.element(f, e, env)
            if blk.noret:
                raise Thrown(f, None)
            if b == cfg.exit:
                return None
            edges = cfg.edges(b)
            edges = [x for x in edges if x[1] != 'eh']
            if not edges:
                return None
            if len(edges) == 1 and edges[0][1] is None:
                b = edges[0][0]
            elif blk.term is not None and f.k(blk.term) == 'SwitchStmt':
                v = self.eval(f, f.nodes[blk.term]['cond'], env)
                if not isinstance(v, int):
                    raise Unknown('switch')
                b = self.switch(f, blk, v)
            elif blk.cond is not None:
                v = self.boolean(f, blk.cond, env)
                nxt = [s for s, lab in edges if lab is v or lab is None]
                if not nxt:
                    raise Unknown('pruned edge')
                b = nxt[0]
            elif blk.term is None or f.k(blk.term) in ('CXXBindTemporaryExpr', 'ExprWithCleanups'):
                b = edges[0][0]         # whether a temporary is to be destroyed
            else:
                raise Unknown('branch')
            if b == cfg.exit:
                return None

    def switch(self, f, blk, v):
        default = None
        for s in blk.succs:
            if s < 0:
                continue
            lab = f.cfg.blocks[s].label
            if lab is not None and f.k(lab) == 'CaseStmt':
                iv = f.nodes[f.nodes[lab]['lhs']].get('iv')
                if iv is not None and int(iv) == v:
                    return s
            else:
                default = s
        if default is None:
            raise Unknown('switch without target')
        return default

    def element(self, f, n, env):
        d = f.nodes[n]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if 'init' in v:
                    env[v['id']] = self.lazy(f, v['init'], env)
        elif d.get('asg'):
            l, r = f.kids(n)[:2]
            p = f.strip(l)
            if f.nodes[p].get('v'):
                if d.get('casg'):
                    op = d['op'][:-1]
                    a, b = env.get(f.nodes[p]['v']), self.lazy(f, r, env)
                    env[f.nodes[p]['v']] = ARITH[op](a, b) if op in ARITH and isinstance(a, int) and isinstance(b, int) else Unknown
                else:
                    env[f.nodes[p]['v']] = self.lazy(f, r, env)
            self.effect(f, n, env)
        elif k == 'CXXOperatorCallExpr' and d.get('op') == '=':
            c = f.kids(n)
            p = f.strip(c[1])
            if f.nodes[p].get('v'):
                env[f.nodes[p]['v']] = self.lazy(f, c[2], env)
            self.effect(f, n, env)
        elif k == 'UnaryOperator' and d.get('op') in ('++', '--'):
            p = f.strip(f.kids(n)[0])
            v = f.nodes[p].get('v')
            if v:
                env[v] = env[v] + (1 if d['op'] == '++' else -1) if isinstance(env.get(v), int) else Unknown
            self.effect(f, n, env)
        elif f.is_call(n) or k in ('CXXNewExpr', 'CXXDeleteExpr'):
            self.effect(f, n, env)

    def lazy(self, f, n, env):
        try:
            return self.eval(f, n, env)
        except Unknown:
            return Unknown

    # ---- expressions
    def boolean(self, f, n, env):
        m = f.strip(n)
        d = f.nodes[m]
        if d['k'] == 'UnaryOperator' and d.get('op') == '!':
            return not self.boolean(f, f.kids(m)[0], env)
        if d['k'] == 'BinaryOperator' and d.get('op') in ('&&', '||'):
            a, b = f.kids(m)
            x = self.boolean(f, a, env)
            if x == (d['op'] == '||'):
                return x
            return self.boolean(f, b, env)
        v = self.eval(f, m, env)
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, str):
            return True
        return bool(self.truth(f, m, v))

    def eval(self, f, n, env):
        self.steps += 1
        if self.steps > self.STEPS * 10:
            raise Unknown('steps')
        n = f.strip(n)
        d = f.nodes[n]
        k = d['k']
        if 'iv' in d:
            return int(d['iv'])
        if k == 'StringLiteral':
            return d.get('s', Unknown) if d.get('s') is not None else self.leaf(f, n, env)
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'CXXThisExpr':
            v = env.get('this')
            if v is None:
                return self.leaf(f, n, env)
            return v
        if k == 'DeclRefExpr' and d.get('v'):
            v = env.get(d['v'])
            if v is None:
                return self.leaf(f, n, env)
            if v is Unknown:
                raise Unknown('value of %s' % d.get('n'))
            return v
        if d.get('exp') and f.kids(n):
            v = self.eval(f, f.kids(n)[0], env)
            if isinstance(v, int) and 'char' in f.t(n):
                return v
            return v
        if k == 'ConditionalOperator':
            c, a, b = f.kids(n)
            return self.eval(f, a if self.boolean(f, c, env) else b, env)
        if k == 'BinaryOperator':
            a, b = f.kids(n)[:2]
            op = d['op']
            if op in ('&&', '||'):
                return self.boolean(f, n, env)
            if op == ',':
                return self.eval(f, b, env)
            if d.get('asg'):
                return self.eval(f, a, env)
            x, y = self.eval(f, a, env), self.eval(f, b, env)
            return self.binary(f, n, op, x, y)
        if k == 'UnaryOperator':
            op = d['op']
            if op == '!':
                return not self.boolean(f, f.kids(n)[0], env)
            x = self.eval(f, f.kids(n)[0], env)
            if op == '-' and isinstance(x, int):
                return -x
            if op == '~' and isinstance(x, int):
                return ~x
            if op in ('*', '&', '+'):
                return x
            if op in ('++', '--'):
                return x
            raise Unknown(op)
        if k == 'MemberExpr' and (d.get('fld')):
            o = self.eval(f, f.kids(n)[0], env) if f.kids(n) else env.get('this')
            return self.member(f, n, o, d['n'])
        if k == 'CXXOperatorCallExpr' and d.get('op') in ('->', '*') and len(f.kids(n)) == 2:
            return self.eval(f, f.kids(n)[1], env)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = [x for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            if d.get('copy') or d.get('move'):
                return self.eval(f, a[0], env)
            if (d.get('cls') or '') in STR:
                if not a:
                    return ''
                if len(a) == 1:
                    return self.eval(f, a[0], env)
        if k == 'InitListExpr' and len(f.kids(n)) == 1:
            return self.eval(f, f.kids(n)[0], env)
        if k == 'CallExpr' and d.get('f') in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and len(f.kids(n)) == 2:
            return self.eval(f, f.kids(n)[1], env)
        if f.is_call(n):
            if d.get('conv') and f.obj(n) is not None and (d.get('cls') or '') in STR:
                return self.eval(f, f.obj(n), env)
            v = self.call(f, n, env)
            if v is not NotImplemented:
                return v
            if k == 'CXXOperatorCallExpr' and d.get('op') in CMP and len(f.kids(n)) == 3:
                a, b = f.kids(n)[1:]
                tgt = [g for g in self.P.targets(f, n) if g.cfg is not None]
                if len(tgt) == 1 and self.P.judged(tgt[0]):
                    return self.step(f, n, tgt[0], env)
                return self.binary(f, n, d['op'], self.eval(f, a, env), self.eval(f, b, env))
            if k == 'CXXOperatorCallExpr' and d.get('op') == '!' and len(f.kids(n)) == 2:
                return not self.boolean(f, f.kids(n)[1], env)
            tgt = [g for g in self.P.targets(f, n) if g.cfg is not None]
            if len(tgt) == 1 and self.P.judged(tgt[0]):
                return self.step(f, n, tgt[0], env)
        return self.leaf(f, n, env)

    def step(self, f, n, g, env):
        o = f.obj(n)
        this = None
        if o is not None:
            this = self.lazy(f, o, env)
            if this is Unknown:
                this = None
        elif f.k(n) == 'CXXMemberCallExpr':
            this = env.get('this')
        a = []
        if f.k(n) == 'CXXOperatorCallExpr':
            a = f.kids(n)[1:]
            if o is not None:
                a = a[1:]
        else:
            a = f.args(n)
        return self.run(g, [self.lazy(f, x, env) if x >= 0 else Unknown for x in a], this)

    def member(self, f, n, o, name):
        if isinstance(o, Sym):
            return Sym(o.root, o.key + (name,))
        return self.leaf(f, n, None)

    def binary(self, f, n, op, x, y):
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            if op in CMP:
                return CMP[op](int(x), int(y))
            if op in ARITH:
                if op in ('<<', '>>') and not 0 <= y < 64:
                    raise Unknown(op)
                return ARITH[op](int(x), int(y))
            if op in ('/', '%') and y != 0:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == '/' else x - q * y
            raise Unknown(op)
        if isinstance(x, str) and isinstance(y, str) and op in CMP:
            return CMP[op](x, y)
        if op in CMP:
            return self.compare(f, n, op, x, y)
        raise Unknown(op)
