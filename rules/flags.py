"""Facts about atomic flags: which flags are known to have been seen set at each point, and with what ordering."""
import re

RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST = range(6)
ATOMIC = re.compile(r'^(const |volatile )*(std::(atomic|__atomic_base|atomic_flag)\b|boost::atomic)')
ACQ = {CONSUME, ACQUIRE, ACQ_REL, SEQ_CST}
REL = {RELEASE, ACQ_REL, SEQ_CST}


def is_atomic_type(t):
    return bool(ATOMIC.match(t.rstrip(' &')))


def order_of(f, args, i):
    if i < len(args):
        v = f.nodes[f.strip(args[i])].get('iv')
        if v is None:
            v = f.nodes[args[i]].get('iv')
        return v if v is not None else SEQ_CST
    return SEQ_CST


def atomic_op(f, n):
    """(operation, path, value node or None, order) of an operation on an atomic object, or None."""
    d = f.nodes[n]
    k = d['k']
    if k == 'CXXMemberCallExpr':
        o = f.obj(n)
        if o is None or not is_atomic_type(f.t(f.strip(o))):
            # operations inherited from the implementation class
            if o is None or 'atomic' not in d.get('oc', '') and 'atomic' not in d.get('f', ''):
                return None
        name = d.get('f', '').split('::')[-1]
        p = f.path(o)
        if p is None:
            return None
        a = f.args(n)
        if name == 'load':
            return 'load', p, None, order_of(f, a, 0)
        if name == 'store':
            return 'store', p, a[0], order_of(f, a, 1)
        if name == 'exchange':
            return 'exchange', p, a[0], order_of(f, a, 1)
        if name.startswith('compare_exchange'):
            return 'cas', p, a[1], order_of(f, a, 2)
        if name == 'test_and_set':
            return 'exchange', p, None, order_of(f, a, 0)
        if name == 'clear':
            return 'store', p, None, order_of(f, a, 0)
        if d.get('conv') or name.startswith('operator'):
            return 'load', p, None, SEQ_CST
        return 'rmw', p, None, SEQ_CST
    if k == 'CXXOperatorCallExpr' and d.get('cls') and f.obj(n) is not None and is_atomic_type(f.t(f.strip(f.obj(n)))):
        p = f.path(f.obj(n))
        if p is None:
            return None
        if d.get('op') == '=':
            return 'store', p, f.args(n)[0], SEQ_CST
        return 'rmw', p, None, SEQ_CST
    return None


def last(f, n):
    """What the block that ends in the condition n evaluates: earlier operands of && and || are tested by earlier blocks."""
    m = f.strip(n)
    while f.k(m) == 'BinaryOperator' and f.nodes[m].get('op') in ('&&', '||'):
        m = f.strip(f.kids(m)[1])
    return m


def decompose(f, n, val):
    """Atomic conditions known to hold (node, value) when condition n evaluated to val."""
    n = f.strip(n)
    while f.nodes[n].get('exp') and f.kids(n):
        n = f.strip(f.kids(n)[0])
    d = f.nodes[n]
    k = d['k']
    if k == 'UnaryOperator' and d.get('op') == '!':
        return decompose(f, f.kids(n)[0], not val)
    if k == 'BinaryOperator' and d.get('op') == '&&' and val:
        return decompose(f, f.kids(n)[0], True) + decompose(f, f.kids(n)[1], True)
    if k == 'BinaryOperator' and d.get('op') == '||' and not val:
        return decompose(f, f.kids(n)[0], False) + decompose(f, f.kids(n)[1], False)
    if k == 'BinaryOperator' and d.get('op') in ('==', '!='):
        a, b = f.kids(n)
        for x, y in ((a, b), (b, a)):
            iv = f.nodes[y].get('iv', f.nodes[f.strip(y)].get('iv'))
            if f.types[f.nodes[f.strip(x)].get('t', 0)].replace('const ', '') in ('bool',) and iv in (0, 1, True, False):
                return decompose(f, x, (bool(iv) == val) if d['op'] == '==' else (bool(iv) != val))
    return [(n, val)]


class FlagFacts:
    """Forward must analysis: ('T'|'F', path, strong) and ('V', var, path, strong)."""

    def __init__(self, f, strong_at=None, solve=True):
        self.f = f
        self.strong_at = strong_at or (lambda n: False)
        if not solve:
            return
        cfg = f.cfg
        self.inn = {}
        if cfg is None:
            return

        def transfer(st, blk):
            for e in blk.elems:
                st = self.step(st, e)
            return st
        self.inn, _ = cfg.solve(frozenset(), transfer, self.join, self.edge)

    @staticmethod
    def join(a, b):
        out = set()
        for x in a:
            if x in b:
                out.add(x)
            else:
                weak = x[:-1] + (False,)
                strong = x[:-1] + (True,)
                if weak in b or strong in b:
                    out.add(weak)
        return frozenset(out)

    def load(self, n):
        f = self.f
        n = f.strip(n)
        op = atomic_op(f, n)
        if op and op[0] == 'load':
            return op[1], (op[3] in ACQ or self.strong_at(n))
        return None

    def step(self, st, e):
        f = self.f
        if not isinstance(e, int):
            return st
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if 'init' in v:
                    l = self.load(v['init'])
                    if l:
                        st = st | {('V', v['id'], l[0], l[1])}
            return st
        if k == 'BinaryOperator' and d.get('op') == '=':
            l = f.strip(f.kids(e)[0])
            if f.k(l) == 'DeclRefExpr' and 'v' in f.nodes[l]:
                vid = f.nodes[l]['v']
                st = frozenset(x for x in st if not (x[0] == 'V' and x[1] == vid))
                r = self.load(f.kids(e)[1])
                if r:
                    st = st | {('V', vid, r[0], r[1])}
            return st
        if k == 'CallExpr' and d.get('f') == 'std::atomic_thread_fence':
            if order_of(f, f.args(e), 0) in ACQ:
                return frozenset(x[:-1] + (True,) for x in st)
            return st
        op = atomic_op(f, e)
        if op and op[0] in ('store', 'exchange', 'rmw', 'cas'):
            st = frozenset(x for x in st if not (x[0] in 'TF' and x[1] == op[1]))
            if op[0] == 'store' and op[2] is not None:
                iv = f.nodes[f.strip(op[2])].get('iv', f.nodes[op[2]].get('iv'))
                if iv:
                    st = st | {('T', op[1], True)}
                elif iv == 0:
                    st = st | {('F', op[1], True)}
        return st

    def edge(self, st, blk, lab):
        if lab is not True and lab is not False:
            return st
        f = self.f
        for n, val in decompose(f, blk.cond, lab):
            l = self.load(n)
            if l:
                st = frozenset(x for x in st if not (x[0] in 'TF' and x[1] == l[0])) | {('T' if val else 'F', l[0], l[1])}
            elif f.k(n) == 'DeclRefExpr' and 'v' in f.nodes[n]:
                for x in list(st):
                    if x[0] == 'V' and x[1] == f.nodes[n]['v']:
                        st = frozenset(y for y in st if not (y[0] in 'TF' and y[1] == x[2])) | {('T' if val else 'F', x[2], x[3])}
        return st

    def at(self, n):
        cfg = self.f.cfg
        w = cfg.where(n)
        if w is None or w[0] not in self.inn:
            return frozenset()
        st = self.inn[w[0]]
        for e in cfg.blocks[w[0]].elems[:w[1]]:
            st = self.step(st, e)
        return st
