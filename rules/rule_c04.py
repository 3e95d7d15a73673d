"""C04: no function acquires a lock its caller holds, and locks are acquired in one order."""
import re
from collections import defaultdict

import facts
import inline
import locks

EXPECT = ['Balau::LoggingSystem::LoggingState', 'Balau::Container::ArrayBlockingQueue', 'Balau::Concurrent::Semaphore', 'Balau::Concurrent::CyclicBarrier']


def is_cv_wait(f, n):
    return f.k(n) == 'CXXMemberCallExpr' and re.match(r'^(std|boost)::condition_variable(_any)?::wait', f.nodes[n].get('f', '')) is not None


class Order:
    def __init__(self, prog, LA, rep):
        self.P, self.LA, self.rep = prog, LA, rep
        self.summ = {}
        self.prev = {}
        self.final = False
        self.stack = []
        self.kinds = {}      # (fn id, path) -> qualified lock name
        self.types = {}
        self.edges = defaultdict(list)
        self.reported = set()

    def count(self, what):
        if self.final:
            self.rep.count(what)

    # -- naming
    def name(self, f, e, path):
        """Qualified name of the lock acquired at node e."""
        key = (f.id, path)
        if key in self.kinds:
            return self.kinds[key]
        q = None
        nodes = list(f.walk(e)) if isinstance(e, int) else range(len(f.nodes))
        for scan in (nodes, range(len(f.nodes))):
            for x in scan:
                d = f.nodes[x]
                if d['k'] in ('MemberExpr', 'DeclRefExpr') and locks.is_mutex_type(locks.strip_q(f.t(x))) and f.path(x) == path:
                    q = '.'.join(path) if path[0].startswith('::') else d.get('m') or d.get('gv') or ('local:' + str(d.get('v')))
                    q = re.sub(r'^::', '', q)
                    self.types[q] = locks.strip_q(f.t(x))
                    break
            if q:
                break
        if q is None:
            # through a helper that hands out the lock
            if path[0].startswith('::'):
                q = '.'.join(path)
            elif path[0] == 'this' and f.cls:
                q = f.cls + '::' + [x for x in path if x != '*'][-1]
            else:
                q = '?::' + [x for x in path if x != '*'][-1]
        q = re.sub(r'^::', '', q)
        self.kinds[key] = q
        return q

    def recursive(self, q):
        t = self.types.get(q)
        if t is None:
            cls, _, fld = q.rpartition('::')
            for c in self.P.cls_by_qn.get(cls, ()):
                for x in c['fields']:
                    if x['n'] == fld:
                        t = locks.strip_q(x['ty'])
        return bool(t) and 'recursive' in t

    def up(self, f, call, path):
        """Callee path -> caller path, or None."""
        if path is None or path[0].startswith('::'):
            return path
        d = f.nodes[call]
        if path[0] == 'this':
            if d['k'] == 'LambdaExpr':
                return path
            o = f.obj(call)
            if o is None:
                if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
                    return None
                return None
            p = f.path(o)
            if p is None:
                return None
            if d['k'] == 'CXXMemberCallExpr':
                m = f.strip(f.kids(call)[0])
                if f.nodes[m].get('arrow') and p != ('this',):
                    p = f._deref(p)
            return p + path[1:]
        return None

    def up_param(self, f, call, g, path):
        if path and path[0].startswith('v:'):
            for a, p in zip(f.args(call), g.params):
                if 'v:' + p['id'] == path[0]:
                    ap = f.path(a)
                    if ap is None:
                        return None
                    rest = path[1:]
                    if rest and rest[0] == '*':
                        ap, rest = f._deref(ap), rest[1:]
                    return ap + rest
            return None
        return self.up(f, call, path)

    def callees(self, f, n):
        """(function, follows the caller's variables) pairs a call may run before it returns."""
        out = [(g, False) for g in self.P.targets(f, n)]
        d = f.nodes[n]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()':
            lam = inline.local_lambda(self.P, f, f.kids(n)[1])
            if lam is not None:
                out.append((lam, True))
        for a in f.args(n):
            x = f.strip_all(a)
            if f.k(x) == 'LambdaExpr' and self.LA.synchronous_call(f, n, a):
                lam = self.P.fns.get(f.nodes[x].get('lid'))
                if lam is not None:
                    out.append((lam, True))
        return out

    def statics(self, f):
        """Local statics of f that are initialised by running code: [(variable, init node)]."""
        out = []
        for d in f.nodes:
            if d['k'] == 'DeclStmt':
                for v in d.get('vars', ()):
                    if v.get('static') and 'init' in v and any(f.is_call(x) for x in f.walk(v['init'])):
                        out.append((v, v['init']))
        return out

    # -- summaries
    def acquires(self, f):
        """Locks the function may acquire: {(path or None, name, mode): chain of (function, node)}."""
        if f.id in self.summ:
            return self.summ[f.id]
        if not self.stack:
            self.count('functions')
        if f.id in self.stack:
            if f.id in self.prev:
                return self.prev[f.id]
            self.LA.analyse(f)
            return {(path, self.name(f, e, path), mode): ((f, e),) for e, path, mode, _ in self.LA.acquisitions.get(f.id, ())}
        self.stack.append(f.id)
        self.LA.analyse(f)
        out = {}
        for e, path, mode, before in self.LA.acquisitions.get(f.id, ()):
            q = self.name(f, e, path)
            out.setdefault((path, q, mode), ((f, e),))
            self.count('acquisitions')
            for hp, hm in locks.locks_of(before or ()):
                self.relate(f, e, hp, hm, path, q, mode, ((f, e),))
        init_nodes = {}
        for v, init in self.statics(f):
            q = 'initialisation of ' + f.qn + '::' + v['n'] if 'n' in v else 'initialisation of a static of ' + f.qn
            p = ('::static-init:' + f.id + ':' + v['id'],)
            out.setdefault((p, q, 'X'), ((f, init),))
            self.types[q] = 'static'
            self.count('static initialisers')
            for x in f.walk(init):
                init_nodes.setdefault(x, []).append((p, q))
        for n in f.calls():
            held = list(locks.locks_of(self.LA.held_at(f, n) or ()))
            extra = init_nodes.get(n, ())
            for g, same in self.callees(f, n):
                if g.id == f.id and not extra:
                    if not held:
                        continue
                for (gp, q, mode), chain in self.acquires(g).items():
                    p = gp if same else self.up_param(f, n, g, gp)
                    c = ((f, n),) + chain
                    for hp, hm in held:
                        self.relate(f, n, hp, hm, p, q, mode, c)
                    for sp, sq in extra:
                        self.relate2(f, n, sp, sq, 'X', p, q, mode, c)
                    if len(c) < 12:
                        out.setdefault((p, q, mode), c)
                if g.id in self.stack and extra:
                    for sp, sq in extra:
                        if g.id == f.id:
                            self.relate2(f, n, sp, sq, 'X', sp, sq, 'X', ((f, n),))
            if held:
                self.blocking(f, n, held)
        self.stack.pop()
        self.summ[f.id] = out
        return out

    def blocking(self, f, n, held):
        nm = f.nodes[n].get('f', '')
        if is_cv_wait(f, n):
            self.count('waits')
            lp = self.LA.lock_of_wait(f, n) if hasattr(self.LA, 'lock_of_wait') else None
            if len({p for p, _ in held}) > 1:
                self.rep.violation('wait|%s' % f.root().qn, f.loc(n), '%s waits on a condition variable while it holds a second lock (%s): the thread that would wake it may need that lock' % (
                    f.dn, ', '.join('.'.join(p) for p, _ in held)))
        elif re.match(r'^(std|boost)::\w*thread::join$', nm):
            self.count('joins under a lock')
            # does what the joined thread runs need the lock?
            for hp, hm in held:
                hq = self.lockname(f, hp)
                for g in self.thread_functions(f.cls):
                    if any(q == hq for (_, q, _) in self.acquires(g)):
                        self.rep.violation('join|%s' % f.root().qn, f.loc(n), '%s waits for a thread to end while it holds %s, which that thread (%s) acquires' % (f.dn, hq, g.dn))

    def thread_functions(self, cls):
        out = []
        for f in self.P.fns.values():
            if f.cls != cls:
                continue
            for n, d in enumerate(f.nodes):
                if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and locks.THREAD.match(locks.strip_q(f.t(n))) and f.args(n):
                    x = f.strip_all(f.args(n)[0])
                    if f.k(x) == 'LambdaExpr':
                        g = self.P.fns.get(f.nodes[x].get('lid'))
                    else:
                        if f.k(x) == 'UnaryOperator':
                            x = f.strip_all(f.kids(x)[0])
                        g = self.P.fns.get(f.nodes[x].get('fnid'))
                    if g is not None:
                        out.append(g)
        return out

    def lockname(self, f, path):
        key = (f.id, path)
        if key in self.kinds:
            return self.kinds[key]
        for e, p, mode, _ in self.LA.acquisitions.get(f.id, ()):
            if p == path:
                return self.name(f, e, path)
        # held on entry: name it by the callers' acquisition
        if path[0] == 'this' and f.cls:
            if len([x for x in path if x != '*']) == 2:
                return f.cls + '::' + path[1]
        if path[0].startswith('::'):
            return re.sub(r'^::', '', '.'.join(path))
        return self.name(f, 0, path)

    def relate(self, f, n, hp, hm, p, q, mode, chain):
        self.relate2(f, n, hp, self.lockname(f, hp), hm, p, q, mode, chain)

    def relate2(self, f, n, hp, hq, hm, p, q, mode, chain):
        self.count('pairs of locks compared')
        via = ' -> '.join('%s:%d' % (g.dn.split('(')[0].split('::')[-1], g.line_of(x)) for g, x in chain)
        if p is not None and p == hp:
            if (not self.recursive(q)):
                self.rep.violation('self|%s|%s' % (q, chain[-1][0].root().qn), f.loc(n), '%s acquires %s again while it is held (%s): the thread blocks itself' % (f.dn, q, via))
            return
        if hq == q and self.recursive(q) and p is None:
            return
        self.edges[(hq, q)].append((f, n, via))


def check(prog, rep):
    LA = locks.LockAnalysis(prog)
    O = Order(prog, LA, rep)
    for q in EXPECT:
        prog.need_class(q)
    for O.final in (False, True):       # the second round sees the complete summaries of recursive functions
        O.prev, O.summ = O.summ, {}
        for f in list(prog.fns.values()):
            if f.cfg is not None:
                O.acquires(f)
    rep.need('acquisitions', 40)
    # cycles
    succ = defaultdict(set)
    for (a, b) in O.edges:
        succ[a].add(b)
        rep.sample('order', '%s before %s' % (a, b), 40)

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    for (a, b), sites in sorted(O.edges.items(), key=lambda x: x[0]):
        if a == b or a in reach(b):
            f, n, via = sites[0]
            back = ''
            for (c, d), s2 in O.edges.items():
                if (c, d) != (a, b) and d == a and (c == b or c in reach(b)):
                    back = '; the opposite order is taken in %s (%s)' % (s2[0][0].dn, s2[0][2])
            rep.violation('order|%s' % '|'.join(sorted({a, b})), f.loc(n), '%s acquires %s while holding %s (%s)%s: two threads can block each other' % (f.dn, b, a, via, back))
    return ('For every lock acquisition and every call made while a lock is held, the locks the callee may acquire (transitively, virtual calls resolved to every override, closures that run synchronously followed, '
            'initialisers of function-local statics counted as locks): no path acquires a non-recursive lock already held, the graph of lock orders has no cycle, no wait on a condition variable '
            'and no join happens while holding a lock the other side needs.')
