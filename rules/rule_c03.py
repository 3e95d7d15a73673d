"""C03: one-time work runs once, and the flag that lets other threads skip it is set only when the work is complete."""
import re

import facts
import flags
import inline
import locks

CONFIRMED = ['Balau::Concurrent::LazyValue', 'Balau::Concurrent::SingleTimeExecutor']
SHARED_BINDING = 'Balau::Impl::AbstractSharedPtrBinding'
ONCE_TYPES = re.compile(r'^(const )?Balau::Concurrent::(LazyValue|ThreadLocalInstance|SingleTimeExecutor)<?')


def is_work(f, n):
    """A call of client code held in a function object."""
    d = f.nodes[n]
    if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and f.obj(n) is not None:
        return re.match(r'^(const )?(std|boost)::function<', f.t(f.strip(f.obj(n)))) is not None
    if d['k'] == 'CallExpr' and re.match(r'^std::(__)?invoke\b', d.get('f', '')):
        return True
    return False


class Once:
    """State: (must facts, may tokens). must: ('T'|'F', path, locked, acq), ('V', var, path, locked, acq), ('work',), ('fence',).
    may: ('run', fn, node) work not yet published, ('pub',) published, ('unordered', fn, node) a flag seen set without acquire ordering."""

    def __init__(self, prog, LA, rep, cls, flagnames, dtor=False):
        self.P, self.LA, self.rep, self.cls, self.flagnames, self.dtor = prog, LA, rep, cls, flagnames, dtor
        self.works = 0
        self.publishes = 0
        self.I = inline.Inliner(prog, self.step, self.join, self.edge, at_exit=None)

    @staticmethod
    def join(a, b):
        out = set()
        for x in a[0]:
            if x[0] in ('T', 'F', 'V'):
                for y in b[0]:
                    if y[:-2] == x[:-2]:
                        out.add(x[:-2] + (x[-2] and y[-2], (x[-1] or x[-2]) and (y[-1] or y[-2])))
            elif x in b[0]:
                out.add(x)
        return frozenset(out), a[1] | b[1]

    def locked(self, f, n):
        h = self.LA.held_at(f, n)
        return any(m == 'X' for _, m in locks.locks_of(h or ()))

    def load(self, f, n):
        n = f.strip(n)
        op = flags.atomic_op(f, n)
        if op and op[0] == 'load' and op[1][0] == 'this' and op[1][-1] in self.flagnames:
            return op[1], self.locked(f, n), op[3] in flags.ACQ
        return None

    def key(self, f, what):
        return '%s|%s|%s' % (self.cls, f.root().name if f.root().kind != 'dtor' else 'destructor', what)

    def step(self, f, st, e, rec):
        must, may = st
        if not isinstance(e, int):
            if isinstance(e, dict) and 'dtor' in e and locks.is_lock_type(f.types[e['t']]):
                must = self.weaken(must)
            return must, may
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if 'init' in v:
                    l = self.load(f, v['init'])
                    if l:
                        must = must | {('V', v['id'], l[0], l[1], l[2])}
                    if locks.is_lock_type(f.types[v['t']]):
                        may = frozenset(x for x in may if x[0] != 'unordered')
        elif k == 'BinaryOperator' and d.get('op') == '=':
            l = f.strip(f.kids(e)[0])
            if f.k(l) == 'DeclRefExpr' and 'v' in f.nodes[l]:
                vid = f.nodes[l]['v']
                must = frozenset(x for x in must if not (x[0] == 'V' and x[1] == vid))
                r = self.load(f, f.kids(e)[1])
                if r:
                    must = must | {('V', vid, r[0], r[1], r[2])}
        elif k == 'CallExpr' and d.get('f') == 'std::atomic_thread_fence':
            o = flags.order_of(f, f.args(e), 0)
            if o in flags.ACQ:
                must = frozenset(x[:-1] + (True,) if x[0] in ('T', 'F', 'V') else x for x in must)
                may = frozenset(x for x in may if x[0] != 'unordered')
            if o in flags.REL:
                must = must | {('fence',)}
        elif is_work(f, e):
            if self.dtor:
                if rec:
                    self.works += 1
                    if not any(x[0] == 'T' for x in must):
                        self.rep.violation(self.key(f, 'undo'), f.loc(e), 'the destructor of %s runs its action on a path where the one-time work is not known to have run' % self.cls)
            else:
                if rec:
                    self.works += 1
                    ok = any(x[0] == 'F' and x[-2] for x in must) and self.locked(f, e)
                    if not ok:
                        why = 'without holding a lock' if not self.locked(f, e) else 'without having seen, under the lock, that it has not run yet'
                        self.rep.violation(self.key(f, 'unguarded'), f.loc(e), '%s runs the one-time work %s: two threads can both run it' % (f.dn, why))
                must = frozenset(x for x in must if x != ('fence',)) | {('work',)}
                may = may | {('run', f.id, e)}
        else:
            op = flags.atomic_op(f, e)
            if op and op[1][0] == 'this' and op[1][-1] in self.flagnames and op[0] != 'load':
                iv = None
                if op[2] is not None:
                    iv = f.nodes[f.strip(op[2])].get('iv', f.nodes[op[2]].get('iv'))
                must = frozenset(x for x in must if not (x[0] in ('T', 'F') and x[1] == op[1]))
                if self.dtor:
                    return must, may
                if op[0] == 'store' and iv:
                    if rec:
                        self.publishes += 1
                        if ('work',) not in must:
                            self.rep.violation(self.key(f, 'early'), f.loc(e), '%s sets %s before the one-time work has completed: other threads skip it and see an unfinished result' % (f.dn, op[1][-1]))
                        elif not (op[3] in flags.REL or ('fence',) in must):
                            self.rep.violation(self.key(f, 'order'), f.loc(e), '%s sets %s without release ordering: other threads can see the flag before the result' % (f.dn, op[1][-1]))
                        elif not self.locked(f, e):
                            self.rep.violation(self.key(f, 'unlockedset'), f.loc(e), '%s sets %s after releasing the lock: another thread can run the work again in between' % (f.dn, op[1][-1]))
                    must = must | {('T', op[1], True, True)}
                    may = frozenset(x for x in may if x[0] != 'run') | {('pub',)}
                elif rec:
                    self.rep.violation(self.key(f, 'reset'), f.loc(e), '%s changes %s other than by setting it after the work' % (f.dn, op[1][-1]))
            elif rec and ('pub',) in may and not self.dtor and k == 'MemberExpr' and d.get('fld') and f.path(e) and f.path(e)[0] == 'this' \
                    and f.path(e)[-1] not in self.flagnames and locks.usage(f, e) == 'w' and not locks.is_mutex_type(f.t(e)):
                self.rep.violation(self.key(f, 'afterpub'), f.loc(e), '%s changes %s after telling other threads that the work is complete' % (f.dn, d['n']))
        if k == 'CXXMemberCallExpr' and f.obj(e) is not None and locks.is_lock_type(f.t(f.strip(f.obj(e)))) and d.get('f', '').split('::')[-1] == 'unlock':
            must = self.weaken(must)
        return must, may

    @staticmethod
    def weaken(must):
        return frozenset(x[:-2] + (False, x[-1] or x[-2]) if x[0] in ('T', 'F', 'V') else x for x in must)

    def edge(self, f, st, blk, lab, rec):
        if lab is not True and lab is not False:
            return st
        must, may = st
        for n, val in flags.decompose(f, blk.cond, lab):
            l = self.load(f, n)
            node = n
            if l is None and f.k(n) == 'DeclRefExpr' and 'v' in f.nodes[n]:
                for x in must:
                    if x[0] == 'V' and x[1] == f.nodes[n]['v']:
                        l = x[2:]
            if l is None:
                continue
            if any(x[0] == ('F' if val else 'T') and x[1] == l[0] and x[-2] for x in must) and l[1]:
                return None       # contradicts what is known under the lock
            must = frozenset(x for x in must if not (x[0] in ('T', 'F') and x[1] == l[0])) | {('T' if val else 'F', l[0], l[1], l[2])}
            if val and not l[1] and not l[2]:
                may = may | {('unordered', f.id, node)}
        return must, may

    def judge(self, f):
        out = self.I.run(f, (frozenset(), frozenset()), True)
        if out is None or self.dtor:
            return
        for x in out[1]:
            if x[0] == 'run' and self.works:
                g = self.P.fns[x[1]]
                self.rep.violation(self.key(f, 'unset'), g.loc(x[2]), '%s runs the one-time work and can return without recording that it has run: the next call runs it again' % f.dn)
            elif x[0] == 'unordered' and self.works:
                g = self.P.fns[x[1]]
                self.rep.violation(self.key(f, 'unordered'), g.loc(x[2]), '%s skips the work on the strength of a flag read without acquire ordering: the result may not be visible yet' % f.dn)


def check(prog, rep):
    LA = locks.LockAnalysis(prog)
    for q in CONFIRMED:
        prog.need_class(q)
    # instantiated classes that own a lock, and functions that run client code
    for q in sorted(prog.cls_by_qn):
        cs = prog.cls_by_qn[q]
        fl = [x for c in cs for x in c['fields']]
        if not any(locks.is_mutex_type(locks.strip_q(x['ty'])) or 'once_flag' in x['ty'] for x in fl) and q not in CONFIRMED:
            continue
        names = {x['n'] for x in fl if flags.is_atomic_type(x['ty'])}
        ms = [f for f in prog.methods(q) if f.cfg is not None and f.kind not in ('ctor', 'lambda')]
        runs = [f for f in ms if any(is_work(f, n) for n in f.calls())]
        if q in CONFIRMED and any(f.nodes[n].get('f') == 'std::call_once' for f in ms for n in f.calls()):
            rep.count('one-time work run through std::call_once')
            rep.count('one-time classes')
            continue
        if q not in CONFIRMED and not (names and runs and any(flags.atomic_op(f, n) and flags.atomic_op(f, n)[0] == 'store' and flags.atomic_op(f, n)[1][-1] in names for f in ms for n in f.calls())):
            continue
        rep.count('one-time classes')
        if not names:
            rep.violation('%s|noflag' % q, '', '%s runs one-time work but no atomic flag records it' % q)
            continue
        total = pubs = 0
        for f in ms:
            if f.access == 'private' and f.kind != 'dtor':
                continue
            o = Once(prog, LA, rep, q, names, f.kind == 'dtor')
            o.judge(f)
            if f.kind != 'dtor':
                total += o.works
                pubs += o.publishes
            rep.count('functions of one-time classes')
            if o.works:
                rep.sample('one-time work', f.dn)
        rep.count('one-time work sites', total)
        if q in CONFIRMED and total and not pubs:
            rep.violation('%s|neverset' % q, '', '%s never records that its one-time work has run' % q)
        if q in CONFIRMED and not total:
            raise facts.Broken('the one-time work of %s was not found' % q)
    rep.need('one-time classes', 2)
    singletons(prog, rep)
    loggers(prog, rep, LA)
    return ('Per class with one-time work: on every path (helpers followed) the client function runs only while the exclusive lock is held and after the flag was read as unset under that same lock; '
            'the flag is set afterwards with release ordering, still under the lock, on every path to a normal return; nothing of the object changes after the flag is set; '
            'a path that skips the work read the flag with acquire ordering or under the lock; the destructor undoes only what ran. '
            'Per shared (singleton) binding: the get operation creates nothing outside a LazyValue or thread local holder. Logger creation follows a lookup in the same critical section.')


def creations(prog, f, seen, rep):
    """Creating expressions evaluated by f itself or its helpers (closures given to one-time holders excluded)."""
    out = []
    if f.id in seen:
        return out
    seen.add(f.id)
    rep.count('functions of shared bindings')
    for n, d in enumerate(f.nodes):
        k = d['k']
        nm = d.get('f', '').split('::')[-1]
        if k == 'CXXNewExpr' or nm in ('make_shared', 'make_unique', 'allocate_shared') or nm.startswith('BALAU_new') or is_work(f, n):
            out.append((f, n))
        elif f.is_call(n) and inline.own_object(f, n):
            for g in prog.targets(f, n):
                if g.cls == f.cls:
                    out += creations(prog, g, seen, rep)
        elif k == 'LambdaExpr':
            g = prog.fns.get(d.get('lid'))
            if g is None:
                continue
            # given to a one-time holder?
            p = f.parents.get(n)
            while p is not None and not (f.is_call(p) and f.k(p) not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')) and f.k(p) not in ('ReturnStmt', 'DeclStmt', 'CompoundStmt'):
                p = f.parents.get(p)
            ok = False
            if p is not None and f.is_call(p) and f.obj(p) is not None and ONCE_TYPES.match(f.t(f.strip(f.obj(p)))):
                ok = True
                rep.count('creations through a one-time holder')
            if p is not None and f.k(p) == 'DeclStmt':
                # a named closure: where is it used?
                vids = {v['id'] for v in f.nodes[p].get('vars', ())}
                uses = [i for i, dd in enumerate(f.nodes) if dd['k'] == 'DeclRefExpr' and dd.get('v') in vids]
                ok = bool(uses)
                for u in uses:
                    q = f.parents.get(u)
                    while q is not None and not (f.is_call(q) and f.k(q) not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')):
                        q = f.parents.get(q)
                    if q is None or f.obj(q) is None or not ONCE_TYPES.match(f.t(f.strip(f.obj(q)))):
                        ok = False
                if ok:
                    rep.count('creations through a one-time holder')
            if not ok:
                out += creations(prog, g, seen, rep)
    return out


def singletons(prog, rep):
    for q in sorted(prog.cls_by_qn):
        cs = prog.cls_by_qn[q]
        if not any(any(prog.classes.get(b, {}).get('qn') == SHARED_BINDING for b in prog.bases_closure(c['id'])) for c in cs if 'id' in c):
            continue
        rep.count('shared binding classes')
        for f in prog.methods(q):
            if f.name != 'get' or f.cfg is None:
                continue
            for g, n in creations(prog, f, set(), rep):
                rep.violation('%s|get|creates' % q, g.loc(n), '%s creates the shared object in its get operation outside a one-time holder: two callers can receive two objects' % q)
    rep.need('shared binding classes', 5)
    rep.need('creations through a one-time holder', 2)


def loggers(prog, rep, LA):
    """A logger is created only after a lookup made in the same critical section found none."""
    TREE = re.compile(r'Balau::Container::ObjectTrie(Node)?<')

    def step(f, st, e, rec):
        if not isinstance(e, int):
            if isinstance(e, dict) and 'dtor' in e and locks.is_lock_type(f.types[e['t']]):
                return False
            return st
        d = f.nodes[e]
        if d['k'] == 'CXXMemberCallExpr':
            o = f.obj(e)
            nm = d.get('f', '').split('::')[-1]
            if o is not None and nm.startswith('find') and TREE.search(f.t(f.strip(o))):
                return bool(locks.locks_of(LA.held_at(f, e) or ()))
            if o is not None and locks.is_lock_type(f.t(f.strip(o))) and nm == 'unlock':
                return False
        if (d['k'] == 'CXXNewExpr' and re.match(r'^Balau::Logger \*', f.t(e))) or (d['k'] == 'CallExpr' and d.get('f', '').startswith('std::make_shared') and 'Balau::Logger>' in f.t(e)):
            if rec:
                rep.count('logger creations')
                if not st:
                    rep.violation('%s|logger' % f.root().qn, f.loc(e), '%s creates a logger without having looked it up in the same critical section: two threads can create two loggers for one namespace' % f.dn)
        return st
    I = inline.Inliner(prog, step, lambda a, b: a and b)
    n = 0
    for f in prog.fns.values():
        if f.qn == 'Balau::LoggingSystem::LoggingState::getInstance' and f.cfg is not None:
            n += 1
            I.run(f, False, True)
    if not n:
        raise facts.Broken('LoggingState::getInstance was not found')
