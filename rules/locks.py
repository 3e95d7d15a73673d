"""Lock sets: which mutexes are held at each evaluation point, and how each shared field is accessed."""
import re
from collections import defaultdict

LOCK_TYPES = re.compile(r'^(const )?(std|boost)::(lock_guard|unique_lock|scoped_lock|shared_lock|upgrade_lock)<')
MUTEX_TYPES = re.compile(r'^(const )?(std|boost)::(recursive_|shared_|timed_|recursive_timed_|shared_timed_)?mutex$')
SYNC_TYPES = re.compile(r'(std|boost)::(atomic|condition_variable|condition_variable_any|once_flag|thread_specific_ptr)\b|std::__atomic_base|atomic_')
RECURSIVE = re.compile(r'recursive_')

READ_METHODS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'c_str', 'count', 'size', 'empty'}
ELEM_METHODS = {'at', 'front', 'back', 'data', 'get', 'value', 'operator[]', 'operator*', 'operator->'}


THREAD = re.compile(r'^(std::j?thread|boost::thread)$')


def strip_q(t):
    return re.sub(r'^const ', '', t).rstrip(' &').strip()


def is_mutex_type(t):
    t = strip_q(t)
    return bool(MUTEX_TYPES.match(t)) or bool(re.match(r'^std::(unique_ptr|shared_ptr)<(std|boost)::\w*mutex\b', t))


def is_lock_type(t):
    return bool(LOCK_TYPES.match(strip_q(t)))


class LockAnalysis:
    def __init__(self, prog, closed=None):
        self.P = prog
        self.states = {}     # fn id -> {(block, idx): frozenset} before each element
        self.entries = {}
        self.inprog = set()
        self.closed_pred = closed or (lambda f: False)
        self.acquisitions = defaultdict(list)   # fn id -> [(node, path, mode, held before)]
        self._dead = set()
        self._threads = {}

    # ------------------------------------------------------------- entry locksets
    def is_closed(self, f):
        """Can every caller be seen? Private members, lambdas, and functions local to a source file can only be called from here."""
        if f.kind in ('ctor', 'dtor'):
            return False
        if f.kind == 'lambda':
            return True
        if f.cls is not None:
            if f.access == 'private' and not f.d.get('virt'):
                return True
            return self.closed_pred(f)
        if f.d.get('static') or '(anon)' in f.qn:
            return True
        return self.closed_pred(f)

    def address_taken(self):
        if not hasattr(self, '_at'):
            self._at = set()
            for f in self.P.fns.values():
                pars = None
                for i, d in enumerate(f.nodes):
                    if d['k'] == 'DeclRefExpr' and 'fnid' in d and d.get('r'):
                        # callee position?
                        if pars is None:
                            pars = f.parents
                        p = pars.get(i)
                        while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
                            i2 = p
                            p = pars.get(p)
                        else:
                            i2 = i
                        q = pars.get(i)
                        chain = i
                        while q is not None and f.k(q) in ('ImplicitCastExpr', 'ParenExpr'):
                            chain = q
                            q = pars.get(q)
                        if q is None or not (f.k(q) in ('CallExpr', 'CXXOperatorCallExpr') and f.kids(q) and f.kids(q)[0] == chain):
                            self._at.add(d['fnid'])
        return self._at

    def entry(self, f):
        if f.id in self.entries:
            return self.entries[f.id]
        if f.id in self.inprog:
            return None          # top, greatest fixed point on recursion
        self.inprog.add(f.id)
        e = frozenset()
        if f.kind == 'lambda':
            e = self.lambda_entry(f)
        elif self.is_closed(f) and f.id not in self.address_taken():
            callers = self.P.callers.get(f.id, ())
            acc = None
            for g, n in callers:
                if self.unshared_call(g, n):
                    continue      # nobody else can reach the object yet (or any more)
                h = self.held_at(g, n)
                if h is None:
                    continue
                h = self.translate(g, n, f, h)
                acc = h if acc is None else acc & h
            if acc is None:
                self._dead.add(f.id)
                acc = frozenset()
            e = acc
        self.inprog.discard(f.id)
        self.entries[f.id] = e
        return e

    def unshared_call(self, g, n):
        """A call on its own object by a constructor that has not started a thread yet, by a destructor that has joined its thread,
        or by a helper that only such functions call."""
        if g.k(n) != 'CXXMemberCallExpr' or g.obj(n) is None or g.path(g.obj(n)) not in (('this',), ('this', '*')):
            return False
        if g.kind not in ('ctor', 'dtor'):
            return g.kind != 'lambda' and self.is_closed(g) and self.is_dead(g)
        if g.cfg is None:
            return False
        if not any(THREAD.match(strip_q(fl['ty'])) for c in self.P.cls_by_qn.get(g.cls, ()) for fl in c['fields']):
            return True
        if g.id not in self._threads:
            def tr(st, blk):
                for e in blk.elems:
                    st = self.thread_step(g, st, e)
                return st
            self._threads[g.id], _ = g.cfg.solve(g.kind == 'dtor', tr, lambda a, b: a or b)
        w = g.cfg.where(n)
        inn = self._threads[g.id]
        if w is None or w[0] not in inn:
            return False
        st = inn[w[0]]
        for e in g.cfg.blocks[w[0]].elems[:w[1]]:
            st = self.thread_step(g, st, e)
        return not st

    def thread_step(self, g, st, e):
        """May a background thread of this object be running?"""
        if not isinstance(e, int):
            if isinstance(e, dict) and 'init' in e and isinstance(e['init'], int) and any(THREAD.match(strip_q(g.t(x))) and g.k(x) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and g.args(x) for x in g.walk(e['init'])):
                return True
            return st
        k = g.k(e)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and THREAD.match(strip_q(g.t(e))) and g.args(e) and not THREAD.match(strip_q(g.t(g.args(e)[0]))):
            return True
        if k == 'CXXMemberCallExpr' and re.match(r'(std|boost)::\w*thread::join$', g.nodes[e].get('f', '')):
            return False
        return st

    def is_dead(self, f):
        self.entry(f)
        return f.id in self._dead

    def lambda_entry(self, f):
        g = f.parent
        if g is None:
            return frozenset()
        node = None
        for i, d in enumerate(g.nodes):
            if d['k'] == 'LambdaExpr' and (d.get('lid') == f.id or f.id in d.get('lids', ())):
                node = i
        if node is None:
            return frozenset()
        n = node
        p = g.parents.get(n)
        while p is not None and (g.k(p) in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr')
                                 or (g.k(p) in ('CXXConstructExpr',) and not LOCK_TYPES.match(g.t(p)) and ('(lambda' in g.t(p) or 'std::function<' in g.t(p)) and 'thread' not in g.t(p))):
            n = p
            p = g.parents.get(p)
        if p is None:
            return frozenset()
        if g.is_call(p):
            if self.synchronous_call(g, p, n):
                h = self.held_at(g, p)
                return self.keep_shared(h)
            return frozenset()
        if g.k(p) == 'DeclStmt':
            # a local closure: every use decides
            vid = None
            for v in g.nodes[p].get('vars', ()):
                if v.get('init') == n or v.get('init') == node or node in list(g.walk(v['init'])) if 'init' in v else False:
                    vid = v['id']
            if vid is None:
                return frozenset()
            acc = None
            for i, d in enumerate(g.nodes):
                if d['k'] == 'DeclRefExpr' and d.get('v') == vid:
                    m = i
                    q = g.parents.get(m)
                    while q is not None and g.k(q) in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXConstructExpr') and not (g.k(q) == 'CXXConstructExpr' and 'thread' in g.t(q)):
                        m = q
                        q = g.parents.get(q)
                    if q is not None and g.is_call(q) and (self.synchronous_call(g, q, m) or (g.k(q) == 'CXXOperatorCallExpr' and g.nodes[q].get('op') == '()')):
                        h = self.held_at(g, q)
                        h = self.keep_shared(h)
                        acc = h if acc is None else acc & h
                    else:
                        return frozenset()
            return acc if acc is not None else frozenset()
        return frozenset()

    def keep_shared(self, h):
        return h if h is not None else frozenset()

    def synchronous_call(self, g, call, arg):
        """Is a closure passed as this argument run before the call returns?"""
        d = g.nodes[call]
        fn = d.get('f', '')
        if g.k(call) == 'CXXOperatorCallExpr' and d.get('op') == '()':
            return True
        if re.match(r'^std::condition_variable(_any)?::wait', fn):
            return True
        if re.match(r'^std::(__invoke|invoke|apply|visit|call_once|for_each|find_if|any_of|all_of|none_of|count_if|transform|remove_if|sort|stable_sort|generate|accumulate|copy_if|partition|min_element|max_element|lower_bound|upper_bound|find_if_not|erase_if)', fn):
            return True
        if g.k(call) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            t = g.t(call)
            if 'OnScopeExit' in t:
                return False
            return False
        tgts = self.P.targets(g, call)
        for t in tgts:
            # a repository function that only calls its parameter
            try:
                idx = g.args(call).index(arg)
            except ValueError:
                return False
            if idx >= len(t.params):
                return False
            pid = t.params[idx]['id']
            for i, dd in enumerate(t.nodes):
                if dd['k'] == 'DeclRefExpr' and dd.get('v') == pid:
                    m = i
                    q = t.parents.get(m)
                    while q is not None and t.k(q) in ('ImplicitCastExpr', 'ParenExpr'):
                        m = q
                        q = t.parents.get(q)
                    if not (q is not None and t.is_call(q) and t.nodes[q].get('op') == '()'):
                        return False
            return True
        return False

    def translate(self, g, n, f, held):
        """Caller lock facts -> callee lock facts."""
        o = g.obj(n)
        sub = []
        d = g.nodes[n]
        if f.cls is not None and not f.d.get('smeth'):
            if o is not None:
                op = g.path(o)
                if op is not None:
                    m = g.strip(g.kids(n)[0]) if d['k'] == 'CXXMemberCallExpr' else None
                    if m is not None and g.nodes[m].get('arrow') and op != ('this',):
                        op = g._deref(op)
                    sub.append((op, ('this',)))
        for a, p in zip(g.args(n), f.params):
            ap = g.path(a)
            if ap is not None:
                pt = f.types[p['t']]
                if pt.endswith('&'):
                    sub.append((ap, ('v:' + p['id'],)))
                elif pt.rstrip('const ').endswith('*'):
                    sub.append((g._deref(ap), ('v:' + p['id'], '*')))
        res = set()

        def tr(path):
            outs = []
            if path[0].startswith('::'):
                outs.append(path)
            for a, b in sub:
                if path[:len(a)] == a:
                    outs.append(b + path[len(a):])
            return outs

        for fact in held:
            if fact[0] == 'H':
                for p in tr(fact[1]):
                    owner = fact[3]
                    if owner is not None:
                        oo = tr(owner)
                        owner = oo[0] if oo else ('caller',)
                    else:
                        owner = ('caller',)
                    res.add(('H', p, fact[2], owner))
            else:
                oo = tr(fact[1])
                pp = tr(fact[2])
                if oo and pp:
                    res.add(('A', oo[0], pp[0], fact[3]))
        return frozenset(res)

    # ------------------------------------------------------------- transfer
    def lock_ctor_path(self, f, n):
        """For a construction of a lock object: (paths, mode, deferred)"""
        args = f.args(n)
        t = f.t(n)
        mode = 'S' if 'shared_lock' in t else 'X'
        if not args:
            return [], mode, True
        # move construction from another lock
        a0 = f.strip_all(args[0])
        deferred = False
        paths = []
        for a in args:
            at = f.t(f.strip(a))
            if 'defer_lock_t' in at or 'try_to_lock_t' in at:
                deferred = True
                continue
            if 'adopt_lock_t' in at or 'chrono' in at:
                continue
            p = f.path(a)
            if is_mutex_type(at) or p is not None:
                paths.append(p if p is not None else ('?',))
        return paths, mode, deferred

    def step(self, f, st, e, acq=None):
        """State after element e."""
        if not isinstance(e, int):
            if isinstance(e, dict) and 'dtor' in e:
                own = ('v:' + e['dtor'],)
                return frozenset(x for x in st if not (x[0] == 'H' and x[3] == own) and not (x[0] == 'A' and x[1] == own))
            return st
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if 'init' not in v:
                    continue
                t = f.types[v['t']]
                st = self.bind(f, st, ('v:' + v['id'],), t, v['init'], e, acq)
            return st
        if k == 'CXXMemberCallExpr':
            name = d.get('f', '').split('::')[-1]
            o = f.obj(e)
            if o is None:
                return st
            ot = f.t(f.strip(o))
            op = f.path(o)
            if is_mutex_type(ot) and 'ptr<' not in ot and op is not None:
                if name in ('lock', 'lock_shared'):
                    mode = 'S' if name == 'lock_shared' else 'X'
                    if acq is not None:
                        acq.append((e, op, mode, st))
                    return st | {('H', op, mode, None)}
                if name in ('unlock', 'unlock_shared'):
                    return frozenset(x for x in st if not (x[0] == 'H' and x[1] == op))
            if is_lock_type(ot) and op is not None:
                if name == 'lock' or name == 'lock_shared':
                    add = set()
                    for x in st:
                        if x[0] == 'A' and x[1] == op:
                            add.add(('H', x[2], x[3], op))
                            if acq is not None:
                                acq.append((e, x[2], x[3], st))
                    return st | add
                if name in ('unlock', 'release', 'unlock_shared'):
                    return frozenset(x for x in st if not (x[0] == 'H' and x[3] == op))
            return st
        if k in ('CXXOperatorCallExpr',) and d.get('op') == '=' and d.get('cls') and is_lock_type(f.t(f.strip(f.kids(e)[1]))):
            own = f.path(f.kids(e)[1])
            st = frozenset(x for x in st if not (x[0] == 'H' and x[3] == own) and not (x[0] == 'A' and x[1] == own))
            return self.bind(f, st, own, f.t(f.strip(f.kids(e)[1])), f.kids(e)[2], e, acq)
        if k == 'CallExpr' and d.get('f') in ('std::lock',):
            for a in f.args(e):
                p = f.path(a)
                if p is not None:
                    at = f.t(f.strip(a))
                    if is_lock_type(at):
                        for x in list(st):
                            if x[0] == 'A' and x[1] == p:
                                st = st | {('H', x[2], x[3], p)}
                    else:
                        st = st | {('H', p, 'X', None)}
            return st
        return st

    def bind(self, f, st, owner, t, init, e, acq):
        n = f.strip(init)
        while f.nodes[n].get('exp') and f.kids(n):
            n = f.strip(f.kids(n)[0])
        d = f.nodes[n]
        if is_lock_type(t):
            inner = n
            if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (d.get('move') or d.get('copy')):
                src = f.strip_all(n)
                sp = f.path(src)
                if f.is_call(src) and f.k(src) not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    inner = src
                elif f.k(src) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    inner = src
                elif sp is not None:
                    out = set()
                    for x in st:
                        if x[0] == 'H' and x[3] == sp:
                            out.add(('H', x[1], x[2], owner))
                        elif x[0] == 'A' and x[1] == sp:
                            out.add(('A', owner, x[2], x[3]))
                        else:
                            out.add(x)
                    return frozenset(out)
            dd = f.nodes[inner]
            if dd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
                if dd['k'] == 'InitListExpr' and f.kids(inner):
                    inner = f.kids(inner)[0]
                paths, mode, deferred = self.lock_ctor_path(f, inner)
                add = set()
                for p in paths:
                    add.add(('A', owner, p, mode))
                    if not deferred:
                        if acq is not None:
                            acq.append((e, p, mode, st))
                        add.add(('H', p, mode, owner))
                return st | add
            if f.is_call(inner):
                add = set()
                for t2 in self.P.targets(f, inner):
                    for p in self.returned_locks(t2):
                        q = self.rebase(f, inner, p)
                        if q is not None:
                            add.add(('A', owner, q, 'X'))
                            add.add(('H', q, 'X', owner))
                            if acq is not None:
                                acq.append((e, q, 'X', st))
                return st | add
            return st
        # a class that wraps a lock
        cls = strip_q(t)
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('fid') in self.P.fns:
            for p in self.wrapper_locks(self.P.fns[d['fid']]):
                q = self.rebase(f, n, p)
                if q is not None:
                    if acq is not None:
                        acq.append((e, q, 'X', st))
                    st = st | {('H', q, 'X', owner), ('A', owner, q, 'X')}
        return st

    def wrapper_locks(self, ctor):
        out = []
        for i in ctor.d.get('inits', ()):
            n = i['init']
            if n < 0 or not is_lock_type(ctor.t(n)):
                continue
            m = ctor.strip(n)
            if ctor.k(m) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                paths, mode, deferred = self.lock_ctor_path(ctor, m)
                if not deferred:
                    out += [p for p in paths if p]
        return out

    def returned_locks(self, f):
        out = []
        if not is_lock_type(f.types[f.d['ret']]):
            return out
        for i, d in enumerate(f.nodes):
            if d['k'] == 'ReturnStmt' and f.kids(i):
                n = f.strip_all(f.kids(i)[0])
                if f.k(n) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    paths, mode, deferred = self.lock_ctor_path(f, n)
                    if not deferred:
                        out += paths
                elif f.k(n) == 'DeclRefExpr' and 'v' in f.nodes[n]:
                    v = f.vars.get(f.nodes[n]['v'])
                    if v and 'init' in v:
                        m = f.strip_all(v['init'])
                        if f.k(m) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                            paths, mode, deferred = self.lock_ctor_path(f, m)
                            if not deferred:
                                out += paths
        return out

    def rebase(self, f, call, p):
        """Callee path -> caller path."""
        if p[0].startswith('::'):
            return p
        if p[0] == 'this':
            o = f.obj(call)
            if o is None:
                return p
            op = f.path(o)
            if op is None:
                return None
            m = f.strip(f.kids(call)[0])
            if f.nodes[m].get('arrow') and op != ('this',):
                op = f._deref(op)
            return op + p[1:]
        if p[0].startswith('v:'):
            d = f.nodes[call]
            t = self.P.fns.get(d.get('fid'))
            if t is None:
                return None
            for a, prm in zip(f.args(call), t.params):
                if 'v:' + prm['id'] == p[0]:
                    ap = f.path(a)
                    return ap + p[1:] if ap is not None else None
        return None

    # ------------------------------------------------------------- per function
    def analyse(self, f):
        if f.id in self.states:
            return self.states[f.id]
        ent = self.entry(f)
        if f.id in self.states:
            return self.states[f.id]
        if ent is None:
            ent = frozenset()
        cfg = f.cfg
        self.states[f.id] = {}
        if cfg is None:
            return {}
        res = {}

        def transfer(st, blk):
            for e in blk.elems:
                st = self.step(f, st, e)
            return st

        inn, _ = cfg.solve(ent, transfer, lambda a, b: a & b)
        acq = self.acquisitions[f.id]
        for b, st in inn.items():
            blk = cfg.blocks[b]
            for i, e in enumerate(blk.elems):
                res[(b, i)] = st
                st = self.step(f, st, e, acq)
            res[(b, len(blk.elems))] = st
        self.states[f.id] = res
        return res

    def held_at(self, f, n):
        """Lock facts before node n is evaluated (None: unreachable or on a recursion)."""
        if f.id in self.inprog and f.id not in self.states:
            return None
        st = self.analyse(f)
        cfg = f.cfg
        if cfg is None:
            return frozenset()
        w = cfg.pos.get(n)
        acc = None
        if not w:
            x = cfg.where(n)
            w = [x] if x else []
        for x in w:
            s = st.get(x)
            if s is not None:
                acc = s if acc is None else acc & s
        return acc


def locks_of(held):
    return {(x[1], x[2]) for x in held if x[0] == 'H'}


# ----------------------------------------------------------------- accesses

def usage(f, n):
    """How the lvalue n is used: 'r', 'w', 'ref' (bound to a reference or its address escapes), 'ret' (returned by reference)."""
    cur = n
    const = False
    for _ in range(60):
        p = f.parents.get(cur)
        if p is None:
            return 'r'
        d = f.nodes[p]
        k = d['k']
        if k == 'ImplicitCastExpr':
            if d.get('ck') == 'LValueToRValue':
                return 'r'
            if d.get('ck') == 'NoOp' and f.t(p).startswith('const '):
                const = True
            if d.get('ck') in ('ArrayToPointerDecay',):
                pass
            cur = p
            continue
        if k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'ConditionalOperator', 'CXXFunctionalCastExpr', 'CStyleCastExpr'):
            if k == 'ConditionalOperator' and f.kids(p)[0] == cur:
                return 'r'
            cur = p
            continue
        if k == 'MemberExpr':
            if 'fn' in d:
                # member function
                c = f.parents.get(p)
                while c is not None and f.k(c) in ('ParenExpr', 'ImplicitCastExpr'):
                    c = f.parents.get(c)
                if c is None or f.k(c) != 'CXXMemberCallExpr':
                    return 'w'
                cd = f.nodes[c]
                name = cd.get('f', '').split('::')[-1]
                if cd.get('cm'):
                    # const accessor that hands out a mutable reference to what is owned (smart pointers)
                    return 'r'
                if name in READ_METHODS:
                    return 'r'
                if name in ELEM_METHODS:
                    cur = c
                    continue
                return 'r' if const else 'w'
            cur = p
            continue
        if k == 'ArraySubscriptExpr':
            cur = p
            continue
        if k == 'CXXOperatorCallExpr':
            kids = f.kids(p)
            op = d.get('op')
            if d.get('cls') and len(kids) > 1 and kids[1] == cur:
                if d.get('cm'):
                    return 'r'
                if op in ('[]', '*', '->') and not re.match(r'^(const )?std::(unordered_)?map<', f.t(f.strip(cur))):
                    cur = p
                    continue
                if op == '()':
                    return 'r'
                return 'w'
            # free operator or right-hand operand
            return arg_usage(f, p, cur)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if d.get('asg') and f.kids(p)[0] == cur:
                return 'w'
            return 'r'
        if k == 'UnaryOperator':
            if d.get('op') in ('++', '--'):
                return 'w'
            if d.get('op') == '&':
                return 'ref'
            cur = p
            continue
        if f.is_call(p):
            return arg_usage(f, p, cur)
        if k == 'ReturnStmt':
            rt = f.types[f.d['ret']]
            if rt.endswith('&'):
                return 'retc' if rt.startswith('const ') else 'ret'
            return 'r'
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if v.get('init') == cur:
                    if v.get('ref'):
                        return 'alias'
                    return 'r'
            return 'r'
        if k in ('InitListExpr', 'CXXNewExpr', 'CXXThrowExpr'):
            return 'r'
        if k == 'LambdaExpr':
            return 'ref' if False else 'r'
        if k == 'CXXForRangeStmt':
            return 'r'
        return 'r'
    return 'r'


def arg_usage(f, call, cur):
    d = f.nodes[call]
    args = f.args(call)
    if d.get('f') in ('std::move', 'std::forward', 'std::ref') and cur in args:
        if d.get('f') == 'std::ref':
            return 'ref'
        # what the moved value is used for
        p = f.parents.get(call)
        u = usage(f, call)
        return 'w' if u in ('r', 'w', 'ref') else u
    if cur in args:
        i = args.index(cur)
        pt = f.ptypes(call)
        if i < len(pt):
            t = pt[i]
            if t.endswith('&&') or (t.endswith('&') and not t.startswith('const ')):
                return 'w'
            return 'r'
        return 'r'
    return 'r'
