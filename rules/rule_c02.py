"""C02: waiting threads re-test what they wait for, and whoever enables them notifies them."""
import re
from collections import defaultdict

import flags
import locks

CV = re.compile(r'^(std|boost)::condition_variable(_any)?$')
CONFIRMED = {'Balau::Container::ArrayBlockingQueue': 2, 'Balau::Concurrent::Semaphore': 1, 'Balau::LoggingSystem::FileLoggingStream': 1}


def cv_call(f, n):
    """(class, field, method) of a call on a condition variable member."""
    if f.k(n) != 'CXXMemberCallExpr':
        return None
    o = f.obj(n)
    if o is None:
        return None
    m = f.strip_all(o)
    t = locks.strip_q(f.t(f.strip(o)))
    if not CV.match(t):
        return None
    name = f.callee(n).split('::')[-1]
    if f.k(m) == 'MemberExpr' and f.nodes[m].get('fld'):
        return f.nodes[m]['m'], name
    if f.k(m) == 'DeclRefExpr' and 'v' in f.nodes[m]:
        ff, v = f.lookup_var(f.nodes[m]['v'])
        if v and v.get('ref') and 'init' in v:
            x = ff.strip_all(v['init'])
            if ff.k(x) == 'MemberExpr':
                return ff.nodes[x]['m'], name
        return 'local', name
    return None


class Reads:
    """Fields of the waiting object's class an expression depends on, through calls and local variables."""

    def __init__(self, prog):
        self.P = prog
        self.memo = {}

    def of(self, f, n, depth=0, locals_=True):
        out = set()
        if depth > 5 or n is None:
            return out
        for x in f.walk(n):
            d = f.nodes[x]
            if d['k'] == 'MemberExpr' and d.get('fld'):
                out.add((d['m'], 'size' if direct_size(f, x) else 'value'))
            elif f.is_call(x):
                for g in self.P.targets(f, x):
                    out |= self.fn(g, depth + 1)
                if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()':
                    lam = local_lambda(self.P, f, f.kids(x)[1])
                    if lam is not None:
                        out |= self.fn(lam, depth + 1)
            elif d['k'] == 'LambdaExpr':
                g = self.P.fns.get(d.get('lid'))
                if g is not None:
                    out |= self.fn(g, depth + 1)
            elif locals_ and d['k'] == 'DeclRefExpr' and 'v' in d:
                for ff, e in defs(f, d['v']):
                    if e != n:
                        out |= self.of(ff, e, depth + 1, True)
        return out

    def fn(self, g, depth):
        if g.id in self.memo:
            return self.memo[g.id]
        self.memo[g.id] = set()
        out = self.of(g, g.body, depth)
        self.memo[g.id] = out
        return out


def local_lambda(prog, f, n):
    n = f.strip_all(n)
    d = f.nodes[n]
    if d['k'] == 'LambdaExpr':
        return prog.fns.get(d.get('lid'))
    if d['k'] == 'DeclRefExpr' and 'v' in d:
        ff, v = f.lookup_var(d['v'])
        if v and 'init' in v:
            m = ff.strip_all(v['init'])
            if ff.k(m) == 'LambdaExpr':
                return prog.fns.get(ff.nodes[m].get('lid'))
    return None


def defs(f, vid):
    ff, v = f.lookup_var(vid)
    out = []
    if ff is None:
        return out
    if 'init' in v and not v.get('param'):
        out.append((ff, v['init']))
    for i, d in enumerate(ff.nodes):
        if d['k'] in ('BinaryOperator', 'CompoundAssignOperator') and d.get('asg'):
            l = ff.strip(ff.kids(i)[0])
            if ff.nodes[l].get('v') == vid:
                out.append((ff, ff.kids(i)[1]))
    return out


def direct_size(f, n):
    p = f.parents.get(n)
    while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
        p = f.parents.get(p)
    return p is not None and f.k(p) == 'MemberExpr' and 'fn' in f.nodes[p] and f.nodes[p]['n'] in ('size', 'capacity', 'empty', 'max_size')


def direct_elem(f, n):
    p = f.parents.get(n)
    while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
        p = f.parents.get(p)
    if p is None:
        return False
    d = f.nodes[p]
    return (f.k(p) == 'MemberExpr' and 'fn' in d and d['n'] in ('at', 'front', 'back', 'data')) or (f.k(p) == 'CXXOperatorCallExpr' and d.get('op') == '[]')


def postdominators(cfg):
    ids = list(cfg.blocks)
    succ = {b: [s for s, _ in cfg.edges(b, False)] for b in ids}
    pd = {b: set(ids) for b in ids}
    pd[cfg.exit] = {cfg.exit}
    changed = True
    while changed:
        changed = False
        for b in ids:
            if b == cfg.exit:
                continue
            ss = [pd[s] for s in succ[b]]
            new = (set.intersection(*ss) if ss else set()) | {b}
            if new != pd[b]:
                pd[b] = new
                changed = True
    return pd


def control_conditions(f, block):
    """(condition node, value) on which reaching the block depends directly."""
    cfg = f.cfg
    pd = postdominators(cfg)
    out = []
    for b in cfg.blocks.values():
        for s, lab in cfg.edges(b.id, False):
            if lab in (True, False) and lab is not None and block in pd[s] and not (block in pd[b.id] and block != b.id):
                out.append((b.cond, lab, b.id))
    return out


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def atoms(prog, f, n, val, depth=0):
    """Normalised atomic conditions (field, relation, other) that hold while condition n has value val."""
    n = f.strip(n)
    while f.nodes[n].get('exp') and f.kids(n):
        n = f.strip(f.kids(n)[0])
    d = f.nodes[n]
    k = d['k']
    if k == 'UnaryOperator' and d.get('op') == '!':
        return atoms(prog, f, f.kids(n)[0], not val, depth)
    if k == 'BinaryOperator' and d.get('op') in ('&&', '||'):
        return atoms(prog, f, f.kids(n)[0], val, depth) + atoms(prog, f, f.kids(n)[1], val, depth)
    if k == 'BinaryOperator' and d.get('op') in FLIP:
        a, b = f.kids(n)
        res = []
        for x, y, op in ((a, b, d['op']), (b, a, FLIP[d['op']])):
            fld = field_of(f, x)
            if fld is None:
                continue
            iv = f.nodes[y].get('iv', f.nodes[f.strip(y)].get('iv'))
            res.append((fld, op if val else NEG[op], iv if iv is not None else 'other'))
        return res
    if k in ('CXXMemberCallExpr', 'CallExpr') and depth < 4:
        op = flags.atomic_op(f, n)
        if op is not None and op[0] == 'load':
            fld = field_of(f, f.obj(n))
            if fld is not None:
                return [(fld, '!=' if val else '==', 0)]
        tg = prog.targets(f, n)
        if len(tg) == 1:
            g = tg[0]
            rets = [i for i, x in enumerate(g.nodes) if x['k'] == 'ReturnStmt' and g.kids(i)]
            if len(rets) == 1:
                return atoms(prog, g, g.kids(rets[0])[0], val, depth + 1)
        return []
    if k == 'CXXOperatorCallExpr' and d.get('op') == '()' and depth < 4:
        lam = local_lambda(prog, f, f.kids(n)[1])
        if lam is not None:
            rets = [i for i, x in enumerate(lam.nodes) if x['k'] == 'ReturnStmt' and lam.kids(i)]
            if len(rets) == 1:
                return atoms(prog, lam, lam.kids(rets[0])[0], val, depth + 1)
        return []
    if k == 'DeclRefExpr' and 'v' in d and depth < 4:
        out = []
        for ff, e in defs(f, d['v']):
            out += atoms(prog, ff, e, val, depth + 1)
        return out
    fld = field_of(f, n)
    if fld is not None:
        return [(fld, '!=' if val else '==', 0)]
    return []


def field_of(f, n):
    """The field an expression is the value of (through atomic loads)."""
    if n is None:
        return None
    n = f.strip_all(n)
    op = flags.atomic_op(f, n)
    if op is not None and op[0] == 'load':
        n = f.strip_all(f.obj(n))
    d = f.nodes[n]
    if d['k'] == 'MemberExpr' and d.get('fld'):
        return d['m']
    return None


def write_kind(f, n):
    """How a field is written at node n: '+', '-', ('=', const) or '?'; None if it is not written."""
    u = locks.usage(f, n)
    if u not in ('w',):
        return None
    p = f.parents.get(n)
    while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
        p = f.parents.get(p)
    if p is None:
        return '?'
    d = f.nodes[p]
    k = f.k(p)
    if k == 'UnaryOperator' and d.get('op') in ('++', '--'):
        return d['op'][0]
    if k == 'CXXOperatorCallExpr' and d.get('op') in ('++', '--'):
        return d['op'][0]
    if k == 'CompoundAssignOperator' or (k == 'CXXOperatorCallExpr' and d.get('op') in ('+=', '-=')):
        r = f.kids(p)[-1]
        iv = f.nodes[r].get('iv', f.nodes[f.strip(r)].get('iv'))
        if iv == 1 and d.get('op') in ('+=', '-='):
            return d['op'][0]
        if d.get('op') in ('+=', '-='):
            return d['op'][0] * 2
        return '?'
    if k == 'BinaryOperator' and d.get('op') == '=' or k == 'CXXOperatorCallExpr' and d.get('op') == '=':
        r = f.kids(p)[-1]
        iv = f.nodes[r].get('iv', f.nodes[f.strip(r)].get('iv'))
        if iv is not None:
            return ('=', iv)
        # x = x + 1
        s = f.strip(r)
        if f.k(s) == 'BinaryOperator' and f.nodes[s].get('op') in ('+', '-'):
            a, b = f.kids(s)
            if field_of(f, a) == f.nodes[n]['m'] and f.nodes[b].get('iv', f.nodes[f.strip(b)].get('iv')) == 1:
                return f.nodes[s]['op']
        return '?'
    if k == 'MemberExpr' and 'fn' in d:
        name = d['n']
        c = f.parents.get(p)
        if c is not None and f.is_call(c):
            if name == 'store' and f.args(c):
                iv = f.nodes[f.args(c)[0]].get('iv', f.nodes[f.strip(f.args(c)[0])].get('iv'))
                return ('=', iv) if iv is not None else '?'
            if name in ('fetch_add', 'fetch_sub') and f.args(c):
                iv = f.nodes[f.args(c)[0]].get('iv', f.nodes[f.strip(f.args(c)[0])].get('iv'))
                ch = '+' if name == 'fetch_add' else '-'
                return ch if iv == 1 else ch * 2
    return '?'


def enables(atom, kind):
    """Can this write end a wait that lasts while the atom holds?"""
    _, rel, other = atom
    if isinstance(kind, tuple):
        v = kind[1]
        if isinstance(other, int) or isinstance(other, bool):
            holds = {'==': v == other, '!=': v != other, '<': v < other, '>': v > other, '<=': v <= other, '>=': v >= other}[rel]
            return not holds
        return True
    up, down = kind[0] == '+', kind[0] == '-'
    if kind == '?':
        return True
    if rel == '==':
        if other == 0:
            return up
        if other == 'other':
            return down          # blocked while full
        return True
    if rel in ('<', '<='):
        return up
    if rel in ('>', '>='):
        return down
    return True


def check(prog, rep):
    reads = Reads(prog)
    LA = locks.LockAnalysis(prog)
    cvs = {}
    for c in prog.classes.values():
        for fl in c['fields']:
            if CV.match(fl['ty']):
                cvs.setdefault(c['qn'] + '::' + fl['n'], c)
    for q, n in CONFIRMED.items():
        prog.need_class(q)
    # ---- waits
    waits = defaultdict(list)          # cv -> [(fn, node, atoms, readfields)]
    lifted = defaultdict(set)          # fn id -> cvs: calling it waits without re-testing
    users = [f for f in prog.fns.values()
             if any(f.k(n) == 'CXXMemberCallExpr' and cv_call(f, n) for n in f.calls())]
    notifies = defaultdict(list)
    for f in users:
        for n in f.calls():
            c = cv_call(f, n)
            if c and c[1] in ('notify_one', 'notify_all'):
                notifies[c[0]].append((f, n, c[1]))

    def wait_sites(f):
        out = []
        for n in f.calls():
            c = cv_call(f, n)
            if c and c[1] in ('wait', 'wait_for', 'wait_until'):
                pred = None
                a = f.args(n)
                want = 2 if c[1] == 'wait' else 3
                if len(a) >= want:
                    pred = a[want - 1]
                out.append((n, c[0], pred))
            else:
                for g in prog.targets(f, n):
                    for cv in lifted.get(g.id, ()):
                        out.append((n, cv, None))
        return out

    def closed(f):
        return f.access == 'private' and not f.d.get('virt') and f.kind == 'method' and prog.callers.get(f.id) or f.kind == 'lambda' and False

    todo = list(users)
    seen_lift = set()
    judged = set()
    while todo:
        f = todo.pop(0)
        if f.cfg is None or f.id in judged:
            continue
        sites = wait_sites(f)
        if not sites:
            continue
        for n, cv, pred in sites:
            w = f.cfg.where(n)
            ats, rd = [], set()
            if pred is not None:
                lam = local_lambda(prog, f, pred)
                if lam is not None:
                    rd = reads.fn(lam, 0)
                    for i, x in enumerate(lam.nodes):
                        if x['k'] == 'ReturnStmt' and lam.kids(i):
                            ats += atoms(prog, lam, lam.kids(i)[0], False)
                else:
                    rd = reads.of(f, pred)
            elif w is not None:
                for cond, val, b in control_conditions(f, w[0]):
                    rd |= reads.of(f, cond)
                    ats += atoms(prog, f, cond, val)
            cls = cv.rsplit('::', 1)[0]
            rd = {x for x in rd if x[0].rsplit('::', 1)[0] == cls and x[0] not in cvs}
            ats = [a for a in ats if a[0].rsplit('::', 1)[0] == cls]
            waits[cv].append((f, n, ats, rd, pred))
        unt = untested(prog, reads, f, sites)
        if unt:
            if closed(f):
                for g, _ in prog.callers[f.id]:
                    pass
                new = {cv for cv, _, _ in unt} - lifted[f.id]
                if new:
                    lifted[f.id] |= new
                    for g, _ in prog.callers[f.id]:
                        judged.discard(g.id)
                        todo.append(g)
            else:
                for cv, n, what in unt:
                    rep.violation('%s|%s|untested' % (cv, f.root().qn), f.loc(n),
                                  '%s %s after waiting on %s without testing again what it waits for: a spurious or stolen wake-up lets it continue' % (f.dn, what, cv))
        judged.add(f.id)
    for cv, ws in sorted(waits.items()):
        for f, n, ats, rd, pred in ws:
            rep.count('wait sites')
            rep.sample('waits', '%s at %s while %s' % (cv.split('::')[-1], f.loc(n), ', '.join('%s %s %s' % (a[0].split('::')[-1], a[1], a[2]) for a in ats) or ', '.join(sorted({x[0].split('::')[-1] for x in rd})) or 'nothing'), 40)
            if not rd and f.id not in lifted:
                rep.violation('%s|%s|nothing' % (cv, f.root().qn), f.loc(n), '%s waits on %s without any condition on the object\'s state' % (f.dn, cv))
    # ---- writers
    pred_fields = {}      # cv -> {field: (set of atoms, structural only)}
    for cv, ws in waits.items():
        pf = {}
        for f, n, ats, rd, pred in ws:
            for m, how in rd:
                e = pf.setdefault(m, [set(), True])
                if how != 'size':
                    e[1] = False
                e[0] |= {a for a in ats if a[0] == m}
        pred_fields[cv] = pf
    by_class = defaultdict(list)
    for cv in pred_fields:
        by_class[cv.rsplit('::', 1)[0]].append(cv)
    interesting = {m for pf in pred_fields.values() for m in pf}
    W = Writers(prog, LA, pred_fields, interesting, rep)
    for f in prog.fns.values():
        if f.cfg is None or f.kind == 'ctor' or f.d.get('implicit') or f.d.get('defaulted'):
            continue
        if LA.is_closed(f) and f.kind != 'lambda' and prog.callers.get(f.id):
            continue          # judged at its callers
        if f.kind == 'lambda':
            continue
        for cv, n, why in W.judge(f):
            rep.violation('%s|%s|%s' % (cv, f.root().qn, why.split(':')[0]), f.loc(n), '%s %s' % (f.dn, why.split(':', 1)[1]))
    # ---- notify_one with several kinds of waiters
    for cv, ws in waits.items():
        kinds = {frozenset((a[0], a[1], a[2]) for a in ats) or frozenset(rd) for f, n, ats, rd, pred in ws if ats or rd}
        # a wait that looks at one more condition (a time limit) is the same kind
        kinds = {k for k in kinds if not any(k < o for o in kinds)}
        if len(kinds) > 1:
            for f, n, how in notifies[cv]:
                if how == 'notify_one':
                    rep.violation('%s|%s|one' % (cv, f.root().qn), f.loc(n), '%s wakes one thread, but threads wait on %s for different conditions: the wake-up can go to one that cannot use it' % (f.dn, cv))
    rep.count('notify sites', sum(len(v) for v in notifies.values()))
    rep.count('condition variables', len(cvs))
    rep.need('condition variables', 4)
    barriers(prog, rep)
    return ('For every wait on a condition variable: the wait is controlled by a condition over the state of the object, and on every path from the wait a condition over that state is '
            'evaluated again before the state is changed or the function returns. For every function that makes a change that can end such a wait (direction derived from the wait condition): '
            'on every path to a normal return the same condition variable is notified, in or after the critical section that made the change, with notify_all where one wake-up does not suffice. '
            'Turnstile users: every thread that passes a turnstile semaphore opens it again.')


def untested(prog, reads, f, sites):
    """[(cv, wait node, what)] for uses of the state, or returns, after a wait that nothing re-tested."""
    cfg = f.cfg
    wn = {n: (cv, pred) for n, cv, pred in sites}
    found = []

    def cls_of(cv):
        return cv.rsplit('::', 1)[0]

    memo = {}

    def cond_reads(cond):
        if cond not in memo:
            direct = {x[0] for x in reads.of(f, cond, 0, False)}
            lv = {f.nodes[x]['v'] for x in f.walk(cond) if f.k(x) == 'DeclRefExpr' and 'v' in f.nodes[x]}
            memo[cond] = direct, lv
        return memo[cond]

    # local variables that hold something read from the state
    derived = set()
    for i, d in enumerate(f.nodes):
        if d['k'] == 'DeclStmt':
            derived |= {v['id'] for v in d.get('vars', ()) if 'init' in v and reads.of(f, v['init'], 0, False)}
        elif d['k'] == 'BinaryOperator' and d.get('op') == '=':
            l = f.strip(f.kids(i)[0])
            if 'v' in f.nodes[l] and reads.of(f, f.kids(i)[1], 0, False):
                derived.add(f.nodes[l]['v'])

    def transfer(st, blk, record=False):
        # st: frozenset of (cv, node) untested waits, plus ('stale', var): read before the latest wait
        for e in blk.elems:
            if not isinstance(e, int):
                continue
            if e in wn and wn[e][1] is None:
                st = st | {('stale', v) for v in derived} | {(wn[e][0], e)}
                continue
            d = f.nodes[e]
            un = [x for x in st if x[0] != 'stale']
            if not un:
                continue
            if d['k'] == 'DeclStmt':
                for v in d.get('vars', ()):
                    if 'init' in v and reads.of(f, v['init'], 0, False):
                        st = st - {('stale', v['id'])}
            if d['k'] == 'BinaryOperator' and d.get('op') == '=':
                l = f.strip(f.kids(e)[0])
                if 'v' in f.nodes[l] and reads.of(f, f.kids(e)[1], 0, False):
                    st = st - {('stale', f.nodes[l]['v'])}
            if record and d['k'] == 'MemberExpr' and d.get('fld') and locks.usage(f, e) == 'w':
                for cv, n in un:
                    if d['m'].rsplit('::', 1)[0] == cls_of(cv) and not CV.match(f.t(e)) and not locks.is_mutex_type(f.t(e)):
                        found.append((cv, n, 'changes ' + d['n']))
            if record and f.is_call(e):
                pass
        if record:
            for cv, n in [x for x in st if x[0] != 'stale']:
                if blk.id in exits:
                    # a return whose value is the re-test
                    r = [e for e in blk.elems if isinstance(e, int) and f.k(e) == 'ReturnStmt']
                    if r and f.kids(r[-1]) and cls_of(cv) in {x[0].rsplit('::', 1)[0] for x in reads.of(f, f.kids(r[-1])[0], 0, True)}:
                        continue
                    found.append((cv, n, 'returns'))
        return st

    def edge(st, blk, lab):
        if blk.cond is not None and len(blk.succs) > 1 and any(x[0] != 'stale' for x in st):
            direct, lv = cond_reads(blk.cond)
            fresh = {v for v in lv & derived if ('stale', v) not in st}
            ok_classes = {m.rsplit('::', 1)[0] for m in direct}
            return frozenset(x for x in st if x[0] == 'stale' or not (cls_of(x[0]) in ok_classes or fresh))
        return st

    exits = set(cfg.normal_exit_preds())
    inn, _ = cfg.solve(frozenset(), transfer, lambda a, b: a | b, edge)
    for b, st in inn.items():
        transfer(st, cfg.blocks[b], True)
    res = []
    for x in found:
        if x not in res:
            res.append(x)
    # one report per wait
    by = {}
    for cv, n, what in res:
        by.setdefault((cv, n), what)
    return [(cv, n, what) for (cv, n), what in by.items()]


class Writers:
    """Which condition variables are still to be notified at each point."""

    def __init__(self, prog, LA, pred_fields, interesting, rep):
        self.P, self.LA, self.pf, self.interesting, self.rep = prog, LA, pred_fields, interesting, rep
        self.summ = {}
        self.stack = set()

    def summary(self, g, depth=0):
        """(may leave pending: {(cv, multi)}, must notify: {cv: how}) of a helper on the same object."""
        if g.id in self.summ:
            return self.summ[g.id]
        if g.id in self.stack or g.cfg is None or depth > 6:
            return frozenset(), {}
        self.stack.add(g.id)
        pend, must, _ = self.run(g, depth + 1)
        self.stack.discard(g.id)
        self.summ[g.id] = (pend, must)
        return self.summ[g.id]

    def relevant(self, g):
        return g.cls is not None and any(cv.rsplit('::', 1)[0] == g.cls for cv in self.pf)

    def run(self, f, depth=0):
        cfg = f.cfg
        P = self.P
        found = []

        def locked(n):
            h = self.LA.held_at(f, n)
            return bool(h) and bool(locks.locks_of(h))

        def transfer(st, blk, record=False):
            # st: (pending frozenset of (cv, node, multi, locked), pre frozenset of (cv, how))
            pend, pre, done = st
            for i, e in enumerate(blk.elems):
                if isinstance(e, dict):
                    if 'dtor' in e and locks.is_lock_type(f.types[e['t']]):
                        pre = frozenset()
                    continue
                d = f.nodes[e]
                k = d['k']
                if k == 'MemberExpr' and d.get('fld') and d['m'] in self.interesting:
                    kind = write_kind(f, e)
                    if kind is not None:
                        for cv, pf in self.pf.items():
                            if d['m'] not in pf:
                                continue
                            ats, structural = pf[d['m']]
                            if structural and direct_elem(f, e):
                                continue
                            if ats and not any(enables(a, kind) for a in ats):
                                continue
                            multi = not (kind in ('+', '-'))
                            boolish = isinstance(kind, tuple)
                            if record:
                                self.rep.count('enabling writes')
                            pr = dict(pre)
                            if cv in pr and (pr[cv] == 'notify_all' or not multi or boolish and False):
                                continue
                            pend = pend | {(cv, e, multi, locked(e))}
                elif k == 'CXXMemberCallExpr' and cv_call(f, e):
                    cv, name = cv_call(f, e)
                    if name in ('notify_one', 'notify_all'):
                        for p in pend:
                            if p[0] == cv:
                                if not p[3] and record:
                                    found.append((cv, p[1], 'unlocked:changes %s without holding the lock and notifies %s without having acquired it since: a thread that has just tested the old value misses the wake-up' % (f.nodes[p[1]].get('n', 'the state'), cv)))
                                if p[2] and name == 'notify_one' and self.waiters_multi(cv) and record:
                                    found.append((cv, p[1], 'multi:makes a change that can release several threads but wakes only one of those waiting on %s' % cv))
                        pend = frozenset(p for p in pend if p[0] != cv)
                        done = done | {(cv, name)}
                        if locked(e):
                            pre = pre | {(cv, name)}
                elif f.is_call(e):
                    if k == 'CXXMemberCallExpr' and (locks.is_lock_type(f.t(f.strip(f.obj(e)))) if f.obj(e) is not None else False):
                        nm = d.get('f', '').split('::')[-1]
                        if nm == 'unlock':
                            pre = frozenset()
                        elif nm == 'lock':
                            pend = frozenset((a, b, c, True) for a, b, c, _ in pend)
                    for g in P.targets(f, e):
                        if g.id != f.id and (self.relevant(g) and self.LA.is_closed(g)):
                            sp, sm = self.summary(g, depth)
                            for cv, how in sm.items():
                                pend = frozenset(p for p in pend if p[0] != cv)
                                done = done | {(cv, how)}
                            for cv, multi in sp:
                                if not any(x[0] == cv for x in pre):
                                    pend = pend | {(cv, e, multi, locked(e))}
                    # a closure that is run here (scope exit actions included) may notify
                if k == 'DeclStmt':
                    for v in d.get('vars', ()):
                        if locks.is_lock_type(f.types[v['t']]) and 'init' in v:
                            # an acquisition publishes earlier writes made without the lock
                            pend = frozenset((a, b, c, True) for a, b, c, _ in pend)
            return (pend, pre, done)

        def join(a, b):
            return (a[0] | b[0], a[1] & b[1], a[2] & b[2])
        init = (frozenset(), frozenset(), frozenset())
        inn, out = cfg.solve(init, lambda s, b: transfer(s, b), join)
        for b, st in inn.items():
            transfer(st, cfg.blocks[b], True)
        pend, must = set(), None
        exit_pend = set()
        for b in cfg.normal_exit_preds():
            if b not in out:
                continue
            for p in out[b][0]:
                exit_pend.add(p)
                pend.add((p[0], p[2]))
            m = dict(out[b][2])
            must = m if must is None else {k: v for k, v in must.items() if k in m}
        # reaching the exit by falling off a conditional edge is covered by the blocks above
        return frozenset(pend), must or {}, (found, exit_pend)

    def waiters_multi(self, cv):
        return True

    def judge(self, f):
        if not any(f.nodes[i]['k'] == 'MemberExpr' and f.nodes[i].get('m') in self.interesting or f.is_call(i) for i in range(len(f.nodes))):
            return []
        touches = any(d['k'] == 'MemberExpr' and d.get('fld') and d['m'] in self.interesting for d in f.nodes)
        if not touches:
            ok = False
            for n in f.calls():
                for g in self.P.targets(f, n):
                    if self.relevant(g) and self.LA.is_closed(g):
                        ok = True
            if not ok:
                return []
        pend, must, (found, exit_pend) = self.run(f)
        out = list(found)
        for p in exit_pend:
            out.append((p[0], p[1], 'missing:changes %s on a path that returns without notifying %s: a thread waiting there is left asleep' % (f.nodes[p[1]].get('n') or f.nodes[p[1]].get('f', '').split('::')[-1] or 'the state', p[0])))
        return out


def barriers(prog, rep):
    """A thread that passes a turnstile (decrement of a semaphore outside any lock) opens it again before doing anything else that can block."""
    SEM = 'Balau::Concurrent::Semaphore'
    LA = locks.LockAnalysis(prog)
    for f in prog.fns.values():
        if f.cls == SEM or f.cfg is None or f.kind in ('ctor', 'dtor'):
            continue
        ops = []
        for n in f.calls():
            if f.k(n) == 'CXXMemberCallExpr' and f.nodes[n].get('cls') == SEM and f.obj(n) is not None:
                p = f.path(f.obj(n))
                if p is not None and p[0] == 'this':
                    ops.append((n, p, f.callee(n).split('::')[-1]))
        if not ops or f.cls is None or not any(re.search(r'Semaphore$', fl['ty']) for c in prog.cls_by_qn.get(f.cls, ()) for fl in c['fields']):
            continue
        rep.count('turnstile functions')
        opn = {n: (p, o) for n, p, o in ops}

        def transfer(st, blk, record=False):
            for e in blk.elems:
                if isinstance(e, int) and e in opn:
                    p, o = opn[e]
                    held = bool(locks.locks_of(LA.held_at(f, e) or ()))
                    if o == 'decrement' and not held:
                        if record and st:
                            for q, n in st:
                                rep.violation('%s|turnstile' % f.qn, f.loc(n), '%s passes the turnstile %s and then waits on another before opening it again: the other threads stay blocked' % (f.dn, '.'.join(q[1:])))
                        st = st | {(p, e)}
                    elif o == 'increment':
                        st = frozenset(x for x in st if x[0] != p)
            return st
        inn, out = f.cfg.solve(frozenset(), transfer, lambda a, b: a | b)
        for b, st in inn.items():
            transfer(st, f.cfg.blocks[b], True)
        for b in f.cfg.normal_exit_preds():
            for p, n in out.get(b, ()):
                rep.violation('%s|turnstile' % f.qn, f.loc(n), '%s passes the turnstile %s and returns without opening it again: the other threads stay blocked' % (f.dn, '.'.join(p[1:])))
        # under the lock: opening one turnstile goes with closing the other, in each phase
        locked_ops = [(n, p, o) for n, p, o in ops if locks.locks_of(LA.held_at(f, n) or ())]
        free = [(n, p, o) for n, p, o in ops if not locks.locks_of(LA.held_at(f, n) or ())]
        sems = {p for _, p, _ in ops}
        for s in sems:
            dec = sum(1 for _, p, o in locked_ops if p == s and o == 'decrement')
            inc = sum(1 for _, p, o in locked_ops if p == s and o == 'increment')
            if len(sems) == 2 and locked_ops and dec != inc:
                rep.violation('%s|phases' % f.qn, f.loc(), '%s closes the turnstile %s %d times and opens it %d times over one cycle' % (f.dn, '.'.join(s[1:]), dec, inc))
            if len(sems) == 2 and locked_ops and not any(p == s for _, p, _ in free):
                rep.violation('%s|unused' % f.qn, f.loc(), '%s never waits at the turnstile %s' % (f.dn, '.'.join(s[1:])))
    rep.need('turnstile functions', 1)
