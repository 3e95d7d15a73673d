"""C01: shared state of a locked object is touched only under its lock (Eraser style lock sets, decided statically)."""
import re
from collections import defaultdict

import flags
import locks
from prog import SMART

# Confirmed by reading: classes whose objects are used by several threads. (class, what happens if it owns no lock)
CONFIRMED = ['Balau::Container::ArrayBlockingQueue', 'Balau::Container::SynchronizedQueue', 'Balau::Concurrent::Semaphore',
             'Balau::Concurrent::CyclicBarrier', 'Balau::Concurrent::LazyValue',
             'Balau::Logger',
             'Balau::LoggingSystem::LoggingState', 'Balau::LoggingSystem::OStreamLoggingStream', 'Balau::LoggingSystem::FileLoggingStream']

# Further classes that use their own lock for all of their changing state (the other lock owners document single-threaded phases).
ALSO = ['Balau::Concurrent::SingleTimeExecutor', 'Balau::Testing::FileTestWriter', 'Balau::Network::Http::Impl::ClientSessions',
        'Balau::Network::Http::Impl::HttpSessions']

# Internal classes whose callers are all inside the library (no user code can call them).
CLOSED_CLASSES = {'Balau::LoggingSystem::LoggingState'}

# A logger is shared from the moment it is configured; until then only the configuring thread sees it. Its users' side is judged.
LOGGER = 'Balau::Logger'

CONST_T = re.compile(r'^const ')


def const_type(t):
    t = t.strip()
    if t.endswith('*const') or t.endswith('* const'):
        return True
    return t.startswith('const ') and not t.endswith('*') and not t.endswith('&')


class Access:
    __slots__ = ('f', 'n', 'use', 'locks', 'base', 'field', 'cls', 'flags')

    def __init__(self, f, n, use, lk, base, field, cls, flags):
        self.f, self.n, self.use, self.locks, self.base, self.field, self.cls, self.flags = f, n, use, lk, base, field, cls, flags


def spine_fields(f, n):
    """Member expressions that make up the lvalue n, innermost object last."""
    out = []
    while n is not None:
        n = f.strip_all(n)
        k = f.k(n)
        d = f.nodes[n]
        if k == 'MemberExpr' and d.get('fld'):
            out.append(n)
            n = f.kids(n)[0] if f.kids(n) else None
        elif k == 'UnaryOperator' and d.get('op') in ('*', '&'):
            n = f.kids(n)[0]
        elif k == 'ArraySubscriptExpr':
            n = f.kids(n)[0]
        elif k == 'CXXOperatorCallExpr' and d.get('op') in ('*', '->', '[]') and len(f.kids(n)) > 1:
            n = f.kids(n)[1]
        elif k == 'CXXMemberCallExpr' and d.get('f', '').split('::')[-1] in locks.ELEM_METHODS | {'begin', 'end', 'find'} and f.obj(n) is not None:
            n = f.obj(n)
        else:
            return out
    return out


def object_fields(prog):
    """(class, field) -> info, for every class that owns a mutex or is confirmed as shared."""
    out = {}
    owners = defaultdict(set)
    by_base = defaultdict(list)
    for c in prog.classes.values():
        ms = [fl['n'] for fl in c['fields'] if locks.is_mutex_type(fl['ty'])]
        if ms:
            owners[c['qn']] |= set(ms)
    # mutexes inherited from a base protect the derived fields too
    changed = True
    while changed:
        changed = False
        for c in prog.classes.values():
            for b in c['bases']:
                if b.get('qn') in owners and not owners[b['qn']] <= owners[c['qn']]:
                    owners[c['qn']] |= owners[b['qn']]
                    changed = True
    for q in [q for q, m in owners.items() if not m]:
        del owners[q]
    for c in prog.classes.values():
        if c['qn'] in CONFIRMED or c['qn'] in ALSO:
            for fl in c['fields']:
                t = fl['ty']
                if locks.is_mutex_type(t) or locks.SYNC_TYPES.search(t) and not t.startswith('std::map') or locks.is_lock_type(t):
                    continue
                if re.match(r'^(std|boost)::j?thread$', t) or re.sub(r'<.*', '', t) in owners:
                    continue      # started and joined by the owner; or synchronises itself
                out[(c['qn'], fl['n'])] = {'type': t, 'const': const_type(t), 'ref': fl['cat'] == 'ref', 'line': fl['line'], 'file': c['file']}
    return out, owners


def collect(prog, fields, LA):
    acc = []
    names = defaultdict(set)
    for c, n in fields:
        names[n].add(c)
    for f in prog.fns.values():
        if f.d.get('defaulted') or f.d.get('implicit'):
            continue
        vars_ptr = None
        for i, d in enumerate(f.nodes):
            hits = []
            if d['k'] == 'MemberExpr' and d.get('fld') and d['n'] in names:
                c = d['m'].rsplit('::', 1)[0]
                if (c, d['n']) in fields:
                    hits.append((c, d['n'], i, locks.usage(f, i), f.path(f.kids(i)[0]) if f.kids(i) else ('this',), d.get('arrow')))
            elif d['k'] == 'DeclRefExpr' and 'v' in d:
                ff, v = f.lookup_var(d['v'])
                if v is not None and 'init' in v and not v.get('param'):
                    is_ref = v.get('ref')
                    is_ptr = bool(SMART.match(v['type'])) or v['type'].endswith('*')
                    if is_ref or is_ptr:
                        for m in spine_fields(ff, v['init']):
                            md = ff.nodes[m]
                            c = md['m'].rsplit('::', 1)[0]
                            if (c, md['n']) in fields:
                                if is_ptr and not is_ref:
                                    if m != ff.strip_all(v['init']):
                                        continue
                                    u = 'w'
                                    # copying the pointer itself is not an access to what it points at
                                    p = f.parents.get(i)
                                    while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
                                        p = f.parents.get(p)
                                    if p is None or not (f.k(p) in ('UnaryOperator', 'CXXOperatorCallExpr', 'MemberExpr')):
                                        continue
                                    if f.k(p) == 'CXXOperatorCallExpr' and f.nodes[p].get('op') not in ('*', '->'):
                                        continue
                                    if f.k(p) == 'MemberExpr' and not f.nodes[p].get('arrow'):
                                        continue
                                else:
                                    u = locks.usage(f, i)
                                hits.append((c, md['n'], i, u, ff.path(ff.kids(m)[0]) if ff.kids(m) else ('this',), md.get('arrow')))
                                break
            for c, n, node, use, base, arrow in hits:
                if base is not None and arrow and base != ('this',):
                    base = f._deref(base)
                acc.append((f, node, use, base, n, c))
    return acc


def under_construction(prog, f, base):
    """Access by a constructor or destructor to its own object (not from a closure, which may run on another thread)."""
    return f.kind in ('ctor', 'dtor') and base is not None and base[0] == 'this'


def thread_classes(prog):
    return {c['qn'] for c in prog.classes.values() if any(re.search(r'std::(thread|jthread)\b|boost::thread\b', fl['ty']) for fl in c['fields'])}


def flag_facts(prog, f):
    """block -> set of const bool members known true on entry."""
    cfg = f.cfg

    def edge(st, blk, lab):
        if lab is True or lab is False:
            n = f.strip(blk.cond)
            val = lab
            while f.k(n) == 'UnaryOperator' and f.nodes[n].get('op') == '!':
                n = f.strip(f.kids(n)[0])
                val = not val
            if f.k(n) == 'MemberExpr' and f.nodes[n].get('fld') and f.types[f.nodes[n]['vt']].startswith('const bool') and val:
                p = f.path(n)
                if p:
                    return st | {p}
        return st
    inn, _ = cfg.solve(frozenset(), lambda s, b: s, lambda a, b: a & b, edge)
    return inn


def before_join(f, n):
    """Is node n of a destructor evaluated before the background thread has been joined (or is it never joined)?"""
    cfg = f.cfg

    def tr(st, blk):
        for e in blk.elems:
            if isinstance(e, int) and f.k(e) == 'CXXMemberCallExpr' and re.match(r'(std|boost)::\w*thread::join$', f.nodes[e].get('f', '')):
                st = True
        return st
    inn, _ = cfg.solve(False, tr, lambda a, b: a and b)
    w = cfg.where(n)
    if w is None or w[0] not in inn:
        return False
    st = inn[w[0]]
    for e in cfg.blocks[w[0]].elems[:w[1]]:
        if isinstance(e, int) and f.k(e) == 'CXXMemberCallExpr' and re.match(r'(std|boost)::\w*thread::join$', f.nodes[e].get('f', '')):
            st = True
    return not st


def direct_use(f, n):
    """How a container field is used directly: 'size' (its extent is read), 'elem' (an element), or None."""
    p = f.parents.get(n)
    while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
        p = f.parents.get(p)
    if p is None:
        return None
    d = f.nodes[p]
    if f.k(p) == 'MemberExpr' and 'fn' in d:
        if d['n'] in ('size', 'capacity', 'max_size', 'empty'):
            return 'size'
        if d['n'] in ('at', 'front', 'back', 'operator[]', 'data'):
            return 'elem'
    if f.k(p) == 'CXXOperatorCallExpr' and d.get('op') == '[]':
        return 'elem'
    return None


def immutable_member_read(prog, f, n):
    """Is the field only used to reach a member of it that nothing but constructors and assignments ever writes?"""
    c = f.parents.get(n)
    while c is not None and f.k(c) in ('ImplicitCastExpr', 'ParenExpr'):
        c = f.parents.get(c)
    if c is None or f.k(c) != 'MemberExpr':
        return False
    d = f.nodes[c]
    if 'fn' in d:
        tgt = prog.fns.get(d['fnid'])
        if tgt is None or not tgt.d.get('const'):
            return False
        rp = prog.return_path(tgt)
        if not rp or rp[0] != 'this' or len(rp) not in (2, 3) or rp[2:] not in ((), ('*',)):
            return False
        cls, m = tgt.cls, rp[1]
    elif d.get('fld'):
        cls, m = d['m'].rsplit('::', 1)
    else:
        return False
    if not hasattr(prog, '_mut_fields'):
        prog._mut_fields = set()
        for g in prog.fns.values():
            if g.kind in ('ctor', 'dtor') or g.d.get('copya') or g.d.get('movea'):
                continue
            for i, dd in enumerate(g.nodes):
                if dd['k'] == 'MemberExpr' and dd.get('fld') and dd['m'] not in prog._mut_fields and locks.usage(g, i) in ('w', 'ref', 'ret', 'alias'):
                    prog._mut_fields.add(dd['m'])
    return cls + '::' + m not in prog._mut_fields


def user_side(prog):
    """Functions a user's log call can run without entering the locked logging state."""
    todo = [f for f in prog.fns.values() if f.cls == LOGGER and f.access == 'public' and f.kind not in ('ctor', 'dtor')]
    seen = {f.id for f in todo}
    while todo:
        f = todo.pop()
        for n in f.calls():
            for g in prog.targets(f, n):
                if g.id not in seen and g.cls not in CLOSED_CLASSES:
                    seen.add(g.id)
                    todo.append(g)
    return seen


def check(prog, rep):
    LA = locks.LockAnalysis(prog, closed=lambda f: f.cls in CLOSED_CLASSES)
    fields, owners = object_fields(prog)
    present = {c['qn'] for c in prog.classes.values()}
    for q in CONFIRMED:
        prog.need_class(q)
    users = user_side(prog)
    raw = collect(prog, fields, LA)
    threads = thread_classes(prog)
    groups = defaultdict(list)
    for f, n, use, base, field, cls in raw:
        info = fields[(cls, field)]
        if LA.is_dead(f):
            continue
        exempt = under_construction(prog, f, base)
        if cls == LOGGER and f.root().id not in users and not LA.held_at(f, n):
            exempt = True
        if exempt and cls in threads and f.kind == 'dtor' and before_join(f, n):
            exempt = False
        groups[(cls, field)].append((f, n, use, base, exempt))
    # functions of a thread class that the constructor runs before the thread starts are still checked: they need the lock
    guarded = 0
    ffs = {}
    for (cls, field), accs in sorted(groups.items()):
        info = fields[(cls, field)]
        if info['const']:
            continue
        wr = [a for a in accs if (not a[4] or cls == LOGGER and a[0].kind not in ('ctor', 'dtor')) and a[2] in ('w', 'ref', 'ret')]
        if not wr:
            continue
        fixed_extent = re.match(r'^std::(vector|array)<', info['type']) and all(direct_use(a[0], a[1]) == 'elem' for a in wr)
        guarded += 1
        rep.count('guarded fields')
        # lock facts at every access, relative to the object
        per = []
        for f, n, use, base, exempt in accs:
            if exempt:
                continue
            held = LA.held_at(f, n)
            if held is None:
                continue
            rep.count('accesses checked')
            if fixed_extent and direct_use(f, n) == 'size':
                continue       # the extent never changes after construction
            lk = set()
            for p, mode in locks.locks_of(held):
                if p[0].startswith('::'):
                    lk.add((p, mode))
                elif base is not None and p[:len(base)] == base and len(p) > len(base):
                    lk.add((('obj',) + p[len(base):], mode))
            bflags = set()
            if f.cfg is not None:
                ff = flag_facts(prog, f)
                w = f.cfg.where(n)
                if w and w[0] in ff:
                    bflags = {x for x in ff[w[0]] if base is not None and x[:len(base)] == base}
            per.append((f, n, use, lk, base, bflags))
        # the guard: the lock most accesses hold
        cnt = defaultdict(int)
        for f, n, use, lk, base, bflags in per:
            for p, m in lk:
                cnt[p] += 1
        guard = max(sorted(cnt), key=lambda p: cnt[p]) if cnt else None
        short = cls.split('::')[-1]
        if guard is not None:
            rep.sample('guards', '%s.%s by %s' % (short, field, '.'.join(guard)), 60)
        for f, n, use, lk, base, bflags in per:
            ok = False
            for p, m in lk:
                if p == guard and (m == 'X' or use in ('r', 'retc')):
                    ok = True
            if not ok and bflags:
                ok = True      # the object was constructed as not needing a lock
                rep.count('accesses of objects constructed as thread safe')
            if ok and use == 'ret':
                ok = False
            if not ok and use in ('r', 'ret', 'retc') and base is not None and f.cfg is not None:
                # safely published: an atomic flag of the object was seen set with acquire ordering (C03 judges the publisher)
                if f.id not in ffs:
                    ffs[f.id] = flags.FlagFacts(f, lambda m, f=f: any(md == 'X' for _, md in locks.locks_of(LA.held_at(f, m) or ())))
                if any(x[0] == 'T' and x[-1] and x[1][:len(base)] == base for x in ffs[f.id].at(n)):
                    ok = True
                    rep.count('accesses after publication by an atomic flag')
            if not ok and use in ('r', 'retc') and immutable_member_read(prog, f, n):
                ok = True
            if not ok:
                what = {'w': 'writes', 'ref': 'takes the address of', 'ret': 'returns a reference to', 'alias': 'refers to'}.get(use, 'reads')
                if use == 'alias':
                    continue    # judged where the alias is used
                root = f.root()
                rep.violation('%s.%s|%s' % (short, field, root.qn.split('::', 1)[-1]), f.loc(n),
                              '%s %s %s.%s without holding its lock%s (held: %s)' % (
                                  f.dn, what, short, field, ' ' + '.'.join(guard) if guard else '', ', '.join('.'.join(p) for p, _ in sorted(lk)) or 'none'))
    for q in CONFIRMED:
        if not any(k[0] == q for k in groups):
            pass
    rep.need('guarded fields', 12)
    rep.need('accesses checked', 60)
    return ('For every class that owns a mutex (and the confirmed shared classes), every field that is modified outside construction must be '
            'accessed with one common mutex of the same object (or one global mutex) held, exclusively for writes. Lock sets are computed by a '
            'must dataflow over the clang CFG of every function, closure and instantiation; the locks held on entry to private helpers are the '
            'intersection over all their call sites; closures inherit locks only when run before the call returns.')
