"""C11: hand written copy and move operations transfer every member, and clone functions pass the whole object on."""
import re

import locks

ALL = '*'
NOSTATE = re.compile(r'^(const )?(std|boost)::(recursive_|shared_|timed_|recursive_timed_)?mutex|condition_variable')
CONFIRMED = ['Balau::Resource::File', 'Balau::Container::ObjectTrieNode', 'Balau::Logger', 'Balau::Testing::Impl::TestResult', 'Balau::Resource::ZipFile']


class Transfer:
    def __init__(self, prog):
        self.P = prog
        self.memo = {}
        self.rmemo = {}

    def fields_read(self, g, depth=0):
        """Members of the object a method reads (transitively through its own object)."""
        if g.id in self.rmemo:
            return self.rmemo[g.id]
        self.rmemo[g.id] = set()
        out = set()
        for n, d in enumerate(g.nodes):
            if d['k'] == 'MemberExpr' and d.get('fld'):
                p = g.path(n)
                if p and p[0] == 'this' and len(p) > 1:
                    out.add(p[1])
            elif g.is_call(n) and depth < 5:
                o = g.obj(n)
                if o is not None and g.path(o) == ('this',):
                    for h in self.P.targets(g, n):
                        out |= self.fields_read(h, depth + 1)
            elif d['k'] == 'CXXThisExpr':
                q = g.parents.get(n)
                while q is not None and g.k(q) in ('ParenExpr', 'ImplicitCastExpr'):
                    q = g.parents.get(q)
                if q is None or g.k(q) not in ('MemberExpr',):
                    if q is not None and g.k(q) == 'UnaryOperator' and g.nodes[q].get('op') == '*':
                        out.add(ALL)
        self.rmemo[g.id] = out
        return out

    def mentions(self, f, n, src, taint):
        """Members of the source an expression takes its value from."""
        out = set()
        for x in f.walk(n):
            d = f.nodes[x]
            if d['k'] == 'DeclRefExpr' and d.get('v'):
                if d['v'] == src:
                    q = f.parents.get(x)
                    via = x
                    while q is not None and f.k(q) in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
                        via = q
                        q = f.parents.get(q)
                    if q is not None and f.k(q) == 'MemberExpr':
                        m = f.nodes[q]
                        if m.get('fld'):
                            out.add(m['n'])
                        else:
                            h = self.P.fns.get(m.get('fnid'))
                            out |= self.fields_read(h) if h is not None else {ALL}
                    elif q is not None and f.k(q) == 'UnaryOperator' and f.nodes[q].get('op') == '&':
                        pass
                    elif q is not None and f.k(q) == 'CallExpr' and f.nodes[q].get('f') in ('std::move', 'std::forward', 'std::as_const'):
                        r = f.parents.get(q)
                        while r is not None and f.k(r) in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
                            r = f.parents.get(r)
                        if r is not None and f.k(r) == 'MemberExpr' and f.nodes[r].get('fld'):
                            out.add(f.nodes[r]['n'])
                        else:
                            out.add(ALL)
                    else:
                        out.add(ALL)
                elif d['v'] in taint:
                    out |= taint[d['v']]
        return out

    def tainted(self, f, src):
        """Local variables that take their value from members of the source (flow insensitive)."""
        t = {}
        while True:
            old = {k: set(v) for k, v in t.items()}
            for n, d in enumerate(f.nodes):
                if d['k'] == 'DeclStmt':
                    for v in d.get('vars', ()):
                        if 'init' in v:
                            m = self.mentions(f, v['init'], src, t)
                            if m:
                                t.setdefault(v['id'], set()).update(m)
                                for b in v.get('bind', ()):
                                    t.setdefault(b, set()).update(m)
                elif d.get('asg') or (d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '='):
                    c = f.kids(n)
                    l, r = (c[0], c[1]) if d.get('asg') else (c[1], c[2]) if len(c) > 2 else (None, None)
                    if l is None:
                        continue
                    p = f.path(l)
                    if p and p[0].startswith('v:') and p[0] != 'v:' + src:
                        m = self.mentions(f, r, src, t)
                        if m:
                            t.setdefault(p[0][2:], set()).update(m)
                elif d['k'] == 'CXXMemberCallExpr' and f.obj(n) is not None:
                    p = f.path(f.obj(n))
                    if p and p[0].startswith('v:') and p[0] != 'v:' + src and not d.get('cm'):
                        m = set()
                        for a in f.args(n):
                            if a >= 0:
                                m |= self.mentions(f, a, src, t)
                        if m:
                            t.setdefault(p[0][2:], set()).update(m)
            if t == old:
                return t

    def writes(self, f, src, taint):
        """member of this object -> members of the source it is written from."""
        out = {}

        def add(m, s):
            if s:
                out.setdefault(m, set()).update(s)
        for i in f.d.get('inits', ()):
            if i.get('n') and i['init'] >= 0:
                add(i['n'], self.mentions(f, i['init'], src, taint))
            elif i.get('deleg') and i['init'] >= 0:
                add(ALL, self.mentions(f, i['init'], src, taint))
            elif i.get('base') and i['init'] >= 0:
                add('base:' + i['base'], self.mentions(f, i['init'], src, taint))
        for n, d in enumerate(f.nodes):
            k = d['k']
            if d.get('asg') or (k == 'CXXOperatorCallExpr' and d.get('op') in ('=', '+=', '<<')):
                c = f.kids(n)
                l, r = (c[0], c[1]) if d.get('asg') else (c[1], c[2]) if len(c) > 2 else (None, None)
                if l is None:
                    continue
                p = f.path(l)
                if p and p[0] == 'this':
                    s = self.mentions(f, r, src, taint)
                    if len(p) == 1 or p[1] == '*':
                        add(ALL, s)
                        if f.k(n) == 'CXXOperatorCallExpr' and d.get('cls') and d['cls'] != f.cls:
                            add('base:' + d['cls'], s)
                    else:
                        add(p[1], s)
            elif f.is_call(n):
                o = f.obj(n)
                s = set()
                if k in ('CallExpr', 'CXXMemberCallExpr'):
                    for a in f.args(n):
                        if a >= 0:
                            s |= self.mentions(f, a, src, taint)
                if not s:
                    continue
                p = f.path(o) if o is not None else None
                if p and p[0] == 'this' and len(p) > 1:
                    add(p[1], s)
                elif p == ('this',):
                    for g in self.P.targets(f, n):
                        for i, a in enumerate(f.args(n)):
                            if a >= 0 and i < len(g.params) and f.path(a) == ('v:' + src,):
                                w, _ = self.run(g, g.params[i]['id'])
                                for m, ss in w.items():
                                    add(m, ss)
                        if d.get('movea') or d.get('copya'):
                            add('base:' + (d.get('cls') or ''), s)
                # a member handed out together with the source: swap(a, rhs.a), std::copy(rhs.v, back_inserter(v))
                for a in f.args(n):
                    if a < 0:
                        continue
                    for x in f.walk(a):
                        if f.k(x) == 'MemberExpr' and f.nodes[x].get('fld'):
                            q = f.path(x)
                            if q and q[0] == 'this' and len(q) > 1:
                                add(q[1], s)
                            elif q and q[0] == 'v:' + src and len(q) > 1 and o is None and k == 'CallExpr':
                                pass
                        elif f.k(x) == 'CXXThisExpr':
                            y = f.parents.get(x)
                            if y is not None and f.k(y) == 'UnaryOperator' and f.nodes[y].get('op') == '*':
                                add(ALL, s)
        return out

    def run(self, f, src):
        key = (f.id, src)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ({}, set())
        taint = self.tainted(f, src)
        w = self.writes(f, src, taint)
        # members of the source read on every path that completes (the self assignment path apart)
        must = None
        if f.cfg is not None:
            P = self

            def reads(st, n):
                d = f.nodes[n]
                if d['k'] in ('DeclRefExpr',) and d.get('v') == src:
                    return st | P.mentions(f, n, src, {})
                return st

            def transfer(st, blk):
                for e in blk.elems:
                    if isinstance(e, int):
                        st = reads(st, e)
                    elif 'init' in e and isinstance(e['init'], int) and e['init'] >= 0:
                        for x in f.walk(e['init']):
                            st = reads(st, x)
                return st

            def edge(st, blk, lab):
                if blk.cond is not None and lab in (True, False):
                    c = f.strip(blk.cond)
                    d = f.nodes[c]
                    if d['k'] == 'BinaryOperator' and d.get('op') in ('==', '!='):
                        a, b = [f.strip_all(x) for x in f.kids(c)]
                        pa, pb = f.path(a), f.path(b)
                        me, other = ('this',), ('v:' + src, '&')
                        if {pa, pb} == {me, other} and lab == (d['op'] == '=='):
                            return st | {ALL}
                return st
            inn, out = f.cfg.solve(frozenset(), transfer, lambda a, b: a & b if ALL not in a | b else (b if ALL in a and ALL not in b else a if ALL in b and ALL not in a else a | b), edge)
            for b in f.cfg.normal_exit_preds():
                if b in out:
                    must = out[b] if must is None else (must if ALL in out[b] else out[b] if ALL in must else must & out[b])
        self.memo[key] = (w, must)
        return self.memo[key]


def has_state(prog, c, seen=None):
    seen = seen or set()
    if c['id'] in seen:
        return False
    seen.add(c['id'])
    if any(not NOSTATE.search(f['ty']) for f in c['fields']):
        return True
    for b in c['bases']:
        bc = prog.classes.get(b.get('id'))
        if bc is None:
            if b.get('t', '').startswith('std::enable_shared_from_this') or 'noncopyable' in b.get('t', ''):
                continue
        elif has_state(prog, bc, seen):
            return True
    return False


def created(prog, f, depth=0):
    """Objects a function creates on the heap, itself or in the helpers it hands itself to: (function, node, class, arguments)."""
    out = []
    if depth > 3:
        return out
    for n, d in enumerate(f.nodes):
        if d['k'] == 'CXXNewExpr':
            for x in f.walk(n):
                if f.k(x) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and f.t(n).replace('const ', '').rstrip(' *') == f.t(x).replace('const ', ''):
                    out.append((f, x, f.nodes[x].get('cls'), f.args(x)))
                    break
        elif d['k'] == 'CallExpr' and d.get('f') in ('std::make_unique', 'std::make_shared'):
            t = re.match(r'std::(?:unique|shared)_ptr<(?:const )?([^,>]*)', f.t(n))
            out.append((f, n, t.group(1) if t else None, f.args(n)))
        elif f.is_call(n):
            for g in prog.targets(f, n):
                if prog.judged(g) and g.kind not in ('ctor', 'dtor'):
                    out += created(prog, g, depth + 1)
    return out


def from_this(f, n):
    for x in f.walk(n):
        d = f.nodes[x]
        if d['k'] == 'CXXThisExpr':
            return True
        if d['k'] == 'DeclRefExpr' and d.get('v'):
            g, v = f.lookup_var(d['v'])
            if v is None or v.get('param'):
                return True
            if 'init' in v and from_this(g, v['init']):
                return True
    return False


def members_in(f, n):
    out = set()
    for x in f.walk(n):
        p = f.path(x) if f.k(x) in ('MemberExpr', 'DeclRefExpr') else None
        if p and p[0] == 'this' and len(p) > 1:
            out.add(p[1])
    return out


def check_clones(prog, rep):
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.name != 'clone' or f.params or not f.cls or f.cfg is None or not prog.judged(f):
            continue
        c = prog.classes.get(f.clsid)
        objs = [o for o in created(prog, f)]
        own = [o for o in objs if o[2] and o[2] in (f.cls, (c or {}).get('dn'))]
        if not objs:
            continue
        rep.count('clone functions')
        rep.sample('clone functions', f.qn)
        if not own:
            g, n, q, a = objs[0]
            rep.violation('%s|clone|type' % f.cls, g.loc(n), '%s does not create a %s but a %s' % (f.qn, f.cls, q))
            continue
        if c is None or not has_state(prog, c):
            continue
        for g, n, q, args in own:
            rep.count('obligations')
            given = [a for a in args if a >= 0 and g.k(a) != 'CXXDefaultArgExpr']
            if not given:
                rep.violation('%s|clone|nothing' % f.cls, g.loc(n), '%s creates an object that is given nothing of the original' % f.qn)
            ctor = prog.fns.get(g.nodes[n].get('fid'))
            if not (g.nodes[n].get('copy') or g.nodes[n].get('move') or g.k(n) == 'CallExpr') and ctor is not None:
                seen = set()
                for a in given:
                    seen |= members_in(g, a)
                derived = set()
                default = {ctor.params[j]['id'] for j, a in enumerate(args) if j < len(ctor.params) and (a < 0 or g.k(a) == 'CXXDefaultArgExpr')}
                default |= {q['id'] for q in ctor.params[len(args):]}
                for i in ctor.d.get('inits', ()):
                    if i.get('n') and i['init'] >= 0 and any(ctor.k(x) == 'MemberExpr' or (ctor.nodes[x].get('v') and ctor.nodes[x]['v'] not in default) for x in ctor.walk(i['init'])):
                        derived.add(i['n'])
                for x, d in enumerate(ctor.nodes):
                    if d.get('asg') or (d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '='):
                        q = ctor.path(ctor.kids(x)[0] if d.get('asg') else ctor.kids(x)[1])
                        if q and q[0] == 'this' and len(q) > 1:
                            derived.add(q[1])
                for fl in c['fields']:
                    if not NOSTATE.search(fl['ty']) and fl['n'] and fl['n'] not in seen and fl['n'] not in derived:
                        rep.violation('%s|clone|%s' % (f.cls, fl['n']), g.loc(n), '%s creates an object that is not given %s of the original' % (f.qn, fl['n']))
            for a in given:
                if not from_this(g, a):
                    rep.violation('%s|clone|argument' % f.cls, g.loc(a), '%s creates an object from a value that is not taken from the original' % f.qn)


def check_serialize(prog, rep):
    """A function that both writes an object to an archive and reads it back mentions every member."""
    T = Transfer(prog)
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.name != 'serialize' or not f.cls or len(f.params) != 2 or f.cfg is None or not prog.judged(f):
            continue
        c = prog.classes.get(f.clsid)
        if c is None:
            continue
        rep.count('serialisation functions')
        rep.sample('serialisation functions', f.dn)
        read = T.fields_read(f)
        for fl in c['fields']:
            if NOSTATE.search(fl['ty']) or not fl['n']:
                continue
            rep.count('obligations')
            if fl['n'] not in read and ALL not in read:
                rep.violation('%s|serialize|%s' % (c['qn'], fl['n']), f.loc(), 'the serialisation of %s does not carry %s' % (c['qn'], fl['n']))


def check(prog, rep):
    for q in CONFIRMED:
        prog.need_class(q)
    T = Transfer(prog)
    for c in sorted(prog.classes.values(), key=lambda c: c['dn']):
        if c.get('dep'):
            continue
        for m in c['methods']:
            kind = [x for x in ('copy', 'move', 'copya', 'movea') if m.get(x)]
            if not kind or not m.get('up'):
                continue
            f = prog.fns.get(m['id'])
            if f is None or f.cfg is None or len(f.params) < 1:
                continue
            if m.get('access') == 'private' and not prog.callers.get(m['id']):
                continue        # cannot be used
            kind = {'copy': 'copy constructor', 'move': 'move constructor', 'copya': 'copy assignment', 'movea': 'move assignment'}[kind[0]]
            src = f.params[0]['id']
            w, must = T.run(f, src)
            rep.count('operations')
            rep.sample('operations', '%s %s' % (c['qn'], kind))
            if must is None:
                continue        # never completes normally
            for fl in c['fields']:
                if NOSTATE.search(fl['ty']) or not fl['n']:
                    continue
                rep.count('obligations')
                froms = w.get(fl['n'], set()) | w.get(ALL, set())
                if fl['n'] in froms or ALL in froms:
                    if fl['n'] not in must and ALL not in must:
                        rep.violation('%s|%s|%s|path' % (c['qn'], kind, fl['n']), f.loc(), 'the %s of %s can finish without having looked at %s of the source' % (kind, c['qn'], fl['n']))
                    continue
                if fl.get('cat') == 'ref' and kind.endswith('assignment'):
                    continue
                what = 'does not transfer %s' % fl['n']
                if froms:
                    what = 'gives %s the value of %s of the source' % (fl['n'], ', '.join(sorted(froms)))
                rep.violation('%s|%s|%s' % (c['qn'], kind, fl['n']), f.loc(), 'the %s of %s %s' % (kind, c['qn'], what))
            for b in c['bases']:
                bc = prog.classes.get(b.get('id'))
                if bc is None or not has_state(prog, bc):
                    continue
                rep.count('obligations')
                ok = ALL in w
                for k, s in w.items():
                    if k.startswith('base:') and (k[5:] == b.get('t') or k[5:] == bc['qn'] or k[5:] == bc['dn']) and s:
                        ok = True
                # accessors of the base used one by one
                if not ok and all(x['n'] in w for x in bc['fields']):
                    ok = True
                if not ok:
                    rep.violation('%s|%s|base %s' % (c['qn'], kind, bc['qn']), f.loc(), 'the %s of %s does not transfer the state of its base class %s' % (kind, c['qn'], bc['qn']))
    rep.need('operations', 30)
    check_clones(prog, rep)
    check_serialize(prog, rep)
    rep.need('clone functions', 5)
    return ('For every hand written copy or move constructor and assignment operator of every class (as instantiated): each member is written from the same member of the source '
            '(directly, through locals, loops, accessors, swaps or helpers given the source), the base class state is passed on, and no path other than self assignment completes without reading that member of the source; '
            'and each clone function creates an object of its own class from the original.')
