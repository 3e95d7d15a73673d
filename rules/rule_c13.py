"""C13: destroying, closing or assigning to a moved-from object never dereferences what was moved out of it."""
import re

import inline
import nullness

EMPTIED = re.compile(r'^(const )?(std::(unique_ptr|shared_ptr|function)|boost::(shared_ptr|scoped_ptr))<')
CONFIRMED = ['Balau::MovableOnScopeExit', 'Balau::Resource::FileByteReadResource', 'Balau::Resource::FileByteWriteResource',
             'Balau::Resource::FileUtf8To32ReadResource', 'Balau::Resource::FileUtf32To8WriteResource']
# Public operations that finish with an object or cancel what it holds.
FINISH = re.compile(r'^(close|clear|reset|stop|cancel|release|rollback|discard|shutdown|join|terminate|executeNow)$')


def ftype(c, fl):
    return fl['ty'] if isinstance(fl['ty'], str) else c['types'][fl['ty']]


def movable(prog, c):
    """Move operations of the class that exist: list of (kind, function or None for a generated one); empty when it cannot be moved."""
    out = []
    declared = [m for m in c['methods'] if m.get('move') or m.get('movea')]
    for m in declared:
        if m.get('deleted'):
            continue
        g = prog.fns.get(m.get('id'))
        user = g is not None and not g.d.get('implicit') and not g.d.get('defaulted') and not m.get('defaulted') and not m.get('implicit')
        out.append((m, g if user else None))
    if not declared:
        user = [m for m in c['methods'] if (m.get('copy') or m.get('copya') or m.get('kind') == 'dtor') and not m.get('implicit')]
        if not user:
            out.append(({'implicit': True}, None))
    return out


def emptied(prog, c, ops):
    """Members that a move leaves empty: name -> how; and those that every move leaves empty."""
    out = {}
    each = []
    for m, g in ops:
        one = emptied_by(prog, c, m, g)
        each.append(set(one))
        out.update(one)
    return out, set.intersection(*each) if each else set()


def emptied_by(prog, c, m, g):
    out = {}
    for m, g in [(m, g)]:
        if g is None:
            for fl in c['fields']:
                if EMPTIED.match(ftype(c, fl)):
                    out[fl['n']] = 'a generated move'
            continue
        src = g.params[0]['id'] if g.params else None
        if src is None:
            continue
        names = {fl['n']: ftype(c, fl) for fl in c['fields']}
        for i, d in enumerate(g.nodes):
            p = None
            if d['k'] == 'CallExpr' and d.get('f') in ('std::move', 'std::forward', 'std::swap', 'std::exchange') and g.args(i):
                for a in g.args(i):
                    p = g.path(a)
                    if p and p[0] == 'v:' + src and len(p) == 2 and p[1] in names and (EMPTIED.match(names[p[1]]) or d['f'] in ('std::exchange', 'std::swap')):
                        out[p[1]] = 'the move at line %d' % g.line_of(i)
                    elif p == ('v:' + src,) and d['f'] in ('std::move', 'std::forward'):
                        pass
            elif d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('swap', 'release', 'reset') and g.obj(i) is not None:
                for a in [g.obj(i)] + g.args(i):
                    p = g.path(a)
                    if p and p[0] == 'v:' + src and len(p) == 2 and p[1] in names:
                        out[p[1]] = 'the move at line %d' % g.line_of(i)
            elif d['k'] == 'BinaryOperator' and d.get('asg'):
                p = g.path(g.kids(i)[0])
                if p and p[0] == 'v:' + src and len(p) == 2 and p[1] in names and nullness.is_null(g, g.kids(i)[1]):
                    out[p[1]] = 'the move at line %d' % g.line_of(i)
    return out


def raw_pointer(t):
    return t.rstrip().endswith('*') and not t.startswith('const char')


def releases(prog, c, f, seen=None):
    """Raw pointer members that f deletes or hands to a function of another library."""
    seen = seen if seen is not None else set()
    if f.id in seen:
        return {}
    seen.add(f.id)
    out = {}
    names = {fl['n'] for fl in c['fields'] if raw_pointer(ftype(c, fl))}
    for i, d in enumerate(f.nodes):
        if d['k'] == 'CXXDeleteExpr' and f.kids(i):
            p = f.path(f.kids(i)[0])
            if p and len(p) == 2 and p[0] == 'this' and p[1] in names:
                out[p[1]] = (f, i)
        elif f.is_call(i):
            if inline.own_object(f, i):
                for g in prog.targets(f, i):
                    if g.cls == c['qn']:
                        out.update(releases(prog, c, g, seen))
            elif d['k'] == 'CallExpr' and re.search(r'(free|close|discard|destroy|delete|release|cleanup)', (d.get('f') or '').split('::')[-1], re.I):
                for a in f.args(i):
                    for w in f.walk(a):
                        p = f.path(w) if f.k(w) == 'MemberExpr' else None
                        if p and len(p) == 2 and p[0] == 'this' and p[1] in names:
                            out[p[1]] = (f, i)
    return out


def check_entry(prog, N, rep, c, entry, gone, whole, what):
    done = set()

    def visit(f, init, depth):
        if (f.id, init) in done or f.cfg is None or depth > 8:
            return
        done.add((f.id, init))
        for n, p in nullness.derefs(f):
            q = nullness.key(f, p)
            if q is None or q[0] != 'this' or len(q) != 2 or q[1] not in gone:
                continue
            rep.count('dereferences of a movable resource')
            st = N.at(f, n, init)
            if st is None or any(('this', m) in st for m in whole):
                continue        # the object still owns what every move takes away: it has not been moved from
            rep.violation('%s|%s|%s' % (c['qn'], entry_name(entry), q[1]), f.loc(n),
                          '%s uses %s without testing that it still owns it: after the object has been moved from (%s) it is null' % (what, q[1], gone[q[1]]))
        for n in f.calls():
            if inline.own_object(f, n):
                for g in prog.targets(f, n):
                    if g.cls == c['qn'] and not g.d.get('implicit'):
                        st = N.at(f, n, init)
                        if st is not None:
                            visit(g, frozenset(x for x in st if x[0] == 'this'), depth + 1)
        for n, d in enumerate(f.nodes):
            if d['k'] == 'LambdaExpr' and d.get('lid') in prog.fns:
                st = N.at(f, n, init)
                if st is not None:
                    visit(prog.fns[d['lid']], frozenset(x for x in st if x[0] == 'this'), depth + 1)
    visit(entry, frozenset(), 0)


def entry_name(f):
    return 'destructor' if f.kind == 'dtor' else f.name


def ends(prog, c):
    """Operations that finish with an object: the destructor, assignments, and public operations that take nothing and give nothing back."""
    for f in prog.fns.values():
        if f.clsid != c['id'] or f.cfg is None or f.d.get('implicit') or f.d.get('defaulted'):
            continue
        if f.kind == 'dtor':
            yield f
        elif f.kind == 'method' or f.cls:
            if f.access in ('private', 'protected'):
                continue
            if f.name == 'operator=' or FINISH.match(f.name):
                yield f


def check(prog, rep):
    N = nullness.Nullness(prog)
    for q in CONFIRMED:
        prog.need_class(q)
    for c in sorted(prog.classes.values(), key=lambda c: c['dn']):
        if not c['fields']:
            continue
        ops = movable(prog, c)
        if not ops:
            continue
        rep.count('movable classes')
        gone, whole = emptied(prog, c, ops)
        if gone:
            rep.count('movable classes that own a resource')
            rep.sample('classes', c['qn'], 40)
        for f in ends(prog, c):
            if gone:
                rep.count('operations that finish with an object')
                check_entry(prog, N, rep, c, f, gone, whole | set(), '%s %s' % ('the destructor of' if f.kind == 'dtor' else 'operation ' + f.name + ' of', c['qn']))
            if f.kind == 'dtor':
                for m, (g, n) in sorted(releases(prog, c, f).items()):
                    rep.count('raw resources released by a destructor')
                    if m not in gone:
                        rep.violation('%s|%s|kept' % (c['qn'], m), g.loc(n), 'the destructor of %s releases %s, which a move leaves in the moved-from object: both objects release it' % (c['qn'], m))
    rep.need('movable classes that own a resource', 15)
    rep.need('operations that finish with an object', 8)
    rep.need('dereferences of a movable resource', 5)
    return ('For every class that can be moved: the members that its move operations leave empty are computed (smart pointers and function objects moved by a written or generated operation, pointers set to null). '
            'On every path through its destructor, its public assignment operators and its public closing operations (close, clear, stop and the like; helpers followed with what is known at the call), each dereference of such a member '
            'comes after a test that the object still owns it (that it, or another member every move takes away, is not null). A raw resource that the destructor releases is one that the move operations take away from the source.')
