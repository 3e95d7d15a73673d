"""C16: command line parsing stays within the arguments and starts afresh each time."""
import bounds
import rule_c30
from bounds import CONT_T, Z


def grown(P, g, seen=None):
    """Own containers that g (or what it calls on the same object) adds elements to: field -> node."""
    seen = set() if seen is None else seen
    if g.id in seen or g.cfg is None:
        return {}
    seen.add(g.id)
    out = {}
    for n in g.calls():
        d = g.nodes[n]
        o = g.obj(n) if d['k'] != 'CXXOperatorCallExpr' else (g.kids(n)[1] if len(g.kids(n)) > 1 else None)
        name = (d.get('f') or '').split('::')[-1]
        if o is not None and CONT_T.match(g.t(g.strip_all(o))) and (name in bounds.GROW or name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') or name == 'operator[]' and 'map<' in g.t(g.strip_all(o))):
            if name == 'operator[]' and g.t(g.strip_all(o)).startswith('const '):
                continue
            p = g.path(o)
            if p and p[0] == 'this' and len(p) == 2:
                out.setdefault(p, n)
        for h in P.targets(g, n):
            if h.cls == g.cls and not h.d.get('static'):
                for p in grown(P, h, seen):
                    out.setdefault(p, n)
    return out


def check(prog, rep):
    cls = 'Balau::CommandLine'
    prog.need_class(cls)
    ch = rule_c30.Checker(prog, rep)
    B = ch.B
    ms = sorted([f for f in prog.fns.values() if f.root().cls == cls and f.cfg is not None], key=lambda f: (f.line, f.dn))
    for f in ms:
        for n, c, kind, i in ch.sites(f):
            rep.count('accesses to arguments and values')
            if ch.proven(f, n, c, kind, i):
                rep.count('accesses shown to exist')
                continue
            if ch.apart(f, c, kind, i):
                rep.count('not judged')
                continue
            rep.violation('%s|%s|%s' % (f.qn, kind, rule_c30.name_of(f, c)), f.loc(n),
                          '%s: nothing on some path to this point establishes that the element of %s read here exists' % (f.dn, rule_c30.name_of(f, c)))
        # raw argument vectors
        for n in f.all_nodes():
            if f.k(n) == 'ArraySubscriptExpr' and f.t(f.strip_all(f.kids(n)[0])).endswith('**'):
                rep.count('raw argument accesses')
                b = f.path(f.kids(n)[0])
                cnt = [p for p in f.params if bounds.base(f.types[p['t']]) == 'int']
                if not b or len(cnt) != 1:
                    continue
                for st in B.states(f, n):
                    x = B.lin(f, st, f.kids(n)[1])
                    if x is None or not (B.leq(st, Z, 0, x[0], x[1]) or bounds.unsigned(f.t(f.strip_all(f.kids(n)[1])))) or not B.leq(st, x[0], x[1] + 1, ('v:' + cnt[0]['id'],), 0):
                        rep.violation('%s|argv' % f.qn, f.loc(n), '%s: an argument is read at a position that is not established to be below the argument count' % f.dn)
                        break
    # results of an earlier parse
    for f in ms:
        if f.parent_id or f.d.get('access') == 'private' or f.kind == 'ctor' or f.d.get('constm') or not f.qn.endswith('::parse'):
            continue
        gs = {}
        delegating = False
        for n in f.calls():
            for h in prog.targets(f, n):
                if h.cls == cls and not h.d.get('static'):
                    if h.d.get('access') != 'private' and h.qn == f.qn:
                        delegating = True
                        continue
                    for p in grown(prog, h):
                        gs.setdefault(p, []).append(n)
        for p, n in grown(prog, f, {g.id for g in ms if g is not f}).items():
            gs.setdefault(p, []).append(n)
        rep.count('parse operations')
        if delegating and not gs:
            continue
        for p, ns in sorted(gs.items()):
            rep.count('result containers checked')
            s = ('#',) + p
            bad = [n for n in ns if not all(B.leq(st, s, 0, Z, 0) for st in B.states(f, n))]
            if not bad:
                # a return that adds nothing must leave nothing behind either
                after = set()
                for n in ns:
                    w = f.cfg.where(n)
                    if w:
                        after |= reach(f, w[0])
                for n in f.all_nodes():
                    if f.k(n) == 'ReturnStmt':
                        w = f.cfg.where(n)
                        if w and w[0] not in after and not all(B.leq(st, s, 0, Z, 0) for st in B.states(f, n)):
                            bad.append(n)
            for n in bad[:1]:
                rep.violation('%s|%s' % (f.qn, p[1]), f.loc(n), '%s: values of an earlier parse are still in %s when this one adds its own or returns' % (f.dn, p[1]))
    rep.need('accesses to arguments and values', 10)
    rep.need('parse operations', 1)
    rep.need('result containers checked', 2)
    return ('Difference-bound dataflow over every function of the command line parser: each argument and value is read at a position below the size of its sequence on every path; '
            'each container that a parse adds to is known to be empty when the parse first adds to it, and when a parse returns without adding.')


def reach(f, b):
    out, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += [s for s, _ in f.cfg.edges(x)]
    return out
