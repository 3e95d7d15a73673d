"""C20: nothing kept or handed back refers to an object that has gone."""
import re

import borrow

DEFER = re.compile(r'^(boost::asio::(post|dispatch|defer|spawn)|std::async|std::thread::thread|std::jthread::jthread|boost::thread::thread)$|::async_\w+$')


def describe(f, s):
    if s[0] == 'L':
        return '"%s"' % s[1].split('@')[0]
    if s[0] == 'T':
        return 'a temporary (%s)' % f.loc(s[1])
    if s[0] in ('P', 'B'):
        return 'the argument "%s"' % f.params[s[1]]['n']
    if s[0] == 'O':
        return 'the borrowed "%s"' % s[1].split('@')[0]
    return 'the object'


def is_callable(t):
    return '(lambda at' in t or t.startswith('std::function<') or 'std::_Bind' in t or 'std::thread' in t


def captured_borrow(B, f, rhs, s, depth=0):
    """Is s a parameter that a closure stored here captured by reference (or borrowed text it captured)?"""
    for x in f.walk(rhs):
        d = f.nodes[x]
        if d['k'] == 'LambdaExpr':
            for c in d.get('caps', ()):
                if c.get('ref') and s in B.capture(f, c):
                    return True
                if 'init' in c and not c.get('ref') and not c.get('this') and s in B.vrefs(f, c['init']) and 'string_view' in f.t(f.strip(c['init'])):
                    return True
        if d['k'] == 'DeclRefExpr' and 'v' in d and depth < 3:
            v = f.vars.get(d['v'])
            if v and v.get('init') is not None and v['init'] >= 0 and '(lambda at' in v['type'] and captured_borrow(B, f, v['init'], s, depth + 1):
                return True
    return False


def joined(f, n, s):
    """The thread container that n fills is joined later in this function, and s lives in its outermost block."""
    v = f.vars.get(s[1]) if s[0] == 'L' else None
    if v is None:
        return False
    if not v.get('param') and f.parents.get(v.get('node')) != f.body:
        return False
    return any((f.callee(c) or '').split('::')[-1] in ('join', 'get', 'wait') and f.line_of(c) > f.line_of(n) and c > n for c in f.calls())


def check(P, rep):
    B = borrow.Borrow(P)
    B.fields_of()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if 'ThirdParty' in f.file or f.body is None or f.body < 0:
            continue
        rep.count('functions')
        rt = f.d.get('ret', '')
        rt = f.types[rt] if isinstance(rt, int) else rt
        # 1. results
        if B.reflike(rt):
            rep.count('functions returning something that can refer to other objects')
            for n in f.walk():
                if f.k(n) == 'ReturnStmt' and f.kids(n):
                    rep.count('returns judged')
                    e = f.kids(n)[0]
                    rs = B.lref(f, e) if B.is_ref(rt) else B.vrefs(f, e)
                    for s in sorted(rs, key=str):
                        if s[0] in ('L', 'T'):
                            rep.violation('%s|returns %s' % (f.root().qn, s[0]), f.loc(n), '%s returns a %s that refers to %s, which ends with the call' % (f.dn, rt, describe(f, s)))
        # 2. stores that outlive the call
        for n, dest, s, ty in B.kept(f):
            rep.count('stores of references judged')
            bad = s[0] in ('L', 'T')
            if s[0] == 'T' and f.kind == 'ctor' and False:
                bad = False
            why = 'which ends with the call'
            if not bad and s[0] in ('P', 'B') and dest != ('P', s[1]) and any(f.k(x) == 'LambdaExpr' for x in f.all_nodes()) and captured_borrow(B, f, n, s):
                bad = True
                why = 'which is only borrowed for the call'
            if bad and not joined(f, n, s):
                rep.violation('%s|keeps %s' % (f.root().qn, s[1] if s[0] != 'T' else 'T'), f.loc(n), '%s keeps a reference to %s, %s' % (f.dn, describe(f, s), why))
        # 3. deferred work
        for n in f.calls():
            fx = f.callee(n) or ''
            if DEFER.search(fx):
                rep.count('deferred calls judged')
                for a in f.args(n):
                    if a < 0:
                        continue
                    rs = B.vrefs(f, a)
                    if '::async_' in fx and f.ptypes(n) and B.is_ref(f.t(a)):
                        rs |= B.lref(f, a)
                    for s in sorted(rs, key=str):
                        if s[0] in ('L', 'P') and not joined(f, n, s):
                            rep.violation('%s|defers %s' % (f.root().qn, s[1]), f.loc(n), '%s hands work that refers to %s to run after the call may have ended' % (f.dn, describe(f, s)))
            if fx in ('zip_source_buffer', 'zip_source_buffer_create'):
                rep.count('archive sources judged')
                a = f.args(n)
                if len(a) >= 4:
                    data, freep = (a[1], a[3]) if fx == 'zip_source_buffer' else (a[0], a[2])
                    if f.nodes[f.strip(freep)].get('iv') == 0 or f.nodes[freep].get('iv') == 0:
                        for s in sorted(B.vrefs(f, data), key=str):
                            rep.violation('%s|archive %s' % (f.root().qn, s[0]), f.loc(n), '%s leaves %s in the archive until it is written, without a copy' % (f.dn, describe(f, s)))
        # 4. views of temporaries
        for vid, v in f.vars.items():
            if v.get('param') or v.get('init') is None or v['init'] < 0 or not B.reflike(v['type']):
                continue
            rep.count('reference-like variables judged')
            ini = f.strip(v['init'])
            rs = B.lref(f, v['init']) if B.is_ref(v['type']) else B.vrefs(f, v['init'])
            for s in sorted(rs, key=str):
                if s[0] == 'T' and s[1] != ini:
                    rep.violation('%s|%s temporary' % (f.root().qn, v['n']), f.loc(v['node']), '"%s" in %s refers to a temporary that ends with the statement' % (v['n'], f.dn))
    rep.need('functions', 1000)
    return ('A storage-escape analysis of references, pointers, views, iterators, closures and holders of these: what is returned, stored in a member, global or referenced argument, '
            'left in an archive, pushed on a filtering stream or deferred to a thread or an executor never refers to a local variable, a by-value parameter or a temporary of the call, '
            'and kept closures never to borrowed arguments either.')
