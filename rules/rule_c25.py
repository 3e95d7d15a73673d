"""C25: nothing that promises not to throw can throw a library exception."""
import re

import facts
import inline

THREAD = re.compile(r'^(std::thread|std::jthread|boost::thread)::(basic_)?j?thread$')
# Standard operations whose failure is an exception, whatever the state of the heap.
STD_THROWS = re.compile(r'^std::.*::at$|^std::(__cxx11::)?sto(i|l|ul|ll|ull|f|d|ld)$|any_cast$|lexical_cast$')
FS_WORK = re.compile(r'::(file_size|last_write_time|remove|remove_all|rename|copy|copy_file|create_director\w+|exists|is_\w+|status|current_path|canonical|absolute|space|equivalent|read_symlink|hard_link_count)$')


class Throws:
    """Which exceptions of the library can leave a function, with one witness each."""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.bases = {}
        names = {}
        for cid, c in P.data['classes'].items():
            names.setdefault(c.get('qn') or c.get('name'), cid)
        self.names = names

    def is_a(self, thrown, caught):
        """Does a handler for `caught` catch `thrown`?"""
        caught = re.sub(r'\b(const|class|struct)\b|&', '', caught).strip()
        if caught == thrown:
            return True
        cid = self.names.get(thrown)
        if thrown.endswith(' failure') and re.match(r'(std|boost)::', caught):
            return True
        if cid is None:
            return caught == 'std::exception'
        for b in self.P.bases_closure(cid):
            c = self.P.data['classes'].get(b)
            if c is not None and (c.get('qn') or c.get('name')) == caught:
                return True
            if b.endswith('@exception') and caught == 'std::exception':
                return True
        return caught == 'std::exception'

    definite = False        # virtual calls: only what every override can throw

    def of(self, f):
        """{exception type: witness chain}"""
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = {}
        for _ in range(30):
            before = dict(self.memo[f.id])
            self.memo[f.id] = self.compute(f)
            if set(before) == set(self.memo[f.id]):
                break
        return self.memo[f.id]

    def compute(self, f):
        out = {}
        roots = [f.body] if f.body is not None and f.body >= 0 else []
        roots += [i['init'] for i in f.d.get('inits', ()) if isinstance(i, dict) and i.get('init', -1) is not None and i.get('init', -1) >= 0]
        for r in roots:
            for t, w in self.node(f, r).items():
                out.setdefault(t, w)
        return out

    def node(self, f, n, depth=0):
        d = f.nodes[n]
        k = d['k']
        out = {}
        if k == 'LambdaExpr':
            return out
        if k == 'CXXTryStmt':
            kids = f.kids(n)
            inner = self.node(f, kids[0], depth + 1)
            for h in kids[1:]:
                hd = f.nodes[h]
                caught = {}
                if 'et' in hd:
                    ty = f.types[hd['et']]
                    caught = {t: w for t, w in inner.items() if self.is_a(t, ty)}
                else:
                    caught = dict(inner)
                inner = {t: w for t, w in inner.items() if t not in caught}
                for c in f.kids(h):
                    for t, w in self.node(f, c, depth + 1).items():
                        if t == '(rethrow)':
                            for t2, w2 in caught.items():
                                out.setdefault(t2, w2)
                            if not caught:
                                out.setdefault(re.sub(r'\b(const|class|struct)\b|&', '', ty).strip() if 'et' in hd else 'an unknown exception', w)
                        else:
                            out.setdefault(t, w)
            for t, w in inner.items():
                out.setdefault(t, w)
            return out
        if k == 'CXXThrowExpr':
            if not f.kids(n):
                out['(rethrow)'] = [f.loc(n)]
            else:
                t = f.t(f.strip(f.kids(n)[0])).replace('const ', '').strip()
                out[t] = ['%s (%s)' % (f.dn, f.loc(n))]
        if f.is_call(n):
            fx = d.get('f') or ''
            if STD_THROWS.search(fx) or fx.startswith('boost::filesystem::') and d['k'] == 'CallExpr' and FS_WORK.search(fx) and not any('error_code' in f.t(a) for a in f.args(n) if a >= 0):
                out[fx + ' failure'] = ['%s (%s)' % (f.dn, f.loc(n))]
            gs = self.called(f, n)
            some = [set(self.of(g)) if not g.d.get('noex') else set() for g in gs if not (g.d.get('noex') and len(gs) == 1)]
            common = set.intersection(*some) if some else set()
            for g in gs:
                if g.d.get('noex'):
                    continue
                for t, w in self.of(g).items():
                    if t != '(rethrow)' and (t in common or not self.definite):
                        out.setdefault(t, ['%s (%s)' % (f.dn, f.loc(n))] + w[:6])
        for c in f.kids(n):
            for t, w in self.node(f, c, depth + 1).items():
                out.setdefault(t, w)
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if v.get('init') is not None and v['init'] not in d.get('c', ()):
                    for t, w in self.node(f, v['init'], depth + 1).items():
                        out.setdefault(t, w)
        return out

    def called(self, f, n):
        ts = self.P.targets(f, n)
        d = f.nodes[n]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and not ts:
            lam = inline.local_lambda(self.P, f, f.kids(n)[1])
            ts = [lam] if lam else []
        return [g for g in ts if 'ThirdParty' not in g.file]


def run_by(P, f, n):
    out = []
    for a in f.args(n):
        if a < 0:
            continue
        for x in f.walk(a):
            d = f.nodes[x]
            if d['k'] == 'LambdaExpr':
                out += [g for g in P.fns.values() if g.id == d.get('lid')]
            if d['k'] in ('DeclRefExpr', 'MemberExpr') and d.get('fnid') in P.fns:
                out.append(P.fns[d['fnid']])
            if d['k'] == 'DeclRefExpr' and 'v' in d:
                l = inline.local_lambda(P, f, x)
                if l:
                    out.append(l)
        break
    return out


def check(P, rep):
    T = Throws(P)
    T2 = Throws(P)
    T2.definite = True
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if 'ThirdParty' in f.file:
            continue
        if f.d.get('noex'):
            rep.count('operations that promise not to throw')
            if f.kind == 'dtor':
                rep.count('destructors')
            for t, w in sorted(T.of(f).items()):
                rep.violation('%s|%s' % (f.qn, t.split('::')[-1]), f.loc(), '%s promises not to throw but %s can leave it: %s' % (f.dn, t, ' -> '.join(w)))
        # functions that threads started by the library run
        for n, d in enumerate(f.nodes):
            if not f.is_call(n):
                continue
            if THREAD.match(d.get('f') or '') or (d.get('f') or '').split('::')[-1] in ('emplace_back', 'emplace', 'make_unique') and 'std::thread' in f.t(n) + (d.get('cls') or ''):
                for g in run_by(P, f, n):
                    rep.count('functions run by threads of the library')
                    rep.sample('thread functions', g.dn, 20)
                    for t, w in sorted(T2.of(g).items()):
                        rep.violation('%s|thread %s' % (g.root().qn, t.split('::')[-1]), f.loc(n), '%s is run by a thread but %s can leave it: %s' % (g.dn, t, ' -> '.join(w)))
    rep.need('operations that promise not to throw', 100)
    rep.need('destructors', 20)
    rep.need('functions run by threads of the library', 1)
    return ('Exceptions thrown explicitly are propagated bottom-up over the call graph (virtual calls: every override), through try blocks with handlers matched by class; '
            'none may leave a destructor, a noexcept function or a function that a thread started by the library runs (there: none that every override throws).')
