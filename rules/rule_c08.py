"""C08: an injector is validated before anything is instantiated from it, and its callbacks run at the right time."""
import re

import explore
import facts
import inline
from evalfn import Unknown

TWO = 2


def bare(t):
    return re.sub(r'\b(const|volatile|class|struct|enum)\b|&|\*', '', t).strip()


def names(t):
    return re.sub(r'\s+', ' ', t)


class World(explore.Client):
    """The state of the modelled world is one frozen mapping; a loop over a collection is followed for exactly `n` elements."""
    state_keys = ('S',)

    def __init__(self, rule, n, classify):
        self.r, self.P, self.n, self.classify = rule, rule.P, n, classify
        self.matters = {}

    # ---- loops
    def range_length(self, f, n):
        return self.n

    def loop_test(self, f, n):
        for b in f.cfg.blocks.values():
            if b.term is not None and b.cond is not None and f.k(b.term) in ('WhileStmt', 'ForStmt', 'DoStmt') and (f.strip(b.cond) == n or n in f.walk(b.cond)):
                return True
        return False

    def in_loop_test(self, f, n):
        return any(b.term is not None and b.cond is not None and f.k(b.term) in ('WhileStmt', 'ForStmt', 'DoStmt') and (b.cond == n or n in set(f.walk(b.cond))) for b in f.cfg.blocks.values())

    # ---- calls
    def event(self, f, n, env, ex):
        d = f.nodes[n]
        S = dict(env.get('S', ()))
        res = self.classify(f, n, env, S)
        if res is not None:
            return [((), out, (('S', tuple(sorted(s.items(), key=str))),)) for out, s in res]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') in ('!=', '==') and self.loop_test(f, n):
            k = ('lc', n)
            i = env.get(k, 0)
            more = i < self.n
            return [((), ('val', more if d['op'] == '!=' else not more), ((k, i + 1 if more else 0),))]
        name = (d.get('f') or '').split('::')[-1]
        if d['k'] == 'CXXMemberCallExpr' and name == 'size' and (d.get('f') or '').startswith('std::'):
            # the number of elements of the collections that are gone through; of others, also one
            return [((), ('val', k)) for k in ((self.n,) if self.in_loop_test(f, n) else (self.n, 1))]
        if d['k'] == 'CallExpr' and (d.get('f') or '') == 'std::for_each':
            lam = inline.local_lambda(self.P, f, f.args(n)[-1])
            if lam is not None and lam.cfg is not None and self.follow(lam):
                states = [({}, env.get('S', ()))]
                done = []
                cur = [env.get('S', ())]
                for _ in range(self.n):
                    nxt = set()
                    for s in cur:
                        cap = {k: v for k, v in env.items() if isinstance(k, str) and k != 'this'}
                        for evs, r in ex.run(lam, (), env.get('this'), cap, 1, {'S': s}):
                            if r[0] == 'exc':
                                done.append(((), ('exc', r[1])))
                            else:
                                nxt.add(dict(r[2]).get('S', ()))
                    cur = sorted(nxt)
                return done + [((), ('val', None), (('S', s),)) for s in cur]
        return None

    def follow(self, g):
        if g.id not in self.matters:
            self.matters[g.id] = False
            self.matters[g.id] = self.contains(g)
        return self.matters[g.id]

    def contains(self, g):
        if g.cfg is None or (not self.r.ours(g) and g.kind != 'lambda'):
            return False
        for n, d in enumerate(g.nodes):
            if d['k'] == 'CXXThrowExpr':
                continue
            if d['k'] == 'LambdaExpr':
                h = self.P.fns.get(d.get('lid'))
                if h is not None and self.follow(h):
                    return True
            if g.is_call(n):
                if self.classify(g, n, {}, {}) is not None:
                    return True
                if any(self.follow(h) for h in self.P.targets(g, n)):
                    return True
        return False

    def catches(self, f, h, kind):
        return None

    def thrown_kind(self, f, e):
        return 'exc'


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.inj = self.cls('Injector')
        self.conf = self.cls('InjectorConfiguration')
        self.graph = 'Balau::Container::DependencyGraph'
        if self.graph not in P.cls_by_qn:
            raise facts.Broken('class %s is not in the analysed sources' % self.graph)
        self.missing = self.reaching(lambda f: self.throws(f, 'MissingDependencyException'))
        self.seen = set()

    def cls(self, name):
        l = [q for q in self.P.cls_by_qn if q == 'Balau::' + name]
        if not l:
            raise facts.Broken('class %s is not in the analysed sources' % name)
        return l[0]

    def ours(self, g):
        return g.qn.startswith(self.inj + '::')

    @staticmethod
    def throws(f, name):
        # an exception is created where it is thrown
        return any(name in f.t(n) for n, d in enumerate(f.nodes) if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXThrowExpr', 'CXXFunctionalCastExpr'))

    def reaching(self, pred):
        """Functions outside the injector that (perhaps through helpers) raise the exception."""
        out = {f.id for f in self.P.fns.values() if not self.ours(f) and f.file.startswith('Balau/Application/') and pred(f)}
        changed = True
        while changed:
            changed = False
            for i in list(out):
                for g, n in self.P.callers.get(i, ()):
                    if g.id not in out and not self.ours(g) and g.file.startswith('Balau/Application/'):
                        out.add(g.id)
                        changed = True
        return out

    def bad(self, key, f, n, what):
        if key not in self.seen:
            self.seen.add(key)
            self.rep.violation(key, f.loc(n), what)

    # ---- creation of an injector
    def is_graph(self, t):
        return names(bare(t)).startswith(self.graph)

    def injector_arg(self, f, n, const):
        for i, a in enumerate(f.args(n)):
            if a >= 0 and bare(f.t(a)) == self.inj:
                return True
        return False

    def creation(self, f, n, env, S):
        d = f.nodes[n]
        fn = d.get('f') or ''
        if f.is_call(n) and any(g.id in self.missing for g in self.P.targets(f, n)):
            s = dict(S)
            s['M'] = min(S.get('M', 0) + 1, TWO)
            return [(('val', None), s), (('exc', 'missing'), S)]
        if d['k'] != 'CXXMemberCallExpr' and not (d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()'):
            return None
        if d['k'] == 'CXXMemberCallExpr':
            o = f.obj(n)
            if fn.startswith(self.graph + '::') and fn.endswith('::hasCycles'):
                if env and S.get('M', 0) < TWO:
                    self.bad('cycles before dependencies', f, n, '%s looks for dependency cycles before the dependencies of every binding are registered' % f.dn)
                return [(('val', v), dict(S, cyc=v)) for v in (True, False)]
            if d.get('virt') and o is not None and self.bindings_class(d.get('oc') or bare(f.t(o))) and f.t(n) == 'void' and self.injector_arg(f, n, False):
                if env:
                    self.validated(f, n, S, 'instantiates eager singletons')
                    if S.get('C'):
                        self.bad('callback before eager', f, n, '%s runs post-construction callbacks before an eager singleton is instantiated' % f.dn)
                return [(('val', None), dict(S, E=min(S.get('E', 0) + 1, TWO)))]
            return None
        t = names(f.t(f.kids(n)[1])) if len(f.kids(n)) > 1 else ''
        if 'std::function<void (const ' + self.inj in t or 'std::function<void (const ' + self.inj.split('::')[-1] in t:
            if env:
                self.validated(f, n, S, 'runs post-construction callbacks')
                if S.get('E', 0) < TWO:
                    self.bad('callback before eager', f, n, '%s runs post-construction callbacks before the eager singletons of all bindings are instantiated' % f.dn)
            return [(('val', None), dict(S, C=min(S.get('C', 0) + 1, TWO)))]
        return None

    def bindings_class(self, q):
        q = q.split('<')[0]
        if not hasattr(self, '_bc'):
            self._bc = {self.P.fns[i].cls for i in self.missing if self.P.fns[i].cls}
        return q in self._bc

    def validated(self, f, n, S, what):
        if S.get('M', 0) < TWO:
            self.bad(what + '|dependencies', f, n, '%s %s although the dependencies of some binding have not been checked' % (f.dn, what))
        if S.get('cyc') is not False:
            self.bad(what + '|cycles', f, n, '%s %s %s' % (f.dn, what, 'although a dependency cycle was found' if S.get('cyc') else 'before the dependencies have been tested for cycles'))

    def creates(self, f, depth=0):
        """Does f (through the injector's own functions) construct an injector from configurations?"""
        if not hasattr(self, '_cr'):
            self._cr = {}
        if f.id in self._cr:
            return self._cr[f.id]
        self._cr[f.id] = False
        r = False
        for n, d in enumerate(f.nodes):
            if not f.is_call(n):
                continue
            fn = d.get('f') or ''
            if fn.startswith(self.conf + '::') and d.get('k') == 'CXXMemberCallExpr':
                r = True
                break
            if any((self.ours(g) or (g.kind == 'lambda' and g.root().qn.startswith(self.inj + '::'))) and self.creates(g) for g in self.P.targets(f, n)):
                r = True
                break
        if not r:
            r = any(d['k'] == 'LambdaExpr' and self.P.fns.get(d.get('lid')) is not None and self.creates(self.P.fns[d['lid']]) for d in f.nodes)
        self._cr[f.id] = r
        return r

    def check_creation(self):
        roots = [f for f in self.P.fns.values() if self.ours(f) and f.cls == self.inj and f.access == 'public' and f.kind not in ('ctor', 'dtor')
                 and f.cfg is not None and self.creates(f)]
        for f in sorted(roots, key=lambda f: f.dn):
            self.rep.count('creation functions')
            client = World(self, TWO, self.creation)
            ex = explore.Explorer(self.P, client, limit=60000)
            try:
                outs = ex.run(f, (), None, None, 0, {'S': ()})
            except explore.Limit:
                raise facts.Broken('too many paths in %s' % f.dn)
            gives = names(f.types[f.d['ret']]) if isinstance(f.d.get('ret'), int) else str(f.d.get('ret', ''))
            whole = 'shared_ptr' in gives
            normal = 0
            for evs, r in outs:
                if r[0] != 'ret':
                    continue
                normal += 1
                S = dict(dict(r[2]).get('S', ()))
                self.rep.count('outcomes')
                w = '%s %s' % (f.name, 'returns an injector' if whole else 'returns a validated parent')
                if S.get('M', 0) < TWO:
                    self.bad('%s|dependencies' % f.qn, f, None, '%s although the dependencies of some binding have not been checked' % w)
                if S.get('cyc') is not False:
                    self.bad('%s|cycles' % f.qn, f, None, '%s %s' % (w, 'although a dependency cycle was found' if S.get('cyc') else 'without having tested the dependencies for cycles'))
                if whole and S.get('E', 0) < TWO:
                    self.bad('%s|eager' % f.qn, f, None, '%s although the eager singleton of some binding has not been instantiated' % w)
                if whole and S.get('C', 0) < TWO:
                    self.bad('%s|callbacks' % f.qn, f, None, '%s although some post-construction callback has not been run' % w)
                if not whole and (S.get('E') or S.get('C')):
                    self.bad('%s|effects' % f.qn, f, None, '%s but instantiates eager singletons or runs callbacks' % f.name)
            if not normal:
                self.bad('%s|never' % f.qn, f, None, '%s never returns normally' % f.name)

    # ---- a dependency that is not there
    def check_dependencies(self):
        n_checked = 0
        for i in sorted(self.missing):
            g = self.P.fns[i]
            if g.cfg is None:
                continue
            # the outermost function: called by the injector
            if not any(self.ours(c) or (c.kind == 'lambda' and self.ours(c.root())) for c, _ in self.P.callers.get(i, ())):
                continue
            n_checked += 1
            self.rep.count('dependency registrations')

            def classify(f, n, env, S, g=g):
                d = f.nodes[n]
                fn = d.get('f') or ''
                if d['k'] == 'CXXMemberCallExpr' and fn.startswith(self.graph + '::'):
                    if fn.endswith('::addRelationship'):
                        key = str(f.path(f.args(n)[0]))
                        return [(('val', None), dict(S, edge=key))]
                    if f.args(n) and (f.t(n) == 'bool' or f.t(n).endswith('*')):
                        key = str(f.path(f.args(n)[0]))
                        ptr = f.t(n).endswith('*')
                        return [(('val', int(v) if ptr else v), dict(S, q=v, key=key)) for v in (True, False)]
                if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '==' and all(bare(f.t(a)).startswith('Balau::Impl::BindingKey') for a in f.kids(n)[1:]):
                    ps = [f.path(a) for a in f.kids(n)[1:]]
                    special = any(p and len(p) == 1 and (p[0] in {'v:' + q['id'] for q in f.params}) for p in ps)
                    return [(('val', True), dict(S, special=True) if special else S), (('val', False), S)]
                return None

            client = World(self, 1, classify)
            client.follow = lambda h, c=client: False if h.id not in self.missing else True
            ex = explore.Explorer(self.P, client, limit=60000)
            for evs, r in ex.run(g, (), None, None, 0, {'S': ()}):
                if r[0] != 'ret':
                    continue
                S = dict(dict(r[2]).get('S', ()))
                self.rep.count('outcomes')
                if S.get('special'):
                    continue
                if not S.get('q'):
                    self.bad('%s|missing' % g.qn, g, None, '%s accepts a dependency %s' % (g.dn, 'that is not bound' if 'q' in S else 'without looking for it among the bindings'))
                elif not S.get('edge'):
                    self.bad('%s|edge' % g.qn, g, None, '%s does not record a dependency between two bindings, so that cycles through it go unnoticed' % g.dn)
                elif S['edge'] != S['key']:
                    self.bad('%s|direction' % g.qn, g, None, '%s records a dependency in the wrong direction' % g.dn)
        if not n_checked:
            self.bad('missing dependency', next(f for f in self.P.fns.values() if self.ours(f)), None, 'nothing that the injector calls reports a missing dependency')

    # ---- duplicates
    def check_duplicates(self):
        puts = 0
        for f in sorted(self.P.fns.values(), key=lambda f: f.dn):
            if not self.ours(f) or f.cfg is None:
                continue
            sites = [n for n in range(len(f.nodes)) if self.is_put(f, n)]
            if not sites:
                continue
            puts += len(sites)
            self.rep.count('places that add a binding', len(sites))
            store = {(f.nodes[n].get('f') or '').rsplit('::', 1)[0] for n in sites}

            def classify(g, n, env, S, f=f, store=store):
                d = g.nodes[n]
                fn = d.get('f') or ''
                if d['k'] != 'CXXMemberCallExpr' or fn.rsplit('::', 1)[0] not in store:
                    return None
                if self.is_put(g, n):
                    if env and (S.get('q') is not False or S.get('key') != str(g.path(g.args(n)[0]))):
                        self.bad('%s|duplicate' % f.qn, g, n, '%s adds a binding %s' % (g.dn, 'although its key is already bound' if S.get('q') else 'without testing that its key is not bound yet'))
                    s = dict(S)
                    s.pop('q', None)
                    s.pop('key', None)
                    return [(('val', None), s)]
                if g.args(n) and (g.t(n) == 'bool' or g.t(n).endswith('*')):
                    ptr = g.t(n).endswith('*')
                    return [(('val', int(v) if ptr else v), dict(S, q=v, key=str(g.path(g.args(n)[0])))) for v in (True, False)]
                return None

            client = World(self, 1, classify)
            client.range_length = lambda g, n: None
            client.follow = lambda h: False
            ex = explore.Explorer(self.P, client, limit=60000)
            for evs, r in ex.run(f, (), None, None, 0, {'S': ()}):
                if r[0] == 'ret':
                    S = dict(dict(r[2]).get('S', ()))
                    self.rep.count('outcomes')
                    if S.get('q'):
                        self.bad('%s|duplicate ignored' % f.qn, f, None, '%s finds that a key is bound twice and goes on' % f.dn)
        if not puts:
            raise facts.Broken('no place that adds a binding to an injector was found')

    def is_put(self, f, n):
        d = f.nodes[n]
        if d['k'] != 'CXXMemberCallExpr' or not (d.get('f') or '').startswith('Balau::Impl::') or len(f.args(n)) != 2:
            return False
        t = names(f.ptypes(n)[1]) if len(f.ptypes(n)) > 1 else ''
        return t.startswith('std::unique_ptr<') and 'AbstractBinding' in t and t.endswith('&&')

    # ---- the callbacks of configurations and of destruction
    def check_callbacks(self):
        getters = ('getPostConstructionCalls', 'getPreDestructionCalls')
        n_exec = 0
        for f in sorted(self.P.fns.values(), key=lambda f: f.dn):
            if f.cfg is None or not (self.ours(f) or f.kind == 'lambda' and self.ours(f.root())):
                continue
            if not any((d.get('f') or '') == self.conf + '::execute' for d in f.nodes):
                continue
            n_exec += 1
            self.rep.count('places that run a configuration')

            def classify(g, n, env, S, f=f):
                d = g.nodes[n]
                fn = d.get('f') or ''
                if d['k'] != 'CXXMemberCallExpr' or not fn.startswith(self.conf + '::'):
                    return None
                name = fn.split('::')[-1]
                p = str(g.path(g.obj(n)))
                s = dict(S)
                if name == 'execute':
                    for x in getters:
                        if env and s.get(x) not in (None, 'done'):
                            self.bad('%s|%s' % (f.qn, x), g, n, '%s runs a configuration without taking over its callbacks (%s)' % (g.dn, x))
                        s[x] = p
                elif name in getters:
                    if s.get(name) == p:
                        s[name] = 'done'
                else:
                    return None
                return [(('val', None), s)]

            client = World(self, 1, classify)
            client.range_length = lambda g, n: None
            client.follow = lambda h: False
            ex = explore.Explorer(self.P, client, limit=60000)
            for evs, r in ex.run(f, (), None, None, 0, {'S': ()}):
                if r[0] == 'ret':
                    S = dict(dict(r[2]).get('S', ()))
                    self.rep.count('outcomes')
                    for x in getters:
                        if S.get(x) not in (None, 'done'):
                            self.bad('%s|%s' % (f.qn, x), f, None, '%s runs a configuration without taking over its callbacks afterwards (%s)' % (f.dn, x))
        if not n_exec:
            raise facts.Broken('no place that runs a configuration was found')
        dtors = [f for f in self.P.fns.values() if f.kind == 'dtor' and f.cls == self.inj]

        def destruction(f, n, env, S):
            d = f.nodes[n]
            if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and len(f.kids(n)) > 1 and 'std::function<void ()>' in names(f.t(f.kids(n)[1])):
                return [(('val', None), dict(S, D=min(S.get('D', 0) + 1, TWO)))]
            return None

        if not dtors:
            c = self.P.cls_by_qn[self.inj][0]
            self.rep.violation('%s|destruction' % self.inj, 'src/main/cpp/%s:%s' % (c.get('file', 'Balau/Application/Injector.hpp'), c.get('line', 1)), 'the injector has no destructor that runs the pre-destruction callbacks')
        for f in dtors:
            self.rep.count('destructors')
            ex = explore.Explorer(self.P, World(self, TWO, destruction), limit=60000)
            for evs, r in ex.run(f, (), None, None, 0, {'S': ()}):
                S = dict(dict(r[2]).get('S', ())) if r[0] == 'ret' else {}
                self.rep.count('outcomes')
                if r[0] == 'ret' and S.get('D', 0) < TWO:
                    self.bad('%s|destruction' % self.inj, f, None, 'the injector can be destroyed without running every pre-destruction callback')


def check(P, rep):
    r = Rule(P, rep)
    r.check_creation()
    r.check_dependencies()
    r.check_duplicates()
    r.check_callbacks()
    rep.need('creation functions', 4)
    rep.need('places that add a binding', 2)
    rep.need('places that run a configuration', 3)
    return ('Every path of each public function that creates or validates an injector from configurations is followed, with two bindings and two callbacks: the check for missing dependencies is made for each binding, then the test for cycles, '
            'which never leads to a normal return when it finds one; eager singletons are instantiated, each one, only after both, and the callbacks, each one, only after that; validation alone has no such effect. '
            'In the registration of dependencies every dependency that is neither the injector itself nor bound raises an exception, and each that is bound is recorded in the direction in which it was looked up. '
            'A binding is added only after a test that its key is not bound, and a bound key raises an exception. Each configuration that is executed has both kinds of callbacks taken over afterwards, and the destructor runs every pre-destruction callback.')
