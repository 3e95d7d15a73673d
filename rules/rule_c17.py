"""C17: every selected test produces one recorded outcome, whatever it throws."""
import re

import evalfn
import explore
import facts
import nullness
from evalfn import Sym, Unknown

TEST = 'FlattenedTestCase'
KINDS = ('assert', 'std', 'other')


def bare(t):
    return re.sub(r'\b(const|volatile|class|struct|enum)\b|&|\*', '', t).strip()


class Tests(explore.Client):
    """Events: setup, body, teardown (with how they end), the flag of an ignored test, and the results put in the queue."""

    def __init__(self, P, rule):
        self.P = P
        self.r = rule

    def event(self, f, n, env, ex):
        what = self.r.kind(f, n)
        if what in ('setup', 'body', 'teardown'):
            return [(((what, k),), ('val', None) if k == 'ok' else ('exc', k)) for k in ('ok',) + KINDS]
        if what == 'ignored?':
            return [((('ignored', v),), ('val', v)) for v in (True, False)]
        if what == 'reset':
            return [((('reset', True),), ('val', None))]
        if what == 'enqueue':
            return [((self.r.record(f, n, env, ex),), ('val', None))]
        return None

    def follow(self, g):
        return g.cls != self.r.base and self.r.matters(g)

    def member(self, f, n, o, name, ev):
        return Sym(o.root, o.key + (name,)) if isinstance(o, Sym) else NotImplemented

    def compare(self, f, n, op, a, b):
        return NotImplemented

    def catches(self, f, h, kind):
        t = bare(f.types[f.nodes[h]['et']])
        if t.endswith('AssertionException'):
            return kind == 'assert'
        if t == 'std::exception':
            return kind in ('assert', 'std')
        if t.endswith('BalauException'):
            return True if kind == 'assert' else None if kind == 'std' else False
        if t in self.P.cls_by_qn or 'xception' in t or t.startswith('std::'):
            return None if kind == 'std' else False
        return None if kind == 'other' else False

    def thrown_kind(self, f, e):
        return 'std'

    def leaf(self, f, n, env, ev):
        d = f.nodes[n]
        if f.k(n) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and bare(f.t(n)).endswith('TestResult'):
            return self.r.built(f, n, env, ev)
        return NotImplemented

    def value(self, f, n, env, ev):
        d = f.nodes[n]
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and bare(f.t(n)).endswith('TestResult'):
            if d.get('copy') or d.get('move'):
                return ev.eval(f, f.args(n)[0], env)
            return self.r.built(f, n, env, ev)
        return NotImplemented


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.base = self.cls('TestGroupBase')
        self.method = self.cls('TestMethodBase')
        self.memo = {}
        self.kmemo = {}
        en = [q for q in P.enums if q.endswith('TestResult::Result')]
        if not en:
            raise facts.Broken('the enumeration of test results is not in the analysed sources')
        self.res = {n.split('::')[-1]: int(v) for n, v in P.enums[en[0]]['vals']}
        self.name = {v: k for k, v in self.res.items()}

    def cls(self, name):
        l = [q for q in self.P.cls_by_qn if q.endswith('::' + name)]
        if not l:
            raise facts.Broken('class %s is not in the analysed sources' % name)
        return l[0]

    # ---- what a call is
    def kind(self, f, n):
        d = f.nodes[n]
        fn = d.get('f') or ''
        name = fn.split('::')[-1]
        if d['k'] == 'CXXMemberCallExpr':
            o = f.obj(n)
            t = bare(f.t(o)) if o is not None else ''
            if name == 'run' and fn.startswith(self.method):
                return 'body'
            if name in ('setup', 'teardown') and fn.startswith(self.base):
                return name
            if name == 'enqueue' and fn.split('::')[-2:-1] and 'TestResultQueue' in fn.split('::')[-2]:
                return 'enqueue'
        if d['k'] in ('CallExpr', 'CXXMemberCallExpr') and fn.startswith(self.base + '::') and f.t(n) in ('bool',) and not d.get('virt'):
            return 'ignored?'
        if d['k'] in ('CallExpr', 'CXXMemberCallExpr') and fn.startswith(self.base + '::') and f.t(n) == 'void' and not d.get('virt') and self.resets(f, n):
            return 'reset'
        return None

    def resets(self, f, n):
        for g in self.P.targets(f, n):
            for x, d in enumerate(g.nodes):
                if d.get('asg') and d.get('op') == '=' and 'bool' in g.t(x) and g.nodes[g.strip_all(g.kids(x)[1])].get('iv') in (0, '0'):
                    return True
        return False

    def matters(self, g):
        """Does g cause one of the events?"""
        if g.id in self.memo:
            return self.memo[g.id]
        self.memo[g.id] = False
        for h in [g] + g.descendant_lambdas():
            for n in h.calls():
                if self.kind(h, n) or any(k.cfg is not None and k.cls != self.base and self.matters(k) for k in self.P.targets(h, n) if 'Testing' in k.qn or k.kind == 'lambda'):
                    self.memo[g.id] = True
        return self.memo[g.id]

    def reaches(self, g, what, seen=None):
        seen = seen if seen is not None else set()
        if g.id in seen:
            return False
        seen.add(g.id)
        for h in [g] + g.descendant_lambdas():
            for n in h.calls():
                k = self.kind(h, n)
                if k == what:
                    return True
                if k is None and any(x.cfg is not None and self.matters(x) and self.reaches(x, what, seen) for x in self.P.targets(h, n)):
                    return True
        return False

    # ---- the recorded result
    def built(self, f, n, env, ev):
        """(field, value)... of a test result that is built."""
        g = [x for x in self.P.targets(f, n)]
        out = {}
        if not g:
            return ('result', ())
        g = g[0]
        args = f.args(n)
        byparam = {}
        for i, p in enumerate(g.params):
            if i < len(args) and args[i] >= 0:
                v = ev.lazy(f, args[i], env)
                if v is Unknown:
                    try:
                        v = ev.boolean(f, args[i], env) if f.t(args[i]) == 'bool' else v
                    except (Unknown, evalfn.Thrown):
                        pass
                byparam[p['id']] = v
        for ini in g.d.get('inits', ()):
            fld = ini.get('n')
            if not fld or ini.get('init') is None:
                continue
            x = g.strip_all(ini['init'])
            while g.k(x) in ('CXXConstructExpr', 'InitListExpr') and len(g.kids(x)) == 1:
                x = g.strip_all(g.kids(x)[0])
            if g.k(x) == 'CallExpr' and len(g.args(x)) == 1:
                x = g.strip_all(g.args(x)[0])
            if g.k(x) == 'DeclRefExpr' and g.nodes[x].get('v') in byparam:
                v = byparam[g.nodes[x]['v']]
                out[fld.split('::')[-1]] = '?' if v is Unknown else v
            else:
                v = ev.lazy(g, ini['init'], evalfn.Env())
                out[fld.split('::')[-1]] = '?' if v is Unknown else v
        return ('result', tuple(sorted(out.items(), key=lambda x: x[0])))

    def record(self, f, n, env, ex):
        ev = explore.Ev(self.P, ex.client)
        a = f.args(n)
        v = ev.lazy(f, a[0], env) if a else Unknown
        if isinstance(v, tuple) and v and v[0] == 'result':
            return ('enqueue', v[1], f.loc(n))
        return ('enqueue', None, f.loc(n))

    def commits(self, f, n):
        """A call that records a received result."""
        for g in self.P.targets(f, n):
            if g.cfg is not None and g.cls and 'Executor' in g.cls and any(bare(g.types[p['t']]).endswith('TestResult') for p in g.params):
                return True
        return False

    def world(self, g, w):
        """Functions of executors that hand out tests or take results themselves."""
        if not g.cls or 'Executor' not in g.cls or 'Queue' in g.cls or g.kind in ('ctor', 'dtor'):
            return False
        key = ('w', g.id)
        if key not in self.memo:
            self.memo[key] = False
            for n, d in enumerate(g.nodes):
                if w.is_slot(g, n):
                    self.memo[key] = True
            for n in g.calls():
                if w.atomic(g, n) is not None or self.commits(g, n) or (g.nodes[n].get('f') or '').endswith('::tryDequeue') or any(t.id in w.roots or self.world(t, w) for t in self.P.targets(g, n)) \
                        or self.kind(g, n) == 'enqueue':
                    self.memo[key] = True
        return self.memo[key]

    def forks(self, g):
        """Is g run in a process of its own?"""
        seen = set()
        todo = [g]
        while todo:
            h = todo.pop()
            if h.id in seen:
                continue
            seen.add(h.id)
            if any((h.nodes[n].get('f') or '').endswith('performFork') or (h.nodes[n].get('f') or '') in ('fork', '::fork') for n in h.calls()):
                return True
            todo += [x for x, _ in self.P.callers.get(h.id, ())]
            if h.parent is not None:
                todo.append(h.parent)
        return False

    def outcome(self, g):
        return g.kind == 'lambda' or (g.cls or '').endswith('::TestRunner') and (g.types[g.d['ret']] in ('int', 'bool', 'unsigned long') or any('TestResult' in g.types[p['t']] for p in g.params))

    # ---- roots
    def roots(self):
        c = [g for g in self.P.fns.values() if g.cfg is not None and g.kind not in ('ctor', 'dtor', 'lambda') and self.matters(g)
             and any(bare(g.types[p['t']]).endswith(TEST) for p in g.params) and self.reaches(g, 'body') and self.reaches(g, 'enqueue')]
        ids = {g.id for g in c}
        return [g for g in c if not any(h.id in ids and h is not g for h, _ in self.P.callers.get(g.id, ()))]


def expected(evs, R):
    """The status that is to be recorded for what happened."""
    s = None
    for e in evs:
        if e[0] == 'setup':
            s = {'ok': 'Success', 'assert': 'Failure'}.get(e[1], 'Error')
        elif e[0] == 'body':
            s = {'ok': 'Success', 'assert': 'Failure'}.get(e[1], 'Error')
        elif e[0] == 'ignored' and s == 'Success' and e[1]:
            s = 'Ignored'
        elif e[0] == 'teardown':
            if e[1] == 'assert':
                s = 'Error' if s == 'Error' else 'Failure'
            elif e[1] != 'ok':
                s = 'Error'
    return s


def words(evs):
    return ', '.join('%s %s' % (e[0], {'ok': 'returns', 'assert': 'throws an assertion', 'std': 'throws a standard exception', 'other': 'throws something else', True: 'yes', False: 'no'}.get(e[1], e[1]))
                     for e in evs if e[0] in ('setup', 'body', 'teardown', 'ignored'))


def check_runner(P, R, g, rep):
    c = Tests(P, R)
    tp = [p for p in g.params if bare(g.types[p['t']]).endswith(TEST)][0]
    args = [Sym('test', ()) if p['id'] == tp['id'] else None for p in g.params]
    try:
        outs = explore.Explorer(P, c).run(g, args, Sym('this', ()))
    except explore.Limit:
        rep.violation('%s|undecided' % g.qn, g.loc(), 'the outcomes of %s could not be enumerated' % g.dn)
        return
    for evs, end in sorted(outs, key=str):
        rep.count('outcomes of running a test')
        names = [e[0] for e in evs]
        w = words(evs) or 'no part of the test runs'
        rep.sample('outcomes', '%s: %s' % (g.dn, w), 8)
        if end[0] == 'exc':
            rep.violation('%s|escapes' % g.qn, g.loc(), 'an exception leaves %s (%s): the run ends and the remaining tests are not run' % (g.dn, w))
            continue
        q = [e for e in evs if e[0] == 'enqueue']
        if len(q) != 1:
            rep.violation('%s|%s results' % (g.qn, 'no' if not q else 'several'), q[-1][2] if q else g.loc(), '%s records %d results for one test (%s)' % (g.dn, len(q), w))
            continue
        if names[-1] != 'enqueue':
            rep.violation('%s|early' % g.qn, q[0][2], '%s records the result before the test has finished (%s)' % (g.dn, w))
        for x in ('setup', 'body', 'teardown'):
            if names.count(x) > 1:
                rep.violation('%s|%s twice' % (g.qn, x), g.loc(), '%s calls the %s more than once for one test (%s)' % (g.dn, x, w))
        st = [e for e in evs if e[0] == 'setup']
        if 'body' in names and ('setup' not in names or names.index('setup') > names.index('body') or st[0][1] != 'ok'):
            rep.violation('%s|body' % g.qn, g.loc(), '%s runs the test body although the setup has not succeeded (%s)' % (g.dn, w))
        if st and st[0][1] == 'ok' and 'body' not in names:
            rep.violation('%s|nobody' % g.qn, g.loc(), '%s does not run the test body although the setup has succeeded (%s)' % (g.dn, w))
        if 'setup' in names and ('teardown' not in names or names.index('teardown') < max(names.index(x) for x in ('setup', 'body') if x in names)):
            rep.violation('%s|teardown' % g.qn, g.loc(), '%s does not call the teardown after the test (%s)' % (g.dn, w))
        ig = [i for i, e in enumerate(evs) if e[0] == 'ignored']
        if 'body' in names and ig and ig[0] < names.index('body'):
            rep.violation('%s|ignored' % g.qn, g.loc(), '%s asks whether the test is ignored before it has run' % g.dn)
        if 'body' in names and ig and 'reset' not in names[:names.index('body')]:
            rep.violation('%s|reset' % g.qn, g.loc(), '%s runs a test without resetting the mark of an ignored test: every test that follows an ignored one counts as ignored' % g.dn)
        want = expected(evs, R) or 'Ignored'
        fields = dict(q[0][1] or ())
        got = fields.get('result', '?')
        if isinstance(got, int) and not isinstance(got, bool):
            got = R.name.get(got, got)
        if got != want:
            rep.violation('%s|status' % g.qn, q[0][2], '%s records %s instead of %s (%s)' % (g.dn, got if got != '?' else 'a result that does not follow from what happened', want, w))
        check_identity(g, fields, q[0][2], rep)


def check_crash_report(P, R, g, rep):
    tp = [p for p in g.params if bare(g.types[p['t']]).endswith(TEST)][0]
    try:
        outs = explore.Explorer(P, Tests(P, R)).run(g, [Sym('test', ()) if p['id'] == tp['id'] else None for p in g.params], Sym('this', ()))
    except explore.Limit:
        return
    for evs, end in sorted(outs, key=str):
        rep.count('outcomes of crash reports')
        q = [e for e in evs if e[0] == 'enqueue']
        if end[0] != 'ret' or len(q) != 1:
            rep.violation('%s|crash results' % g.qn, g.loc(), '%s records %d results for a test whose process has died' % (g.dn, len(q)))
            continue
        fields = dict(q[0][1] or ())
        if R.name.get(fields.get('result')) != 'Error':
            rep.violation('%s|crash status' % g.qn, q[0][2], '%s does not record an error for a test whose process has died' % g.dn)
        check_identity(g, fields, q[0][2], rep)


def check_identity(g, fields, loc, rep):
    for x in ('groupIndex', 'testIndex', 'testName'):
        v = fields.get(x)
        if v is None and x == 'testName':
            continue
        if not (isinstance(v, Sym) and v.root == 'test' and v.key and v.key[-1] == x):
            rep.violation('%s|identity' % g.qn, loc, '%s records a result whose %s is not that of the test that was run' % (g.dn, x))
        rep.count('identities of recorded results')
    if fields.get('duration') == -1:
        rep.violation('%s|duration' % g.qn, loc, '%s records a result that is taken for no result (duration -1)' % g.dn)


class World(explore.Client):
    """The part of an executor that hands out the tests, takes the results and accounts for crashed processes. The world: the number of tests, the shared counter, the slot of
    the child process, and how many results are waiting."""
    state_keys = (('ctr',), ('slot',), ('wait',))

    def __init__(self, P, R, roots, size, dequeue='any'):
        self.P, self.R, self.size, self.dequeue = P, R, size, dequeue
        self.roots = {g.id for g in roots}

    def tests_index(self, f, a, env, ex):
        m = f.strip_all(a)
        if f.nodes[m].get('f') and f.is_call(m) and f.nodes[m].get('f').split('::')[-1] in ('operator[]', 'at'):
            x = f.kids(m)[2] if f.k(m) == 'CXXOperatorCallExpr' else f.args(m)[0]
            v = explore.Ev(self.P, self).lazy(f, x, env)
            return v if isinstance(v, int) else '?'
        v = explore.Ev(self.P, self).lazy(f, a, env)
        if isinstance(v, Sym) and v.root == 'test':
            return v.key[0]
        return '?'

    def event(self, f, n, env, ex):
        d = f.nodes[n]
        fn = d.get('f') or ''
        ts = [g for g in self.P.targets(f, n)]
        ids = {g.id for g in ts}
        ta = [a for a in f.args(n) if a >= 0 and bare(f.t(a)).endswith(TEST)]
        if ids & self.roots:
            return [((('run', self.tests_index(f, ta[0], env, ex) if ta else '?', env.get(('slot',), '?')),), ('val', None), ((('wait',), min(env.get(('wait',), 0) + 1, 3)),))]
        if ta and any(g.cfg is not None and self.R.reaches(g, 'enqueue') and not self.R.reaches(g, 'body') for g in ts):
            return [((('crash', self.tests_index(f, ta[0], env, ex)),), ('val', None))]
        if fn.split('::')[-1] == 'tryDequeue' and 'TestResultQueue' in fn:
            some = ((('got',),), ('val', Sym('some', ())), ((('wait',), max(env.get(('wait',), 0) - 1, 0)),))
            none = ((), ('val', Sym('none', ())), ())
            if self.dequeue == 'own':
                return [some] if env.get(('wait',), 0) else [none]
            return [some, none]
        if self.R.commits(f, n):
            return [((('commit',),), ('val', None))]
        inc = self.atomic(f, n)
        if inc is not None:
            c = env.get(('ctr',), 0)
            return [((('claim', c),), ('val', c if inc[0] == 'post' else c + inc[1]), ((('ctr',), c + inc[1]),))]
        return None

    def atomic(self, f, n):
        d = f.nodes[n]
        o = None
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') in ('++', '--', '+='):
            o = f.kids(n)[1]
            by = 1 if d['op'] == '++' else -1 if d['op'] == '--' else None
            if by is None:
                x = f.nodes[f.strip_all(f.kids(n)[2])].get('iv')
                by = int(x) if x is not None else 1
                how = 'pre'
            else:
                how = 'post' if len(f.kids(n)) > 2 else 'pre'
        elif d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('fetch_add',):
            o = f.obj(n)
            x = f.nodes[f.strip_all(f.args(n)[0])].get('iv')
            how, by = 'post', int(x) if x is not None else 1
        if o is None or not re.search(r'std::(__)?atomic', f.t(f.strip(o))):
            return None
        return how, by

    def assign(self, f, n, env, ex):
        d = f.nodes[n]
        if d.get('asg') and d.get('op') == '=':
            l = f.strip(f.kids(n)[0])
            if self.is_slot(f, l):
                v = explore.Ev(self.P, self).lazy(f, f.kids(n)[1], env)
                env[('slot',)] = v if isinstance(v, int) else '?'
        return ()

    def is_slot(self, f, l):
        if f.k(l) == 'CXXOperatorCallExpr' and f.nodes[l].get('op') == '[]':
            return bool(re.search(r'std::array<(unsigned|int|long)', f.t(f.strip(f.kids(l)[1]))))
        if f.k(l) == 'CXXMemberCallExpr' and (f.nodes[l].get('f') or '').startswith('std::array<') and (f.nodes[l].get('f') or '').endswith('::at'):
            return True
        if f.k(l) == 'ArraySubscriptExpr':
            return f.t(l) in ('unsigned int', 'int', 'unsigned long')
        return False

    def value(self, f, n, env, ev):
        d = f.nodes[n]
        if d['k'] == 'CXXMemberCallExpr' and f.obj(n) is not None and TEST in f.t(f.strip(f.obj(n))):
            name = (d.get('f') or '').split('::')[-1]
            if name == 'size':
                return self.size
            if name == 'empty':
                return int(self.size == 0)
            if name == 'at':
                v = ev.eval(f, f.args(n)[0], env)
                return Sym('test', (v,)) if isinstance(v, int) else NotImplemented
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '[]' and TEST in f.t(n):
            v = ev.eval(f, f.kids(n)[2], env)
            return Sym('test', (v,)) if isinstance(v, int) else NotImplemented
        if self.is_slot(f, n):
            s = env.get(('slot',))
            return s if isinstance(s, int) else NotImplemented
        if d.get('conv') and f.obj(n) is not None and re.search(r'std::(__)?atomic', f.t(f.strip(f.obj(n)))):
            raise Unknown('plain read of the shared counter')
        return NotImplemented

    def leaf(self, f, n, env, ev):
        if self.is_slot(f, n):
            s = env.get(('slot',))
            return s if isinstance(s, int) else NotImplemented
        return NotImplemented

    def member(self, f, n, o, name, ev):
        if isinstance(o, Sym) and o.root in ('some', 'none') and name == 'duration':
            return 5 if o.root == 'some' else -1
        return Sym(o.root, o.key + (name,)) if isinstance(o, Sym) else NotImplemented

    def catches(self, f, h, kind):
        return None

    def follow(self, g):
        return self.R.world(g, self)


def calls_root(P, R, g, ids):
    return any(t.id in ids for n in g.calls() for t in P.targets(g, n))


def check_executors(P, R, roots, rep):
    ids = {g.id for g in roots}
    base = R.cls('TestRunnerExecutor')
    ex = [g for g in P.fns.values() if g.cfg is not None and g.qn.endswith('::run') and g.cls and any('TestRunnerExecutor::run' in o or 'TestRunnerExecutor@F@run' in o for o in g.d.get('over', ()))]
    rep.count('executors', len(ex))
    rep.need('executors', 4)
    for g in ex:
        own = calls_root(P, R, g, ids)
        for size in (0, 1, 2):
            c = World(P, R, roots, size, 'own' if own else 'any')
            try:
                outs = explore.Explorer(P, c).run(g, (), Sym('this', ()), state={('ctr',): 0, ('slot',): 0, ('wait',): 0})
            except explore.Limit:
                rep.notes.append('%s is not decided (too many outcomes)' % g.dn)
                break
            for evs, end in sorted(outs, key=str):
                rep.count('runs of executors')
                if end[0] != 'ret':
                    continue
                got = [e for e in evs if e[0] in ('got', 'commit')]
                n = sum(1 for e in got if e[0] == 'commit')
                if n < size:
                    rep.violation('%s|early end' % g.qn, g.loc(), '%s can end after recording %d of %d results' % (g.dn, n, size))
                if n > size or any(e[0] == 'commit' and (i == 0 or got[i - 1][0] != 'got') for i, e in enumerate(got)):
                    rep.violation('%s|miscount' % g.qn, g.loc(), '%s records something that is not a result received' % g.dn)
                if any(e[0] == 'got' and (i + 1 == len(got) or got[i + 1][0] != 'commit') for i, e in enumerate(got)):
                    rep.violation('%s|lost' % g.qn, g.loc(), '%s loses a result that it has received' % g.dn)
                if own:
                    runs = [e[1] for e in evs if e[0] == 'run']
                    if runs != list(range(size)):
                        rep.violation('%s|tests' % g.qn, g.loc(), '%s runs the tests %s of %d' % (g.dn, runs, size))
            if not any(end[0] == 'ret' for _, end in outs):
                rep.violation('%s|never ends' % g.qn, g.loc(), '%s does not end once all %d results are received' % (g.dn, size))
    check_workers(P, R, roots, {g.id for g in ex}, rep)


def check_workers(P, R, roots, exids, rep):
    ids = {g.id for g in roots}
    w = [g for g in P.fns.values() if g.cfg is not None and g.id not in exids and calls_root(P, R, g, ids)]
    # the functions that claim a test and run it, with their helpers followed
    def claims(g, seen=()):
        c = World(P, R, roots, 1)
        return any(c.atomic(g, n) is not None or any(h.cfg is not None and h.id not in seen and 'Executor' in h.qn and claims(h, seen + (g.id,)) for h in P.targets(g, n)) for n in g.calls())
    todo = list(w)
    work = []
    while todo:
        g = todo.pop()
        if claims(g):
            work.append(g)
        else:
            cs = [h for h, _ in P.callers.get(g.id, ()) if h.id not in exids]
            if not cs:
                rep.violation('%s|claim' % g.qn, g.loc(), '%s runs tests without claiming them in one atomic step: two workers can run the same test' % g.dn)
            todo += [h for h in cs if h not in work]
    rep.count('workers', len(set(work)))
    rep.need('workers', 2)
    for g in sorted(set(work), key=lambda x: x.qn):
        check_worker(P, R, roots, g, rep)


def check_worker(P, R, roots, g, rep):
    size = 2
    bools = [p['id'] for p in g.params if g.types[p['t']] == 'bool']
    vals = [{}]
    for b in bools:
        vals = [dict(v, **{b: x}) for v in vals for x in (True, False)]
    multi = R.forks(g)
    crash_seen = False
    full = []
    for val in vals:
        args = [val.get(p['id'], Sym('self', ()) if g.types[p['t']].endswith('*') else None) for p in g.params]
        drained = True
        for c0 in range(size + 1):
            r = explore_worker(P, R, roots, g, args, c0, 0, rep)
            if r is None:
                return
            for evs, end in sorted(r, key=str):
                rep.count('runs of workers')
                if end[0] != 'ret':
                    continue
                claims = [e[1] for e in evs if e[0] == 'claim']
                runs = [e[1] for e in evs if e[0] == 'run']
                if any(e[0] == 'crash' for e in evs):
                    rep.violation('%s|no crash' % g.qn, g.loc(), '%s reports a crashed test although no test was recorded as running' % g.dn)
                if '?' in runs:
                    rep.violation('%s|claim' % g.qn, g.loc(), '%s runs a test that it has not claimed in one atomic step: two workers can run the same test' % g.dn)
                elif runs != [x for x in claims if x < size]:
                    rep.violation('%s|claimed' % g.qn, g.loc(), '%s claims the tests %s of %d and runs %s' % (g.dn, claims, size, runs))
                if not claims or claims[-1] < size:
                    drained = False
                slot = dict(end[2]).get(('slot',), '?')
                if multi and isinstance(slot, int):
                    for evs2, end2 in explore_worker(P, R, roots, g, args, size, slot, rep) or ():
                        if any(e[0] == 'crash' for e in evs2):
                            rep.violation('%s|false crash' % g.qn, g.loc(), 'a process that follows one which has ended normally reports a crashed test (%s)' % g.dn)
                if multi:
                    for e in evs:
                        if e[0] == 'run' and isinstance(e[1], int):
                            if not isinstance(e[2], int):
                                rep.notes.append('how %s records the running test is not understood' % g.dn)
                                continue
                            for evs2, end2 in explore_worker(P, R, roots, g, args, size, e[2], rep) or ():
                                rep.count('crashes followed')
                                cr = [x[1] for x in evs2 if x[0] == 'crash']
                                if cr != [e[1]]:
                                    rep.violation('%s|crash' % g.qn, g.loc(), 'when a process dies in test %d the next one reports %s (%s): the run never ends or the wrong test is blamed'
                                                  % (e[1], 'test %s' % cr[0] if cr else 'nothing', g.dn))
        full.append(drained)
    if not any(full):
        rep.violation('%s|stops' % g.qn, g.loc(), '%s stops while there are tests that nobody has claimed' % g.dn)


def explore_worker(P, R, roots, g, args, c0, slot, rep):
    c = World(P, R, roots, 2)
    try:
        return explore.Explorer(P, c).run(g, args, Sym('this', ()), state={('ctr',): c0, ('slot',): slot, ('wait',): 0})
    except explore.Limit:
        rep.notes.append('%s is not decided (too many outcomes)' % g.dn)
        return None


class Outcome(explore.Client):
    """The value with which a test run ends, for a given list of results."""
    ALGO = {'std::count_if': 'count', 'std::any_of': 'any', 'std::all_of': 'all', 'std::none_of': 'none', 'std::for_each': 'each'}

    def __init__(self, P, R, results):
        self.P, self.R, self.results = P, R, results

    def event(self, f, n, env, ex):
        d = f.nodes[n]
        fn = d.get('f') or ''
        if d['k'] == 'CXXMemberCallExpr' and fn.endswith('TestRunnerExecutor::run'):
            return [((('executed',),), ('val', None))]
        if fn in self.ALGO and len(f.args(n)) == 3 and 'TestResult' in f.t(f.strip_all(f.args(n)[0])):
            ev = explore.Ev(self.P, self)
            lam = ev.lazy(f, f.args(n)[2], env)
            if isinstance(lam, explore.Lambda) and lam.fid in self.P.fns:
                g = self.P.fns[lam.fid]
                vals = []
                cap = {k: v for k, v in env.items() if isinstance(k, str)}
                for i in range(len(self.results)):
                    o = ex.run(g, [Sym('res', (i,))], env.get('this'), cap, 1)
                    o = {x for _, x in o}
                    if len(o) != 1 or list(o)[0][0] != 'ret':
                        return [((), ('val', None))] if self.ALGO[fn] != 'each' else None
                    r = list(o)[0]
                    vals.append(r[1])
                    for k, v in r[2]:
                        if isinstance(k, str) and v is not None:
                            cap[k] = v
                how = self.ALGO[fn]
                back = tuple((k, v) for k, v in cap.items() if env.get(k) != v)
                if how == 'each':
                    return [((), ('val', None), back)]
                if any(not isinstance(v, (int, bool)) for v in vals):
                    return [((), ('val', None))]
                v = {'count': lambda: sum(1 for x in vals if x), 'any': lambda: int(any(vals)), 'all': lambda: int(all(vals)), 'none': lambda: int(not any(vals))}[how]()
                return [((), ('val', v), back)]
        return None

    def value(self, f, n, env, ev):
        d = f.nodes[n]
        if d['k'] == 'CXXMemberCallExpr' and f.obj(n) is not None and 'TestResult>' in f.t(f.strip(f.obj(n))):
            name = (d.get('f') or '').split('::')[-1]
            if name == 'size':
                return len(self.results)
            if name == 'empty':
                return int(not self.results)
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '[]' and bare(f.t(n)).endswith('TestResult'):
            v = ev.eval(f, f.kids(n)[2], env)
            if isinstance(v, int) and 0 <= v < len(self.results):
                return Sym('res', (v,))
        return NotImplemented

    def member(self, f, n, o, name, ev):
        if isinstance(o, Sym) and o.root == 'res' and name == 'result':
            return self.R.res[self.results[o.key[0]]]
        return Sym(o.root, o.key + (name,)) if isinstance(o, Sym) else NotImplemented

    def range_length(self, f, n):
        r = f.nodes[n].get('range')
        if r is not None and r >= 0 and re.search(r'vector<[\w:]*TestResult\b', f.t(f.strip(r))):
            return len(self.results)
        return None

    def range_element(self, f, n, i):
        return Sym('res', (i,))

    def follow(self, g):
        return self.R.outcome(g)

    def catches(self, f, h, kind):
        return None


def check_outcome(P, R, rep):
    tr = R.cls('TestRunner')
    c = [g for g in P.fns.values() if g.cfg is not None and g.cls == tr and g.types[g.d['ret']] == 'int' and any(
        g.k(n) == 'CXXMemberCallExpr' and (g.nodes[n].get('f') or '').endswith('TestRunnerExecutor::run') for n in g.calls())]
    rep.count('functions that perform a test run', len(c))
    rep.need('functions that perform a test run', 1)
    tops = {g.id: g for g in c}
    todo = list(c)
    while todo:
        g = todo.pop()
        for h, _ in P.callers.get(g.id, ()):
            if h.cls == tr and h.types[h.d['ret']] == 'int' and h.id not in tops:
                tops[h.id] = h
                todo.append(h)
    lists = [(), ('Success',), ('Ignored',), ('Failure',), ('Error',), ('Success', 'Failure'), ('Failure', 'Success'), ('Error', 'Success'), ('Success', 'Error'), ('Success', 'Ignored'), ('Failure', 'Error')]
    for g in sorted(tops.values(), key=lambda x: (x.qn, len(x.params))):
        inner = g in c
        for res in lists if inner else lists[1:5]:
            try:
                outs = explore.Explorer(P, Outcome(P, R, res)).run(g, (), Sym('this', ()))
            except explore.Limit:
                rep.notes.append('%s is not decided (too many outcomes)' % g.dn)
                break
            for evs, end in sorted(outs, key=str):
                if end[0] != 'ret' or ('executed',) not in evs:
                    continue
                rep.count('outcomes of test runs')
                bad = any(x in ('Failure', 'Error') for x in res)
                v = end[1]
                if isinstance(v, (int, bool)) and (v != 0) == bad:
                    continue
                rep.violation('%s|%d|outcome' % (g.qn, len(g.params)), g.loc(), '%s returns %s when the results are %s' % (g.dn, v if isinstance(v, (int, bool)) else 'a value that does not follow from the results', ', '.join(res) or 'none'))


def check_generator(P, rep):
    """A run without reports has no report generator."""
    N = nullness.Nullness(P)

    def known(f, n, p, depth=0):
        st = N.at(f, n)
        if st is None or p in st:
            return True
        if p[0].startswith('v:') and len(p) == 1 and depth < 5:
            ps = [i for i, x in enumerate(f.params) if 'v:' + x['id'] == p[0]]
            cs = P.callers.get(f.id, ())
            if ps and cs:
                for h, c in cs:
                    a = h.args(c)
                    q = nullness.key(h, a[ps[0]]) if ps[0] < len(a) and a[ps[0]] >= 0 else None
                    if q is None or not known(h, c, q, depth + 1):
                        return False
                return True
        return False
    for f in P.fns.values():
        if f.cfg is None or '::Testing::' not in f.qn:
            continue
        for n, p in nullness.derefs(f):
            if not re.search(r'(shared|unique)_ptr<[^<>]*TestReportGenerator', f.t(f.strip(p))):
                continue
            rep.count('uses of the report generator')
            q = nullness.key(f, p)
            if q is None or not known(f, n, q):
                rep.violation('%s|generator' % f.qn, f.loc(n), '%s uses the report generator although there is none when no reports are requested: the run ends with a crash' % f.dn)


def check(P, rep):
    R = Rule(P, rep)
    roots = R.roots()
    rep.count('functions that run a test', len(roots))
    rep.need('functions that run a test', 1)
    for g in roots:
        check_runner(P, R, g, rep)
    rep.need('outcomes of running a test', 20)
    for g in P.fns.values():
        if g.cfg is not None and g.cls and 'Executor' in g.cls and any(bare(g.types[p['t']]).endswith(TEST) for p in g.params) and R.matters(g) and R.reaches(g, 'enqueue') and not R.reaches(g, 'body'):
            check_crash_report(P, R, g, rep)
    check_executors(P, R, roots, rep)
    check_outcome(P, R, rep)
    check_generator(P, rep)
    rep.need('uses of the report generator', 1)
    rep.need('outcomes of test runs', 10)
    rep.need('outcomes of crash reports', 1)
    rep.need('crashes followed', 2)
    return ('every outcome of setup, body and teardown (normal, assertion, standard exception, anything else) is followed through the function that runs a test and its helpers: '
            'no exception leaves it, the body runs exactly when the setup succeeded, the teardown always follows, and exactly one result is put in the queue, of the same test and with the '
            'most severe status; executors end exactly when as many results are recorded as there are tests, workers run exactly the tests they claim in one atomic step, the value recorded for '
            'a running test identifies it to the process that follows a crash, and the run returns failure exactly when a result is a failure or an error; the report generator is used only where it is known to be there')
