"""All outcomes of a function over a finite domain, exceptions included.

Every path of the control flow graph is followed; what the abstract values decide is taken one way only, everything else both ways. A client says what a call does
(which events it causes, whether it returns and with what, or which kind of exception it throws); calls of functions that matter are followed, others have no effect.
No code of the program is executed: values are constants and symbols, and the domain is finite."""
import evalfn

Unknown = evalfn.Unknown


class Lambda:
    def __init__(self, fid, env):
        self.fid = fid
        self.env = env

    def key(self):
        return ('lambda', self.fid, self.env)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Lambda) and self.key() == o.key()

    def __repr__(self):
        return 'Lambda(%s)' % self.fid


class Ev(evalfn.Evaluator):
    STEPS = 100000

    def __init__(self, P, client):
        super().__init__(P)
        self.client = client
        self.steps = 0

    def known(self, n, env):
        return env.get(('n', n)) if env else None

    def boolean(self, f, n, env):
        v = self.known(f.strip(n), env)
        if v is not None and v is not Unknown:
            return bool(v)
        return super().boolean(f, n, env)

    def eval(self, f, n, env):
        m = f.strip(n)
        v = self.known(m, env)
        if v is not None:
            if v is Unknown:
                raise Unknown('unknown')
            return v
        if f.k(m) == 'LambdaExpr':
            return Lambda(f.nodes[m].get('lid'), freeze(env))
        if f.k(m) == 'ConditionalOperator':
            c, a, b = f.kids(m)
            return self.eval(f, a if self.boolean(f, c, env) else b, env)
        return super().eval(f, n, env)

    def call(self, f, n, env):
        v = self.client.value(f, n, env, self)
        if v is not NotImplemented:
            return v
        raise Unknown('call')

    def leaf(self, f, n, env):
        v = self.client.leaf(f, n, env, self)
        if v is not NotImplemented:
            return v
        raise Unknown(f.k(n))

    def member(self, f, n, o, name):
        v = self.client.member(f, n, o, name, self)
        if v is not NotImplemented:
            return v
        return super().member(f, n, o, name)

    def compare(self, f, n, op, a, b):
        v = self.client.compare(f, n, op, a, b)
        if v is not NotImplemented:
            return v
        raise Unknown('comparison')


class Client:
    state_keys = ()         # parts of the environment that are shared by all functions (the state of the modelled world)

    def value(self, f, n, env, ev):
        return NotImplemented

    def leaf(self, f, n, env, ev):
        return NotImplemented

    def member(self, f, n, o, name, ev):
        return NotImplemented

    def compare(self, f, n, op, a, b):
        return NotImplemented

    def event(self, f, n, env, ex):
        """None: nothing special; otherwise a list of (events, ('val', value) or ('exc', kind))."""
        return None

    def assign(self, f, n, env, ex):
        """Events of an assignment whose target is not a variable."""
        return ()

    def follow(self, g):
        return False

    def this_value(self, f, n, env):
        return None

    def catches(self, f, handler, kind):
        """True, False or None (perhaps)."""
        return None

    def range_length(self, f, n):
        return None

    def range_element(self, f, n, i):
        return Unknown


def freeze(env):
    return tuple(sorted(env.items(), key=lambda x: str(x[0])))


class Limit(Exception):
    pass


class Explorer:
    def __init__(self, P, client, limit=30000, maxev=14):
        self.P = P
        self.client = client
        self.limit = limit
        self.maxev = maxev
        self.n = 0
        self.stack = []

    def run(self, f, args=(), this=None, captured=None, depth=0, state=None):
        """Set of (events, ('ret', value, ((param index, value)...)) or ('exc', kind))."""
        env = evalfn.Env(captured or {})
        for k in [k for k in env if isinstance(k, tuple) and k[0] in ('n', 'it')]:
            del env[k]
        env.update(state or {})
        if this is not None:
            env['this'] = this
        for i, p in enumerate(f.params):
            env.pop(p['id'], None)
            if i < len(args) and args[i] is not Unknown and args[i] is not None:
                env[p['id']] = args[i]
        ev = Ev(self.P, self.client)
        cfg = f.cfg
        out = set()
        seen = set()
        todo = [(cfg.entry, 0, (), freeze(env))]
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            self.n += 1
            if self.n > self.limit:
                raise Limit(f.qn)
            b, i, evs, envt = st
            if len(evs) > self.maxev:
                continue
            env = evalfn.Env(envt)
            ev.steps = 0
            self.block(f, cfg, ev, b, i, evs, env, todo, out, depth, captured)
        return out

    def block(self, f, cfg, ev, b, i, evs, env, todo, out, depth, captured):
        blk = cfg.blocks[b]
        for j in range(i, len(blk.elems)):
            e = blk.elems[j]
            if not isinstance(e, int):
                continue
            k = f.k(e)
            if f.strip(e) == e:
                env.pop(('n', e), None)
            if k == 'ReturnStmt':
                c = f.kids(e)
                v = ev.lazy(f, c[0], env) if c else None
                out.add((evs, ('ret', v if v is not Unknown else '?', self.outs(f, env, captured))))
                return
            if k == 'CXXThrowExpr':
                kind = env.get(('exc',), 'std') if not f.kids(e) else self.thrown(f, e)
                self.throw(f, cfg, b, evs, env, kind, todo, out, captured)
                return
            if f.is_call(e):
                r = self.client.event(f, e, env, self)
                if r is None:
                    r = self.into(f, e, ev, env, depth)
                if r is not None:
                    done = False
                    if len(r) == 1 and r[0][1][0] == 'val' and len(r[0]) == 2:
                        evs = evs + r[0][0]
                        v = r[0][1][1]
                        env[('n', f.strip(e))] = Unknown if v in (None, '?') else v
                        continue
                    for item in r:
                        evs2 = evs + item[0]
                        env2 = evalfn.Env(env)
                        if len(item) > 2:
                            for kk, vv in item[2]:
                                env2[kk] = vv
                        if item[1][0] == 'val':
                            v = item[1][1]
                            env2[('n', f.strip(e))] = Unknown if v in (None, '?') else v
                            todo.append((b, j + 1, evs2, freeze(env2)))
                        else:
                            self.throw(f, cfg, b, evs2, env2, item[1][1], todo, out, captured)
                    return
            self.element(f, e, ev, env)
            extra = self.client.assign(f, e, env, self) if (f.nodes[e].get('asg') or f.nodes[e].get('op') in ('=', '++', '--')) else ()
            evs = evs + tuple(extra)
        if blk.noret:
            self.throw(f, cfg, b, evs, env, None, todo, out, captured)
            return
        if b == cfg.exit:
            out.add((evs, ('ret', None, self.outs(f, env, captured))))
            return
        edges = [x for x in cfg.edges(b) if x[1] != 'eh']
        for s, env2 in self.next(f, cfg, ev, blk, edges, env):
            if s == cfg.exit:
                out.add((evs, ('ret', None, self.outs(f, env2, captured))))
            else:
                todo.append((s, 0, evs, freeze(env2)))

    def outs(self, f, env, captured):
        o = []
        for i, p in enumerate(f.params):
            t = f.types[p['t']]
            if t.endswith('&') and not t.startswith('const ') and p['id'] in env:
                o.append((i, env[p['id']]))
        for k in self.client.state_keys:
            if k in env:
                o.append((k, env[k]))
        if captured:
            for k in captured:
                if isinstance(k, str) and k != 'this' and env.get(k) != captured[k]:
                    o.append((k, env.get(k)))
        return tuple(sorted(o, key=str))

    def next(self, f, cfg, ev, blk, edges, env):
        if not edges:
            return []
        if len(edges) == 1:
            return [(edges[0][0], env)]
        if blk.term is not None and f.k(blk.term) == 'SwitchStmt':
            try:
                v = ev.eval(f, f.nodes[blk.term]['cond'], env)
                return [(ev.switch(f, blk, v), env)]
            except (Unknown, evalfn.Thrown):
                return [(s, env) for s, _ in edges]
        if blk.term is not None and f.k(blk.term) == 'CXXForRangeStmt':
            ln = self.client.range_length(f, blk.term)
            if ln is not None:
                i = env.get(('it', blk.term), 0)
                env2 = evalfn.Env(env)
                if i >= ln:
                    env2.pop(('it', blk.term), None)
                    return [(s, env2) for s, lab in edges if lab is False]
                env2[('it', blk.term)] = i + 1
                res = []
                el = self.client.range_element(f, blk.term, i)
                for s, lab in edges:
                    if lab is True:
                        e3 = evalfn.Env(env2)
                        e3[('elem', blk.term)] = el
                        res.append((s, e3))
                return res
        if blk.cond is not None:
            try:
                v = ev.boolean(f, blk.cond, env)
                sel = [(s, env) for s, lab in edges if lab is v or lab is None]
                if sel:
                    return sel
            except (Unknown, evalfn.Thrown):
                pass
            res = []
            for s, lab in edges:
                env2 = evalfn.Env(env)
                if lab is not None and not any(f.nodes[x].get('v') and f.k(x) == 'DeclRefExpr' and f.assigned(f.nodes[x]['v']) for x in f.walk(blk.cond)):
                    env2[('n', f.strip(blk.cond))] = bool(lab)
                    # a plain variable keeps the value found
                    m = f.strip(blk.cond)
                    if f.k(m) == 'DeclRefExpr' and f.nodes[m].get('v'):
                        env2[f.nodes[m]['v']] = bool(lab)
                elif lab is not None and blk.term is not None and f.k(blk.term) == 'ConditionalOperator':
                    env2[('n', f.strip(blk.cond))] = bool(lab)
                res.append((s, env2))
            return res
        return [(s, env) for s, _ in edges]

    def throw(self, f, cfg, b, evs, env, kind, todo, out, captured):
        eh = [x for x in cfg.blocks[b].eh if x >= 0]
        if kind is None:
            return          # the process ends
        todo_d = [x for x in eh if x != cfg.exit]
        if not todo_d:
            out.add((evs, ('exc', kind)))
            return
        for s in todo_d:
            self.dispatch(f, cfg, s, evs, env, kind, todo, out)

    def dispatch(self, f, cfg, s, evs, env, kind, todo, out):
        blk = cfg.blocks[s]
        for h in blk.succs:
            if h < 0:
                continue
            lab = cfg.blocks[h].label
            if lab is None or f.k(lab) != 'CXXCatchStmt':
                if h == cfg.exit:
                    out.add((evs, ('exc', kind)))
                elif cfg.blocks[h].term is not None and f.k(cfg.blocks[h].term) == 'CXXTryStmt':
                    self.dispatch(f, cfg, h, evs, env, kind, todo, out)
                continue
            m = True if f.nodes[lab].get('all') else self.client.catches(f, lab, kind)
            if m is False:
                continue
            env2 = evalfn.Env(env)
            env2[('exc',)] = kind
            todo.append((h, 0, evs, freeze(env2)))
            if m is True:
                return
        nxt = [h for h in blk.eh if h >= 0]
        for h in nxt:
            if h == cfg.exit:
                out.add((evs, ('exc', kind)))
            else:
                self.dispatch(f, cfg, h, evs, env, kind, todo, out)
        if not nxt and not any(h == cfg.exit or (cfg.blocks[h].label is None) for h in blk.succs if h >= 0):
            out.add((evs, ('exc', kind)))

    def thrown(self, f, e):
        return self.client.thrown_kind(f, e) if hasattr(self.client, 'thrown_kind') else 'std'

    def element(self, f, e, ev, env):
        d = f.nodes[e]
        if d['k'] == 'DeclStmt':
            for v in d.get('vars', ()):
                env.pop(v['id'], None)
                # the variable of a range loop
                for k in [k for k in env if isinstance(k, tuple) and k[0] == 'elem']:
                    if f.nodes[k[1]].get('lvar') == e:
                        env[v['id']] = env[k]
                        break
                else:
                    if 'init' in v:
                        x = ev.lazy(f, v['init'], env)
                        if x is not Unknown and x is not None:
                            env[v['id']] = x
            return
        before = dict(env)
        ev.element(f, e, env)
        for k in list(env):
            if env[k] is Unknown and not (isinstance(k, tuple) and k[0] == 'n'):
                del env[k]

    def into(self, f, e, ev, env, depth):
        d = f.nodes[e]
        ts = []
        lam = None
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()':
            v = ev.lazy(f, f.kids(e)[1], env)
            if isinstance(v, Lambda):
                g = self.P.fns.get(v.fid)
                if g is not None and g.cfg is not None:
                    ts, lam = [g], v
        if not ts:
            ts = [g for g in self.P.targets(f, e) if g.cfg is not None and self.client.follow(g)]
        if not ts or depth > 10:
            return None
        res = []
        for g in ts:
            if g.id in self.stack:
                continue
            a = f.args(e)
            if d['k'] == 'CXXOperatorCallExpr' and not lam and f.obj(e) is not None and g.kind != 'lambda':
                a = f.kids(e)[2:]
            elif lam:
                a = f.kids(e)[2:]
            vals = [ev.lazy(f, x, env) if x is not None and x >= 0 else Unknown for x in a]
            o = f.obj(e)
            this = None
            if o is not None and not lam:
                this = ev.lazy(f, o, env)
                this = None if this is Unknown else this
            elif d['k'] == 'CXXMemberCallExpr':
                this = env.get('this')
            if lam is not None:
                cap = {k: v for k, v in env.items() if isinstance(k, str)} if g.root() is f.root() or g.parent is f else dict(x for x in lam.env if isinstance(x[0], str))
            else:
                cap = {k: v for k, v in env.items() if isinstance(k, str) and k != 'this'} if g.kind == 'lambda' else None
            self.stack.append(g.id)
            try:
                outs = self.run(g, vals, this if lam is None else dict(lam.env).get('this'), cap, depth + 1, {k: env[k] for k in self.client.state_keys if k in env})
            finally:
                self.stack.pop()
            for evs, r in outs:
                if r[0] == 'ret':
                    back = []
                    for k, v in r[2]:
                        if isinstance(k, int):
                            if k < len(a) and a[k] >= 0:
                                m = f.strip_all(a[k])
                                if f.nodes[m].get('v') and v is not None:
                                    back.append((f.nodes[m]['v'], v))
                        elif v is not None:
                            back.append((k, v))
                    res.append((evs, ('val', r[1]), tuple(back)))
                else:
                    res.append((evs, ('exc', r[1])))
        return res
