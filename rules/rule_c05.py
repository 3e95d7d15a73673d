"""C05: a log call takes effect exactly when its severity is enabled, and with that severity."""
import re

import evalfn
import facts
import flags
import nullness

LEVEL_T = re.compile(r'(^|::)LoggingLevel$')
SEVERITIES = ('trace', 'debug', 'info', 'warn', 'error')


def is_level(t):
    return bool(LEVEL_T.search(re.sub(r'\b(const|enum|volatile)\b|&', '', t).strip()))


class Eval(evalfn.Evaluator):
    level = None

    def call(self, f, n, env):
        if is_level(f.t(n)) and 'std::atomic' in (f.nodes[n].get('f') or '') + (f.nodes[n].get('cls') or ''):
            return self.level
        return NotImplemented

    def leaf(self, f, n, env):
        if is_level(f.t(n)) and f.k(n) == 'MemberExpr':
            return self.level
        raise evalfn.Unknown(f.k(n))

    def member(self, f, n, o, name):
        if 'LoggingLevel' in f.t(n):
            return self.level
        return super().member(f, n, o, name)


class Runner:
    def __init__(self, P, loggers):
        self.P = P
        self.loggers = loggers
        self.reach = {}
        self.sinks = {}

    def writes(self, g, depth=0):
        """Can g write to a logging stream?"""
        if g.id in self.reach:
            return self.reach[g.id]
        self.reach[g.id] = False
        for n in g.calls():
            d = g.nodes[n]
            if self.is_write(g, n) or any(self.writes(h, depth + 1) for h in self.P.targets(g, n) if depth < 6 and 'Logg' in h.qn and h.cls in self.loggers | {None}):
                self.reach[g.id] = True
                break
        return self.reach[g.id]

    @staticmethod
    def is_write(g, n):
        f = g.nodes[n].get('f') or ''
        return f.endswith('LoggingStream::write')

    def sink(self, g):
        """The innermost function with a severity parameter that writes."""
        if g.id not in self.sinks:
            self.sinks[g.id] = False
            if any(is_level(g.types[p['t']]) for p in g.params) and self.writes(g):
                self.sinks[g.id] = not any(h is not g and any(is_level(h.types[p['t']]) for p in h.params) and self.writes(h) for n in g.calls() for h in self.P.targets(g, n))
        return self.sinks[g.id]

    def run(self, f, args, this, level, depth=0):
        """Every sequence of events a call of f can cause when the logger is configured at the given level."""
        ev = Eval(self.P)
        ev.level = level
        env = {'this': this}
        for i, p in enumerate(f.params):
            if i < len(args) and args[i] is not None:
                env[p['id']] = args[i]
        out = set()
        seen = set()
        cfg = f.cfg
        todo = [(cfg.entry, (), tuple(sorted(env.items(), key=lambda x: str(x[0]))))]
        while todo:
            b, evs, envt = todo.pop()
            if (b, evs, envt) in seen or len(seen) > 20000:
                continue
            seen.add((b, evs, envt))
            env = evalfn.Env(envt)
            blk = cfg.blocks[b]
            branches = {evs}
            for e in blk.elems:
                if not isinstance(e, int):
                    continue
                branches = {x + y for x in branches for y in self.events(f, e, ev, env, level, depth)}
                if f.k(e) == 'DeclStmt':
                    for v in f.nodes[e].get('vars', ()):
                        env.pop(v['id'], None)
                        t = f.vars[v['id']]['type']
                        if 'init' in v and (is_level(t) or t.replace('const ', '') in ('bool', 'int', 'unsigned int', 'long')):
                            try:
                                env[v['id']] = ev.eval(f, v['init'], env)
                            except (evalfn.Unknown, evalfn.Thrown):
                                pass
                elif f.nodes[e].get('asg'):
                    l = f.strip(f.kids(e)[0])
                    if f.nodes[l].get('v'):
                        env.pop(f.nodes[l]['v'], None)
                        try:
                            if f.nodes[e].get('op') == '=':
                                env[f.nodes[l]['v']] = ev.eval(f, f.kids(e)[1], env)
                        except (evalfn.Unknown, evalfn.Thrown):
                            pass
            branches = {x[:6] for x in branches}
            if b == cfg.exit:
                out |= branches
                continue
            if blk.noret or cfg.is_throw_block(b):
                continue
            edges = [x for x in cfg.edges(b) if x[1] != 'eh']
            if blk.cond is not None and len(edges) > 1:
                v = None
                try:
                    if blk.term is not None and f.k(blk.term) == 'SwitchStmt':
                        x = ev.eval(f, f.nodes[blk.term]['cond'], env)
                        edges = [(s, None) for s in [ev.switch(f, blk, x)]]
                    else:
                        v = ev.boolean(f, blk.cond, env)
                        edges = [x for x in edges if x[1] is v or x[1] is None]
                except (evalfn.Unknown, evalfn.Thrown, KeyError):
                    pass
            t = tuple(sorted(env.items(), key=lambda x: str(x[0])))
            for s, lab in edges:
                for x in branches:
                    if s == cfg.exit:
                        out.add(x)
                    else:
                        todo.append((s, x, t))
            if not edges:
                out |= branches
        return out

    def events(self, f, n, ev, env, level, depth):
        d = f.nodes[n]
        if not f.is_call(n):
            return {()}
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and 'std::function<' in f.t(f.strip(f.kids(n)[1])):
            return {(('calls the message function', f.loc(n)),)}
        ts = [g for g in self.P.targets(f, n) if g.cfg is not None]
        for g in ts:
            if self.sink(g):
                lv = '?'
                for p, a in zip(g.params, f.args(n)):
                    if is_level(g.types[p['t']]):
                        try:
                            lv = ev.eval(f, a, env)
                        except evalfn.Unknown:
                            pass
                return {(('emit', lv),)}
            if (g.cls in self.loggers or g.root().cls in self.loggers) and depth < 6 and g.kind not in ('ctor', 'dtor'):
                a = []
                for x in f.args(n):
                    try:
                        a.append(ev.eval(f, x, env) if x >= 0 and (is_level(f.t(x)) or f.t(x) in ('bool', 'int')) else None)
                    except (evalfn.Unknown, evalfn.Thrown):
                        a.append(None)
                return self.run(g, a, env.get('this'), level, depth + 1) or {()}
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return {()}
        # rendering of the parameters
        for a in (f.args(n) if d['k'] != 'CXXOperatorCallExpr' else f.kids(n)[1:]):
            if a < 0:
                continue
            for x in f.walk(a):
                v = f.nodes[x].get('v')
                var = f.vars.get(v) if v and f.k(x) == 'DeclRefExpr' else None
                if var and var.get('param') and self.message_parameter(f, v):
                    if (d.get('f') or '') in ('std::forward', 'std::move'):
                        continue
                    return {(('renders a parameter', f.loc(n)),)}
        if self.is_write(f, n):
            return {(('writes', f.loc(n)),)}
        return {()}

    @staticmethod
    def message_parameter(f, v):
        t = f.vars[v]['type']
        if is_level(t) or re.search(r'SourceCodeLocation|basic_string_view|string_view|^const char \*|std::function<|Logger\b|LoggerString', t):
            return False
        return True


def check_sink(P, R, g, rep):
    lv = [p['id'] for p in g.params if is_level(g.types[p['t']])]

    def of_level(n):
        n = g.strip_all(n)
        d = g.nodes[n]
        if d['k'] == 'DeclRefExpr' and d.get('v') in lv:
            return True
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            h, var = g.lookup_var(d['v'])
            return bool(var and not var.get('param') and var.get('init') is not None and not g.assigned(d['v']) and of_level(var['init']))
        if g.is_call(n) and len(g.args(n)) == 1:
            return of_level(g.args(n)[0])
        if d['k'].endswith('CastExpr') and g.kids(n):
            return of_level(g.kids(n)[0])
        return False
    found = 0
    for n, d in enumerate(g.nodes):
        idx = None
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '[]' and 'LoggingStream' in g.t(g.strip(g.kids(n)[1])):
            idx = g.kids(n)[2]
        elif d['k'] == 'ArraySubscriptExpr' and 'LoggingStream' in g.t(n):
            idx = g.kids(n)[1]
        elif d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').endswith('::at') and 'LoggingStream' in g.t(n):
            idx = g.args(n)[0]
        if idx is not None:
            found += 1
            rep.count('stream selections')
            if not of_level(idx):
                rep.violation('%s|stream' % g.qn, g.loc(n), '%s selects the stream to write to by something other than the severity of the message' % g.dn)
        if g.is_call(n) and not R.is_write(g, n):
            for a in g.args(n):
                if a >= 0 and is_level(g.t(g.strip_all(a))):
                    rep.count('severities passed on')
                    if not of_level(a):
                        rep.violation('%s|severity' % g.qn, g.loc(n), '%s passes on another severity than that of the message' % g.dn)
    # every way through writes once, unless the logger has nothing to write with
    memo = {}

    def count(h, n, depth=0):
        if R.is_write(h, n):
            return 1
        for k in P.targets(h, n):
            if k.cfg is not None and depth < 4 and k.kind not in ('ctor', 'dtor') and k.id not in memo:
                memo[k.id] = 0
                memo[k.id] = max([count(k, m, depth + 1) for m in k.calls()] or [0])
            if memo.get(k.id):
                return 1
        return 0
    cfg = g.cfg

    def transfer(st, blk):
        for e in blk.elems:
            if isinstance(e, int) and g.is_call(e) and count(g, e):
                st = frozenset((min(c + 1, 2), ex) for c, ex in st)
        return st

    def edge(st, blk, lab):
        if lab in (True, False) and blk.cond is not None:
            cond = g.strip_all(blk.cond)
            while g.nodes[cond].get('op') in ('&&', '||') and g.k(cond) == 'BinaryOperator':
                cond = g.strip_all(g.kids(cond)[1])         # the left operand was decided by an earlier block
            for m, v in flags.decompose(g, cond, lab):
                m = g.strip_all(m)
                d = g.nodes[m]
                kids = g.kids(m)
                if d.get('op') in ('==', '!=') and len(kids) >= 2 and any(nullness.is_null(g, x) for x in kids[-2:]) and v == (d['op'] == '=='):
                    return frozenset((c, True) for c, ex in st)
                if not v and g.t(m).rstrip().endswith('*'):
                    return frozenset((c, True) for c, ex in st)
        return st
    inn, out = cfg.solve(frozenset([(0, False)]), transfer, lambda a, b: a | b, lambda s, b, l: edge(s, b, l))
    for b in cfg.normal_exit_preds():
        for s, lab in cfg.edges(b):
            if s != cfg.exit or b not in out:
                continue
            for c, ex in edge(out[b], cfg.blocks[b], lab):
                if c == 0 and not ex:
                    rep.violation('%s|lost' % g.qn, g.loc(), '%s can return without having written the message although the logger has a stream' % g.dn)
                if c > 1:
                    rep.violation('%s|twice' % g.qn, g.loc(), '%s can write the message twice' % g.dn)
    return found


def check(P, rep):
    enum = next((e for qn, e in P.enums.items() if LEVEL_T.search(qn)), None)
    if enum is None:
        raise facts.Broken('no enumeration of logging levels')
    vals = {k: int(v) for k, v in enum['vals']}
    by = {k.lower(): v for k, v in vals.items()}
    order = [by.get(k) for k in ('none', 'error', 'warn', 'info', 'debug', 'trace')]
    if None in order or len(by) != 6:
        raise facts.Broken('the logging levels are not those expected: %s' % vals)
    if order != sorted(order) or len(set(order)) != 6:
        rep.violation('LoggingLevel|order', 'src/main/cpp/Balau/Logging/LoggingLevel.hpp', 'the logging levels are not ordered none < error < warn < info < debug < trace')
    loggers = {f.cls for f in P.fns.values() if f.cls and not f.params and f.access == 'public' and isinstance(f.d.get('ret'), int) and is_level(f.types[f.d['ret']]) and any(g.name == 'trace' for g in P.methods(f.cls))}
    R = Runner(P, loggers)
    names = {v: k for k, v in vals.items()}
    sinks = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cls not in loggers or f.access != 'public' or f.cfg is None or f.kind in ('ctor', 'dtor'):
            continue
        lvp = [i for i, p in enumerate(f.params) if is_level(f.types[p['t']])]
        query = {s + 'Enabled': s for s in SEVERITIES}
        if f.name in query or f.name == 'enabled' and len(lvp) == 1:
            rep.count('enabled-queries')
            for L in order:
                for S in ([by[query[f.name]]] if f.name in query else order):
                    rep.count('gate evaluations')
                    ev = Eval(P)
                    ev.level = L
                    want = S != by['none'] and L >= S
                    try:
                        got = ev.run(f, [S] if lvp else [])
                    except evalfn.Unknown as e:
                        rep.violation('%s|undecided' % f.qn, f.loc(), '%s: what it answers cannot be decided from the levels alone (%s)' % (f.dn, e))
                        continue
                    if bool(got) != want:
                        rep.violation('%s|query' % f.qn, f.loc(), '%s answers %s for a logger configured at %s asked about %s' % (f.dn, bool(got), names[L], names[S]))
                        break
        elif f.name in SEVERITIES and not lvp or f.name == 'log' and len(lvp) == 1:
            rep.count('logging methods')
            rep.sample('logging methods', '%s (%s)' % (f.dn[:120], f.loc()), 250)
            done = set()
            for L in order:
                for S in ([by[f.name]] if f.name in by else order):
                    rep.count('gate evaluations')
                    want = S != by['none'] and L >= S
                    args = [S if i in lvp else None for i in range(len(f.params))]
                    for evs in R.run(f, args, None, L):
                        emits = [e for e in evs if e[0] == 'emit']
                        if want and len(emits) != 1:
                            m = 'does not log' if not emits else 'logs more than once'
                        elif want and emits[0][1] != S:
                            m = 'logs with severity %s' % names.get(emits[0][1], emits[0][1])
                        elif not want and evs:
                            m = 'logs' if emits else evs[0][0] + ' (%s)' % evs[0][1]
                        else:
                            continue
                        if m not in done:
                            done.add(m)
                            rep.violation('%s|%s' % (f.qn, m.split(' (')[0]), f.loc(), '%s %s a message of severity %s when the logger is configured at %s' % (f.dn, m, names[S], names[L]))
            for p in f.params:
                if p.get('n') and not any(d['k'] == 'DeclRefExpr' and d.get('v') == p['id'] for d in f.nodes):
                    rep.violation('%s|unused' % f.qn, f.loc(), '%s does not use its parameter %s' % (f.dn, p['n']))
    for g in P.fns.values():
        if g.cfg is not None and (g.cls in loggers) and R.sink(g):
            rep.count('writing functions')
            check_sink(P, R, g, rep)
    rep.need('logging methods', 100)
    rep.need('enabled-queries', 10)
    rep.need('writing functions', 1)
    rep.need('stream selections', 1)
    return ('Every logging method and enabled-query of each logger class is evaluated over its control flow graph for every configured level (and every severity argument), stepping into helpers; undecided '
            'conditions go both ways. The sequence of events must be exactly one emission with the right severity when admitted and neither message function, parameter rendering nor emission otherwise. '
            'The writing function selects the stream by the severity and writes once on every path on which the logger has a stream.')
