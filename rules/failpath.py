"""Follows the paths of a function on which a call has failed.

The failing result is propagated as a constant through assignments, tests, returns and helpers; a branch whose condition
follows from it is taken one way only, all others both ways. What is reported is whether such a path can return normally
(and with which value), come back to the same call, or hand the failing value on."""
import re
from collections import namedtuple

import flags
import inline
import nullness
import prog

UNK = None
NZ = 'nz'            # some value other than zero
Outcome = namedtuple('Outcome', 'exits again uses')      # exits: {(value, tokens)}, again: {tokens}, uses: {(node, kind)}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b, '|': lambda a, b: a | b}


BITS = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64}
prog_transparent = prog.TRANSPARENT - {'ImplicitCastExpr'}


def convert(v, t, s=''):
    """The value after a conversion to type t."""
    t = t.replace('const ', '').strip()
    if v is UNK:
        return v
    if t == 'bool':
        return 1 if v == NZ else int(bool(v))
    if isinstance(v, int) and v < 0 and t in BITS:
        return v % (1 << BITS[t])
    return v


class FailPath:
    def __init__(self, prog, monitor=None, limit=4000, model=None, on_edge=None, value_of=None):
        self.P = prog
        self.N = nullness.Nullness(prog)
        self.monitor = monitor
        self.model = model          # model(f, call, args values) -> value or NotImplemented
        self.limit = limit
        self.on_edge = on_edge      # on_edge(f, cond, label, env, self) -> token or None
        self.value_of = value_of    # value_of(f, call, env, self) -> value or NotImplemented
        self.memo = {}
        self.busy = set()

    # ---- values
    def eval(self, f, n, env, depth=0):
        if n is None or n < 0 or depth > 20:
            return UNK
        if f.k(n) == 'ImplicitCastExpr' and f.kids(n) and ('n', n) not in env:
            if 'iv' in f.nodes[n]:
                return int(f.nodes[n]['iv'])
            return convert(self.eval(f, f.kids(n)[0], env, depth + 1), f.t(n), f.t(f.kids(n)[0]))
        if f.k(n) in prog_transparent and f.kids(n):
            return self.eval(f, f.kids(n)[0], env, depth + 1)
        if ('n', n) in env:
            return env[('n', n)]
        d = f.nodes[n]
        k = d['k']
        if 'iv' in d:
            return int(d['iv'])
        if self.value_of is not None and f.is_call(n):
            v = self.value_of(f, n, env, self)
            if v is not NotImplemented:
                return v
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if d.get('exp') and f.kids(n):
            return convert(self.eval(f, f.kids(n)[0], env, depth + 1), f.t(n), f.t(f.kids(n)[0]))
        if k == 'BinaryOperator':
            a, b = f.kids(n)[:2]
            op = d['op']
            if d.get('asg'):
                return self.eval(f, b, env, depth + 1) if op == '=' else self.lookup(f, a, env)
            if op == ',':
                return self.eval(f, b, env, depth + 1)
            x, y = self.eval(f, a, env, depth + 1), self.eval(f, b, env, depth + 1)
            if op == '&&':
                tx, ty = self.truth(x), self.truth(y)
                return 0 if tx is False or ty is False else 1 if tx and ty else UNK
            if op == '||':
                tx, ty = self.truth(x), self.truth(y)
                return 1 if tx or ty else 0 if tx is False and ty is False else UNK
            return self.binary(op, x, y)
        if k == 'CXXOperatorCallExpr' and d.get('op') in ('==', '!=') and len(f.kids(n)) == 3:
            return self.binary(d['op'], self.eval(f, f.kids(n)[1], env, depth + 1), self.eval(f, f.kids(n)[2], env, depth + 1))
        if k == 'UnaryOperator' or k == 'CXXOperatorCallExpr' and d.get('op') == '!':
            op = d['op']
            x = self.eval(f, f.kids(n)[-1], env, depth + 1)
            if op == '!':
                t = self.truth(x)
                return UNK if t is None else int(not t)
            if op == '-':
                return -x if isinstance(x, int) else x
            if op == '~' and isinstance(x, int):
                return ~x
            if op in ('*', '&'):
                return self.lookup(f, n, env)
            return UNK
        if k == 'ConditionalOperator':
            c, a, b = f.kids(n)[:3]
            t = self.truth(self.eval(f, c, env, depth + 1))
            x, y = self.eval(f, a, env, depth + 1), self.eval(f, b, env, depth + 1)
            return x if t is True else y if t is False else x if x == y else UNK
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = [x for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            if d.get('copy') or d.get('move'):
                return self.eval(f, a[0], env, depth + 1)
            if nullness.NULLABLE_T.search(f.t(n)):
                return self.eval(f, a[0], env, depth + 1) if a else 0
            return UNK
        if k == 'InitListExpr':
            a = f.kids(n)
            if len(a) == 1:
                return self.eval(f, a[0], env, depth + 1)
            if not a and re.search(r'(\*|int|long|short|bool|size_t)( const)?$', f.t(n)):
                return 0
            return UNK
        if k == 'CallExpr' and d.get('f') in ('std::move', 'std::forward', 'std::as_const') and len(f.kids(n)) == 2:
            return self.eval(f, f.kids(n)[1], env, depth + 1)
        if k == 'CXXMemberCallExpr' and f.obj(n) is not None and (d.get('f') or '').split('::')[-1] in ('operator-conv', 'operator bool', 'get', 'has_value') and not f.args(n):
            return self.eval(f, f.obj(n), env, depth + 1)
        if f.is_call(n):
            g = self.P.fns.get(d.get('fid'))
            if g is not None and not d.get('virt'):
                e = self.N.returns(g)
                if e is not None:
                    return self.eval(g, e, self.bind(f, n, g, env), depth + 3)
            return UNK
        return self.lookup(f, n, env)

    def lookup(self, f, n, env):
        p = f.path(n)
        if p is not None and ('p',) + p in env:
            return env[('p',) + p]
        d = f.nodes[f.strip(n)]
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            g, v = f.lookup_var(d['v'])
            if v and not v.get('param') and 'init' in v and 'const' in v['type'] and 'iv' in g.nodes[g.strip(v['init'])]:
                return int(g.nodes[g.strip(v['init'])]['iv'])
        return UNK

    @staticmethod
    def truth(v):
        return None if v is UNK else True if v == NZ else bool(v)

    @staticmethod
    def binary(op, x, y):
        if x is UNK or y is UNK:
            return UNK
        if NZ in (x, y):
            if 0 in (x, y) and op in ('==', '!='):
                return int(op == '!=')
            return UNK
        if op in CMP:
            return int(CMP[op](x, y))
        if op in ARITH:
            return ARITH[op](x, y)
        return UNK

    def bind(self, f, n, g, env):
        """What is known in the callee."""
        out = {}
        for i, a in enumerate(f.args(n)):
            if a >= 0 and i < len(g.params):
                v = self.eval(f, a, env)
                if v is not UNK:
                    out[('p', 'v:' + g.params[i]['id'])] = v
                p = f.path(a)
                if p is not None:
                    for k, v in env.items():
                        if k[0] in ('s', 'c') and k[1:1 + len(p)] == p:
                            out[(k[0], 'v:' + g.params[i]['id']) + k[1 + len(p):]] = v
        lam = f.k(n) == 'CXXOperatorCallExpr' and f.nodes[n].get('op') == '()' and g.parent_id
        for k, v in env.items():
            if k[0] != 'n' and (k[1].startswith('::') or k[1] == 'this' and (inline.own_object(f, n) or lam) or lam and k[1].startswith('v:')):
                out[k] = v
        return out

    # ---- exploration
    def explore(self, f, n=None, value=UNK, env=(), uses=False):
        """Paths of f from the call n (or from the entry) on."""
        env = dict(env)
        cfg = f.cfg
        exits, use = set(), set()
        again = set()
        if cfg is None:
            return Outcome(frozenset([(UNK, frozenset())]), frozenset(), frozenset())
        if n is not None:
            w = cfg.where(n)
            if w is None:
                return Outcome(frozenset(), frozenset(), frozenset())
            env[('n', n)] = value
            start = (w[0], w[1] + (1 if cfg.blocks[w[0]].elems[w[1]] == n else 0))
        else:
            start = (cfg.entry, 0)
        work = [(start, frozenset(env.items()), frozenset())]
        seen = set()
        steps = 0
        while work:
            item = work.pop()
            if item in seen:
                continue
            seen.add(item)
            steps += 1
            if steps > self.limit:
                exits.add((UNK, frozenset(['limit'])))
                break
            (b, i), st, tok = item
            env = dict(st)
            blk = cfg.blocks[b]
            end = None
            ret = UNK
            for j in range(i, len(blk.elems)):
                e = blk.elems[j]
                if n is not None and e == n:
                    again.add(tok)
                    end = 'again'
                    break
                if self.monitor is not None and isinstance(e, int):
                    t = self.monitor(f, e, env, self)
                    if t:
                        tok = tok | {t}
                if uses and isinstance(e, int):
                    use |= {(e, x) for x in self.used(f, e, env)}
                if isinstance(e, int) and f.k(e) == 'ReturnStmt':
                    ret = self.eval(f, f.kids(e)[0], env) if f.kids(e) else UNK
                if isinstance(e, int) and f.is_call(e):
                    if self.call(f, e, env) == 'dead':
                        end = 'throw'
                        break
                self.element(f, e, env)
            if end == 'again':
                continue
            st = frozenset(env.items())
            if end == 'throw' or cfg.is_throw_block(b):
                for s in ([x for x in blk.succs if x >= 0] if end != 'throw' else []) + blk.eh:
                    if s != cfg.exit and (end == 'throw' or self.is_handler(cfg, s)):
                        work.append(((s, 0), st, tok))
                continue
            test = flags.last(f, blk.cond) if blk.cond is not None else None
            for s, lab in cfg.edges(b, eh=''):
                if lab is True or lab is False:
                    t = self.truth(self.eval(f, test, env))
                    if t is not None and t is not lab:
                        continue
                elif isinstance(lab, tuple) and lab[0] == 'case':
                    v = self.eval(f, f.nodes[blk.term]['cond'], env) if 'cond' in f.nodes[blk.term] else UNK
                    if isinstance(v, int) and not self.case(f, blk, s, v):
                        continue
                if s == cfg.exit:
                    exits.add((ret, tok))
                else:
                    ne = env
                    nt = tok
                    if self.on_edge is not None and blk.cond is not None:
                        t = self.on_edge(f, test, lab, env, self)
                        if t:
                            nt = tok | {t}
                    if lab in (True, False) and blk.cond is not None:
                        ne = self.learn(f, test, lab, env)
                    work.append(((s, 0), frozenset(ne.items()), nt))
        return Outcome(frozenset(exits), frozenset(again), frozenset(use))

    @staticmethod
    def is_handler(cfg, s):
        lab = cfg.blocks[s].label
        return lab is not None and cfg.fn.k(lab) == 'CXXCatchStmt' or True

    def learn(self, f, cond, val, env):
        """A plain flag tested has that value on the branch, so that a second test agrees."""
        m = f.strip(cond)
        neg = False
        while f.k(m) == 'UnaryOperator' and f.nodes[m].get('op') == '!':
            neg = not neg
            m = f.strip(f.kids(m)[0])
        if f.k(m) == 'DeclRefExpr' and 'v' in f.nodes[m] and f.t(m).replace('const ', '') in ('bool', '_Bool'):
            p = f.path(m)
            if p is not None:
                out = dict(env)
                out[('p',) + p] = int(val != neg)
                return out
        return env

    def case(self, f, blk, s, v):
        lab = f.cfg.blocks[s].label
        vals = []
        for x in blk.succs:
            if x >= 0:
                l = f.cfg.blocks[x].label
                if l is not None and f.k(l) == 'CaseStmt':
                    iv = f.nodes[f.nodes[l]['lhs']].get('iv')
                    vals.append((x, int(iv) if iv is not None else None))
        mine = [y for x, y in vals if x == s]
        if mine:
            return v in mine or None in mine
        return v not in [y for _, y in vals]

    def call(self, f, e, env):
        """Effect of a call on the path: 'dead' when it cannot return normally with what is known."""
        d = f.nodes[e]
        if d.get('noret'):
            return 'dead'
        if self.model is not None:
            v = self.model(f, e, env, self)
            if v is not NotImplemented:
                if v is UNK:
                    env.pop(('n', e), None)
                else:
                    env[('n', e)] = v
                return None
        ts = self.P.targets(f, e)
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and not ts:
            lam = inline.local_lambda(self.P, f, f.kids(e)[1])
            ts = [lam] if lam else []
        ts = [g for g in ts if g.cfg is not None]
        env.pop(('n', e), None)
        # what is handed over by reference or address may be changed
        for a in f.args(e):
            if a >= 0:
                m = f.strip(a)
                if f.k(m) == 'UnaryOperator' and f.nodes[m].get('op') == '&':
                    p = f.path(f.kids(m)[0])
                    if p is not None:
                        self.forget(env, p)
        pt = f.ptypes(e)
        for i, a in enumerate(f.args(e)):
            if a >= 0 and i < len(pt) and pt[i].endswith('&') and not pt[i].endswith('&&') and not pt[i].startswith('const '):
                p = f.path(a)
                if p is not None:
                    self.forget(env, p)
        if not ts:
            if f.obj(e) is not None and (d.get('f') or '').split('::')[-1] in nullness.RESET:
                p = f.path(f.obj(e))
                if p is not None:
                    self.forget(env, p)
                    a = f.args(e)
                    if (d.get('f') or '').split('::')[-1] == 'reset':
                        v = self.eval(f, a[0], env) if a else 0
                        if v is not UNK:
                            env[('p',) + p] = v
            return None
        if len(ts) == 1 and not d.get('virt'):
            g = ts[0]
            b = frozenset((k, v) for k, v in self.bind(f, e, g, env).items())
            r = self.entry(g, b)
            if not r.exits:
                return 'dead'
            vals = {v for v, _ in r.exits}
            if len(vals) == 1 and UNK not in vals:
                env[('n', e)] = next(iter(vals))
        for g in ts:
            if inline.own_object(f, e):
                for p in self.N.changed(g):
                    self.forget(env, p)
        return None

    def entry(self, g, env):
        k = (g.id, env)
        if k not in self.memo:
            if g.id in self.busy or len(self.busy) > 5:
                return Outcome(frozenset([(UNK, frozenset())]), frozenset(), frozenset())
            self.busy.add(g.id)
            self.memo[k] = self.explore(g, env=env)
            self.busy.discard(g.id)
        return self.memo[k]

    @staticmethod
    def forget(env, p):
        for p in (('p',) + p, ('c',) + p):
            for k in [k for k in env if k[:len(p)] == p]:
                del env[k]

    def set(self, f, env, p, rhs):
        v = self.eval(f, rhs, env)
        self.forget(env, p)
        if v is not UNK:
            env[('p',) + p] = v

    def element(self, f, e, env):
        if not isinstance(e, int):
            if isinstance(e, dict) and 'init' in e and 'm' in e and e['init'] >= 0:
                self.set(f, env, ('this', e['m'].split('::')[-1]), e['init'])
            return
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                p = ('v:' + v['id'],)
                if 'init' in v and not v.get('ref'):
                    self.set(f, env, p, v['init'])
                else:
                    self.forget(env, p)
        elif d.get('asg'):
            l, r = f.kids(e)[:2]
            p = f.path(l)
            if p is None:
                return
            if d.get('casg'):
                v = self.binary(d['op'][:-1], self.eval(f, l, env), self.eval(f, r, env))
                if d['op'][:-1] in ('|', ) and NZ in (self.eval(f, r, env),):
                    v = NZ
                self.forget(env, p)
                if v is not UNK:
                    env[('p',) + p] = v
            else:
                self.set(f, env, p, r)
        elif k == 'CXXOperatorCallExpr' and d.get('op') == '=' and len(f.kids(e)) == 3:
            p = f.path(f.kids(e)[1])
            if p is not None:
                self.set(f, env, p, f.kids(e)[2])
        elif k == 'UnaryOperator' and d.get('op') in ('++', '--'):
            p = f.path(f.kids(e)[0])
            if p is not None:
                v = self.eval(f, f.kids(e)[0], env)
                self.forget(env, p)
                if isinstance(v, int):
                    env[('p',) + p] = v + (1 if d['op'] == '++' else -1)

    def used(self, f, e, env):
        """Arguments or dereferenced expressions that are known to be null at this element."""
        d = f.nodes[e]
        out = []
        if f.is_call(e):
            pt = f.ptypes(e)
            for i, a in enumerate(f.args(e)):
                if a >= 0 and i < len(pt) and pt[i].rstrip().endswith('*') and f.k(f.strip(a)) not in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral', 'CXXDefaultArgExpr') and self.eval(f, a, env) == 0 and f.path(a) is not None:
                    out.append('argument')
        if d['k'] in ('UnaryOperator',) and d.get('op') == '*' and self.eval(f, f.kids(e)[0], env) == 0:
            out.append('deref')
        if d['k'] == 'MemberExpr' and d.get('arrow') and f.kids(e) and self.eval(f, f.kids(e)[0], env) == 0:
            out.append('deref')
        return out
