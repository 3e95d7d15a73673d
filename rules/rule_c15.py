"""C15: every conversion of text to a number examines where it ended, whether it overflowed and whether it was negative, and never narrows unchecked.

Each call of a conversion primitive (strtol and its relatives, std::stoi and its relatives, std::from_chars) is followed on
the outcomes that a careless caller gets wrong: it stopped before the end of the text, it converted nothing because the
text is empty, it reported a value out of range, it wrapped negative text; and on the values at the ends of each integer
type. The function it is in must not return normally on the first four, must not narrow a value that does not fit, and
must accept the values that do."""
import re

import failpath
from failpath import UNK, FailPath

PRIM = re.compile(r'^(?:std::(?:__cxx11::)?)?(?:(strto)(l|ll|ul|ull|f|d|ld|imax|umax)|(sto)(i|l|ll|ul|ull|f|d|ld)|(from_chars)|(ato)(i|l|ll|f))$')
RANGES = {'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535),
          'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
          'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'char16_t': (0, 65535), 'char32_t': (0, 2**32 - 1), 'wchar_t': (-2**31, 2**31 - 1)}
FLOATS = {'float': 3.5e38, 'double': None, 'long double': None}
EDGES = sorted({x + d for lo, hi in RANGES.values() for x, ds in ((lo, (-1, 0)), (hi, (0, 1))) for d in ds} | {-1, 0, 1})
NPOS = 2**64 - 1
STRING_T = re.compile(r'basic_string|std::string|char \*|char \[')
BAD = {'trailing': 'accepts text with characters left over after the number', 'empty': 'accepts the empty text', 'range': 'accepts a number outside the range of the type (the reported overflow is not examined)',
       'negative': 'accepts negative text for an unsigned type', 'blank negative': 'accepts negative text that starts with a blank for an unsigned type'}


class Tok:
    """A position in the text (or its length), ordered."""

    def __init__(self, rank):
        self.rank = rank

    def __eq__(self, o):
        return isinstance(o, Tok) and o.rank == self.rank

    def __hash__(self):
        return hash(('Tok', self.rank))

    def __repr__(self):
        return 'Tok%d' % self.rank


def base(t):
    return t.replace('const ', '').replace('volatile ', '').strip(' &')


class Conversions(FailPath):
    def __init__(self, prog, scenario, prim):
        super().__init__(prog, monitor=self.watch, model=self.model_call, limit=3000)
        self.sc = scenario
        self.prim = prim
        self.begin = Tok(0)
        self.full = Tok(0 if scenario == 'empty' else 9)
        self.stop = Tok({'trailing': 5, 'empty': 0}.get(scenario, 9))
        self.errno_read = False
        self.lossy = {}
        self.consumed = False

    # ---- positions
    def binary(self, op, x, y):
        if isinstance(x, Tok) or isinstance(y, Tok):
            if x is UNK or y is UNK:
                return UNK
            if isinstance(x, Tok) and isinstance(y, Tok):
                if op in failpath.CMP:
                    return int(failpath.CMP[op](x.rank, y.rank))
                return Tok(max(0, min(9, x.rank + y.rank if op == '+' else x.rank - y.rank))) if op in '+-' else UNK
            if op in failpath.CMP:
                a, b = (x.rank, y) if isinstance(x, Tok) else (x, y.rank)
                o = y if isinstance(x, Tok) else x
                if o == 0:
                    return int(failpath.CMP[op](a, b))
                if o in (NPOS, -1):
                    return {'==': 0, '!=': 1}.get(op, UNK)
                return UNK
            return UNK
        return FailPath.binary(op, x, y)

    @staticmethod
    def truth(v):
        return True if isinstance(v, Tok) and v.rank else None if isinstance(v, Tok) else FailPath.truth(v)

    def char_at(self, f, idx, env):
        """The character at the index (a value or UNK)."""
        first = idx == 0 and not isinstance(idx, Tok) or isinstance(idx, Tok) and idx.rank == 0
        if self.sc == 'negative':
            return 45 if first or idx is UNK else UNK
        if self.sc == 'blank negative':
            return 32 if first else 45
        return UNK

    def errno(self, f, n):
        """Is n an expression for errno?"""
        m = f.strip(n)
        if f.k(m) != 'UnaryOperator' or f.nodes[m].get('op') != '*':
            return False
        c = f.strip_all(f.kids(m)[0])
        return f.is_call(c) and (f.nodes[c].get('f') or '').split('::')[-1] in ('__errno_location', '__error')

    def eval(self, f, n, env, depth=0):
        if n is None or n < 0 or depth > 20:
            return UNK
        d = f.nodes[n]
        if d['k'] == 'UnaryOperator' and d.get('op') == '*':
            if self.errno(f, n):
                self.errno_read = True
                return env.get(('p', '::errno'), UNK)
            x = self.eval(f, f.kids(n)[0], env, depth + 1)
            if isinstance(x, Tok):
                if x.rank == 9 or self.sc == 'empty':
                    return 0
                if x.rank == 0:
                    return self.char_at(f, x, env)
                return failpath.NZ
            if self.sc in ('negative', 'blank negative') and re.search(r'\bchar\b', f.t(n)) and x is UNK and f.path(n) is not None and ('p',) + f.path(n) not in env:
                return self.char_at(f, UNK, env)
        if d['k'] == 'ArraySubscriptExpr' and re.search(r'\bchar\b', f.t(n)):
            v = self.char_at(f, self.eval(f, f.kids(n)[1], env, depth + 1), env)
            if v is not UNK:
                return v
        if d['k'] == 'MemberExpr' and f.kids(n) and 'from_chars_result' in f.t(f.kids(n)[0]):
            return self.stop if (d.get('m') or d.get('f') or '').split('::')[-1] == 'ptr' else (34 if self.sc == 'range' else 0)
        if d['k'] == 'BinaryOperator' and not d.get('asg') and d['op'] in ('&&', '||', ','):
            return super().eval(f, n, env, depth)
        if f.is_call(n) and ('n', n) not in env:
            v = self.text_query(f, n, env)
            if v is not NotImplemented:
                return v
        return super().eval(f, n, env, depth)

    def text_query(self, f, n, env):
        d = f.nodes[n]
        q = (d.get('f') or '')
        name = q.split('::')[-1]
        o = f.obj(n) if d['k'] == 'CXXMemberCallExpr' else None
        args = [a for a in f.args(n) if a >= 0]
        text = o is not None and re.search(r'basic_string', f.t(o) + q)
        neg = self.sc in ('negative', 'blank negative')
        if name in ('isinf', 'isfinite') and len(args) == 1:
            v = self.eval(f, args[0], env)
            return UNK if not isinstance(v, (int, float)) else int((abs(v) == float('inf')) == (name == 'isinf'))
        if name in ('isdigit', 'isspace', 'isalnum', 'isblank') and args:
            c = self.eval(f, args[0], env)
            return UNK if not isinstance(c, int) else int(chr(c % 256).isdigit() if name == 'isdigit' else chr(c % 256).isspace() if name != 'isalnum' else chr(c % 256).isalnum())
        if name in ('startsWith', 'starts_with') and args:
            a = self.dash(f, args[-1])
            return NotImplemented if not a else int(self.sc == 'negative')
        if name in ('contains',) and args and self.dash(f, args[-1]):
            return int(neg)
        if not text:
            if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '[]' and 'basic_string' in f.t(f.kids(n)[1]):
                return self.char_at(f, self.eval(f, f.kids(n)[2], env), env)
            return NotImplemented
        if name == 'empty':
            return int(self.sc == 'empty')
        if name in ('size', 'length', 'end', 'cend'):
            return self.full
        if name in ('c_str', 'data', 'begin', 'cbegin'):
            return self.begin
        if name == 'front':
            return self.char_at(f, 0, env)
        if name == 'at' and args:
            return self.char_at(f, self.eval(f, args[0], env), env)
        if name in ('find', 'rfind', 'find_first_of', 'find_last_of') and args and self.dash(f, args[0]):
            return (1 if self.sc == 'blank negative' else 0) if neg else NPOS
        if name == 'find_first_not_of' and args and neg:
            s = self.literal(f, args[0])
            if s is not None:
                t = '-1' if self.sc == 'negative' else ' -1'
                return next((i for i, c in enumerate(t) if c not in s), NPOS)
        return NotImplemented

    @staticmethod
    def literal(f, n):
        m = f.strip_all(n)
        while f.k(m) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and f.kids(m):
            m = f.strip_all(f.kids(m)[0])
        d = f.nodes[m]
        if d['k'] == 'StringLiteral':
            return d.get('s')
        if d['k'] == 'CharacterLiteral':
            return chr(int(d.get('iv', 0)))
        return None

    def dash(self, f, n):
        s = self.literal(f, n)
        return s is not None and '-' in s

    # ---- values
    def watch(self, f, e, env, _):
        d = f.nodes[e]
        l = env.get(('p', '::lossy'))
        if l:
            return l
        if (d['k'] == 'ImplicitCastExpr' or d.get('exp')) and f.kids(e):
            to = base(f.t(e))
            v = self.eval(f, f.kids(e)[0], env)
            src = base(f.t(f.kids(e)[0]))
            if src in RANGES or src in FLOATS:
                if to in RANGES and isinstance(v, (int, float)) and not isinstance(v, bool):
                    lo, hi = RANGES[to]
                    if not lo <= v <= hi and (src, to) != ('char', 'unsigned char'):
                        return ('lossy', f.id, e, v, to)
                if to == 'float' and isinstance(v, float) and abs(v) > FLOATS['float'] and abs(v) != float('inf'):
                    return ('lossy', f.id, e, v, to)
        return None

    def model_call(self, f, e, env, _):
        d = f.nodes[e]
        q = d.get('f') or ''
        if q == 'boost::numeric_cast':
            return self.eval(f, f.args(e)[0], env)
        v = self.text_query(f, e, env)
        return v

    def call(self, f, e, env):
        d = f.nodes[e]
        if (d.get('f') or '') == 'boost::numeric_cast' and f.args(e):
            v = self.eval(f, f.args(e)[0], env)
            r = RANGES.get(base(f.t(e)))
            if isinstance(v, int) and r and not r[0] <= v <= r[1]:
                return 'dead'
        if self.stop_passed(f, e, env):
            self.consumed = True
        r = super().call(f, e, env)
        if r is None and f.is_call(e):
            ts = [g for g in self.P.targets(f, e) if g.cfg is not None]
            if len(ts) == 1 and not d.get('virt'):
                o = self.entry(ts[0], frozenset(self.bind(f, e, ts[0], env).items()))
                for _, toks in o.exits:
                    for t in toks:
                        if isinstance(t, tuple) and t[0] == 'lossy':
                            env[('p', '::lossy')] = t
                if self.sets_errno(ts[0]):
                    env.pop(('p', '::errno'), None)
        return r

    def stop_passed(self, f, e, env):
        """Is the position at which the conversion stopped handed to something that goes on from there (a substring, a further conversion)?"""
        name = (f.nodes[e].get('f') or '').split('::')[-1]
        return self.sc == 'trailing' and (name in ('substr', 'remove_prefix', 'erase') or PRIM.match(f.nodes[e].get('f') or '')) \
            and any(a >= 0 and self.eval(f, a, env) == self.stop for a in f.args(e)[:1])

    def sets_errno(self, g, depth=0):
        return any(g.nodes[n].get('asg') and self.errno(g, g.kids(n)[0]) for n in g.all_nodes()) or \
            depth < 2 and any(self.sets_errno(h, depth + 1) for c in g.calls() for h in self.P.targets(g, c))

    def element(self, f, e, env):
        if isinstance(e, int) and f.nodes[e].get('asg') and self.errno(f, f.kids(e)[0]):
            v = self.eval(f, f.kids(e)[1], env)
            env.pop(('p', '::errno'), None)
            if v is not UNK:
                env[('p', '::errno')] = v
            return
        super().element(f, e, env)


def primitive(f, n):
    """(family, suffix) of a conversion primitive."""
    m = PRIM.match(f.nodes[n].get('f') or '')
    if not m:
        return None
    if m.group(1):
        return 'strto', m.group(2)
    if m.group(3):
        return 'sto', m.group(4)
    if m.group(5):
        return 'from_chars', ''
    return 'ato', m.group(7)


def callback(f, n):
    """A call through a function parameter that turns text into a number."""
    d = f.nodes[n]
    if d['k'] == 'CallExpr' and not d.get('f') and base(f.t(n)) in RANGES and len(f.args(n)) == 1 and STRING_T.search(f.t(f.args(n)[0])):
        return True
    if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and 'std::function<' in f.t(f.kids(n)[1]) and base(f.t(n)) in RANGES and len(f.args(n)) == 1:
        return True
    return False


class Checker:
    def __init__(self, prog, rep):
        self.P, self.rep = prog, rep
        self.callers = {}
        for f in prog.fns.values():
            for n in f.calls():
                for g in prog.targets(f, n):
                    self.callers.setdefault(g.id, []).append((f, n))

    def internal(self, f):
        return ('::Impl::' in f.qn or f.d.get('access') in ('private', 'protected')) and bool(self.callers.get(f.id))

    def destination(self, f):
        """(type, variable) of the number the function delivers."""
        for p in f.params:
            t = f.types[p['t']]
            if t.endswith('&') and not t.startswith('const ') and base(t) in RANGES:
                return base(t)
        t = f.d.get('ret')
        t = f.types[t] if isinstance(t, int) else t
        return base(t) if t and base(t) in RANGES else None

    def setup(self, f, n, sc, kind, eng):
        """Knowledge on return from the primitive."""
        env = {('p', '::errno'): 34 if sc == 'range' else 0}
        i = {'strto': 1, 'sto': 1}.get(kind[0])
        if i is not None and len(f.args(n)) > i and f.args(n)[i] >= 0:
            a = f.strip_all(f.args(n)[i])
            if f.k(a) == 'UnaryOperator' and f.nodes[a].get('op') == '&':
                p = f.path(f.kids(a)[0])
                if p is not None:
                    env[('p',) + p] = eng.stop
        # what is known of local copies of positions (const char * e = s.data() + s.size())
        for v in f.vars.values():
            if v.get('param') or 'init' not in v or ('p', 'v:' + v['id']) in env:
                continue
            x = eng.eval(f, v['init'], {})
            if isinstance(x, Tok) or x is not UNK and 'const' in v['type'] + 'const' * (base(v['type']) == 'bool'):
                env[('p', 'v:' + v['id'])] = x
        return env

    def run(self, f, n, sc, kind, value):
        """Exits of f after the conversion; also through the callers of internal helpers."""
        eng = Conversions(self.P, sc, kind)
        return eng, eng.explore(f, n, value, env=self.setup(f, n, sc, kind, eng).items())

    def accepted(self, f, n, sc, kind, value, depth=0):
        """The function in which the outcome sc is accepted, or None."""
        eng, o = self.run(f, n, sc, kind, value)
        self.rep.count('path sets followed')
        if not o.exits or eng.consumed or not self.reached(f, n, sc, kind):
            return None
        if self.internal(f) and depth < 3:
            for g, m in self.callers[f.id]:
                for v in {v for v, _ in o.exits}:
                    r = self.accepted(g, m, sc, kind, v, depth + 1)
                    if r:
                        return r
            return None
        return f

    def reached(self, f, n, sc, kind):
        """Can the call be reached with such a text?"""
        if sc not in ('negative', 'blank negative'):
            return True
        eng = Conversions(self.P, sc, kind)
        hit = []

        def mon(ff, e, env, s):
            if ff is f and e == n:
                hit.append(1)
        eng.monitor = mon
        o = eng.explore(f)
        return bool(hit) or any('limit' in t for _, t in o.exits)

    def entry_accepts_empty(self, f, n, kind, depth=0):
        """Can the call be reached with empty text and the function then return?"""
        eng = Conversions(self.P, 'empty', kind)
        reached = []

        def mon(ff, e, env, s):
            if ff is f and e == n:
                reached.append(1)
                return 'reached'
            return eng.watch(ff, e, env, s)
        eng.monitor = mon
        o = eng.explore(f)
        bad = any('reached' in t for _, t in o.exits)
        if not bad:
            return None
        eng2, o2 = self.run(f, n, 'empty', kind, 0)
        if not o2.exits:
            return None
        if self.internal(f) and depth < 3:
            for g, m in self.callers[f.id]:
                r = self.entry_accepts_empty(g, m, kind, depth + 1)
                if r:
                    return r
            return None
        return f

    def values(self, f, n, kind, lo, hi, depth=0, seen=None):
        """Lossy conversions reached and values that fit but are refused, upwards through the callers that are handed the number."""
        seen = set() if seen is None else seen
        if (f.id, n) in seen or depth > 4:
            return
        seen.add((f.id, n))
        dest = self.destination(f)
        up = set()
        for v in EDGES:
            if not lo <= v <= hi:
                continue
            eng, o = self.run(f, n, 'value', kind, v)
            self.rep.count('boundary values followed')
            if any(t == frozenset(['limit']) for _, t in o.exits):
                return
            for ret, toks in o.exits:
                for t in toks:
                    if isinstance(t, tuple) and t[0] == 'lossy':
                        g = self.P.fns[t[1]]
                        self.rep.violation('narrow:%s>%s' % (f.qn, t[4]), f.loc(n), '%s narrows the converted number to %s without checking that it fits: %d is changed' % (f.qn, t[4], t[3]))
                if ret == v and not any(isinstance(t, tuple) for t in toks):
                    up.add(v)
            if not o.exits and dest and depth < 2 and kind[0] != 'callback' and not self.internal(f) and RANGES[dest][0] <= v <= RANGES[dest][1]:
                self.rep.violation('refuse:%s' % f.qn, f.loc(n), '%s refuses %d, which %s can hold' % (f.qn, v, dest))
        if up:
            for g, m in self.callers.get(f.id, ()):
                if base(g.t(m)) in RANGES:
                    self.values(g, m, kind, min(up), max(up), depth + 1, seen)

    def stale(self, f, n, kind):
        """If errno is examined after the call, it must have been cleared before."""
        eng, _ = self.run(f, n, 'range', kind, 0)
        if not eng.errno_read:
            return
        eng = Conversions(self.P, 'value', kind)
        bad = []

        def mon(ff, e, env, s):
            if ff is f and e == n and env.get(('p', '::errno')) == 34:
                bad.append(e)
            return None
        eng.monitor = mon
        eng.explore(f, env=(((('p', '::errno'), 34),)))
        self.rep.count('errno clearings checked')
        if bad:
            self.rep.violation('stale:%s/%d' % (f.qn, len(f.params)), f.loc(n), '%s examines errno after %s but does not clear it before: an earlier error makes a valid text fail' % (f.qn, f.nodes[n]['f']))

    def check(self, f, n):
        kind = primitive(f, n)
        fam, suf = kind
        rep = self.rep
        rep.count('conversion calls')
        rep.sample('conversion calls', '%s %s in %s' % (f.loc(n), f.nodes[n]['f'], f.qn), limit=60)
        t = base(f.t(n)) if fam != 'from_chars' else 'int'
        floating = suf in ('f', 'd', 'ld')
        if fam == 'ato':
            rep.violation('ato:%s' % f.qn, f.loc(n), '%s reports neither trailing characters nor overflow' % f.nodes[n]['f'])
            return
        inf = float('inf')
        rng = RANGES.get(t, (0, 0))
        todo = [('trailing', [1.5 if floating else 1])]
        if fam != 'sto':
            todo.append(('range', [inf, -inf] if floating else sorted(set(x for x in rng if x) or {0})))
        if suf in ('ul', 'ull', 'umax'):
            todo += [('negative', [1]), ('blank negative', [1])]
        for sc, vals in todo:
            for v in vals:
                rep.count('outcomes')
                g = self.accepted(f, n, sc, kind, v)
                if g:
                    rep.violation('%s:%s/%d:%s' % (sc.replace(' ', '-'), f.qn, len(f.params), f.nodes[n]['f'].split('::')[-1]), f.loc(n), '%s, called in %s, %s' % (f.nodes[n]['f'], f.qn + ('' if g is f else ' for ' + g.qn), BAD[sc]))
        if fam == 'strto':
            rep.count('outcomes')
            g = self.entry_accepts_empty(f, n, kind)
            if g:
                rep.violation('empty:%s/%d:%s' % (f.qn, len(f.params), f.nodes[n]['f']), f.loc(n), '%s, called in %s, %s' % (f.nodes[n]['f'], f.qn, BAD['empty']))
            self.stale(f, n, kind)
        if not floating and t in RANGES:
            self.values(f, n, kind, *rng)


def check(prog, rep):
    ch = Checker(prog, rep)
    for f in prog.fns.values():
        if f.cfg is None or 'ThirdParty' in f.file:
            continue
        for n in f.calls():
            if primitive(f, n):
                ch.check(f, n)
            elif callback(f, n):
                rep.count('conversion callbacks')
                ch.values(f, n, ('callback', ''), *RANGES[base(f.t(n))])
    rep.need('conversion calls', 3)
    rep.assumptions.append('Leading blanks, which the conversion primitives skip, are taken to be part of the notation of a number; a floating point number that rounds (to zero or to a denormal) is taken to be exact.')
    return ('every conversion of text to a number examines where it ended, overflow and sign, and is narrowed only after a range check; followed on each outcome and at the end of each integer range')
