"""C07: enumerations and their text forms correspond one to one, for every value."""
import re

import evalfn
import explore
import facts
from evalfn import Sym, Unknown

LEVEL = 'other'
FOLD = ('equalsIgnoreCase',)
LOWER = ('toLower', 'tolower')


def bare(t):
    return re.sub(r'\b(const|enum|volatile)\b|&', '', t).strip()


def texty(t):
    t = bare(t)
    return bool(re.match(r'std::(__cxx11::)?basic_string(_view)?<char\b', t)) or t in ('std::string', 'std::string_view', 'char *')


class Text(explore.Client):
    """Evaluates renderings and parsers: texts are constants."""

    def __init__(self, P, enum=None, text=None):
        self.P, self.enum, self.text = P, enum, text

    def value(self, f, n, env, ev):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        if name in FOLD:
            a = [self.as_text(f, x, env, ev) for x in f.args(n)[:2]]
            return int(a[0].lower() == a[1].lower())
        if name in LOWER and f.args(n):
            return self.as_text(f, f.args(n)[0], env, ev).lower()
        if name in ('toUpper', 'toupper') and f.args(n):
            return self.as_text(f, f.args(n)[0], env, ev).upper()
        if name in ('toUnderlying', 'move', 'forward') and len(f.args(n)) == 1:
            return ev.eval(f, f.args(n)[0], env)
        if name in ('trim', 'trimLeft', 'trimRight') and f.args(n):
            return self.as_text(f, f.args(n)[0], env, ev)
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') in ('==', '!='):
            c = f.kids(n)[-2:]
            if texty(f.t(f.strip(c[0]))) or texty(f.t(f.strip(c[1]))):
                a, b = self.as_text(f, c[0], env, ev), self.as_text(f, c[1], env, ev)
                return int((a == b) == (d['op'] == '=='))
        if d['k'] == 'CXXMemberCallExpr' and name == 'compare' and len(f.args(n)) == 1:
            a, b = self.as_text(f, f.obj(n), env, ev), self.as_text(f, f.args(n)[0], env, ev)
            return (a > b) - (a < b)
        if d['k'] == 'CXXMemberCallExpr' and name in ('c_str', 'data', 'str'):
            return ev.eval(f, f.obj(n), env)
        if d['k'] == 'CXXMemberCallExpr' and name in ('size', 'length') and not f.args(n):
            return len(self.as_text(f, f.obj(n), env, ev))
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and texty(f.t(n)):
            a = [x for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr' and 'allocator' not in f.t(x)]
            if not a:
                return ''
            return self.as_text(f, a[0], env, ev)
        if texty(f.t(n)) and self.text is not None and not [g for g in self.P.targets(f, n) if g.cfg is not None]:
            raise Unknown('text')
        for g in self.P.targets(f, n):
            if g.cfg is not None:
                return self.step(f, n, g, env, ev)
        return NotImplemented

    def step(self, f, n, g, env, ev):
        a = [ev.lazy(f, x, env) if x >= 0 else Unknown for x in f.args(n)]
        try:
            outs = explore.Explorer(self.P, self, limit=3000).run(g, a, None, depth=3)
        except (explore.Limit, KeyError):
            raise Unknown('call')
        r = {o[1][1] if o[1][0] == 'ret' else o[1] for o in outs}
        if len(r) == 1 and not isinstance(list(r)[0], tuple) and list(r)[0] not in (None, '?'):
            return list(r)[0]
        raise Unknown('call')

    def as_text(self, f, n, env, ev):
        v = ev.eval(f, n, env)
        if isinstance(v, str):
            return v
        raise Unknown('text')

    def leaf(self, f, n, env, ev):
        if texty(f.t(n)) and self.text is not None and f.k(n) == 'MemberExpr':
            return self.text
        return NotImplemented

    def member(self, f, n, o, name, ev):
        if texty(f.t(n)) and self.text is not None:
            return self.text
        return NotImplemented

    def catches(self, f, h, kind):
        return None


class Stores(Text):
    """Which value of the enumeration is stored when a text found elsewhere is compared with known texts."""

    def value(self, f, n, env, ev):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        if name in LOWER:
            return self.text.lower()
        if name in ('toUpper', 'toupper'):
            return self.text.upper()
        return super().value(f, n, env, ev)

    def as_text(self, f, n, env, ev):
        m = f.strip_all(n)
        for x in f.walk(m):
            if f.k(x) == 'StringLiteral':
                return f.nodes[x].get('s')
        v = ev.lazy(f, n, env)
        return v if isinstance(v, str) else self.text

    def event(self, f, n, env, ex):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        if name == 'store' and f.obj(n) is not None and self.enum in f.t(f.strip(f.obj(n))):
            return [((('store', self.const(f, f.args(n)[0], env)),), ('val', None))]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '=' and self.enum in f.t(f.strip(f.kids(n)[1])):
            return [((('store', self.const(f, f.kids(n)[2], env)),), ('val', None))]
        if self.is_comparison(f, n):
            return [((('asked',),), ('val', int(self.compare_value(f, n, env))))]
        return None

    def compare_value(self, f, n, env):
        return Text.value(self, f, n, env, explore.Ev(self.P, self))

    @staticmethod
    def is_comparison(f, n):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        if not (name in FOLD or d['k'] == 'CXXOperatorCallExpr' and d.get('op') in ('==', '!=')):
            return False
        return any(f.k(x) == 'StringLiteral' for x in f.walk(n))

    def const(self, f, n, env):
        v = explore.Ev(self.P, self).lazy(f, n, env)
        return v if isinstance(v, int) else '?'

    def assign(self, f, n, env, ex):
        d = f.nodes[n]
        if d.get('asg') and d.get('op') == '=' and bare(f.t(f.kids(n)[0])) == self.enum:
            return (('store', self.const(f, f.kids(n)[1], env)),)
        return ()


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.text = {}          # enum -> value -> text

    def values(self, e):
        out = {}
        for n, v in self.P.enums[e]['vals']:
            out.setdefault(int(v), n.split('::')[-1])
        return out

    def own(self, f):
        return f.cfg is not None and 'ThirdParty' not in f.file and 'Network/' not in f.file

    def renderings(self):
        P, rep = self.P, self.rep
        for f in sorted(P.fns.values(), key=lambda x: (x.file, x.line, x.dn)):
            if not self.own(f) or len(f.params) != 1 or f.kind in ('ctor', 'dtor', 'lambda', 'conv') or f.kind == 'method' and not f.d.get('static'):
                continue
            e = bare(f.types[f.params[0]['t']])
            if e not in P.enums or not texty(f.types[f.d['ret']]):
                continue
            res = {}
            for v in self.values(e):
                try:
                    outs = explore.Explorer(P, Text(P), limit=3000).run(f, [v])
                except (explore.Limit, KeyError):
                    outs = set()
                r = {('throws',) if o[1][0] == 'exc' else o[1][1] for o in outs}
                res[v] = list(r)[0] if len(r) == 1 else ('throws',) if r == {('throws',)} else None if not outs else '?'
                if not outs:
                    res[v] = ('throws',)
            known = [v for v in res if isinstance(res[v], str) and res[v] != '?']
            if len(known) < 2:
                continue
            rep.count('renderings of enumerations')
            rep.sample('renderings', '%s: %d values of %s' % (f.dn, len(res), e))
            names = self.values(e)
            for v in sorted(res):
                rep.count('values rendered')
                if res[v] == '?' or res[v] is None:
                    rep.violation('%s|%s|undecided' % (f.qn, names[v]), f.loc(), '%s has no fixed rendering for %s' % (f.dn, names[v]))
                elif not isinstance(res[v], str):
                    rep.violation('%s|%s|none' % (f.qn, names[v]), f.loc(), '%s has no rendering for %s: it throws' % (f.dn, names[v]))
                else:
                    for w in sorted(res):
                        if w < v and isinstance(res[w], str) and res[w].lower() == res[v].lower():
                            rep.violation('%s|%s|same' % (f.qn, names[v]), f.loc(), '%s renders %s and %s alike (%s)' % (f.dn, names[w], names[v], res[v]))
                    t = self.text.setdefault(e, {})
                    if v in t and t[v][0] != res[v]:
                        rep.violation('%s|%s|differs' % (f.qn, names[v]), f.loc(), '%s renders %s as %s but %s renders it as %s' % (f.dn, names[v], res[v], t[v][1], t[v][0]))
                    t.setdefault(v, (res[v], f.dn))

    def literals(self, f):
        return {d.get('s') for g in [f] + f.descendant_lambdas() for d in g.nodes if d['k'] == 'StringLiteral' and d.get('s') is not None}

    def parsers(self):
        P, rep = self.P, self.rep
        for f in sorted(P.fns.values(), key=lambda x: (x.file, x.line, x.dn)):
            if not self.own(f) or f.kind in ('ctor', 'dtor', 'lambda'):
                continue
            ps = [bare(f.types[p['t']]) for p in f.params]
            tp = [i for i, p in enumerate(f.params) if texty(f.types[p['t']])]
            for e, t in self.text.items():
                names = self.values(e)
                op = [i for i, p in enumerate(f.params) if bare(f.types[p['t']]) == e and f.types[p['t']].endswith('&') and not f.types[p['t']].startswith('const')]
                ret = bare(f.types[f.d['ret']])
                if len(tp) == 1 and len(ps) <= 2 and (len(op) == 1 or ret == e):
                    self.parser(f, e, t, names, tp[0], op[0] if op else None)
                elif len(tp) == 1 and len(ps) == 1 and ret == 'bool' and self.known(f, t) >= 2:
                    self.predicate(f, e, t, names)
                elif self.known(f, t) >= 3 and not (len(ps) == 1 and ps[0] == e):
                    self.stores(f, e, t, names)

    def known(self, f, t):
        texts = {x[0].lower() for x in t.values()}
        return len({l for l in self.literals(f) if l.lower() in texts})

    def parser(self, f, e, t, names, ti, oi):
        rep = self.rep
        rep.count('parsers of enumerations')
        rep.sample('parsers', f.dn)
        for v, (text, _) in sorted(t.items()):
            args = [None] * len(f.params)
            args[ti] = text
            try:
                outs = explore.Explorer(self.P, Text(self.P, e), limit=6000).run(f, args)
            except (explore.Limit, KeyError):
                rep.violation('%s|%s|undecided' % (f.qn, names[v]), f.loc(), 'what %s makes of "%s" could not be determined' % (f.dn, text))
                continue
            rep.count('texts parsed')
            got = set()
            for evs, end in outs:
                if end[0] != 'ret':
                    got.add('an exception')
                elif oi is None:
                    got.add(end[1])
                else:
                    got.add(dict(end[2]).get(oi, 'nothing'))
            if got != {v}:
                rep.violation('%s|%s|parse' % (f.qn, names[v]), f.loc(), '%s turns "%s", the text of %s, into %s' % (
                    f.dn, text, names[v], ' or '.join(sorted(names.get(g, str(g)) if isinstance(g, int) else str(g) for g in got)) or 'an exception'))

    def predicate(self, f, e, t, names):
        rep = self.rep
        rep.count('predicates over texts of enumerations')
        for v, (text, _) in sorted(t.items()):
            try:
                outs = explore.Explorer(self.P, Text(self.P, e), limit=6000).run(f, [text])
            except (explore.Limit, KeyError):
                continue
            rep.count('texts parsed')
            got = {end[1] if end[0] == 'ret' else 'exception' for _, end in outs}
            if not all(isinstance(g, (int, bool)) and g for g in got):
                rep.violation('%s|%s|predicate' % (f.qn, names[v]), f.loc(), '%s does not accept "%s", the text of %s' % (f.dn, text, names[v]))

    def stores(self, f, e, t, names):
        rep = self.rep
        done = False
        for v, (text, _) in sorted(t.items()):
            c = Stores(self.P, e, text)
            try:
                outs = explore.Explorer(self.P, c, limit=20000, maxev=12).run(f, ())
            except (explore.Limit, KeyError):
                rep.notes.append('%s is not decided' % f.dn)
                return
            for evs, end in outs:
                i = [j for j, x in enumerate(evs) if x[0] == 'asked']
                if not i:
                    continue
                st = [x for j, x in enumerate(evs) if x[0] == 'store' and j and evs[j - 1][0] == 'asked']
                if not st:
                    continue
                if not done:
                    done = True
                    rep.count('parsers of enumerations')
                    rep.sample('parsers', f.dn)
                rep.count('texts parsed')
                for x in st:
                    if x[1] != v:
                        rep.violation('%s|%s|store' % (f.qn, names[v]), f.loc(), '%s turns "%s", the text of %s, into %s' % (f.dn, text, names[v], names.get(x[1], x[1])))

    def tables(self):
        P, rep = self.P, self.rep
        for f in sorted(P.fns.values(), key=lambda x: (x.file, x.line, x.dn)):
            if not self.own(f):
                continue
            for n, d in enumerate(f.nodes):
                if d['k'] == 'ArraySubscriptExpr':
                    base, idx = f.kids(n)[:2]
                elif d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '[]':
                    base, idx = f.kids(n)[1:3]
                elif d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').endswith('::at') and f.args(n):
                    base, idx = f.obj(n), f.args(n)[0]
                else:
                    continue
                if base is None:
                    continue
                b = f.strip_all(base)
                g = self.table(f, b)
                if g is None:
                    continue
                es = {bare(f.t(x)) for x in f.walk(idx)} & set(self.text)
                if len(es) != 1:
                    continue
                e = es.pop()
                entries = g
                rep.count('tables of texts')
                names = self.values(e)
                ev = Index(P, e)
                for v, (text, _) in sorted(self.text[e].items()):
                    ev.v = v
                    ev.steps = 0
                    try:
                        i = ev.eval(f, idx, evalfn.Env())
                    except (Unknown, evalfn.Thrown):
                        continue
                    if not isinstance(i, int) or i < 0 or i >= 1 << 32:
                        continue        # never written: such a message is not logged (C05)
                    rep.count('table entries')
                    if i >= len(entries):
                        rep.violation('%s|%s|outside' % (f.qn, names[v]), f.loc(n), '%s looks for the text of %s outside its table' % (f.dn, names[v]))
                    elif entries[i].lower() != text.lower():
                        rep.violation('%s|%s|table' % (f.qn, names[v]), f.loc(n), '%s writes "%s" for %s' % (f.dn, entries[i], names[v]))

    def table(self, f, b):
        d = f.nodes[b]
        g = None
        if d['k'] == 'DeclRefExpr' and d.get('gv'):
            for x in self.P.globals.values():
                if x.get('id') and self.gname(x) == d['gv']:
                    g = x
            if g is None or g.get('init') is None:
                return None
            out = [y.get('s') for y in g['nodes'] if y['k'] == 'StringLiteral']
            return out if len(out) >= 2 else None
        if d['k'] == 'DeclRefExpr' and d.get('v'):
            h, v = f.lookup_var(d['v'])
            if v and v.get('init') is not None:
                out = [h.nodes[y].get('s') for y in h.walk(v['init']) if h.k(y) == 'StringLiteral']
                return out if len(out) >= 2 else None
        return None

    @staticmethod
    def gname(x):
        return x.get('qn') or re.sub(r'@[A-Z]+@', '::', re.sub(r'^c:', '', re.sub(r'@(?=[^@]*$)', '@N@', x['id']))).strip(':')


class Index(evalfn.Evaluator):
    v = None

    def __init__(self, P, e):
        super().__init__(P)
        self.e = e

    def eval(self, f, n, env):
        m = f.strip(n)
        if bare(f.t(m)) == self.e and 'iv' not in f.nodes[m]:
            return self.v
        if (f.nodes[m].get('f') or '').endswith('toUnderlying'):
            return self.eval(f, f.args(m)[0], env)
        return super().eval(f, n, env)


def check(P, rep):
    for u in P.data['units']:
        if u['file'].endswith('instantiate_text.cpp') and not u['ok']:
            err = [l for l in u['err'].splitlines() if 'error:' in l and '/Balau/' in l]
            if err:
                rep.violation('renderings|compile', err[0].split(': ')[0].replace('/repo/', ''), 'a rendering of an enumeration does not compile when it is used: ' + err[0].split('error: ')[-1])
            else:
                raise facts.Broken('instantiate_text.cpp does not parse: ' + u['err'][:300])
    R = Rule(P, rep)
    R.renderings()
    R.parsers()
    R.tables()
    rep.need('renderings of enumerations', 7)
    rep.need('parsers of enumerations', 2)
    rep.need('predicates over texts of enumerations', 1)
    rep.need('table entries', 10)
    return ('every function that renders an enumeration is evaluated on every value (a text, never an exception, no two alike, and the same as its sibling renderings); every parser is evaluated on the text of every value and must '
            'give that value back, predicates must accept it, chains of text comparisons that store a value must store the one whose text it is, and tables of texts indexed by an enumeration must hold the text of each value')
