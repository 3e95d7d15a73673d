"""C12: equality and ordering operators compare like with like, and hash codes agree with equality."""
import itertools
import re

import evalfn
from evalfn import Sym, Unknown, Thrown

OPS = {'operator' + o: o for o in ('==', '!=', '<', '>', '<=', '>=')}
OPAQUE = ('path', 'directory_entry')
CONFIRMED = ['Balau::Impl::BindingKey', 'Balau::Lang::CodeSpan', 'Balau::Resource::File', 'Balau::Util::ZipEntryInfo', 'Balau::UUID']

# Classes whose identity is part of their state (decided by reading their documentation), with the number of components that make it up.
PARTIAL = {
    'Balau::Resource::ZipFile': (1, 'a zip file URI denotes the file; the password is not part of the URI'),
    'Balau::Impl::PropertyString': (2, 'matched by kind and name when hierarchies are merged; a later value replaces an earlier one'),
    'Balau::Impl::BindingKey': (2, 'the third member is derived from the type, for display in debuggers'),
    'Balau::Exception::BalauException': (1, 'documented: where the exception was thrown is not compared'),
    'Balau::Logger': (1, 'loggers are identified by their namespace'),
    'Balau::Resource::UriComponents': (1, 'the offsets are derived from the text'),
    'Balau::Lang::Property::AST::Properties': (2, 'the nodes are derived from the text'),
}
SUFFIXES = re.compile(r'^(begin|cbegin|end|cend|get|data|str|value)\(\)$')


class Need(Exception):
    def __init__(self, atom, three):
        self.atom = atom
        self.three = three


class CmpEval(evalfn.Evaluator):
    def __init__(self, prog, sigma, cross):
        super().__init__(prog)
        self.cross = cross
        self.sigma = sigma
        self.bad = []
        self.seen = []

    def atom(self, key, three):
        if key not in self.sigma:
            raise Need(key, three)
        return self.sigma[key]

    def free(self, f, n, key):
        if ('free', key) not in self.sigma:
            raise Need(('free', key), False)
        return self.sigma[('free', key)]

    @staticmethod
    def norm(k):
        k = tuple(x for x in k if x != '*')
        while k and SUFFIXES.match(k[-1]):
            k = k[:-1]
        return k

    def pair(self, f, n, op, a, b):
        ka, kb = self.norm(a.key), self.norm(b.key)
        if a.root == b.root:
            if ka == kb:
                self.bad.append((f, n, 'self', 'compares %s of one operand with itself' % ('.'.join(ka) or 'an operand')))
            else:
                return None
        elif ka != kb and not (self.cross and ka and kb and ka[-1] == kb[-1]):
            self.bad.append((f, n, 'mixed', 'compares %s of one operand with %s of the other' % ('.'.join(ka) or 'the whole', '.'.join(kb) or 'the whole')))
        t = (f.t(n) if n is not None else '')
        v = self.atom(ka, op not in ('==', '!='))
        if a.root == 'R':
            v = -v
        self.seen.append((ka, f, n))
        return evalfn.CMP[op](v, 0)

    def compare(self, f, n, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(a, Sym) and not isinstance(b, Sym) and len(a) == len(b):
            if op in ('==', '!='):
                r = all(self.binary(f, n, '==', x, y) for x, y in zip(a, b))
                return r == (op == '==')
            for x, y in zip(a, b):
                if self.binary(f, n, '<', x, y):
                    return op in ('<', '<=')
                if self.binary(f, n, '<', y, x):
                    return op in ('>', '>=')
            return op in ('<=', '>=')
        if isinstance(a, Sym) and isinstance(b, Sym):
            r = self.pair(f, n, op, a, b)
            if r is not None:
                return r
            return self.free(f, n, '%s%s%s' % (a, op, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(c, (int, str)) and op in ('==', '!='):
                if s.key == () and c == 0 or not s.key:
                    return self.free(f, n, '%s==%s' % (s, c)) == (op == '==')
                return self.free(f, n, '%s==%s' % (s, c)) == (op == '==')
            if isinstance(c, (int, str)):
                return self.free(f, n, '%s%s%s' % (a, op, b))
        raise Unknown('comparison')

    def truth(self, f, n, v):
        if isinstance(v, Sym):
            return not self.free(f, n, '%s==0' % (v,))
        raise Unknown('condition')

    def call(self, f, n, env):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        if d.get('f') in ('std::equal', 'std::tie', 'std::make_tuple', 'std::forward_as_tuple'):
            a = [self.lazy(f, x, env) for x in f.args(n)]
            if d['f'] != 'std::equal':
                if any(x is Unknown for x in a):
                    raise Unknown('tuple')
                return tuple(a)
            s = [x for x in a if isinstance(x, Sym)]
            roots = {x.root for x in s}
            if len(roots) == 2:
                l = [x for x in s if x.root == 'L'][0]
                r = [x for x in s if x.root == 'R'][0]
                return self.pair(f, n, '==', l, r)
            raise Unknown('std::equal')
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and re.match(r'std::(equal_to|not_equal_to|less|greater)', d.get('cls') or ''):
            a = [self.eval(f, x, env) for x in f.kids(n)[2:]]
            return self.binary(f, n, {'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'greater': '>'}[d['cls'].split('::')[1].split('<')[0]], a[0], a[1])
        if name in OPS:
            g = self.P.fns.get(d.get('fid'))
            if g is not None and g.cfg is not None and self.P.judged(g):
                try:
                    whole = [self.lazy(f, x, env) for x in ([f.obj(n)] if f.obj(n) is not None else []) + [x for x in f.args(n)]]
                    if not any(isinstance(x, Sym) and '[]' in x.key for x in whole):
                        if len(self.P.targets(f, n)) == 1 or all(isinstance(x, Sym) and not x.key for x in whole):
                            return self.step(f, n, g, env)
                except RecursionError:
                    raise Unknown('recursion')
            a = f.kids(n)[1:] if d['k'] == 'CXXOperatorCallExpr' else ([f.obj(n)] if f.obj(n) is not None else []) + list(f.args(n))
            if len(a) == 2:
                return self.binary(f, n, OPS[name], self.eval(f, a[0], env), self.eval(f, a[1], env))
        if name == 'compare' and d['k'] == 'CXXMemberCallExpr' and len(f.args(n)) == 1:
            a, b = self.eval(f, f.obj(n), env), self.eval(f, f.args(n)[0], env)
            if isinstance(a, Sym) and isinstance(b, Sym):
                return -1 if self.pair(f, n, '<', a, b) else 1 if self.pair(f, n, '>', a, b) else 0
        if d['k'] == 'CXXMemberCallExpr' and f.obj(n) is not None:
            g = self.P.targets(f, n)
            g = [x for x in g if x.cfg is not None and self.P.judged(x)]
            if not g:
                o = self.eval(f, f.obj(n), env)
                if isinstance(o, Sym):
                    a = [self.eval(f, x, env) for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
                    if all(isinstance(x, (int, str)) for x in a):
                        return Sym(o.root, o.key + ('%s(%s)' % (name, ','.join(map(str, a))),))
        return NotImplemented

    def leaf(self, f, n, env):
        d = f.nodes[n]
        k = d['k']
        if k == 'CXXTypeidExpr':
            c = f.kids(n)
            if c:
                o = self.eval(f, c[0], env)
                if isinstance(o, Sym):
                    return Sym(o.root, o.key + ('typeid',))
        if k == 'CXXMemberCallExpr' and f.obj(n) is not None and not [x for x in f.args(n) if x >= 0]:
            o = self.eval(f, f.obj(n), env)
            if isinstance(o, Sym):
                return Sym(o.root, o.key + (d['f'].split('::')[-1] + '()',))
        if k == 'CXXOperatorCallExpr' and d.get('op') == '[]' or k == 'ArraySubscriptExpr':
            c = f.kids(n)
            o, i = (self.eval(f, c[1], env), self.eval(f, c[2], env)) if k == 'CXXOperatorCallExpr' else (self.eval(f, c[0], env), self.eval(f, c[1], env))
            if isinstance(o, Sym) and isinstance(i, (int, str)):
                return Sym(o.root, o.key + ('[%s]' % i,))
        raise Unknown('%s %s' % (k, d.get('f', '')))


class Op:
    """One comparison function: its atoms and its truth table."""

    def __init__(self, prog, f, cross):
        self.P = prog
        self.f = f
        self.cross = cross
        self.op = OPS.get(f.name, '==')
        self.bad = {}
        self.atoms = {}       # key -> three valued?
        self.free = []
        self.where = {}
        self.undecided = None
        try:
            self.explore()
        except (Unknown, KeyError, IndexError, TypeError, RecursionError) as e:
            self.undecided = '%s: %s' % (type(e).__name__, e)

    def args(self):
        f = self.f
        member = f.cls is not None and f.name != 'operator()'
        if member and len(f.params) == 1:
            return (Sym('R', ()),), Sym('L', ())
        return (Sym('L', ()), Sym('R', ())), None

    def once(self, sigma):
        ev = CmpEval(self.P, sigma, self.cross)
        a, this = self.args()
        try:
            r = ev.run(self.f, a, this)
        finally:
            for x in ev.bad:
                self.bad.setdefault((x[2], x[3]), x)
            for k, f, n in ev.seen:
                self.where.setdefault(k, (f, n))
        if not isinstance(r, (bool, int)):
            raise Unknown('result')
        return bool(r)

    def explore(self):
        """Decision tree over the atoms met."""
        todo = [{}]
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 3000:
                raise Unknown('too many cases')
            try:
                self.once(s)
            except Thrown:
                continue
            except Need as e:
                if isinstance(e.atom, tuple) and e.atom and e.atom[0] == 'free' and len(e.atom) == 2:
                    if e.atom not in self.free:
                        self.free.append(e.atom)
                    todo += [dict(s, **{}) | {e.atom: v} for v in (False, True)]
                else:
                    self.atoms[e.atom] = self.atoms.get(e.atom, False) or e.three
                    todo += [s | {e.atom: v} for v in ((-1, 0, 1) if e.three else (0, 1))]

    def __call__(self, sigma):
        try:
            return self.once(sigma)
        except Thrown:
            return None


def table(ops, atoms, three):
    return [dict(zip(atoms, v)) for v in itertools.product((-1, 0, 1) if three else (0, 1), repeat=len(atoms))]


def frees(op):
    return [dict(zip(op.free, v)) for v in itertools.product((False, True), repeat=len(op.free))] if len(op.free) <= 6 else []


def name(k):
    return '.'.join(k) or 'the whole object'


def check_eq(rep, op, cn):
    f = op.f
    atoms = sorted(op.atoms)
    if len(atoms) > 10 or len(op.free) > 6:
        return
    fr = frees(op)
    alleq = {a: 0 for a in atoms}
    good = [x for x in fr if op(alleq | x)]
    if not good:
        rep.violation('%s|%s|never' % (cn, f.name), f.loc(), '%s of %s is false although every component is equal' % (f.name, cn))
        return
    rep.count('component comparisons', len(atoms))
    for x in fr:
        if any(v and k[1] in ('R.==0', 'L.==0') for k, v in x.items()) and any(op(s | x) for s in table(op, atoms, False)):
            rep.violation('%s|%s|other type' % (cn, f.name), f.loc(), '%s of %s is true for an operand of a different type' % (f.name, cn))
    for a in atoms:
        if a and a[-1] in ('size()', 'length()') and not any(b[:len(a) - 1] == a[:-1] and b != a for b in atoms):
            rep.violation('%s|%s|size only %s' % (cn, f.name, name(a)), f.loc(), '%s of %s compares only the size of %s' % (f.name, cn, name(a[:-1])))
    for a in atoms:
        vals = (-1, 1) if op.atoms[a] else (1,)
        if not any(op(alleq | {a: v} | x) is False for x in good for v in vals):
            rep.violation('%s|%s|ignores %s' % (cn, f.name, name(a)), f.loc(), '%s of %s is true although %s differs' % (f.name, cn, name(a)))
            continue
        rest = [b for b in atoms if b != a]
        for s in table(op, rest, False):
            for x in fr:
                if op(s | {a: 0} | x) is False and any(op(s | {a: v} | x) for v in vals):
                    rep.violation('%s|%s|inverted %s' % (cn, f.name, name(a)), f.loc(), '%s of %s becomes true when %s differs' % (f.name, cn, name(a)))
                    break


def check_order(rep, ops, cn):
    lt, gt, le, ge, eq, ne = (ops.get(o) for o in ('<', '>', '<=', '>=', '==', '!='))
    allops = [o for o in ops.values()]
    atoms = sorted(set().union(*[o.atoms for o in allops]))
    if any(o.free for o in allops):
        return
    order = [o for o in (lt, gt, le, ge) if o is not None]
    if len(atoms) > (4 if order else 10):
        return
    # every comparison of a component answers consistently, so that three values per component suffice
    rows = table(None, atoms, bool(order))
    flip = lambda s: {k: -v for k, v in s.items()}

    def bad(o, key, text):
        rep.violation('%s|%s|%s' % (cn, o.f.name, key), o.f.loc(), '%s of %s %s' % (o.f.name, cn, text))
    for s in rows:
        rep.count('comparison cases')
        v = {k: o(s) for k, o in ops.items()}
        fl = flip(s)
        if eq and ne and v['=='] == v['!=']:
            bad(ne, 'negation', 'is not the negation of operator== (%s)' % case(s))
        if lt and v['<'] and lt(fl):
            bad(lt, 'asymmetric', 'holds both ways round (%s)' % case(s))
        if lt and eq and v['=='] and v['<']:
            bad(lt, 'equal', 'holds for equal values (%s)' % case(s))
        if gt and eq and v['=='] and v['>']:
            bad(gt, 'equal', 'holds for equal values (%s)' % case(s))
        if lt and gt and v['>'] != lt(fl):
            bad(gt, 'converse', 'is not the converse of operator< (%s)' % case(s))
        if le and ge and v['>='] != le(fl):
            bad(ge, 'converse', 'is not the converse of operator<= (%s)' % case(s))
        if le and lt and v['<='] == lt(fl):
            bad(le, 'agreement', 'is not the negation of the converse of operator< (%s)' % case(s))
    if lt and len(lt.atoms) <= 2:
        at = sorted(lt.atoms)
        pts = list(itertools.product(range(3), repeat=len(at)))
        sg = lambda a, b: {k: (x > y) - (x < y) for k, x, y in zip(at, a, b)}
        less = {(a, b): lt(sg(a, b)) for a in pts for b in pts}
        for a in pts:
            for b in pts:
                for c in pts:
                    if less[a, b] and less[b, c] and not less[a, c]:
                        bad(lt, 'transitive', 'is not transitive')
                        return
                    if not less[a, b] and not less[b, a] and not less[b, c] and not less[c, b] and (less[a, c] or less[c, a]):
                        bad(lt, 'weak', 'does not order values consistently (incomparability is not transitive)')
                        return


def case(s):
    return ', '.join('%s %s' % (name(k), {-1: 'less', 0: 'equal', 1: 'greater or different'}[v]) for k, v in sorted(s.items()))


# ---------------------------------------------------------------- hash codes

class HashEval(evalfn.Evaluator):
    """Evaluates a hash function to an expression over the components of the value."""

    def call(self, f, n, env):
        d = f.nodes[n]
        nm = d.get('f') or ''
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and 'hash' in (d.get('cls') or ''):
            g = self.P.fns.get(d.get('fid'))
            a = self.eval(f, f.kids(n)[2], env)
            if g is not None and g.cfg is not None and self.P.judged(g):
                return self.run(g, [a], None)
            t = f.t(f.strip(f.kids(n)[1])).replace('std::hash<', '', 1).replace('const ', '')
            t = re.sub(r'[<>].*', '', t).strip(' &')
            t = t.split('::')[-1]
            if t in ('basic_string', 'basic_string_view', 'string', 'string_view'):
                t = 'text'
            return ('hash', t, a)
        if d['k'] == 'CXXMemberCallExpr' and f.obj(n) is not None:
            g = [x for x in self.P.targets(f, n) if x.cfg is not None and self.P.judged(x)]
            if len(g) != 1:
                o = self.eval(f, f.obj(n), env)
                a = [self.eval(f, x, env) for x in f.args(n) if x >= 0]
                if isinstance(o, Sym) and not a:
                    return Sym(o.root, o.key + (nm.split('::')[-1] + '()',))
                raise Unknown('call')
        return NotImplemented

    def binary(self, f, n, op, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return super().binary(f, n, op, x, y)
        if x is Unknown or y is Unknown:
            raise Unknown(op)
        a, b = [x, y]
        if op in ('^', '*', '+', '|', '&'):
            a, b = sorted([x, y], key=repr)
        return (op, a, b)

    def leaf(self, f, n, env):
        raise Unknown(f.k(n))


def components(prog, T, f, src):
    """First components of a value that a function reads."""
    out = set()
    for n, d in enumerate(f.nodes):
        if d['k'] == 'MemberExpr':
            p = f.path(n) if d.get('fld') else None
            root = ('this',) if src is None else ('v:' + src,)
            if p and p[:1] == root and len(p) > 1:
                out.add(p[1])
    return out


def hash_components(prog, f, roots, depth=0):
    """Components (first field) of the value given by roots ('this' or a parameter's id) that the function reads, and representation reads of opaque values."""
    out, rep = set(), []
    if depth > 5:
        return out, rep
    for n, d in enumerate(f.nodes):
        if d['k'] == 'MemberExpr' and d.get('fld'):
            p = f.path(n)
            if p and p[0] in roots and len(p) > 1:
                out.add(p[1])
        if not f.is_call(n):
            continue
        tg = [g for g in prog.targets(f, n) if g.cfg is not None and prog.judged(g)]
        o = f.obj(n)
        for g in tg:
            r = set()
            if o is not None and f.path(o) and f.path(o)[0] in roots and len(f.path(o)) == 1:
                r.add('this')
            for i, a in enumerate(f.args(n)):
                if a >= 0 and i < len(g.params) and f.path(a) and f.path(a)[0] in roots and len(f.path(a)) == 1:
                    r.add('v:' + g.params[i]['id'])
            if r:
                a, b = hash_components(prog, g, r, depth + 1)
                out |= a
                rep += b
        if d['k'] == 'CXXMemberCallExpr' and o is not None and (d.get('f') or '').split('::')[-1] in ('string', 'native', 'c_str', 'generic_string', 'wstring', 'generic_path') \
                and re.search(r'filesystem.*::path\b', f.t(f.strip(o))):
            if whole_value(f, o, roots):
                rep.append((f, n))
        if d['k'] == 'CallExpr' and (d.get('f') or '').split('::')[-1] == 'hash_value' and any(a >= 0 and re.search(r'filesystem.*::path\b', f.t(f.strip(a))) and whole_value(f, a, roots) for a in f.args(n)):
            rep.append((f, n))
    return out, rep


def whole_value(f, n, roots, depth=0):
    """Is the expression a component of the value, rather than an element met while iterating over it?"""
    n = f.strip_all(n)
    d = f.nodes[n]
    if depth > 8:
        return False
    p = f.path(n)
    if p and p[0] in roots:
        return True
    if d['k'] in ('CXXThisExpr',):
        return 'this' in roots
    if d['k'] == 'DeclRefExpr' and d.get('v'):
        g, v = f.lookup_var(d['v'])
        if v is not None and 'init' in v and not v.get('param'):
            i = g.strip_all(v['init'])
            if g.k(i) in ('UnaryOperator', 'CXXOperatorCallExpr') and g.nodes[i].get('op') == '*':
                return False
            return whole_value(g, v['init'], roots, depth + 1)
        return False
    if d['k'] in ('CXXMemberCallExpr',) and f.obj(n) is not None:
        return whole_value(f, f.obj(n), roots, depth + 1)
    if d['k'] == 'MemberExpr' and f.kids(n):
        return whole_value(f, f.kids(n)[0], roots, depth + 1)
    return False


def operand_classes(prog, f):
    """Class ids of the two operands."""
    def cid(t):
        t = re.sub(r'\bconst\b|&|\*', '', t).strip()
        return prog.class_by_type(t)
    if f.cls and f.name != 'operator()':
        l = prog.classes.get(f.clsid)
        r = cid(f.types[f.params[0]['t']])
        # an override that narrows its operand compares objects of its own class
        for d in f.nodes:
            if d['k'] == 'CXXDynamicCastExpr' and l is not None and l['dn'] in f.types[d['t']]:
                r = l
        return l, r
    return cid(f.types[f.params[0]['t']]), cid(f.types[f.params[1]['t']])


def check(prog, rep):
    for q in CONFIRMED:
        prog.need_class(q)
    by_type = {}
    for c in prog.classes.values():
        by_type.setdefault(c['dn'], c)
        by_type.setdefault(c['qn'], c)
    prog.class_by_type = lambda t: by_type.get(t)
    groups = {}
    undecided = []
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not prog.judged(f) or f.cfg is None:
            continue
        eqto = f.name == 'operator()' and f.dn.startswith('std::equal_to') and len(f.params) == 2
        if not (eqto or f.name in OPS and len(f.params) == (1 if f.cls else 2)):
            continue
        l, r = operand_classes(prog, f)
        cn = '%s/%s' % (l['dn'] if l else '?', r['dn'] if r else '?') if l is not r else (l['dn'] if l else f.qn + '(' + ','.join(f.types[p['t']] for p in f.params) + ')')
        op = Op(prog, f, l is not r)
        rep.count('comparison functions')
        rep.sample('comparison functions', '%s (%s)' % (f.qn, cn))
        for key, (g, n, kind, text) in op.bad.items():
            rep.violation('%s|%s|%s' % (cn, f.name, key[1]), g.loc(n), '%s of %s %s' % (f.name, cn, text))
        identity(prog, rep, f, cn)
        if op.undecided:
            undecided.append('%s: %s' % (f.dn, op.undecided))
            continue
        g = groups.setdefault(cn, {'cls': (l, r), 'ops': {}, 'same': []})
        if eqto:
            g['same'].append(op)
            continue
        if op.op in g['ops']:
            g['same' if op.op == '==' else 'dup'] = g.get('same' if op.op == '==' else 'dup', []) + [op]
        else:
            g['ops'][op.op] = op
    for cn, g in sorted(groups.items()):
        ops = g['ops']
        for o in [ops.get('==')] + g['same']:
            if o is not None:
                check_eq(rep, o, cn)
                complete(prog, rep, o, cn, g['cls'])
        check_order(rep, ops, cn)
        for o in g['same']:
            e = ops.get('==')
            if e is not None and set(o.atoms) != set(e.atoms) and not (o.free or e.free):
                rep.violation('%s|%s|siblings' % (cn, o.f.name), o.f.loc(), '%s of %s compares %s, but the equality operator compares %s'
                              % (o.f.name, cn, ', '.join(map(name, sorted(o.atoms))) or 'nothing', ', '.join(map(name, sorted(e.atoms))) or 'nothing'))
    own = {g['cls'][0]['dn']: g['ops']['=='] for g in groups.values() if g['cls'][0] is not None and g['cls'][0] is g['cls'][1] and '==' in g['ops']}
    for cn, g in sorted(groups.items()):
        l, r = g['cls']
        if l is None or r is None or l is r:
            continue
        both = [own[x['dn']] for x in (l, r) if x['dn'] in own]
        for o in [g['ops'].get('==')] + g['same']:
            if o is None or not both:
                continue
            want = min(len(b.atoms) for b in both)
            if len(o.atoms) < want:
                rep.violation('%s|%s|cross' % (cn, o.f.dn), o.f.loc(), '%s of %s compares %s only, fewer components than the equality of each type' % (o.f.name, cn, ', '.join(map(name, sorted(o.atoms)))))
    check_hashes(prog, rep, groups)
    rep.count('undecided', len(undecided))
    for u in undecided:
        rep.sample('undecided', u, 30)
    rep.need('comparison functions', 50)
    rep.need('hash functions', 6)
    return ('Every comparison operator is evaluated over all combinations of its component comparisons (equal, less, greater): components are compared with the same component of the other operand, '
            'each one matters to equality and none is inverted, != negates ==, orderings are strict weak orders consistent with == and with each other, no state of the class is left out '
            '(other than listed non-identity state), owning pointers are not compared by address; hash functions read only components that equality compares, not the representation of a path, '
            'and the hash functions of types that compare equal with each other are the same expression.')


def identity(prog, rep, f, cn):
    for n, d in enumerate(f.nodes):
        if (d['k'] == 'CXXOperatorCallExpr' or d['k'] == 'BinaryOperator') and d.get('op') in ('==', '!='):
            c = f.kids(n)[-2:]
            if len(c) == 2 and all('std::unique_ptr<' in f.t(f.strip(x)) for x in c):
                rep.violation('%s|%s|address' % (cn, f.name), f.loc(n), '%s of %s compares objects that each operand owns by their address' % (f.name, cn))


def complete(prog, rep, op, cn, cls):
    l, r = cls
    if l is None or l is not r:
        return
    have = {a[0] for a in op.atoms if a} | {s.split('.')[1].split('=')[0].split('.')[0] for _, s in op.free if '.' in s}
    whole = () in op.atoms
    if whole:
        return
    if l['qn'] in PARTIAL and len(have) < PARTIAL[l['qn']][0]:
        rep.violation('%s|%s|too few' % (cn, op.f.name), op.f.loc(), '%s of %s compares only %s' % (op.f.name, cn, ', '.join(sorted(have)) or 'nothing'))
    todo = []
    stack, exc = [l], False
    while stack:
        c = stack.pop()
        if 'Exception' in c['qn'] and c is not l:
            exc = True
            continue
        if c['qn'] not in PARTIAL:
            todo += [(c, fl) for fl in c['fields']]
        stack += [prog.classes[b['id']] for b in c['bases'] if b.get('id') in prog.classes]
    own = {fl['n'] for fl in l['fields']}
    if exc and len(have - own) < 1:
        rep.violation('%s|%s|base' % (cn, op.f.name), op.f.loc(), '%s of %s compares nothing of its base class' % (op.f.name, cn))
    for c, fl in todo:
        n = fl['n']
        if not n or n in have:
            continue
        if fl.get('mut'):
            continue
        rep.count('components left out')
        if fl.get('cat') == 'ref' or fl['ty'].rstrip().endswith('&'):
            continue
        if 'iterator' in c['qn'].split('::')[-1].lower():
            continue        # the position decides; bookkeeping of the traversal does not
        rep.violation('%s|%s|left out %s' % (cn, op.f.name, n), op.f.loc(), '%s of %s does not compare %s' % (op.f.name, cn, n))


def check_hashes(prog, rep, groups):
    exprs = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not prog.judged(f) or f.cfg is None:
            continue
        if f.name == 'hashcode' and not f.params and f.cls:
            root, classes = 'this', [prog.classes.get(f.clsid)]
        elif f.name == 'operator()' and f.dn.startswith('std::hash<') and len(f.params) == 1:
            root = 'v:' + f.params[0]['id']
            classes = [prog.class_by_type(re.sub(r'\bconst\b|&', '', f.types[f.params[0]['t']]).strip())]
        else:
            continue
        rep.count('hash functions')
        rep.sample('hash functions', f.dn)
        comps, reads = hash_components(prog, f, {root})
        for g, n in reads:
            rep.violation('%s|representation' % f.dn, g.loc(n), '%s hashes the text of a path, but paths with different texts can be equal' % f.dn)
        c = classes[0]
        try:
            e = HashEval(prog).run(f, [Sym('L', ())] if root != 'this' else [], Sym('L', ()) if root == 'this' else None)
        except (Unknown, Thrown, KeyError, IndexError, TypeError):
            e = None
        if c is not None:
            exprs.setdefault(c['dn'], []).append((f, e))
        derivedcls = [x for x in prog.classes.values() if c is not None and (x is c or any(b.get('id') == c['id'] for b in x['bases']))]
        for x in derivedcls:
            g = groups.get(x['dn'])
            if g is None or '==' not in g['ops']:
                continue
            eq = g['ops']['==']
            have = {a[0] for a in eq.atoms if a}
            if () in eq.atoms:
                continue
            rep.count('hash components', len(comps))
            for k in sorted(comps - have):
                if any(k == a.split('(')[0] for a in have):
                    continue
                rep.violation('%s|hash %s' % (x['dn'], k), f.loc(), 'the hash code of %s depends on %s, which equality does not compare' % (x['dn'], k))
    # types that can be equal to each other hash alike
    pairs = set()
    for cn, g in groups.items():
        l, r = g['cls']
        if l is not None and r is not None and '==' in g['ops']:
            pairs.add(tuple(sorted((l['dn'], r['dn']))))
    for a, b in sorted(pairs):
        es = exprs.get(a, []) + (exprs.get(b, []) if a != b else [])
        es = [(f, e) for f, e in es if e is not None]
        for f, e in es[1:]:
            rep.count('hash agreements')
            if e != es[0][1]:
                rep.violation('%s|agree|%s' % (es[0][0].dn, f.dn), f.loc(), '%s and %s compute different hash codes for values that compare equal' % (f.dn, es[0][0].dn))
