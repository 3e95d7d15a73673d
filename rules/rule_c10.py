"""C10: every constructor gives every scalar member a value, and nothing reads a member that is not initialised yet."""
import re

import facts
import inline
import locks

SCALAR = {'bool', 'int', 'float', 'enum', 'ptr', 'mptr', 'atomic', 'pod'}
# Classes confirmed by hand to have scalar members that a constructor must set.
CONFIRMED = ['Balau::Util::Zipper', 'Balau::Util::Unzipper', 'Balau::Concurrent::SingleTimeExecutor', 'Balau::Concurrent::LazyValue',
             'Balau::Lang::AbstractScanner', 'Balau::Resource::UriComponents', 'Balau::Container::ArrayBlockingQueue']


class Ctor:
    """State: frozenset of initialised field names of the object under construction (must)."""

    def __init__(self, prog, rep, cls, fields):
        self.P, self.rep, self.cls, self.fields = prog, rep, cls, fields
        self.I = inline.Inliner(prog, self.step, lambda a, b: a & b, None)
        self.bad = []
        self.top = None

    def step(self, f, st, e, rec):
        if not isinstance(e, int):
            if isinstance(e, dict) and 'init' in e and 'm' in e and f.cls == self.cls and f.kind == 'ctor':
                n = e['m'].split('::')[-1]
                if not self.leaves_unset(f, e['init']):
                    st = st | {n}
            return st
        d = f.nodes[e]
        k = d['k']
        if k == 'MemberExpr' and d.get('fld') and d['m'].rsplit('::', 1)[0] == self.cls and f.path(e) == ('this', d['n']):
            u = locks.usage(f, e)
            if u == 'r':
                if rec and d['n'] in self.fields and d['n'] not in st and not self.addr_only(f, e) and not self.size_only(f, e):
                    self.bad.append((f, e, d['n']))
            else:
                if rec and d['n'] in self.fields and d['n'] not in st and self.fields[d['n']]['cat'] not in SCALAR and self.constructed_later(f, e, d['n']):
                    self.bad.append((f, e, d['n']))
                # written here, or handed out to be written; assignments take effect after their right side, which clang evaluates first
                st = st | {d['n']}
        return st

    @staticmethod
    def leaves_unset(f, n):
        """Default initialisation of an atomic or of a record of plain fields gives no value (before C++20)."""
        n = f.strip(n) if n is not None and n >= 0 else n
        if n is None or n < 0:
            return False
        d = f.nodes[n]
        if d['k'] == 'CXXConstructExpr' and d.get('defc') and not d.get('zi'):
            if d['f'].startswith('std::atomic::') or d['f'].startswith('std::__atomic_base'):
                return True
            return any(c.get('aggr') and any(x['cat'] in SCALAR and not x.get('init') for x in c['fields'])
                       for c in f.prog.cls_by_qn.get(d.get('cls'), ())) and d.get('fid') not in f.prog.fns
        return False

    def addr_only(self, f, e):
        """A reference or pointer to the member is taken (for later use); the value is not read."""
        p = f.parents.get(e)
        while p is not None and f.k(p) == 'ParenExpr':
            p = f.parents.get(p)
        return p is not None and f.k(p) == 'UnaryOperator' and f.nodes[p].get('op') == '&'

    def constructed_later(self, f, e, name):
        """The member is an object that an initialiser still to come constructs, and it is used here as if it existed
        (binding a reference or pointer that a constructor keeps is no use)."""
        if not self.top or name not in self.top or self.addr_only(f, e):
            return False
        p = f.parents.get(e)
        while p is not None and f.k(p) in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            p = f.parents.get(p)
        return p is not None and f.k(p) not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'LambdaExpr')

    def size_only(self, f, e):
        p = f.parents.get(e)
        while p is not None:
            if f.k(p) == 'UnaryExprOrTypeTraitExpr':
                return True
            p = f.parents.get(p)
        return False


def check(prog, rep):
    for q in CONFIRMED:
        prog.need_class(q)
    ctors = {}
    for f in prog.fns.values():
        if f.kind == 'ctor':
            ctors.setdefault(f.clsid, []).append(f)
    for c in sorted(prog.classes.values(), key=lambda c: c['dn']):
        fields = {fl['n']: fl for fl in c['fields']}
        scal = {n for n, fl in fields.items() if fl['cat'] in SCALAR and not fl.get('init')}
        if not fields:
            continue
        rep.count('classes')
        rep.count('members without in-class initialiser', len(scal))
        for m in c['methods']:
            # a defaulted default constructor leaves what has no in-class initialiser
            if m.get('defc') and m.get('id') and (m.get('defaulted') or m.get('implicit')) and not m.get('deleted') and scal:
                rep.count('constructors')
                rep.count('obligations', len(scal))
                sites = uninit_uses(prog, m['id'], c)
                for n in sorted(scal) if sites else ():
                    g, s = sites[0]
                    rep.violation('%s|%s|default' % (c['qn'], n), g.loc(s), '%s creates a %s without giving %s a value (the class has no initialiser for it)' % (g.dn, c['qn'], n))
        for f in ctors.get(c['id'], ()):
            if f.cfg is None or f.d.get('deleg') or any(i.get('deleg') for i in f.d.get('inits', ())):
                continue
            if f.d.get('defaulted') or f.d.get('implicit'):
                continue
            rep.count('constructors')
            rep.count('obligations', len(scal))
            w = Ctor(prog, rep, c['qn'], fields)
            w.top = constructed_by_initialisers(f)
            out = w.I.run(f, frozenset(n for n, fl in fields.items() if fl.get('init') and False), True)
            # members initialised by their own default constructor or initialiser appear as initialisers in the graph
            if out is not None:
                for n in sorted(scal - out):
                    rep.violation('%s|%s|%s' % (c['qn'], n, 'ctor'), f.loc(), 'the constructor of %s at line %d can finish without giving %s a value' % (c['qn'], f.line, n))
            seen = set()
            for g, e, n in w.bad:
                if n in seen:
                    continue
                seen.add(n)
                if fields[n]['cat'] not in SCALAR and not nontrivial(fields[n]):
                    continue
                rep.violation('%s|%s|early' % (c['qn'], n), g.loc(e), 'the constructor of %s reads %s before it is initialised' % (c['qn'], n))
    rep.need('constructors', 120)
    rep.need('members without in-class initialiser', 60)
    return ('For every constructor with a body or initialiser list of every class: along every path to normal completion (helpers followed) each number, flag, enumeration, pointer or atomic member is given a value, '
            'and no member is read before the point at which it is initialised (members are initialised in declaration order). For classes whose default constructor is defaulted and leaves a scalar member unset: '
            'no place in the library default-initialises such an object without then assigning the member.')


def constructed_by_initialisers(f):
    out = set()
    for b in f.cfg.blocks.values():
        for e in b.elems:
            if isinstance(e, dict) and 'init' in e and 'm' in e:
                n = f.strip(e['init']) if e['init'] is not None and e['init'] >= 0 else None
                if n is not None and f.k(n) in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    out.add(e['m'].split('::')[-1])
    return out


def nontrivial(fl):
    return True


def constructions(prog):
    if not hasattr(prog, '_constructions'):
        m = {}
        for g in prog.fns.values():
            for n, d in enumerate(g.nodes):
                if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('fid'):
                    m.setdefault(d['fid'], []).append((g, n))
        prog._constructions = m
    return prog._constructions


def uninit_uses(prog, cid, c):
    """Places that default-initialise (not value-initialise) an object with this constructor."""
    out = []
    for g, n in constructions(prog).get(cid, ()):
            d = g.nodes[n]
            if not d.get('zi'):
                if g.kind == 'ctor' and any(i.get('init') == n for i in g.d.get('inits', ())) and (g.d.get('implicit') or g.d.get('defaulted')):
                    continue
                p = g.parents.get(n)
                while p is not None and g.k(p) in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
                    p = g.parents.get(p)
                if p is not None and g.k(p) == 'CXXInheritedCtorInitExpr':
                    continue
                if p is not None and g.k(p) == 'DeclStmt' and c.get('aggr'):
                    continue        # a local record of plain fields, which the function fills in or has filled in
                out.append((g, n))
    return out
