"""C27: a lookup that can find nothing is tested before its result is used."""
import re

import flags
import nullness

FIND = re.compile(r'^(std|boost)::.*::(find|lower_bound|upper_bound)$')
ALGO = re.compile(r'^std::(ranges::)?(find|find_if|find_if_not|find_first_of|find_end|search|adjacent_find|lower_bound|upper_bound|max_element|min_element|get_if|any_cast|'
                  r'dynamic_pointer_cast|strchr|strrchr|strstr|strpbrk|memchr|getenv|fopen|localtime|gmtime)$')
CALLS = re.compile(r'^(::)?(getenv|secure_getenv|getpwuid|getpwnam|getgrgid|fopen|fdopen|popen|opendir|readdir|strchr|strrchr|strstr|strpbrk|memchr|localtime|gmtime|localtime_r|dlopen|dlsym|realpath|getlogin)$')
NEEDS = re.compile(r'^(std::|::)?(strlen|strcmp|strncmp|strcpy|strcat|strdup|atoi|atol|atof|fclose|fread|fwrite|fgets|fputs|fprintf|pclose|closedir|readdir|fileno|fflush)$')
POINTED = re.compile(r'\*(const)?$|iterator|^(const )?(std::(unique_ptr|shared_ptr|optional)|boost::(optional|shared_ptr))<')
ADD = {'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]', 'emplace_hint'}


def is_text(t):
    t = re.sub(r'\bconst\b', '', t).strip()
    return bool(re.match(r'^(std::(__cxx11::)?basic_string(_view)?<|std::string(_view)?\b)', t))


class Known(nullness.Nullness):
    """Adds what is known to be in a container: ('has', container path, key)."""

    look = None
    fixed = None

    def registered(self, f, c, k):
        """Does every object of f's class hold the constant key k in its member c for its whole life?"""
        if not k[0].startswith('"') or len(c) != 2 or c[0] != 'this' or not f.clsid:
            return False
        if self.fixed is None:
            self.fixed = {}
        m = (f.clsid, c, k)
        if m not in self.fixed:
            self.fixed[m] = self.compute_registered(f.clsid, c, k)
        return self.fixed[m]

    def compute_registered(self, cls, c, k):
        ctors = 0
        for g in self.P.fns.values():
            if g.clsid != cls and g.root().clsid != cls:
                continue
            if g.kind == 'ctor' and g.clsid == cls:
                ctors += 1
                roots = [i['init'] for i in g.d.get('inits', ()) if isinstance(i, dict) and i.get('n') == c[1] and i.get('init', -1) >= 0]
                if not roots or not self.holds(g, roots[0], k, 0):
                    return False
            for n, d in enumerate(g.nodes):
                o = None
                if g.is_call(n) and (d.get('f') or '').split('::')[-1] in ('erase', 'clear', 'swap', 'extract', 'merge', 'operator='):
                    o = g.obj(n) if d['k'] == 'CXXMemberCallExpr' else g.kids(n)[1] if len(g.kids(n)) > 1 else None
                elif d.get('f') == 'std::move' and g.args(n):
                    o = g.args(n)[0]
                if o is not None and g.path(o) == c:
                    return False
        return ctors > 0

    def holds(self, g, n, k, depth):
        """Is the constant key k in what n builds?"""
        for x in g.walk(n):
            d = g.nodes[x]
            if re.search(r'pair(<|$|::)', (d.get('f') or '') + g.t(x)) and d['k'] in ('CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr') and self.keyof(g, x) == k:
                return True
            if g.is_call(x) and depth < 2:
                for h in self.P.targets(g, x):
                    rets = [h.kids(i)[0] for i, e in enumerate(h.nodes) if e['k'] == 'ReturnStmt' and h.kids(i)]
                    if rets and all(self.holds(h, r, k, depth + 1) for r in rets):
                        return True
        return False

    def drop(self, st, p):
        st = super().drop(st, p)
        return frozenset(x for x in st if x[0] != 'has' or x[1][:len(p)] != p and x[2][:len(p)] != p)

    def keyof(self, f, a):
        a = f.strip_all(a)
        d = f.nodes[a]
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CallExpr', 'CXXFunctionalCastExpr', 'CXXStdInitializerListExpr'):
            args = [x for x in (f.args(a) if d['k'] != 'InitListExpr' else f.kids(a)) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            if args and (d['k'] != 'CallExpr' or re.search(r'(make_pair|move|forward)$', d.get('f') or '')):
                return self.keyof(f, args[0])
        if d['k'] == 'StringLiteral':
            return ('"' + d.get('s', '') + '"',)
        if d['k'] in ('IntegerLiteral', 'CharacterLiteral'):
            return ('#%s' % d.get('iv'),)
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            g, v = f.lookup_var(d['v'])
            # a constant text held in a local
            if v and not v.get('param') and g is f and 'init' in v and not f.assigned(d['v']) and re.search(r'pair<', f.types[v['type']] if isinstance(v.get('type'), int) else str(v.get('type'))):
                return self.keyof(f, v['init'])
        return f.path(a)

    def lookup(self, f, n):
        """(container, key) when n looks a key up in a container."""
        n = f.strip_all(n)
        d = f.nodes[n]
        if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('find', 'count', 'contains') and f.obj(n) is not None and len(f.args(n)) == 1:
            c, k = f.path(f.obj(n)), self.keyof(f, f.args(n)[0])
            if c and k:
                return c, k
        return None

    def assign(self, f, st, p, rhs):
        lk = self.lookup(f, rhs)
        st2 = super().assign(f, st, p, rhs)
        if lk and (('has',) + lk in st or self.registered(f, *lk)):
            st2 = st2 | {p}
        elif len(p) == 1 and p[0].startswith('v:') and self.look and p not in st2 and not nullness.is_null(f, rhs) and not nullness.is_end(f, rhs) and self.look.why(f, rhs) is None:
            st2 = st2 | {p}         # not the result of a lookup
        return st2

    def step(self, f, st, e):
        st = super().step(f, st, e)
        if isinstance(e, int) and f.is_call(e):
            d = f.nodes[e]
            name = (d.get('f') or '').split('::')[-1]
            if name in ADD:
                if d['k'] == 'CXXMemberCallExpr':
                    o, a = f.obj(e), f.args(e)
                elif d['k'] == 'CXXOperatorCallExpr':
                    o, a = f.kids(e)[1], f.kids(e)[2:]
                else:
                    return st
                if o is not None and a and re.search(r'(map|set)<', f.t(f.strip(o))):
                    if name == 'emplace_hint':
                        a = a[1:]
                    c, k = f.path(o), self.keyof(f, a[0]) if a else None
                    if c and k:
                        st = st | {('has', c, k)}
        return st

    def edge(self, f, st, blk, lab):
        st = super().edge(f, st, blk, lab)
        if lab is True or lab is False:
            for m, v in flags.decompose(f, blk.cond, lab):
                m = f.strip_all(m)
                d = f.nodes[m]
                lk = None
                if d['k'] in ('CXXMemberCallExpr',) and d.get('f', '').split('::')[-1] in ('count', 'contains') and v:
                    lk = self.lookup(f, m)
                elif d['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and d.get('op') in ('==', '!=', '>'):
                    kids = f.kids(m) if d['k'] == 'BinaryOperator' else f.kids(m)[1:]
                    if len(kids) == 2:
                        for x, y in (kids, kids[::-1]):
                            if self.lookup(f, x) and ((nullness.is_end(f, y) or nullness.is_null(f, y)) and (d['op'] in ('!=', '>')) == v):
                                lk = self.lookup(f, x)
                if lk:
                    st = st | {('has',) + lk}
        return st


class Lookups:
    def __init__(self, P):
        self.P = P
        self.N = Known(P)
        self.N.look = self
        self.ret = {}
        self.par = {}

    def source(self, f, n, depth=0):
        """Why the value of n may be null or the end, or None."""
        n = f.strip(n)
        while f.k(n) in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr') and f.kids(n):
            n = f.strip(f.kids(n)[0])
        d = f.nodes[n]
        k = d['k']
        if k == 'CXXDynamicCastExpr':
            return 'a conditional cast' if f.t(n).rstrip().endswith('*') else None
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and POINTED.search(f.t(n)):
            a = [x for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            if len(a) == 1:
                return self.source(f, a[0], depth)
            return None
        if k == 'ConditionalOperator':
            kids = f.kids(n)
            for c in kids[1:]:
                if nullness.is_null(f, c) or nullness.is_end(f, c):
                    return 'a choice that includes nothing'
                s = self.source(f, c, depth)
                if s:
                    return s
            return None
        if f.is_call(n):
            fx = d.get('f') or ''
            name = fx.split('::')[-1]
            if name == 'get' and k == 'CXXMemberCallExpr' and not f.args(n) and f.obj(n) is not None:
                return self.source(f, f.obj(n), depth)
            if fx == 'std::move' and f.args(n):
                return self.source(f, f.args(n)[0], depth)
            t = f.t(n)
            if FIND.match(fx) and not is_text(f.t(f.strip(f.obj(n))) if f.obj(n) is not None else '') and not re.search(r'^(unsigned|int|size_t|long)', t):
                return 'a search of a container'
            if ALGO.match(fx) and (name != 'any_cast' or t.rstrip().endswith('*')) or CALLS.match(fx):
                return 'a call of %s' % name
            if name == 'lock' and 'weak_ptr' in fx:
                return 'a weak pointer'
            if POINTED.search(t) and not self.root_search(f, n):
                for g in self.P.targets(f, n):
                    if 'ThirdParty' in g.file:
                        continue
                    s = self.returns(g, depth + 1)
                    if s:
                        return '%s, which may give nothing (%s)' % (g.dn, s)
        return None

    def root_search(self, f, n):
        """A search of a tree that is allowed to stop at the root, for something that starts with the root's own (empty) name: the logger tree always
        has that root."""
        if not re.search(r'Tr(i|e)e', f.nodes[n].get('cls') or f.nodes[n].get('f') or '') or not f.args(n):
            return False
        a = f.strip_all(f.args(n)[0])
        if f.k(a) != 'DeclRefExpr' or 'v' not in f.nodes[a] or not any(f.nodes[f.strip_all(x)].get('iv') == 0 and 'bool' in f.t(f.strip_all(x)) for x in f.args(n)):
            return False
        g, v = f.lookup_var(f.nodes[a]['v'])
        if not v or v.get('param') or v.get('init') is None:
            return False
        lits = [x for x in g.walk(v['init']) if g.k(x) == 'StringLiteral']
        return bool(lits) and g.nodes[lits[0]].get('s', '') == ''

    def defs(self, f, v):
        """Everything the local variable v is given, or None when it is not a plain local."""
        var = f.vars.get(v)
        if var is None or var.get('param') or var.get('ref') and 'init' not in var:
            return None
        out = []
        if 'init' in var and var['init'] is not None:
            out.append(var['init'])
        for i, d in enumerate(f.nodes):
            r = None
            if d['k'] == 'BinaryOperator' and d.get('op') == '=':
                l, r = f.kids(i)[:2]
            elif d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '=' and len(f.kids(i)) == 3:
                l, r = f.kids(i)[1:]
            if r is not None:
                l = f.strip_all(l)
                if f.nodes[l].get('v') == v and f.k(l) == 'DeclRefExpr':
                    out.append(r)
        return out

    def why(self, f, n, depth=0):
        """(path, reason) when n is a local that may hold nothing, (None, reason) for a lookup used at once."""
        if nullness.conditional_cast(f, n) is not None:
            return None, 'a conditional cast'
        n = f.strip_all(n)
        while f.k(n) == 'CXXMemberCallExpr' and (f.nodes[n].get('f') or '').split('::')[-1] in ('get', 'c_str') and f.obj(n) is not None and not f.args(n) and POINTED.search(f.t(f.strip(f.obj(n)))):
            n = f.strip_all(f.obj(n))
        d = f.nodes[n]
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            ds = self.defs(f, d['v'])
            for x in ds or ():
                if nullness.is_null(f, x) or nullness.is_end(f, x):
                    s = 'nothing yet' if len(ds) > 1 else 'nothing'
                else:
                    s = self.source(f, x, depth)
                    if s is None:
                        y = f.strip_all(x)
                        if f.k(y) == 'DeclRefExpr' and 'v' in f.nodes[y] and f.nodes[y]['v'] != d['v'] and depth < 3:
                            w = self.why(f, y, depth + 1)
                            s = w[1] if w and w[0] else None
                if s:
                    return ('v:' + d['v'],), s
            return None
        s = self.source(f, n, depth)
        return (None, s) if s else None

    def returns(self, g, depth=0):
        if g.id in self.ret:
            return self.ret[g.id]
        self.ret[g.id] = None
        if depth > 6 or g.cfg is None:
            return None
        for i, d in enumerate(g.nodes):
            if d['k'] != 'ReturnStmt' or not g.kids(i):
                continue
            e = g.kids(i)[0]
            st = self.N.at(g, i)
            if st is None:
                continue
            if nullness.is_null(g, e) or nullness.is_end(g, e):
                self.ret[g.id] = 'line %d' % g.line_of(i)
                break
            w = self.why(g, e, depth)
            if w and not self.found(g, e, st, w):
                self.ret[g.id] = w[1]
                break
        return self.ret[g.id]

    def found(self, f, n, st, w):
        if w[0] is not None:
            return w[0] in st
        lk = self.N.lookup(f, n) if nullness.conditional_cast(f, n) is None else None
        if lk and (('has',) + lk in st or self.N.registered(f, *lk)):
            return True
        p = nullness.key(f, n)
        return p is not None and p in st

    def uses(self, f):
        """(node, expression, how) of every use that needs something to have been found."""
        for i, p in nullness.derefs(f):
            yield i, p, 'dereferenced'
        for i, d in enumerate(f.nodes):
            if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and is_text(f.t(i)):
                a = [x for x in f.args(i) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
                if a and re.search(r'char (const )?\*(const)?$', f.t(f.strip(a[0])).strip()):
                    yield i, a[0], 'made a string'
            elif f.is_call(i):
                fx = d.get('f') or ''
                if NEEDS.match(fx):
                    for a in f.args(i):
                        if a >= 0 and f.t(f.strip(a)).rstrip().endswith('*'):
                            yield i, a, 'given to %s' % fx
                elif fx.endswith('operator<<') or re.search(r'basic_string<.*>::(operator=|operator\+=|append|assign)$', fx) or fx == 'std::operator+':
                    for a in (f.args(i) or [])[-1:] if d['k'] == 'CXXMemberCallExpr' else f.kids(i)[1:]:
                        if re.search(r'char (const )?\*(const)?$', f.t(f.strip(a)).strip()):
                            yield i, a, 'made a string'
                else:
                    g = self.P.fns.get(d.get('fid'))
                    if g is None or d.get('virt') or 'ThirdParty' in g.file:
                        continue
                    for j, a in enumerate(f.args(i)):
                        if a >= 0 and j < len(g.params) and POINTED.search(g.types[g.params[j]['t']].replace('&', '').strip()) and self.needs(g, j):
                            yield i, a, 'given to %s, which uses it' % g.dn

    def needs(self, g, j):
        """Does g use its parameter j without testing it?"""
        k = (g.id, j)
        if k not in self.par:
            self.par[k] = False
            p = g.params[j]
            if g.cfg is not None and not g.assigned(p['id']):
                for i, e, how in self.uses(g):
                    x = g.strip_all(e)
                    if g.nodes[x].get('v') == p['id'] and g.k(x) == 'DeclRefExpr':
                        st = self.N.at(g, i)
                        if st is not None and ('v:' + p['id'],) not in st:
                            self.par[k] = True
                            break
        return self.par[k]


def used(P):
    """Functions that the library's own code or its users can reach: everything but private functions that only their own kind calls."""
    out = {f.id for f in P.fns.values() if f.access != 'private'}
    todo = list(out)
    calls = {}
    for gid, cs in P.callers.items():
        for f, n in cs:
            calls.setdefault(f.root().id, set()).add(gid)
    while todo:
        for g in calls.get(todo.pop(), ()):
            if g not in out:
                out.add(g)
                todo.append(g)
    return out


def check(P, rep):
    L = Lookups(P)
    live = used(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if 'ThirdParty' in f.file or f.cfg is None or f.root().id not in live:
            continue
        done = set()
        for i, e, how in L.uses(f):
            w = L.why(f, e)
            if w is None:
                continue
            st = L.N.at(f, i)
            if st is None:
                continue
            rep.count('uses of what a lookup found')
            rep.sample('uses', '%s (%s): %s' % (f.dn, f.loc(i), w[1][:100]), 200)
            if not L.found(f, e, st, w) and (f.line_of(i), how) not in done:
                done.add((f.line_of(i), how))
                name = '' if w[0] is None else f.vars[w[0][0][2:]].get('n', '')
                rep.violation('%s|%s|%s' % (f.root().qn, name, how.split(',')[0]), f.loc(i), '%s: %sthe result of %s is %s without having been tested on every path' % (f.dn, name + ', ' if name else '', w[1], how))
        # an iterator of one container says nothing about the end of another
        for n, d in enumerate(f.nodes):
            if d.get('op') not in ('==', '!=') or d['k'] not in ('BinaryOperator', 'CXXOperatorCallExpr'):
                continue
            kids = f.kids(n) if d['k'] == 'BinaryOperator' else f.kids(n)[1:]
            for x, y in (kids, kids[::-1]) if len(kids) == 2 else ():
                y = f.strip_all(y)
                e = f.path(f.obj(y)) if f.is_call(y) and nullness.is_end(f, y) and f.obj(y) is not None else None
                if e is None:
                    continue
                rep.count('comparisons with an end')
                x = f.strip_all(x)
                ds = [x] if f.is_call(x) else (L.defs(f, f.nodes[x]['v']) or []) if f.k(x) == 'DeclRefExpr' and 'v' in f.nodes[x] else []
                cs = {c[0] for c in (L.N.lookup(f, z) for z in ds) if c}
                if ds and len(cs) == 1 and len(ds) == 1 and e not in cs:
                    rep.violation('%s|other end' % f.root().qn, f.loc(n), '%s: what was looked up in one container is compared with the end of another' % f.dn)
    rep.need('uses of what a lookup found', 20)
    return ('Forward must analysis of non-null/not-end facts: every dereference (or use as a string, or as an argument of a function that dereferences it) of a local that holds, or of an expression '
            'that is, the result of a container or algorithm search, an environment or C library query, a conditional cast, a weak pointer or a library function that may return nothing '
            'needs a test on every path; a key just inserted in, or counted in, the same container is found.')
