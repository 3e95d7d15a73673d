"""C18: all digest entry points of one algorithm compute the same digest."""
import re
from collections import defaultdict

import flags
import rule_c22

STREAM = re.compile(r'(std|boost::(filesystem|iostreams))::(basic_)?[io]*f?(string)?stream')
WIDE = re.compile(r'basic_[io]*f?stream<(char16_t|char32_t|wchar_t)')
PARTIAL = {'getline', 'operator>>', 'get', 'peek', 'ignore', 'readsome'}
GOOD = {'operator-conv', 'operator bool', 'good'}
BAD = {'eof', 'fail', 'operator!', 'bad'}


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.digests = self.find_digests()
        self.adds_memo = {}

    def find_digests(self):
        """Classes with an operation that takes (data, size) and one that returns the digest."""
        has = defaultdict(set)
        for f in self.P.fns.values():
            for n in f.calls():
                d = f.nodes[n]
                if d.get('cls') and f.k(n) == 'CXXMemberCallExpr':
                    name = (d.get('f') or '').split('::')[-1]
                    if name in ('add', 'getHash'):
                        has[d['cls']].add(name)
        return {c for c, s in has.items() if s == {'add', 'getHash'}}

    # ---- which algorithm an entry point uses
    def config(self, f, depth=0):
        """(class, constructor values) of each digest f computes, following calls to other project functions that take no digest."""
        out = set()
        for g in [f] + f.descendant_lambdas():
            for n, d in enumerate(g.nodes):
                if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('cls') in self.digests and not d.get('copy') and not d.get('move'):
                    vals = []
                    for a in g.args(n):
                        vals.append(self.value(g, a))
                    out.add((d['cls'], tuple(vals), g.loc(n)))
            if depth < 4:
                for n in g.calls():
                    for h in self.P.targets(g, n):
                        if h.cfg is not None and 'ThirdParty' not in h.file and h is not f and (h.cls == f.cls or not h.cls):
                            out |= self.config(h, depth + 1)
        return out

    def value(self, f, n):
        for x in f.walk(n):
            if 'iv' in f.nodes[x]:
                return int(f.nodes[x]['iv'])
        m = f.strip_all(n)
        if f.k(m) == 'DeclRefExpr' and 'v' in f.nodes[m]:
            g, v = f.lookup_var(f.nodes[m]['v'])
            if v and 'init' in v and not g.assigned(f.nodes[m]['v']):
                return self.value(g, v['init'])
        return 'unknown@' + f.loc(n)

    # ---- all bytes
    def count_of(self, f, n, depth=0):
        """Path of the stream whose gcount() the expression is, or ('size', path) of the container whose size it is."""
        m = f.strip_all(n)
        d = f.nodes[m]
        if f.k(m) == 'CXXMemberCallExpr' and f.obj(m) is not None:
            name = (d.get('f') or '').split('::')[-1]
            if name == 'gcount':
                return 'stream', f.path(f.obj(m))
            if name in ('size', 'length') and not f.args(m):
                return 'size', f.path(f.obj(m))
        if f.k(m) == 'DeclRefExpr' and 'v' in d and depth < 6:
            g, v = f.lookup_var(d['v'])
            if v and v.get('param'):
                return 'param', [p['id'] for p in g.params].index(d['v'])
            exprs = ([v['init']] if v and 'init' in v else []) + self.assignments(g or f, d['v'])
            rs = {self.count_of(g or f, e, depth + 1) for e in exprs if not ('iv' in (g or f).nodes[(g or f).strip_all(e)] and len(exprs) > 1)}
            if len(rs) == 1:
                return rs.pop()
        if f.k(m) in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'InitListExpr') and f.kids(m):
            return self.count_of(f, f.kids(m)[0], depth + 1)
        return None, None

    @staticmethod
    def assignments(f, vid):
        out = []
        for i, d in enumerate(f.nodes):
            if d.get('asg') and not d.get('casg'):
                l = f.strip(f.kids(i)[0])
                if f.nodes[l].get('v') == vid:
                    out.append(f.kids(i)[1])
        return out

    def adds(self, f, n):
        """The call adds bytes to a digest: (data expression, (what, of)) or None."""
        d = f.nodes[n]
        if f.k(n) == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] == 'add' and d.get('cls') in self.digests:
            a = f.args(n)
            return (a[0], self.count_of(f, a[1])) if len(a) > 1 else None
        for g in self.P.targets(f, n):
            if g.cfg is None or 'ThirdParty' in g.file:
                continue
            for m in g.calls():
                if (g.callee(m) or '').split('::')[-1] == 'add' and g.nodes[m].get('cls') in self.digests and len(g.args(m)) > 1:
                    what, of = self.count_of(g, g.args(m)[1])
                    if what == 'param' and of < len(f.args(n)) and self.always(g, m):
                        return f.args(n)[of], self.count_of(f, f.args(n)[of])
        return None

    @staticmethod
    def always(g, m):
        """Every normal path of g passes the call m."""
        cfg = g.cfg
        w = cfg.where(m)
        if w is None:
            return False
        work, seen = [cfg.entry], set()
        while work:
            b = work.pop()
            if b in seen or b == w[0]:
                continue
            seen.add(b)
            if b == cfg.exit:
                return False
            if not cfg.is_throw_block(b):
                work += [s for s, _ in cfg.edges(b, eh='')]
        return True

    def edge_ok(self, f, cond, lab, stream):
        """What the edge says: 'end' = the stream has nothing more, 'empty' = nothing was read, 'more' = neither."""
        out = set()
        if lab not in (True, False):
            return out
        for m, v in flags.decompose(f, flags.last(f, cond), lab):
            m = f.strip_all(m)
            d = f.nodes[m]
            name = (d.get('f') or '').split('::')[-1]
            o = f.obj(m)
            if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '!':
                name, o = 'operator!', f.kids(m)[1]
            if o is not None and self.same_stream(f, o, stream):
                if name in GOOD and not v or name in BAD - {'bad'} and v:
                    out.add('end')
            what, of = self.count_of(f, m)
            if what == 'stream' and of == stream and not v:
                out.add('empty')
            if d['k'] == 'BinaryOperator' and d.get('op') in ('==', '!=', '>', '<', '<=', '>='):
                a, b = f.kids(m)[:2]
                op = d['op']
                if 'iv' in f.nodes[f.strip_all(a)]:
                    a, b = b, a
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if 'iv' in f.nodes[f.strip_all(b)] and self.count_of(f, a) == ('stream', stream):
                    c = int(f.nodes[f.strip_all(b)]['iv'])
                    if (op, c, v) in (('==', 0, True), ('!=', 0, False), ('>', 0, False), ('<=', 0, True), ('<', 1, True), ('>=', 1, False)):
                        out.add('empty')
        return out

    def same_stream(self, f, o, stream):
        m = f.strip_all(o)
        if f.path(m) == stream:
            return True
        # read() returns the stream
        return f.is_call(m) and f.obj(m) is not None and f.path(f.obj(m)) == stream

    def check_loop(self, f):
        """Each block read from a stream is added completely, until the stream ends."""
        reads = []
        for n in f.calls():
            d = f.nodes[n]
            c = d.get('f') or ''
            name = c.split('::')[-1]
            if f.k(n) == 'CXXMemberCallExpr' and f.obj(n) is not None and STREAM.search(d.get('cls') or '') and name == 'read':
                reads.append(n)
            elif (name in PARTIAL and f.k(n) == 'CXXMemberCallExpr' and f.obj(n) is not None and STREAM.search(d.get('cls') or '')) or c in ('std::getline',) or c.endswith('operator>>') and STREAM.search(f.t(f.strip(f.kids(n)[1])) if len(f.kids(n)) > 1 else ''):
                self.bad(f, n, 'reading', '%s does not deliver every byte of the input' % name)
        for r in reads:
            self.rep.count('block reads that feed a digest')
            stream = f.path(f.obj(r))
            cfg = f.cfg
            w = cfg.where(r)
            if w is None:
                continue
            # state: has the block just read been added
            work = [(w[0], w[1] + 1, False, False)]
            seen = set()
            while work:
                b, i, done, ended = work.pop()
                if (b, i, done, ended) in seen:
                    continue
                seen.add((b, i, done, ended))
                blk = cfg.blocks[b]
                stop = False
                for e in blk.elems[i:]:
                    if not isinstance(e, int):
                        continue
                    if e == r:
                        if not done:
                            self.bad(f, r, 'lost block', 'the next block is read although the last one has not been added')
                        stop = True
                        break
                    if f.is_call(e):
                        a = self.adds(f, e)
                        if a is not None:
                            what, of = a[1]
                            if what == 'stream' and of == stream:
                                if done:
                                    self.bad(f, e, 'added twice', 'a block is added twice')
                                done = True
                            else:
                                self.bad(f, e, 'block size', 'the number of bytes added is not the number that was read')
                        elif (f.callee(e) or '').split('::')[-1] == 'getHash' and f.nodes[e].get('cls') in self.digests:
                            if not done:
                                self.bad(f, e, 'lost block', 'the digest is taken although the last block read has not been added')
                            if not ended:
                                self.bad(f, e, 'early end', 'the digest is taken although the stream has not ended')
                            stop = True
                            break
                if stop or cfg.is_throw_block(b):
                    continue
                for s, lab in cfg.edges(b, eh=''):
                    if s == cfg.exit:
                        continue
                    says = self.edge_ok(f, blk.cond, lab, stream) if blk.cond is not None else set()
                    work.append((s, 0, done or 'empty' in says, ended or bool(says & {'end', 'empty'})))
        return bool(reads)

    def check_text(self, f):
        """A text is taken with its size, not up to its first zero byte."""
        for n in f.calls():
            d = f.nodes[n]
            if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('cls') in ('std::basic_string', 'std::basic_string_view'):
                pt = f.ptypes(n)
                if pt and pt[0].replace('const ', '').strip() == 'char *' and not (len(pt) > 1 and re.match(r'(unsigned )?long', pt[1])):
                    for x in f.walk(f.args(n)[0]):
                        if f.is_call(x) and (f.callee(x) or '').split('::')[-1] in ('c_str', 'data'):
                            self.bad(f, n, 'text', 'the text is cut off at its first zero byte')
            if f.k(n) == 'CXXMemberCallExpr' and d.get('cls') in self.digests and (d.get('f') or '').split('::')[-1] in ('add', 'operator()'):
                a = f.args(n)
                if len(a) > 1:
                    what, of = self.count_of(f, a[1])
                    if what is None:
                        self.bad(f, n, 'size', 'the number of bytes added is neither the number read nor the size of the data')
                    elif what == 'size':
                        p = f.strip_all(a[0])
                        if f.is_call(p) and f.obj(p) is not None and f.path(f.obj(p)) != of:
                            self.bad(f, n, 'size', 'the number of bytes added is the size of something else')

    def bad(self, f, n, key, how):
        self.rep.violation('%s|%s' % (f.root().qn, key), f.loc(n), '%s: %s' % (f.dn, how))


def check(P, rep):
    R = Rule(P, rep)
    entries = defaultdict(list)
    direct = set()
    for f in P.fns.values():
        if f.cfg is None or 'ThirdParty' in f.file or f.kind == 'lambda' or f.access in ('private', 'protected'):
            continue
        cfgs = R.config(f)
        if cfgs:
            entries[f.qn].append((f, cfgs))
    seen = {}
    closure = {}
    for qn in sorted(entries):
        fs = sorted(entries[qn], key=lambda x: x[0].line)
        algos = {}
        for f, cfgs in fs:
            rep.count('digest entry points')
            rep.sample('entry points', '%s(%s): %s' % (f.qn, ', '.join(f.types[p['t']] for p in f.params)[:60], ' '.join('%s%s' % (c.split('::')[-1], list(v)) for c, v, _ in cfgs)), 40)
            kinds = {(c, v) for c, v, _ in cfgs}
            loc = sorted(cfgs)[0][2]
            if len(kinds) != 1:
                rep.violation('%s|several' % f.qn, f.loc(), '%s uses several digests: %s' % (f.dn, sorted(kinds)))
                continue
            c, v = kinds.pop()
            if c.split('::')[-1].lower() != f.name.lower().replace('_', ''):
                rep.violation('%s|algorithm' % f.qn, loc, '%s computes a %s digest' % (f.dn, c.split('::')[-1]))
            algos.setdefault((c, v), f)
            todo = [f]
            while todo:
                g = todo.pop()
                if g.id in closure:
                    continue
                closure[g.id] = g
                for x in [g] + g.descendant_lambdas():
                    closure[x.id] = x
                    for n in x.calls():
                        todo += [h for h in P.targets(x, n) if h.cfg is not None and h.file == f.file]
        if len(algos) > 1:
            a = sorted(algos.items(), key=lambda x: x[1].line)
            rep.violation('%s|differ' % qn, a[-1][1].loc(), '%s: the entry points at lines %s compute different digests: %s' % (qn, ', '.join(str(x.line) for _, x in a), [k for k, _ in a]))
        for k in algos:
            if k in seen and seen[k] != qn:
                rep.violation('%s|same as' % qn, algos[k].loc(), '%s computes the digest of %s' % (qn, seen[k]))
            seen[k] = qn
    files = rule_c22.Rule(P, rep)
    loops = 0
    for g in sorted(closure.values(), key=lambda g: (g.file, g.line, g.dn)):
        rep.count('functions between the entry points and the digests')
        loops += R.check_loop(g)
        R.check_text(g)
        for n, p, call in files.opened(g):
            w = g.cfg.where(n)
            if w is None or w[0] not in g.cfg.reachable():
                continue
            files.judge(g, n, {('s',) + p: 0}, rule_c22.NZ if not call else None, {('s',) + p: 1}, rule_c22.NZ if not call else None, 'opening a file')
            if WIDE.search(' '.join(g.types)):
                rep.violation('%s|wide' % g.root().qn, g.loc(n), '%s: the file is not read as bytes' % g.dn)
            if not regular(P, g, n):
                rep.violation('%s|regular file' % g.root().qn, g.loc(n), '%s: what is opened need not be a regular file, and reading a directory yields the digest of nothing' % g.dn)
    rep.need('digest entry points', 12)
    rep.need('block reads that feed a digest', 1)
    return ('The digest object and constructor constants each public entry point reaches are compared across its overloads, with its name and with the other algorithms; on every path each block read from the stream is added with the count that was read, '
            'until the stream has ended; texts are taken with their size; a file that fails to open, or is not a regular file, leads to an exception.')


def regular(P, g, n):
    """Every path to the opening passes a test that what is opened is a regular file."""
    cfg = g.cfg
    w = cfg.where(n)
    work, seen = [(cfg.entry, False)], set()
    ok = True
    while work:
        b, yes = work.pop()
        if (b, yes) in seen:
            continue
        seen.add((b, yes))
        if b == w[0]:
            ok = ok and yes
            continue
        blk = cfg.blocks[b]
        if cfg.is_throw_block(b):
            continue
        for s, lab in cfg.edges(b, eh=''):
            t = yes
            if blk.cond is not None and lab in (True, False):
                for m, v in flags.decompose(g, flags.last(g, blk.cond), lab):
                    m = g.strip_all(m)
                    name = (g.callee(m) or '').split('::')[-1] if g.is_call(m) else ''
                    if re.match(r'(?i)is_?regular(_?file)?$', name) and v or re.match(r'(?i)is_?(regular_?)?directory$', name) and not v:
                        t = True
                    elif g.k(m) == 'DeclRefExpr' and 'v' in g.nodes[m]:
                        h, var = g.lookup_var(g.nodes[m]['v'])
                        if var and 'init' in var and not h.assigned(g.nodes[m]['v']):
                            for m2, v2 in flags.decompose(h, var['init'], v):
                                nm = (h.callee(h.strip_all(m2)) or '').split('::')[-1] if h.is_call(h.strip_all(m2)) else ''
                                if re.match(r'(?i)is_?regular(_?file)?$', nm) and v2:
                                    t = True
            work.append((s, t))
    return ok
