"""Type definitions and impl headers, read from /repo/src on every run (MIR text has no item list)."""
import os
import re
from .mir import parse_type, split_top, match_close, Unsupported, unify, subst_ty

LIB = {'Option': 'std::option::Option', 'Result': 'std::result::Result', 'Vec': 'std::vec::Vec', 'Box': 'std::boxed::Box', 'String': 'std::string::String',
       'PhantomData': 'std::marker::PhantomData', 'Matrix': 'rulinalg::matrix::Matrix', 'MatrixSlice': 'rulinalg::matrix::MatrixSlice',
       'MatrixSliceMut': 'rulinalg::matrix::MatrixSliceMut', 'Vector': 'rulinalg::vector::Vector', 'Row': 'rulinalg::matrix::Row',
       'ThreadRng': 'rand::ThreadRng', 'HashMap': 'std::collections::HashMap', 'BTreeMap': 'std::collections::BTreeMap', 'VecDeque': 'std::collections::VecDeque',
       'Euclidean': 'rulinalg::norm::Euclidean'}


def strip_comments(s):
    """replace comments and string bodies by spaces, keeping offsets"""
    out = list(s)
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = ' '
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n':
                    out[k] = ' '
            i = j
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            for k in range(i + 1, min(j, n)):
                if out[k] != '\n':
                    out[k] = ' '
            i = j + 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2)
            for k in range(i + 1, j):
                out[k] = ' '
            i = j + 1
        else:
            i += 1
    return ''.join(out)


def module_of(path, root):
    rel = os.path.relpath(path, root)
    parts = rel[:-3].split('/')
    if parts[-1] in ('mod', 'lib'):
        parts = parts[:-1]
    return '::'.join(parts)


class Def:
    def __init__(self, kind, path, params, fields=None, names=None, variants=None):
        self.kind, self.path, self.params = kind, path, params
        self.fields, self.names, self.variants = fields, names, variants  # variants: [(name,[tys],[names])]


class Source:
    def __init__(self, root):
        self.root = root
        self.defs = {}
        self.bylast = {}
        self.text = {}
        self.raw = {}
        self.uses = {}
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    raw = open(p, encoding='utf-8').read()
                    self.raw[p] = raw
                    self.text[p] = strip_comments(raw)
        for p, t in self.text.items():
            mod = module_of(p, root)
            for m in re.finditer(r'\b(struct|enum)\s+(\w+)', t):
                self.bylast.setdefault(m.group(2), []).append((mod + '::' + m.group(2)) if mod else m.group(2))
        for p, t in self.text.items():
            self._items(p, t, module_of(p, root))
        self._impl = {}
        self._assoc = None

    def assoc(self, x, trait, name):
        """type Name of the implementation of the trait for x"""
        if self._assoc is None:
            self._assoc = []
            for p, t in self.text.items():
                for m in re.finditer(r'\btype\s+(\w+)\s*=\s*([^;]+);', t):
                    i = t.rfind('impl', 0, m.start())
                    while i > 0 and (t[i - 1].isalnum() or t[i - 1] == '_' or not re.match(r'impl\b', t[i:])):
                        i = t.rfind('impl', 0, i)
                    if i < 0:
                        continue
                    h = self.impl_header('%s:%d:%d: ' % (p, t.count('\n', 0, i) + 1, i - (t.rfind('\n', 0, i) + 1) + 1))
                    if h is None or h[1] is None:
                        continue
                    self._assoc.append((h[1][0], h[2], m.group(1), self.resolve(parse_type(m.group(2).strip()), p, h[0])))
        for tr, pat, nm, ty in self._assoc:
            env = {}
            if tr == trait and nm == name and unify(pat, x, env):
                return subst_ty(ty, env)
        return None

    def _uses(self, p):
        u = self.uses.get(p)
        if u is None:
            u = {}
            for m in re.finditer(r'\buse\s+([\w:]+)(?:::\{([^}]*)\})?\s*;', self.text[p]):
                base = m.group(1).lstrip(':')
                base = re.sub(r'^(crate|self)::', '', base)
                if m.group(2) is None:
                    u[base.split('::')[-1]] = base
                else:
                    for x in m.group(2).split(','):
                        x = x.strip()
                        if ' as ' in x:
                            a, b = x.split(' as ')
                            u[b.strip()] = base + '::' + a.strip()
                        elif x:
                            u[x] = base if x == 'self' else base + '::' + x
            self.uses[p] = u
        return u

    def resolve(self, t, p, params):
        k = t[0]
        if k == 'param':
            if t[1] in params or t[1] == 'Self':
                return t
            return ('adt', self.rpath(t[1], p), ())
        if k == 'adt':
            return ('adt', self.rpath(t[1], p), tuple(self.resolve(x, p, params) for x in t[2]))
        if k == 'tuple':
            return (k, tuple(self.resolve(x, p, params) for x in t[1]))
        if k in ('ref', 'ptr'):
            return (k, t[1], self.resolve(t[2], p, params))
        if k == 'slice':
            return (k, self.resolve(t[1], p, params))
        if k == 'array':
            return (k, self.resolve(t[1], p, params), t[2])
        return t

    def rpath(self, name, p):
        last = name.split('::')[-1]
        mod = module_of(p, self.root)
        if '::' not in name:
            local = (mod + '::' + name) if mod else name
            if local in self.bylast.get(name, []):
                return local
        if last in LIB and not (self.bylast.get(last) and '::' in name):
            return LIB[last]
        c = self.bylast.get(last, [])
        if len(c) == 1:
            return c[0]
        u = self._uses(p).get(name)
        if u:
            for x in c:
                if x == u or x.endswith('::' + u) or u.endswith('::' + x):
                    return x
            # `use super::X` / re-exports
            for x in c:
                if x.split('::')[-1] == last:
                    return x
        return name

    def _items(self, p, t, mod):
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*', t):
            kind, name = m.group(1), m.group(2)
            i = m.end()
            params = []
            if i < len(t) and t[i] == '<':
                j = match_close(t, i)
                for g in split_top(t[i + 1:j]):
                    if not g.startswith("'"):
                        params.append(re.match(r'\w+', g).group(0))
                i = j + 1
            rest = t[i:]
            mm = re.match(r'\s*(where[^{;(]*)?', rest)
            k = i + mm.end()
            path = (mod + '::' + name) if mod else name
            if k >= len(t):
                continue
            try:
                if kind == 'struct':
                    if t[k] == '{':
                        j = match_close(t, k)
                        fields, names = [], []
                        for fl in split_top(self._noattr(t[k + 1:j])):
                            fl = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', fl.strip())
                            nm, ty = fl.split(':', 1)
                            names.append(nm.strip())
                            fields.append(self.resolve(parse_type(ty.strip()), p, params))
                        self.defs[path] = Def('struct', path, params, fields, names)
                    elif t[k] == '(':
                        j = match_close(t, k)
                        fields = [self.resolve(parse_type(re.sub(r'^\s*pub(\([^)]*\))?\s+', '', x)), p, params) for x in split_top(self._noattr(t[k + 1:j]))]
                        self.defs[path] = Def('struct', path, params, fields, [str(x) for x in range(len(fields))])
                    elif t[k] == ';':
                        self.defs[path] = Def('struct', path, params, [], [])
                else:
                    j = match_close(t, k)
                    vs = []
                    for v in split_top(self._noattr(t[k + 1:j])):
                        mv = re.match(r'(\w+)\s*', v)
                        r = v[mv.end():].strip()
                        if r.startswith('('):
                            tys = [self.resolve(parse_type(x), p, params) for x in split_top(r[1:match_close(r, 0)])]
                            vs.append((mv.group(1), tys, None))
                        elif r.startswith('{'):
                            tys, nms = [], []
                            for x in split_top(r[1:match_close(r, 0)]):
                                a, b = x.split(':', 1)
                                nms.append(a.strip()); tys.append(self.resolve(parse_type(b.strip()), p, params))
                            vs.append((mv.group(1), tys, nms))
                        else:
                            vs.append((mv.group(1), [], None))
                    self.defs[path] = Def('enum', path, params, variants=vs)
            except Exception:
                continue

    @staticmethod
    def _noattr(s):
        return re.sub(r'#\s*\[[^\]]*\]', '', s)

    def impl_header(self, loc):
        """loc: '/repo/src/x.rs:44:1: 44:43' -> (params, traittext or None, traitargs, selfty)"""
        if loc in self._impl:
            return self._impl[loc]
        m = re.match(r'(.*?):(\d+):(\d+): ', loc)
        p, line, col = m.group(1), int(m.group(2)), int(m.group(3))
        t = self.text.get(p)
        if t is None:
            for q in self.text:
                if os.path.realpath(q) == os.path.realpath(p):
                    p, t = q, self.text[q]
        res = None
        if t is not None:
            off = 0
            for _ in range(line - 1):
                off = t.index('\n', off) + 1
            i = off + col - 1
            if t.startswith('impl', i):
                j = i + 4
                while t[j].isspace():
                    j += 1
                params = []
                if t[j] == '<':
                    e = match_close(t, j)
                    for g in split_top(t[j + 1:e]):
                        if not g.startswith("'"):
                            params.append(re.match(r'\w+', g).group(0))
                    j = e + 1
                # up to '{' at depth 0
                k = j
                depth = 0
                while True:
                    c = t[k]
                    if c in '<([':
                        depth += 1
                    elif c in ')]' or (c == '>' and t[k - 1] not in '-='):
                        depth -= 1
                    elif c == '{' and depth == 0:
                        break
                    k += 1
                head = ' '.join(t[j:k].split())
                head = re.split(r'\bwhere\b', head)[0].strip()
                parts = split_top(head, ' for ')
                if len(parts) == 2:
                    tr, sf = parts
                else:
                    tr, sf = None, parts[0]
                selfty = self.resolve(parse_type(sf), p, params)
                trait = None
                if tr:
                    tt = parse_type(tr.lstrip(':'))
                    if tt[0] == 'adt':
                        trait = (tt[1].split('::')[-1], tuple(self.resolve(x, p, params) for x in tt[2]))
                    else:
                        trait = (tr.split('::')[-1], ())
                res = (params, trait, selfty)
            else:
                mm = re.match(r'\w+', t[i:])
                d = re.search(r'\b(?:struct|enum)\s+(\w+)', t[i:])
                if mm and d:
                    mod = module_of(p, self.root)
                    path = (mod + '::' + d.group(1)) if mod else d.group(1)
                    df = self.defs.get(path)
                    ps = df.params if df else []
                    res = (list(ps), (mm.group(0), ()), ('adt', path, tuple(('param', x) for x in ps)))
        self._impl[loc] = res
        return res
