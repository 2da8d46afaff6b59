"""Parser for the MIR text that rustc prints for /repo's crate (the verified text).

Nothing is dropped except cleanup (unwind) blocks: a panic ends the path and is judged where it
starts.  Types are parsed to tuples:
  ('int','usize') ('float','f64') ('bool',) ('char',) ('str',) ('never',) ('tuple',(..))
  ('ref',mut,ty) ('ptr',mut,ty) ('slice',ty) ('array',ty,n) ('adt',path,(args))
  ('closure',loc) ('fndef',text) ('dyn',text) ('param',name) ('proj',text)
"""
import re

INTS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128'}


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
def split_top(s, sep=','):
    """split on sep at nesting depth 0 (handles <>, (), [], {}, quotes, ->)"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c in '<([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and not (i > 0 and s[i - 1] in '-='):
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(''.join(cur).strip()); cur = []; i += len(sep); continue
        cur.append(c); i += 1
    last = ''.join(cur).strip()
    if last or out:
        out.append(last)
    return [x for x in out if x != '']


def match_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth, n = 0, len(s)
    j = i
    while j < n:
        c = s[j]
        if c == '"':
            j += 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
        elif c in '<([{':
            depth += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return j
        j += 1
    raise Unsupported('unbalanced: ' + s[:80])


_tycache = {}


def parse_type(s):
    s = s.strip()
    r = _tycache.get(s)
    if r is None:
        r = _parse_type(s)
        _tycache[s] = r
    return r


def _parse_type(s):
    if s in INTS:
        return ('int', s)
    if s in ('f64', 'f32'):
        return ('float', s)
    if s == 'bool':
        return ('bool',)
    if s == 'char':
        return ('char',)
    if s == 'str':
        return ('str',)
    if s == '!':
        return ('never',)
    if s == '()':
        return ('tuple', ())
    if s.startswith('&'):
        t = s[1:].strip()
        m = re.match(r"'[\w]+\s+", t)
        if m:
            t = t[m.end():]
        mut = False
        if t.startswith('mut '):
            mut = True; t = t[4:]
        return ('ref', mut, parse_type(t))
    if s.startswith('*const '):
        return ('ptr', False, parse_type(s[7:]))
    if s.startswith('*mut '):
        return ('ptr', True, parse_type(s[5:]))
    if s.startswith('('):
        return ('tuple', tuple(parse_type(x) for x in split_top(s[1:-1])))
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('array', parse_type(p[0]), p[1])
        return ('slice', parse_type(inner))
    if s.startswith('{closure@'):
        return ('closure', s)
    if s.startswith('dyn ') or s.startswith('(dyn '):
        return ('dyn', s)
    if s.startswith('fn(') or s.startswith('for<') or s.startswith('unsafe fn') or s.startswith('extern '):
        return ('fndef', s)
    if s.startswith('impl '):
        return ('param', s)
    if s.startswith('<'):
        return ('proj', s)
    m = re.match(r'[\w:]+', s)
    if m and m.end() == len(s):
        if '::' not in s:
            return ('param', s)
        return ('adt', s, ())
    i = s.find('<')
    if i > 0 and s.endswith('>'):
        path = s[:i]
        if path.endswith('::'):
            path = path[:-2]
        args = [a for a in split_top(s[i + 1:-1]) if not a.startswith("'")]
        return ('adt', path, tuple(parse_type(a) for a in args))
    return ('opaque', s)


def ty_str(t):
    k = t[0]
    if k in ('int', 'float'):
        return t[1]
    if k in ('bool', 'char', 'str'):
        return k
    if k == 'never':
        return '!'
    if k == 'tuple':
        return '(' + ', '.join(ty_str(x) for x in t[1]) + ')'
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + ty_str(t[2])
    if k == 'ptr':
        return '*' + ('mut ' if t[1] else 'const ') + ty_str(t[2])
    if k == 'slice':
        return '[' + ty_str(t[1]) + ']'
    if k == 'array':
        return '[' + ty_str(t[1]) + '; ' + t[2] + ']'
    if k == 'adt':
        return t[1] + ('<' + ', '.join(ty_str(x) for x in t[2]) + '>' if t[2] else '')
    return t[1]


PROJ = [None]


def proj_ty(t, env):
    """<X as Trait>::Name with X known"""
    s = t[1]
    e = match_close(s, 0)
    parts = split_top(s[1:e], ' as ')
    if len(parts) != 2 or PROJ[0] is None:
        return t
    x = subst_ty(parse_type(parts[0]), env)
    nm = s[e + 1:].lstrip(':')
    r = PROJ[0](x, re.sub(r'<.*', '', parts[1]).split('::')[-1], nm) if x[0] == 'adt' else None
    if r is not None:
        return r
    return ('proj', '<%s as %s>::%s' % (ty_str(x), parts[1], nm))


def subst_ty(t, env):
    k = t[0]
    if k == 'proj':
        return proj_ty(t, env)
    if not env:
        return t
    if k == 'param':
        return env.get(t[1], t)
    if k == 'tuple':
        return (k, tuple(subst_ty(x, env) for x in t[1]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst_ty(t[2], env))
    if k == 'slice':
        return (k, subst_ty(t[1], env))
    if k == 'array':
        return (k, subst_ty(t[1], env), t[2])
    if k == 'adt':
        return (k, t[1], tuple(subst_ty(x, env) for x in t[2]))
    return t


def unify(pat, t, env):
    """match impl pattern type against a concrete type, binding params; True on success"""
    if pat[0] == 'param':
        if pat[1] in env:
            return env[pat[1]] == t or env[pat[1]][0] == 'param' or t[0] == 'param'
        env[pat[1]] = t
        return True
    if t[0] in ('param', 'proj', 'opaque'):
        return False
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if k in ('ref', 'ptr'):
        return pat[1] == t[1] and unify(pat[2], t[2], env)
    if k in ('slice',):
        return unify(pat[1], t[1], env)
    if k == 'array':
        return unify(pat[1], t[1], env)
    if k == 'adt':
        if pat[1] != t[1] and pat[1].split('::')[-1] != t[1].split('::')[-1]:
            return False
        return len(pat[2]) == len(t[2]) and all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    return pat == t


# ------------------------------------------------------------------ places / operands
class P:
    """recursive descent over MIR place / operand / rvalue text"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ':
            self.i += 1

    def at(self, t):
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if not self.at(t):
            raise Unsupported('expected %r in %r at %d' % (t, self.s, self.i))
        self.i += len(t)

    def place(self):
        """-> (local, [proj...]) ; proj: ('deref',) ('field',i,ty) ('variant',name) ('index',local) ('cindex',i,minlen,fromend) ('subslice',a,b,fromend)"""
        if self.at('('):
            self.i += 1
            if self.at('*'):
                self.i += 1
                l, pr = self.place()
                self.eat(')')
                pr = pr + [('deref',)]
            else:
                l, pr = self.place()
                if self.at(' as '):
                    self.i += 4
                    if self.at('variant#'):
                        m = re.compile(r'variant#\d+').match(self.s, self.i)
                    else:
                        m = re.compile(r'\w+').match(self.s, self.i)
                    if m is None:
                        raise Unsupported('downcast ' + self.s)
                    pr = pr + [('variant', m.group(0))]
                    self.i = m.end()
                    self.eat(')')
                elif self.at('.'):
                    m = re.compile(r'\.(\d+): ').match(self.s, self.i)
                    if m is None:
                        raise Unsupported('field ' + self.s)
                    self.i = m.end()
                    # type runs to the matching ')'
                    j = self.i
                    depth = 0
                    while True:
                        c = self.s[j]
                        if c in '<([{':
                            depth += 1
                        elif c == ')' and depth == 0:
                            break
                        elif c in ')]}' or (c == '>' and self.s[j - 1] not in '-='):
                            depth -= 1
                        j += 1
                    ty = parse_type(self.s[self.i:j])
                    self.i = j
                    self.eat(')')
                    pr = pr + [('field', int(m.group(1)), ty)]
                else:
                    self.eat(')')
        else:
            m = re.compile(r'_(\d+)').match(self.s, self.i)
            if not m:
                raise Unsupported('place ' + self.s)
            self.i = m.end()
            l, pr = int(m.group(1)), []
        while self.at('['):
            m = re.compile(r'\[_(\d+)\]').match(self.s, self.i)
            if m:
                pr = pr + [('index', int(m.group(1)))]; self.i = m.end(); continue
            m = re.compile(r'\[(-?)(\d+) of (\d+)\]').match(self.s, self.i)
            if m:
                pr = pr + [('cindex', int(m.group(2)), int(m.group(3)), m.group(1) == '-')]; self.i = m.end(); continue
            m = re.compile(r'\[(\d+):(-?)(\d*)\]').match(self.s, self.i)
            if m:
                pr = pr + [('subslice', int(m.group(1)), int(m.group(3) or 0), m.group(2) == '-')]; self.i = m.end(); continue
            raise Unsupported('projection ' + self.s)
        return l, pr


def parse_place(s):
    p = P(s.strip())
    r = p.place()
    if p.i != len(p.s):
        raise Unsupported('trailing in place: ' + s)
    return r


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('place', parse_place(s[5:]), False)
    if s.startswith('move '):
        return ('place', parse_place(s[5:]), True)
    if s.startswith('const '):
        return ('const', s[6:].strip())
    # bare fn item / unit struct
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Offset', 'Cmp',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw const (fake) '):
        return ('rawref', False, parse_place(s[18:]))
    if s.startswith('&raw const '):
        return ('rawref', False, parse_place(s[11:]))
    if s.startswith('&raw mut '):
        return ('rawref', True, parse_place(s[9:]))
    if s.startswith('&fake '):
        return ('ref', False, parse_place(re.sub(r'^&fake (shallow |deep )?', '', s)))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&two_phase mut '):
        return ('ref', True, parse_place(s[15:]))
    if s.startswith('&'):
        return ('ref', False, parse_place(s[1:]))
    m = re.match(r'(\w+)\(', s)
    if m and s.endswith(')'):
        f = m.group(1)
        if f in BINOPS:
            a, b = split_top(s[m.end():-1])
            return ('bin', f, parse_operand(a), parse_operand(b))
        if f in ('Not', 'Neg', 'PtrMetadata'):
            return ('un', f, parse_operand(s[m.end():-1]))
        if f == 'Len':
            return ('len', parse_place(s[m.end():-1]))
        if f == 'discriminant':
            return ('discr', parse_place(s[m.end():-1]))
        if f in ('SizeOf', 'AlignOf', 'UbChecks', 'ContractChecks', 'OverflowChecks', 'ShallowInitBox', 'CopyForDeref'):
            if f == 'CopyForDeref':
                return ('use', ('place', parse_place(s[m.end():-1]), False))
            raise Unsupported('rvalue ' + s)
    if s.startswith('deref_copy '):
        return ('use', ('place', parse_place(s[11:]), False))
    core = s[9:] if s.startswith('no_retag ') else s
    if core.startswith(('copy ', 'move ', 'const ')):
        m = re.match(r'^(.*) as (.*) \((\w+(?:\(.*\))?)\)$', core)
        if m and not core.startswith('const "'):
            return ('cast', parse_operand(m.group(1)), parse_type(m.group(2)), m.group(3))
        return ('use', parse_operand(core))
    m = re.match(r'^(.*) as (.*) \(((?:PointerCoercion|Transmute|PtrToPtr|IntToInt).*)\)$', s)
    if m and not s.startswith(('(', '[', '{')):
        return ('cast', parse_operand(m.group(1)), parse_type(m.group(2)), m.group(3))
    if s.startswith('('):
        if match_close(s, 0) == len(s) - 1:
            return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        j = match_close(s, 0)
        loc = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                caps.append(parse_operand(x.split(': ', 1)[1]))
        return ('closure', loc, caps)
    # aggregate: Path { f: op, .. } | Path(op, ..) | Path
    if s.endswith('}'):
        j = s.rfind(' {')
        # find the brace at depth 0
        depth = 0
        for idx, c in enumerate(s):
            if c in '<([':
                depth += 1
            elif c in ')]' or (c == '>' and s[idx - 1] not in '-='):
                depth -= 1
            elif c == '{' and depth == 0 and idx > 0 and s[idx - 1] == ' ':
                j = idx - 1
                break
        path = s[:j].strip()
        ops, names = [], []
        for x in split_top(s[j + 2:-1]):
            nm, op = x.split(': ', 1)
            names.append(nm); ops.append(parse_operand(op))
        return ('agg', path, ops, names)
    if s.endswith(')'):
        # find the '(' matching the final ')'
        depth = 0
        for idx in range(len(s) - 1, -1, -1):
            c = s[idx]
            if c in ')]}' or (c == '>' and s[idx - 1] not in '-='):
                depth += 1
            elif c in '<([{':
                depth -= 1
                if depth == 0:
                    break
        path = s[:idx]
        if re.match(r'^[\w:<>,&\'\[\]; ()@/.{}#=-]+$', path):
            return ('agg', path, [parse_operand(x) for x in split_top(s[idx + 1:-1])], None)
    if re.match(r'^[\w:<]', s):
        return ('agg', s, [], None)
    raise Unsupported('rvalue ' + s)


def parse_call(s):
    """'func(args)' -> (functext, [operands])"""
    depth = 0
    assert s.endswith(')'), s
    i = len(s) - 1
    j = i
    # scan backwards is confused by quotes; scan forward tracking the last top-level '('
    k = 0
    start = None
    n = len(s)
    while k < n:
        c = s[k]
        if c == '"':
            k += 1
            while s[k] != '"':
                k += 2 if s[k] == '\\' else 1
        elif c in '<[{':
            depth += 1
        elif c == '(':
            if depth == 0:
                start = k
            depth += 1
        elif c in ')]}' or (c == '>' and s[k - 1] not in '-='):
            depth -= 1
        k += 1
    if start is None:
        raise Unsupported('call ' + s)
    return s[:start], [parse_operand(x) for x in split_top(s[start + 1:-1])]


class Fn:
    __slots__ = ('name', 'args', 'ret', 'locals', 'blocks', 'debug', 'is_const', 'raw', '_parsed', '_loops', 'argnames', 'cleanup', 'argtexts', 'lit')

    def __repr__(self):
        return 'Fn(' + self.name + ')'


def parse_mir(text):
    """-> dict name -> Fn (a list when a name repeats)"""
    fns = {}
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if (l.startswith('fn ') or l.startswith('const ') or l.startswith('static ')) and l.rstrip().endswith('{'):
            j = i + 1
            while j < n and lines[j] != '}':
                j += 1
            try:
                f = parse_fn_header(l)
                f.raw = lines[i + 1:j]
                f._parsed = False
                fns.setdefault(f.name, []).append(f)
            except Unsupported:
                pass
            i = j
        elif l.startswith('const ') and l.rstrip().endswith(';'):
            m = re.match(r'^const (.*?): ([^=]+) = (?:const )?(.*);$', l.rstrip())
            if m:
                f = Fn()
                f.name, f.is_const, f.args, f._loops, f._parsed = m.group(1), True, [], None, True
                f.lit = m.group(3)
                fns.setdefault(f.name, []).append(f)
        i += 1
    return fns


def parse_fn_header(l):
    f = Fn()
    f._loops = None
    if l.startswith('fn '):
        f.is_const = False
        s = l[3:].rstrip()[:-1].rstrip()
        # find the arg list: first '(' at depth 0 followed by '_1:' or ')'
        depth = 0
        k = 0
        start = None
        while k < len(s):
            c = s[k]
            if c in '<[{':
                depth += 1
            elif c in ']}' or (c == '>' and s[k - 1] not in '-='):
                depth -= 1
            elif c == '(' and depth == 0:
                start = k
                break
            k += 1
        if start is None:
            raise Unsupported(l)
        f.name = s[:start]
        end = match_close(s, start)
        f.args = []
        f.argtexts = []
        for a in split_top(s[start + 1:end]):
            nm, ty = a.split(': ', 1)
            f.args.append((int(nm[1:]), parse_type(ty)))
        ret = s[end + 1:].strip()
        f.ret = parse_type(ret[2:].strip()) if ret.startswith('->') else ('tuple', ())
    else:
        f.is_const = True
        s = l.rstrip()
        m = re.match(r'^(?:const|static)(?: mut)? (.*?): (&.*|[\w:<>\[\]; ,&]+) = \{$', s)
        if not m:
            raise Unsupported(l)
        # name may contain ': ' (impl at a: b); take the split with the promoted suffix or last ident
        k = s.find('::promoted[')
        if k > 0:
            e = s.index(']', k) + 1
            f.name = s[6:e]
            f.ret = parse_type(s[e + 2:-4].strip())
        else:
            f.name = m.group(1)
            f.ret = parse_type(m.group(2))
        f.args = []
    return f


def ensure_parsed(f):
    if f._parsed:
        return f
    f.locals = {}
    f.debug = {}
    f.blocks = {}
    f.cleanup = set()
    for a, t in f.args:
        f.locals[a] = t
    cur = None
    for l in f.raw:
        st = l.strip()
        if cur is None or not l.startswith('        '):
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', st)
            if m:
                f.locals[int(m.group(1))] = parse_type(m.group(2)); continue
            m = re.match(r'^debug (\w+) => (.*);$', st)
            if m:
                f.debug.setdefault(m.group(1), m.group(2)); continue
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', st)
            if m:
                cur = int(m.group(1)); f.blocks[cur] = []
                if m.group(2):
                    f.cleanup.add(cur)
                continue
            if st == '}':
                cur = None
            continue
        if st == '' or st == '}':
            continue
        f.blocks[cur].append(st.rstrip(';') if st.endswith(';') else st)
    if 0 not in f.locals:
        f.locals[0] = f.ret
    f._parsed = True
    blocks = {}
    for b, sts in f.blocks.items():
        if b in f.cleanup:
            continue
        blocks[b] = sts
    f.blocks = blocks
    f.argnames = {}
    for nm, tgt in f.debug.items():
        m = re.match(r'^_(\d+)$', tgt)
        if m:
            f.argnames.setdefault(int(m.group(1)), nm)
    return f


_stcache = {}


def parse_stmt(st):
    r = _stcache.get(st)
    if r is None:
        r = _parse_stmt(st)
        _stcache[st] = r
    return r


def _targets(s):
    # '[return: bb1, unwind: bb2]' / 'unwind continue' / '[0: bb1, otherwise: bb2]'
    out = {}
    s = s.strip()
    if s.startswith('['):
        for x in split_top(s[1:-1]):
            if x.startswith('unwind'):
                continue
            k, v = x.rsplit(': bb', 1)
            out[k.strip()] = int(v)
    return out


def _parse_stmt(st):
    if st.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Retag', 'Coverage', 'ConstEvalCounter', 'BackwardIncompatibleDropHint')):
        return ('nop',)
    if st == 'return':
        return ('return',)
    if st == 'unreachable':
        return ('unreachable',)
    if st.startswith('resume') or st.startswith('terminate'):
        return ('resume',)
    if st.startswith('goto -> bb'):
        return ('goto', int(st[10:]))
    if st.startswith('falseEdge') or st.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', st)
        return ('goto', int(m.group(1)))
    if st.startswith('switchInt('):
        e = match_close(st, 9)
        return ('switch', parse_operand(st[10:e]), _targets(st[e + 1:].replace('->', '', 1)))
    if st.startswith('assert('):
        e = match_close(st, 6)
        parts = split_top(st[7:e])
        cond = parts[0]
        neg = cond.startswith('!')
        msg = parts[1] if len(parts) > 1 else ''
        t = _targets(st[e + 1:].replace('->', '', 1))
        return ('assert', parse_operand(cond[1:] if neg else cond), not neg, msg, t['success'])
    if st.startswith('drop('):
        e = match_close(st, 4)
        t = _targets(st[e + 1:].replace('->', '', 1))
        return ('drop', parse_place(st[5:e]), t['return'])
    if st.startswith('discriminant('):
        e = match_close(st, 12)
        return ('setdiscr', parse_place(st[13:e]), st[e + 1:].split('=')[1].strip())
    if st.startswith('assume('):
        return ('nop',)
    # assignment or call
    p = P(st)
    if st.startswith(('_', '(')):
        pl = p.place()
        p.ws()
        p.eat('= ')
        rest = st[p.i:]
        k = find_arrow(rest)
        if k is not None:
            f, args = parse_call(rest[:k].strip())
            t = _targets(rest[k + 4:])
            return ('call', pl, f, args, t.get('return'))
        return ('assign', pl, parse_rvalue(rest))
    raise Unsupported('statement ' + st)


def find_arrow(s):
    """top-level ' -> [' or ' -> unwind' marking a call terminator"""
    depth = 0
    k, n = 0, len(s)
    while k < n:
        c = s[k]
        if c == '"':
            k += 1
            while k < n and s[k] != '"':
                k += 2 if s[k] == '\\' else 1
        elif c in '<([{':
            depth += 1
        elif c in ')]}' or (c == '>' and s[k - 1] not in '-='):
            depth -= 1
        elif depth == 0 and c == ' ' and (s.startswith(' -> [', k) or s.startswith(' -> unwind', k) or (s.startswith(' -> bb', k) and s[k + 6:].isdigit())):
            return k
        k += 1
    return None


def successors(st):
    k = st[0]
    if k == 'goto':
        return [st[1]]
    if k == 'switch':
        return list(st[2].values())
    if k == 'assert':
        return [st[4]]
    if k == 'drop':
        return [st[2]]
    if k == 'call':
        return [st[4]] if st[4] is not None else []
    return []


def cfg(f):
    ensure_parsed(f)
    g = {}
    for b, sts in f.blocks.items():
        try:
            g[b] = [s for s in successors(parse_stmt(sts[-1])) if s in f.blocks]
        except Unsupported:
            g[b] = []
    return g


def loops(f):
    """natural loops: header -> set of blocks"""
    if f._loops is not None:
        return f._loops
    g = cfg(f)
    # reachable + dominators (iterative)
    order, seen = [], set()
    stack = [(0, iter(g[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(g[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in g[b]:
            preds[s].append(b)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    res = {}
    for b in rpo:
        for s in g[b]:
            if dom(s, b):
                body = res.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
            elif idx[s] <= idx[b]:
                raise Unsupported('irreducible control flow in ' + f.name)
    f._loops = res
    return res


def liveness(f):
    """locals live at block entry (whole locals)"""
    g = cfg(f)
    use, deff = {}, {}
    rx = re.compile(r'_(\d+)')
    for b, sts in f.blocks.items():
        u, d = set(), set()
        for st in sts:
            if st.startswith(('StorageLive', 'StorageDead')):
                continue
            m = re.match(r'^_(\d+) = ', st)
            rhs = st[m.end():] if m else st
            rhs = re.sub(r'"(\\.|[^"\\])*"', '', rhs)
            rhs = re.sub(r'closure@[^}]*', '', rhs)
            for x in rx.findall(rhs):
                x = int(x)
                if x not in d:
                    u.add(x)
            if st == 'return':
                u.add(0)
            if m:
                d.add(int(m.group(1)))
        use[b], deff[b] = u, d
    live = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            o = set()
            for s in g[b]:
                o |= live[s]
            n = use[b] | (o - deff[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live
