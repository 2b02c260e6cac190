"""What some pure functions of the standard library give on small known values.

Used only to look for an example that tells two terms apart: strings are str, characters and integers int,
sequences tuples, Option and tuples ('adt', variant, ((field, value), ..))."""

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
ASCII_WS = ' \t\n\r\x0c'


class Unknown(Exception):
    pass


def some(v):
    return ('adt', 'Some', (('0', v),))


NONE = ('adt', 'None', ())
UNIT = ('adt', '()', ())


def pair(*v):
    return ('adt', '()', tuple(v))


def opt(l, i):
    return some(l[i]) if -len(l) <= i < len(l) else NONE


def pat(p):
    """a pattern as a string"""
    if isinstance(p, bool) or not isinstance(p, (int, str)):
        raise Unknown()
    p = chr(p) if isinstance(p, int) else p
    if p == '':
        raise Unknown()
    return p


def st(x):
    if not isinstance(x, str):
        raise Unknown()
    return x


def tagged(x):
    """a tuple that does not stand for a sequence"""
    return bool(x) and x[0] in ('tok', 'adt', 'u', 'map', 'set') and not all(isinstance(y, str) for y in x)


def seq(x):
    if isinstance(x, tuple) and tagged(x):
        raise Unknown()
    if not isinstance(x, tuple):
        raise Unknown()
    return x


def elements(s):
    if s == ():
        return ()
    if not isinstance(s, tuple) or s[:2] != ('set', ()):
        raise Unknown()
    return s[2]


def less(s, x):
    l = tuple(y for y in elements(s) if y != x)
    return ('set', (), l) if l else ()


def asc(x):
    if any(ord(c) > 127 for c in st(x)):
        raise Unknown()
    return x


def comparable(l):
    if not (all(isinstance(x, int) for x in l) or all(isinstance(x, str) for x in l)):
        raise Unknown()
    return l


def alower(s):
    return ''.join(c.lower() if c < '\x80' else c for c in s)


def aupper(s):
    return ''.join(c.upper() if c < '\x80' else c for c in s)


def trimm(s, p, l, r):
    if callable(p):
        while l and s and p(s[0]):
            s = s[1:]
        while r and s and p(s[-1]):
            s = s[:-1]
        return s
    p = pat(p)
    while l and s.startswith(p):
        s = s[len(p):]
    while r and s.endswith(p):
        s = s[:-len(p)]
    return s


def split_term(s, p):
    l = s.split(p)
    if l[-1] == '':
        l.pop()
    return tuple(l)


def split_incl(s, p):
    l = s.split(p)
    out = [x + p for x in l[:-1]]
    if l[-1] != '':
        out.append(l[-1])
    return tuple(out)


def rsplit_once(s, p):
    i = s.rfind(p)
    return NONE if i < 0 else some(pair(s[:i], s[i + len(p):]))


def rfind(s, p):
    i = s.rfind(p)
    return NONE if i < 0 else some(len(s[:i].encode('utf-8', 'surrogatepass')))


def indices(s):
    out, n = [], 0
    for c in s:
        out.append(pair(n, ord(c)))
        n += len(c.encode('utf-8', 'surrogatepass'))
    return tuple(out)


def dedup(l):
    out = []
    for x in l:
        if not out or out[-1] != x:
            out.append(x)
    return tuple(out)


def without(l, i):
    if not 0 <= i < len(l):
        raise Unknown()
    return l[:i] + l[i + 1:]


def swap_remove(l, i):
    if not 0 <= i < len(l):
        raise Unknown()
    l = list(l)
    l[i] = l[-1]
    return tuple(l[:-1])


def nth(l, i):
    return some(l[i]) if 0 <= i < len(l) else NONE


def inserted(s, i, x):
    a = truncs(s, i)
    if i > len(s.encode('utf-8', 'surrogatepass')):
        raise Unknown()
    return a + x + s[len(a):]


def truncs(s, n):
    b = s.encode('utf-8', 'surrogatepass')
    if n >= len(b):
        return s
    try:
        return b[:n].decode('utf-8')
    except UnicodeDecodeError:
        raise Unknown()


F = {
    'str::to_uppercase': lambda s: asc(s).upper(), 'str::to_lowercase': lambda s: asc(s).lower(),
    'str::to_ascii_uppercase': lambda s: aupper(st(s)), 'str::to_ascii_lowercase': lambda s: alower(st(s)),
    'str::make_ascii_uppercase': lambda s: aupper(st(s)), 'str::make_ascii_lowercase': lambda s: alower(st(s)),
    'String::make_ascii_lowercase': lambda s: alower(st(s)),
    'str::replace': lambda s, p, t: st(s).replace(pat(p), st(t)), 'str::replacen': lambda s, p, t, n: st(s).replace(pat(p), st(t), n),
    'str::trim_matches': lambda s, p: trimm(st(s), p, True, True), 'str::trim_start_matches': lambda s, p: trimm(st(s), p, True, False),
    'str::trim_end_matches': lambda s, p: trimm(st(s), p, False, True), 'str::trim_left_matches': lambda s, p: trimm(st(s), p, True, False),
    'str::trim_right_matches': lambda s, p: trimm(st(s), p, False, True),
    'str::repeat': lambda s, n: st(s) * n if n < 50 else bad(),
    'str::rsplit': lambda s, p: tuple(reversed(st(s).split(pat(p)))),
    'str::splitn': lambda s, n, p: tuple(st(s).split(pat(p), n - 1)) if n > 0 else (),
    'str::rsplitn': lambda s, n, p: tuple(reversed(st(s).rsplit(pat(p), n - 1))) if n > 0 else (),
    'str::split_terminator': lambda s, p: split_term(st(s), pat(p)), 'str::split_inclusive': lambda s, p: split_incl(st(s), pat(p)),
    'str::char_indices': lambda s: indices(st(s)), 'str::bytes': lambda s: tuple(st(s).encode('utf-8', 'surrogatepass')),
    'str::rfind': lambda s, p: rfind(st(s), pat(p)), 'str::rsplit_once': lambda s, p: rsplit_once(st(s), pat(p)),
    'str::matches': lambda s, p: (pat(p),) * st(s).count(pat(p)),
    'str::split_ascii_whitespace': lambda s: tuple(x for x in ''.join(' ' if c in ASCII_WS else c for c in st(s)).split(' ') if x),
    'String::truncate': lambda s, n: truncs(st(s), n), 'String::pop': lambda s: st(s)[:-1],
    'String::pop.ret': lambda s: some(ord(s[-1])) if st(s) else NONE,
    'String::insert': lambda s, i, c: inserted(st(s), i, chr(c)),
    'String::insert_str': lambda s, i, x: inserted(st(s), i, st(x)), 'String::remove': lambda s, i: st(s)[1:] if i == 0 and s else bad(),
    'String::remove.ret': lambda s, i: ord(st(s)[0]) if i == 0 and s else bad(),
    'char::to_ascii_lowercase': lambda c: ord(alower(chr(c))), 'char::to_ascii_uppercase': lambda c: ord(aupper(chr(c))),
    'char::len_utf8': lambda c: len(chr(c).encode('utf-8', 'surrogatepass')),
    # sequences
    'slice::last': lambda l: opt(seq(l), -1), 'slice::first': lambda l: opt(seq(l), 0), 'Vec::last': lambda l: opt(seq(l), -1),
    'rev': lambda l: tuple(reversed(seq(l))), 'Iterator::rev': lambda l: tuple(reversed(seq(l))),
    'Vec::reverse': lambda l: tuple(reversed(seq(l))), 'slice::reverse': lambda l: tuple(reversed(seq(l))),
    'Vec::dedup': lambda l: dedup(seq(l)), 'Vec::truncate': lambda l, n: seq(l)[:n], 'Vec::pop': lambda l: seq(l)[:-1],
    'HashSet::remove': lambda s, x: less(s, x), 'HashSet::remove.ret': lambda s, x: int(x in elements(s)),
    'Vec::pop.ret': lambda l: opt(seq(l), -1), 'Vec::remove': lambda l, i: without(seq(l), i), 'Vec::remove.ret': lambda l, i: seq(l)[i] if 0 <= i < len(l) else bad(),
    'Vec::swap_remove': lambda l, i: swap_remove(seq(l), i), 'Vec::swap_remove.ret': lambda l, i: seq(l)[i] if 0 <= i < len(l) else bad(),
    'Vec::insert': lambda l, i, x: seq(l)[:i] + (x,) + l[i:] if 0 <= i <= len(l) else bad(),
    'Vec::split_off': lambda l, i: seq(l)[:i], 'Vec::split_off.ret': lambda l, i: seq(l)[i:],
    'Vec::sort': lambda l: tuple(sorted(comparable(seq(l)))), 'slice::sort': lambda l: tuple(sorted(comparable(seq(l)))),
    'slice::sort_unstable': lambda l: tuple(sorted(comparable(seq(l)))),
    'Iterator::skip': lambda l, n: seq(l)[n:], 'Iterator::take': lambda l, n: seq(l)[:n],
    'Iterator::step_by': lambda l, n: seq(l)[::n] if n else bad(), 'Iterator::last': lambda l: opt(seq(l), -1),
    'Iterator::nth': lambda l, n: nth(seq(l), n), 'Iterator::zip': lambda a, b: tuple(pair(x, y) for x, y in zip(seq(a), seq(b))),
    'Iterator::enumerate': lambda l: tuple(pair(i, x) for i, x in enumerate(seq(l))),
    'Iterator::max': lambda l: some(max(comparable(l))) if seq(l) else NONE, 'Iterator::min': lambda l: some(min(comparable(l))) if seq(l) else NONE,
    'slice': lambda l, a, b: seq(l)[a:b],
}
for _n in list(F):
    if _n.startswith(('Vec::', 'String::', 'slice::')) and _n + '.ret' not in F and _n not in ('slice::last', 'slice::first', 'Vec::last'):
        F[_n + '.ret'] = lambda *a: UNIT


def bad():
    raise Unknown()


def wrap(v, ty):
    n = WIDTH[ty]
    v &= (1 << n) - 1
    if ty[0] == 'i' and v >> (n - 1):
        v -= 1 << n
    return v


def fits(v, ty):
    return wrap(v, ty) == v


def sat(v, ty):
    lo, hi = (-(1 << (WIDTH[ty] - 1)), (1 << (WIDTH[ty] - 1)) - 1) if ty[0] == 'i' else (0, (1 << WIDTH[ty]) - 1)
    return max(lo, min(hi, v))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ediv(a, b):
    r = a % abs(b)
    return (a - r) // b


BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
       'div': lambda a, b: tdiv(a, b) if b else bad(), 'rem': lambda a, b: a - b * tdiv(a, b) if b else bad(),
       'div_euclid': lambda a, b: ediv(a, b) if b else bad(), 'rem_euclid': lambda a, b: a % abs(b) if b else bad(),
       'pow': lambda a, b: a ** b if b < 200 else bad()}
UN = {'neg': lambda a: -a, 'abs': abs, 'signum': lambda a: (a > 0) - (a < 0)}


def integer(name):
    ty, _, m = name.partition('::')
    if ty not in WIDTH:
        return None
    if m == 'signum':
        return UN['signum']
    if m == 'unsigned_abs':
        return abs
    if m in ('min', 'max'):
        return {'min': min, 'max': max}[m]
    if m == 'abs_diff':
        return lambda a, b: abs(a - b)
    if m == 'clamp':
        return lambda x, a, b: max(a, min(b, x)) if a <= b else bad()
    if m == 'is_positive':
        return lambda a: int(a > 0)
    if m == 'is_negative':
        return lambda a: int(a < 0)
    for pre in ('wrapping_', 'saturating_', 'checked_', 'overflowing_', ''):
        op = m[len(pre):]
        if m.startswith(pre) and (op in BIN or op in UN):
            f = BIN.get(op) or UN[op]

            def g(*a):
                v = f(*a)
                if pre == 'wrapping_':
                    return wrap(v, ty)
                if pre == 'saturating_':
                    return sat(v, ty)
                if pre == 'checked_':
                    return some(v) if fits(v, ty) else NONE
                if pre == 'overflowing_':
                    return pair(wrap(v, ty), int(not fits(v, ty)))
                return v if fits(v, ty) else bad()
            return g
    return None


# functions whose result nothing else that is known bears on: any value is possible
FREE = {'io::Error::new', 'bufreader', 'iolines', 'Error::kind', 'Error::raw_os_error'}
STD = ('str::', 'String::', 'Vec::', 'slice::', 'Iterator::', 'char::', 'HashSet::', 'HashMap::', 'Option::', 'Result::', 'VecDeque::', 'Peekable::',
       'Cow::', 'Rc::', 'Box::', 'Error::', 'ErrorKind::', 'Regex::', 'Captures::', 'BTreeMap::', 'BTreeSet::', 'rev', 'slice')


def get(name):
    """the function, None when the name is not one of the standard library; bad when it is and is not described"""
    f = F.get(name) or integer(name)
    if f:
        return f
    if name in FREE:
        return None
    if name.startswith(STD) or name.split('::')[0] in WIDTH:
        return lambda *a: bad()
    return None


def kinds(name):
    """the kinds of the arguments"""
    if name.startswith(('str::', 'String::')):
        return ['str']
    if name.startswith(('Vec::', 'slice', 'Iterator::', 'rev')):
        return ['seq']
    if name.split('::')[0] in WIDTH:
        return ['int', 'int', 'int']
    return []


def ch(v):
    if isinstance(v, bool) or not isinstance(v, int):
        raise Unknown()
    return chr(v)


def known(c):
    """classes of characters outside ASCII are not described"""
    c = ch(c)
    if c > '\x7f':
        raise Unknown()
    return c


PRED = {
    'slice.ends_with': lambda a, b: len(seq(b)) <= len(seq(a)) and seq(a)[len(a) - len(b):] == b,
    'slice.starts_with': lambda a, b: seq(a)[:len(seq(b))] == b,
    'eq_ignore_ascii_case': lambda a, b: alower(st(a)) == alower(st(b)),
    'char.is_ascii': lambda c: ch(c) < '\x80', 'char.is_ascii_whitespace': lambda c: ch(c) in ASCII_WS,
    'char.is_ascii_digit': lambda c: '0' <= ch(c) <= '9', 'char.is_ascii_alphabetic': lambda c: ch(c) < '\x80' and ch(c).isalpha(),
    'char.is_ascii_alphanumeric': lambda c: ch(c) < '\x80' and ch(c).isalnum(), 'char.is_ascii_uppercase': lambda c: 'A' <= ch(c) <= 'Z',
    'char.is_ascii_lowercase': lambda c: 'a' <= ch(c) <= 'z', 'char.is_ascii_control': lambda c: ch(c) < ' ' or ch(c) == '\x7f',
    'char.is_ascii_graphic': lambda c: '!' <= ch(c) <= '~', 'char.is_ascii_punctuation': lambda c: '!' <= ch(c) <= '~' and not ch(c).isalnum(),
    'char.is_ascii_hexdigit': lambda c: ch(c) in '0123456789abcdefABCDEF', 'char.is_control': lambda c: ch(c) < ' ' or '\x7f' <= ch(c) < '\xa0',
    'char.is_alphabetic': lambda c: known(c).isalpha(), 'char.is_numeric': lambda c: known(c).isdigit(),
    'char.is_alphanumeric': lambda c: known(c).isalnum(), 'char.is_uppercase': lambda c: known(c).isupper(),
    'char.is_lowercase': lambda c: known(c).islower(),
    'char.is_digit': lambda c, r: ch(c) in '0123456789abcdefghijklmnopqrstuvwxyz'[:r] or ch(c) in '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:r],
}
