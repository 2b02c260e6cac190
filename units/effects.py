"""What the code may touch (C21): every callee of every function of the crate, the statics, and the order of hash tables."""
import importlib, re
from run import *
import engine
from engine import Engine, Loc, strip_generics
from panics import mine, generated, where, short_span, OTHERS

PROPS = ('C21', 'C23')

# what a pure reader has no business with
DENY = [(re.compile(p), why) for p, why in (
    (r'^(std|core|alloc)::(fs|os|net|env)\b', 'the file system, the network or the environment'),
    (r'^std::(process|thread|time|backtrace)\b|^core::time::.*now|^std::sys\b', 'processes, threads or the clock'),
    (r'std::io::stdio|std::io::_e?print|^std::macros|io::stdio::', 'the standard streams'),
    (r'^std::panic::(set_hook|take_hook)|^std::panicking::(set_hook|take_hook)|^std::alloc::set', 'a global hook'),
    (r'thread::local|LocalKey', 'thread-local state'),
    (r'sync::atomic|sync::(poison::)?(mutex|rwlock|condvar|once|reentrant)|sync::mpsc|::Mutex<|::RwLock<', 'synchronised mutable state'),
    (r'locale_config::Locale\b|locale_config::.*(global_default|user_default|current|set_global|set_current)', 'the locale of the process'),
    (r'hash::random|DefaultHasher|BuildHasher::|hash_one|RandomState as|^rand\b|getrandom', 'random numbers or hash values'),
    (r'core::fmt::Pointer|Argument::.*new_pointer|pointer_expose|::addr\b|expose_provenance', 'an address'),
    (r'core::cell::|::UnsafeCell|::RefCell<|::Cell<|once_cell|lazy_cell|lazy_lock|LazyLock|OnceLock|OnceCell', 'shared mutable state'),
    (r'Rc::<.*>::(strong_count|weak_count|get_mut|make_mut|ptr_eq|as_ptr)|rc::Rc.*::(strong_count|weak_count|ptr_eq|as_ptr)', 'how often a value is shared'),
    (r'HashMap.*::capacity|HashSet.*::capacity|Vec.*::(capacity|as_ptr)|String::(capacity|as_ptr)|str::.*as_ptr', 'the layout of memory'),
)]
ONCE = re.compile(r'LazyLock|OnceLock|once_lock|lazy_lock|OnceCell|LazyCell|std::sync::(poison::)?once')
# reads whose result depends on how the stream cuts its data
CUTS = re.compile(r'(BufRead::(fill_buf|consume|has_data_left)|Read::(read|read_vectored|read_buf)|BufReader::<.*>::(buffer|capacity|into_inner|get_mut|get_ref)|Seek::)$')
STREAM = re.compile(r'(BufRead::|Read::|BufReader::|io::util::|Write::)')
WHOLE = re.compile(r'(BufReader::<.*>::(new|with_capacity)|BufRead::(lines|read_line|read_until|split|skip_until)|Read::(by_ref|read_to_end|read_to_string|read_exact|bytes)|Lines<.*>.*::next|Write::write_fmt)$')
PURE_CRATES = {'core', 'alloc', 'regex', 'lalrpop_util', 'regex_automata', 'regex_syntax', 'locale_config'}
PURE_STD = re.compile(r'std::(collections|error|hash|io|string|vec|option|result)\b')


def calls(i):
    """Every function named by a body: called or passed as a value."""
    for b in i['blocks']:
        t = b['t']
        stack = [(t, b['sp'])] + [(x, x[2]) for x in b['s']]
        while stack:
            x, sp = stack.pop()
            if isinstance(x, dict):
                if 'decl' in x and 'crate' in x:
                    yield x, sp
                stack += [(y, sp) for y in x.values()]
            elif isinstance(x, (list, tuple)):
                stack += [(y, sp) for y in x]


def run(r):
    sites(r)
    statics(r)
    have = r.ran
    for n in OTHERS:
        if n not in have and r.prop in ('all', 'C21'):
            r.ran.add(n)
            importlib.import_module(n).run(r)
    if r.prop in ('all', 'C21'):
        order(r)


def sites(r):
    props = ('C21', 'C23')
    n = fns = 0
    crates = {}
    for k, i in r.w.dump['instances'].items():
        if not i['local'] or not (i['span'].startswith('src/') or generated(i, k)):
            continue
        fns += 1
        for f, sp in calls(i):
            names = [x for x in (f.get('decl'), f.get('rpath'), f.get('name') and '%s' % f['name']) if x]
            c = f['crate']
            if f.get('local'):
                continue
            n += 1
            crates[c] = crates.get(c, 0) + 1
            why = next((w for p, w in DENY for x in names if p.search(x)), None)
            at = '%s calls %s (%s)' % (where(k), f.get('rpath') or f['decl'], short_span(sp))
            if why and any(ONCE.search(x) for x in names):
                r.rep.maybe(('C21',), '%s: a value made once' % at)
            elif why:
                r.rep.owe(props)
                r.rep.bad(props, 'effect/%s/%s' % (where(k), engine.short(f['decl'])), '%s: the result may depend on or change %s' % (at, why))
            elif any(CUTS.search(x) for x in names) or any(STREAM.search(x) for x in names) and not any(WHOLE.search(x) for x in names):
                r.rep.maybe(('C21',), '%s: what it returns may depend on how the stream cuts its data' % at)
            elif c not in PURE_CRATES and not any(PURE_STD.search(x) for x in names):
                r.rep.maybe(('C21',), '%s: not known to be pure' % at)
            else:
                r.rep.owe(props)
                r.rep.paid(props)
        for b in i['blocks']:
            for s in b['s']:
                if s[1].get('r') == 'cast' and 'Expose' in str(s[1].get('k')):
                    r.rep.owe(props)
                    r.rep.bad(props, 'effect/%s/address' % where(k), '%s turns an address into a number (%s)' % (where(k), short_span(s[2])))
    r.rep.units.append({'unit': 'callees', 'props': ['C21', 'C23'], 'functions': fns, 'call_sites': n, 'crates': crates})


def statics(r):
    props = ('C21', 'C22')
    n = 0
    for s in r.w.dump['statics']:
        n += 1
        r.rep.owe(props)
        if s['mut'] or not s['freeze'] and not ONCE.search(s['t']):
            r.rep.bad(props, 'static/%s' % s['path'], 'the static %s of type %s can change (%s)' % (s['path'], s['t'], s['span']))
        elif not s['freeze']:
            r.rep.maybe(props, 'the static %s is set once' % s['path'])
        else:
            r.rep.paid(props)
    r.rep.owe(props)
    r.rep.paid(props)
    r.rep.units.append({'unit': 'statics', 'props': ['C21', 'C22'], 'statics': n})


# ---------------------------------------------------------------- the order of hash tables
TABLES = ('mapiter', 'setiter')
BLIND = ('slen', 'nil', 'setadd', 'mapset', 'mapget', 'any')


def leaks(t, taint, memo):
    """Whether the value of a term can depend on the order of a hash table: True, False, or None (not known)."""
    if t in memo:
        return memo[t]
    memo[t] = False
    if t.op in TABLES or t in taint:
        r = True
    elif t.op in ('slen', 'nil', 'any'):
        x = leaks(t.a[0], taint, memo)
        r = False if t.a[0].op in TABLES or t.a[0].op == 'compr' or not x else x
    elif t.op in ('setadd', 'mapset', 'mapext'):
        # the order in which elements are put in a table shows only when keys repeat
        r = leaks(t.a[0], taint, memo)
        for x in T.children(t):
            if x is not t.a[0] and leaks(x, taint, memo) and r is False:
                r = False if t.op == 'setadd' or unique_keys(x) else None
    elif t.op == 'app' and 'sort' in str(t.a[0]):
        r = None if any(leaks(x, taint, memo) for x in T.children(t)) else False
    else:
        rs = [leaks(x, taint, memo) for x in T.children(t)]
        r = True if True in rs else None if None in rs else False
    memo[t] = r
    return r


def unique_keys(s):
    """[(key of the element, ..)] for the elements of a table"""
    if s.op != 'compr' or s.a[0].op not in TABLES:
        return False
    src = s.a[0]
    key = fld(T.mk('elt', src), None, '0')
    for x in walk(s):
        if x.op == 'tup' and len(x.a) == 2:
            return x.a[0] is key
    return False


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(T.children(x))


def order(r):
    props = ('C21',)
    n = 0
    found = {}
    for e, k, outs in Engine.journal:
        i = r.w.dump['instances'].get(k)
        if not i or not mine(i, k):
            continue
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            taint = {}
            for rec in o.st.trace:
                for loc, ph in rec.phi.items():
                    if leaks(rec.init[loc], taint, {}):
                        taint[ph] = True
                for _ in range(4):
                    more = False
                    for b in rec.backs:
                        for loc, ph in rec.phi.items():
                            v = e.load(b, Loc(loc[0], loc[1], None))
                            if ph not in taint and leaks(v, taint, {}) is True:
                                taint[ph] = True
                                more = True
                    if not more:
                        break
            its = {ph for ph in taint}
            vals = [('result', o.val)] + [(str(root[1]), v) for root, v in o.st.mem.items() if root[0] == 'in']
            memo = {}
            for name, v in vals:
                if v is None:
                    continue
                x = leaks(v, its, memo)
                if x is not False:
                    found.setdefault((where(k), name), []).append((x, v))
    for (fn, name), l in sorted(found.items()):
        r.rep.owe(props)
        hard = [v for x, v in l if x]
        text = 'the %s of %s can show the order of a hash table: %s' % (name, fn, show((hard or [l[0][1]])[0])[:400])
        if hard and not hard[0].opq:
            r.rep.bad(props, 'order/%s' % fn, text)
        else:
            r.rep.maybe(props, text)
    r.rep.owe(props, n)
    r.rep.paid(props, n - len(found))
    r.rep.units.append({'unit': 'order of hash tables', 'props': ['C21'], 'paths': n})
