"""What the types say (C22, C23): threads, sharing, ownership, privacy, and programs that must or must not compile."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from run import *
import dump
from panics import mine
from engine import strip_generics

PROPS = ('C21', 'C22', 'C23')
PARSER, READER = 'po::parser::PoParser', 'po::reader::PoReader'
DATA = (UNIT, MSG, PLU, FRM, NOTE, COM, STATE, ORIGIN)
CLOSED = (UNIT, PLU, FRM, NOTE, COM)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(r):
    if r.prop in ('all', 'C22'):
        r.group(parser, ('C22',))
    if r.prop in ('all', 'C23'):
        r.group(data, ('C23',))
    r.group(signatures, ('C22', 'C23'))
    r.group(unsafes, ('C22', 'C23', 'C21'))
    if r.prop in ('all', 'C22', 'C23'):
        r.group(witnesses, ('C22', 'C23'))


def describe(p):
    return '%s at %s' % (p['t'], p['at'] or 'the top')


def parser(r):
    rep, a = r.rep, r.w.adt(PARSER)
    P = ('C22',)
    rep.fact(P, a['send'], 'parser-send', 'PoParser is not Send')
    rep.fact(P, a['sync'], 'parser-sync', 'PoParser is not Sync')
    rep.fact(P, a['freeze'], 'parser-cell', 'PoParser can change through a shared reference')
    bad = [p for p in a['parts'] if p['what'] in ('cell', 'pointer', 'mutref')]
    rep.fact(P, not bad, 'parser-cell', 'PoParser holds %s, which can change through a shared reference' % (bad and describe(bad[0])))
    odd = [p for p in a['parts'] if p['what'] in ('dyn', 'fnptr', 'param')]
    rep.fact(P, True if not odd else None, '', 'PoParser holds %s' % (odd and describe(odd[0])))
    for v in a['variants']:
        for f in v['fields']:
            rep.fact(P, f['vis'] != 'pub', 'parser-field/' + f['name'], 'the field %s of PoParser is public' % f['name'])
    b = r.w.adt(READER)
    mut_ = [p for p in b['parts'] if p['what'] in ('cell', 'pointer')]
    rep.fact(P, True if not mut_ else None, '', 'PoReader holds %s' % (mut_ and describe(mut_[0])))
    own = [p for p in b['parts'] if p['what'] == 'mutref' and 'PoParser' in p['t']]
    rep.fact(P, not own, 'reader-mut', 'PoReader borrows its parser mutably')
    rep.units.append({'unit': 'PoParser', 'props': ['C22'], 'send': a['send'], 'sync': a['sync'], 'freeze': a['freeze'],
                      'parts': [describe(p) for p in a['parts']]})


def data(r):
    rep = r.rep
    P = ('C23',)
    for path in DATA:
        a = r.w.adt(path)
        name = path.split('::')[-1]
        for what, why in (('borrow', 'borrows'), ('mutref', 'borrows mutably'), ('pointer', 'points to'), ('cell', 'can change behind a shared reference'),
                          ('param', 'is generic over')):
            l = [p for p in a['parts'] if p['what'] == what]
            rep.fact(P, not l, '%s/%s' % (what, name), '%s %s: %s' % (name, why, l and describe(l[0])))
        l = [p for p in a['parts'] if p['what'] in ('dyn', 'fnptr')]
        rep.fact(P, True if not l else None, '', '%s holds %s' % (name, l and describe(l[0])))
        if path in CLOSED and a['exported']:
            for v in a['variants']:
                for f in v['fields']:
                    rep.fact(P, f['vis'] != 'pub', 'field/%s.%s' % (name, f['name']), 'the field %s of %s is public' % (f['name'], name))
        rep.units.append({'unit': name, 'props': ['C23'], 'parts': [describe(p) for p in a['parts']],
                          'fields': sum(len(v['fields']) for v in a['variants'])})


def signatures(r):
    """No public function hands out or takes a mutable view of the data or of the parser."""
    rep = r.rep
    n = 0
    word = lambda ps: re.compile(r'&(?:\'\w+ )?mut [^,]*(?<![\w:])(%s)(?!\w)' % '|'.join(re.escape(p) for p in ps))
    dat, par = word(DATA), word((PARSER,))
    for f in r.w.dump['fns']:
        if f['exported']:
            n += 1
            st = f['self_ty'] or ''
            about = strip_generics(st) in DATA
            muts = [t for t in f['inputs'] if dat.search(t)]
            rep.fact(('C23',), not muts, 'mutator/%s' % f['path'], '%s takes %s' % (f['path'], muts and muts[0]))
            ret_mut = about and re.search(r'&(\'\w+ )?mut |\*mut |\*const |Cell<|Mutex<', f['output'])
            rep.fact(('C23',), not ret_mut, 'view/%s' % f['path'], '%s returns %s' % (f['path'], f['output']))
            rep.fact(('C23', 'C22'), not f['unsafe'] or None, '', '%s is unsafe' % f['path'])
        if not f['derived']:
            muts = [t for t in f['inputs'] if par.search(t)]
            rep.fact(('C22',), not muts, 'parser-mut/%s' % f['path'], '%s takes %s' % (f['path'], muts and muts[0]))
    rep.units.append({'unit': 'signatures', 'props': ['C22', 'C23'], 'public_functions': n, 'functions': len(r.w.dump['fns'])})


def unsafes(r):
    P = ('C21', 'C22', 'C23')
    l = r.w.dump['unsafe']
    i = [x for x in r.w.dump['impls'] if x['unsafe'] and not x['derived'] and 'TrivialClone' not in str(x['trait'])]
    r.rep.fact(P, True if not l else None, '', 'unsafe block in %s' % (l and l[0]['fn']))
    r.rep.fact(P, True if not i else None, '', 'unsafe impl of %s for %s' % ((i[0]['trait'], i[0]['self']) if i else ('', '')))
    r.rep.units.append({'unit': 'unsafe code', 'props': list(P), 'blocks': len(l), 'impls': len(i)})


# ---------------------------------------------------------------- programs
def read(f):
    head = {}
    for l in open(f):
        m = re.match(r'// (\w+): (.*)', l)
        if not m:
            break
        head[m.group(1)] = m.group(2).strip()
    return head


def witnesses(r):
    d = os.path.join(HERE, 'witness')
    meta = os.path.join(dump.BUILD, 'libporeader-%s.rmeta' % r.w.hash)
    libs = dump.library_dirs()
    files = sorted(f for f in os.listdir(d) if f.endswith('.rs'))
    heads = {f: read(os.path.join(d, f)) for f in files}
    if r.prop != 'all':
        twins = {h['twin'] for h in heads.values() if h['property'] == r.prop and 'twin' in h}
        files = [f for f in files if heads[f]['property'] == r.prop or f in twins]
    tmp = tempfile.mkdtemp(prefix='witness', dir=dump.BUILD)

    def compile_(f):
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w_' + f[:-3], '--emit=metadata', '-o',
               os.path.join(tmp, f[:-3] + '.rmeta'), '--extern', 'poreader=' + meta, os.path.join(d, f)]
        for l in libs:
            cmd += ['-L', 'dependency=' + l]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
        return f, p.returncode, p.stdout
    try:
        with ThreadPoolExecutor(8) as ex:
            res = {f: (rc, out) for f, rc, out in ex.map(compile_, files)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for f in files:
        h = heads[f]
        rc, out = res[f]
        codes = set(re.findall(r'error\[(E\d+)\]', out))
        P = (h['property'],)
        key = 'witness/' + f[:-3]
        if h['expect'] == 'ok':
            # an item that is no longer there says nothing; a bound or a borrow that fails does
            if rc and codes & {'E0432', 'E0433', 'E0412', 'E0425', 'E0599', 'E0463', 'E0603', 'E0308', 'E0061', 'E0786'} or rc and not codes:
                r.rep.maybe(P, '%s: the program no longer fits the library: %s' % (f, out[:300]))
            else:
                r.rep.fact(P, rc == 0, key, '%s: %s: does not compile: %s' % (f, h['what'], out[:400]))
        elif res[h['twin']][0]:
            r.rep.maybe(P, '%s: its twin does not compile' % f)
        elif rc == 0:
            r.rep.owe(P)
            r.rep.bad(P, key, '%s: %s: compiles' % (f, h['what']))
        elif codes and codes <= set(h['expect'].split()):
            r.rep.fact(P, True, key, '')
        else:
            r.rep.maybe(P, '%s: does not compile, for another reason: %s' % (f, out[:300]))
    r.rep.units.append({'unit': 'programs that must or must not compile', 'props': ['C22', 'C23'], 'programs': len(files)})
