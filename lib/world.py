"""What the checks share: the dump of the current tree, the engine and the values at entry."""
import dump, models, engine
from engine import Out, Undecided, Budget, strip_generics
from terms import *
import terms as T
import pc, spec


def line_domain(t):
    """The markers of a line are the strings the first group of the line expression can be."""
    if t.op == 'fld' and t.a[1] in ('Message', 'Continuation') and t.a[2] == '1':
        return LINE_MARKERS
    return None


LINE_MARKERS = None     # set from the current tree by World.markers()


class World(object):
    def __init__(self):
        self.dump, self.formula_rs, self.hash = dump.ensure()
        self._parser = None
        self._engine = None
        usz = {}
        for a in self.dump['adts']:
            usz[a['path']] = {f['name'] for v in a['variants'] for f in v['fields'] if f['t'] == 'usize'}
        pc.COUNTERS.clear()
        pc.COUNTERS.update(usz.get('po::line_iter::LineIter', set()) - usz.get('plural::forms::PluralForms', set()))
        e = self.engine()
        spec.set_variants({a['path']: tuple(v['name'] for v in a['variants']) for a in self.dump['adts']
                           if a.get('enum')} if isinstance(self.dump['adts'], list) else {})

    def engine(self, actions=None, budget=60000):
        e = engine.Engine(self.dump, models, budget)
        for k, v in (actions or {}).items():
            e.actions[k] = v
        return e

    def key(self, suffix):
        if suffix in self.dump['instances']:
            return suffix
        return self.engine().find(suffix)

    def adt(self, path):
        for a in self.dump['adts']:
            if a['path'] == path:
                return a
        raise Undecided('no type %s' % path)

    @property
    def parser(self):
        """The value PoParser::new() returns: expressions and tables are constants of the program."""
        if self._parser is None:
            e = self.engine()
            outs = [o for o in e.summarise(e.find('parser::PoParser::new')) if o.kind == 'ret']
            if len(outs) != 1:
                raise Undecided('%d outcomes of PoParser::new' % len(outs))
            self._parser = outs[0].val
        return self._parser
