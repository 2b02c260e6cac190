"""The frame of a unit: a function (or a group of functions) of the code checked against its specification."""
import os, time, traceback
from terms import *
import terms as T
import spec
from spec import *
from engine import Undecided, Budget, Out
import world as world_


MSG, PLU, FRM, FML = 'enums::message::Message', 'plural::plural::Plural', 'plural::forms::PluralForms', 'plural::formula::Formula'
UNIT, NOTE, COM = 'unit::Unit', 'note::Note', 'comment::Comment'
STATE, ORIGIN = 'enums::state::State', 'enums::origin::Origin'
ERROR, LINE, NODE = 'error::Error', 'po::line::PoLine', 'plural::formula::node::Node'
SELF = T.mk('var', 'self')


def var(n):
    return T.mk('var', n)


def ret(p, name, pc):
    return p.val


class Run(object):
    def __init__(self):
        self.w = world_.World()
        self.rep = Report()
        self.cache = {}
        self.broken = []
        self.ran = set()

    # ------------------------------------------------------------ types
    def has_fields(self, path, *names):
        """The specification names these fields: without them it says nothing about this tree."""
        a = self.w.adt(path)
        have = {f['name'] for v in a['variants'] for f in v['fields']} | {v['name'] for v in a['variants']}
        for n in names:
            if n not in have:
                raise Undecided('%s has no field %s' % (path, n))

    # ------------------------------------------------------------ functions
    def summary(self, key, actions=None, args=None, st=None, budget=60000):
        e = self.w.engine(actions, budget)
        k = self.w.key(key)
        return e, e.summarise(k, args, st)

    def unit(self, name, key, what, props, extract=ret, actions=None, args=None, depth=spec.DEEPEST, st=None, given=None):
        try:
            e, outs = self.summary(key, actions, args, st)
            check(self.rep, e, name, outs, what, props, extract, depth, given=given)
            return e, outs
        except (Undecided, Budget) as x:
            self.rep.maybe(props, '%s: %s' % (name, x))
            self.rep.units.append({'unit': name, 'undecided': 1, 'reason': str(x)[:200]})
            return None, []
        except Exception as x:
            self.rep.maybe(props, '%s: the analysis failed: %s' % (name, blame(x)))
            self.rep.units.append({'unit': name, 'undecided': 1, 'reason': blame(x)})
            return None, []

    def group(self, f, props):
        """Runs a unit; what it cannot analyse is undecided."""
        t = time.time()
        try:
            f(self)
        except (Undecided, Budget, RecursionError) as x:
            self.rep.maybe(props, '%s: %s' % (f.__name__, str(x)[:300]))
        except Exception as x:
            self.rep.maybe(props, '%s: the analysis failed: %s' % (f.__name__, blame(x)))
        return time.time() - t


def blame(x):
    """where an analysis failed"""
    fs = traceback.extract_tb(x.__traceback__)
    return '%s: %s (%s)' % (type(x).__name__, str(x)[:160], ', '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fs[-3:]))


def opt(o, x, *props):
    """the option is the same option"""
    return Some(Is(fld(x, 'Some', '0')), *props) if o.some(x) else Nothing(*props)


def R(w):
    return {'ret': w}
