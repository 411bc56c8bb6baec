"""P01: option values are read exactly as spelled, in the documented shape, or rejected."""
import copy
from hypothesis import strategies as st
from vp import Sub, Skip, need, Violation

PROPERTY = 'P01'
RULE = ('list values with at least one element or an expansion, rejected values, booleans, '
        'alternatives and defaults; scalar strings do not count')
ASSUMPTIONS = ['lists up to three levels, innermost lists up to 14 and others up to four elements',
               'list entries contain no white space, brackets or commas']


# ---------------------------------------------------------------------------------------------
# reference model
# ---------------------------------------------------------------------------------------------
class Reject(Exception):
    pass


def depth(v):
    d = 0
    while isinstance(v, list):
        d += 1
        if not v:
            return d
        v = v[0]
    return d


def lens_at(v, level):
    """all lengths of the lists at the given level (0 = outermost)"""
    if level == 0:
        return [len(v)]
    return [n for w in v for n in lens_at(w, level - 1)]


def full(shape_struct, v):
    """expand v over a structure of lengths: int n -> n copies, list -> one per entry"""
    if isinstance(shape_struct, int):
        return [v for _ in range(shape_struct)]
    return [full(s, v) for s in shape_struct]


def structure(v):
    """lengths of the innermost lists, e.g. [[1,2],[3]] -> [2, 1];  [1,2] -> 2"""
    if depth(v) == 1:
        return len(v)
    return [structure(w) for w in v]


def model(opt, value, others):
    """Expected value of a list option."""
    shape = copy.deepcopy(opt['shape'])
    choices = opt.get('choices')
    if choices is not None and not all(x in choices for x in leaves(value)):
        raise Reject
    if shape == -1:
        return value if isinstance(value, list) else [value]
    if isinstance(shape, str):
        ref = others[shape]
        if depth(ref) == 1:
            shape = [len(ref)]
        else:
            d, D = depth(value), depth(ref)
            if d > D:
                raise Reject
            struct = ref
            if d == D:
                if same_structure(value, ref):
                    return value
                raise Reject
            # put the value at level D - d of the reference
            v = place(ref, value, D - d)
            if same_structure(v, ref):
                return v
            raise Reject
    if isinstance(shape, int):
        shape = [shape]
    shape = [len(others[s]) if isinstance(s, str) else s for s in shape]
    d = depth(value)
    if value == [] and shape[0] in (0, -1):
        return []
    if d > len(shape):
        raise Reject
    missing = shape[:len(shape) - d]
    for level in range(d):
        n = shape[len(shape) - d + level]
        if n != -1 and any(k != n for k in lens_at(value, level)):
            raise Reject
    if -1 in missing:
        raise Reject
    for n in reversed(missing):
        value = [value for _ in range(n)]
    return value


def leaves(v):
    if isinstance(v, list):
        return [x for w in v for x in leaves(w)]
    return [v]


def same_structure(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if not isinstance(a, list):
        return True
    return len(a) == len(b) and all(same_structure(x, y) for x, y in zip(a, b))


def place(ref, value, levels):
    if levels == 1:
        return [copy.deepcopy(value) for _ in ref]
    return [place(r, value, levels - 1) for r in ref]


# ---------------------------------------------------------------------------------------------
# rendering with arbitrary white space
# ---------------------------------------------------------------------------------------------
WS = ['', ' ', '  ', '\n', '\t', ' \n  ']


class Writer:
    def __init__(self, ws):
        self.ws, self.i = ws or [0], 0

    def sp(self):
        self.i += 1
        return WS[self.ws[self.i % len(self.ws)]]

    def leaf(self, x):
        if isinstance(x, float):
            return repr(x)
        return str(x)

    def text(self, v):
        if isinstance(v, list):
            return '[' + self.sp() + (self.sp() + ',' + self.sp()).join(self.text(w) for w in v) + self.sp() + ']'
        return self.leaf(v)


TYPES = {'int': int, 'float': float, 'str': str}
NAMES = ['a', 'b1', 'sG', 'npz', 'x-y', 'Z_9']
leaf_s = {
    'int': st.integers(-50, 50) | st.integers(-10**12, 10**12),
    'float': st.one_of(st.integers(-100, 100).map(lambda k: k / 8), st.floats(allow_nan=False, allow_infinity=False, width=64),
                       st.sampled_from([0.1, 1e-5, 1e22, -0.3])),
    'str': st.sampled_from(NAMES),
}


@st.composite
def nested(draw, leaf, shape):
    """shape: flat shape with -1 = arbitrary"""
    if not shape:
        return draw(leaf)
    n = shape[0] if shape[0] >= 0 else draw(st.integers(1, 4) | st.integers(1, 14 if len(shape) == 1 else 4))
    return [draw(nested(leaf, shape[1:])) for _ in range(n)]


@st.composite
def list_cases(draw):
    dt = draw(st.sampled_from(['int', 'float', 'str']))
    leaf = leaf_s[dt]
    ref1 = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=draw(st.sampled_from([4, 4, 12]))))
    ref2 = draw(st.lists(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3), **draw(st.sampled_from([{'min_size': 1, 'max_size': 3}] * 2 + [{'min_size': 12, 'max_size': 18}]))))
    ref3 = draw(nested(st.sampled_from(NAMES), draw(st.sampled_from([[-1, -1, -1]] * 2 + [[1, 2, -1], [1, 1, 1]]))))
    others = {'ref1': ref1, 'ref2': ref2, 'ref3': ref3}
    kind = draw(st.sampled_from(['int', 'any', 'ref1', 'ref2', 'ref3', 'flat', 'flat', 'flat', 'mixed']))
    if kind == 'int':
        shape = draw(st.integers(1, 4) | st.integers(1, 14))
        conf = [shape]
    elif kind == 'any':
        shape = -1
        conf = draw(st.lists(st.integers(1, 3), min_size=0, max_size=3))
    elif kind in ('ref1', 'ref2', 'ref3'):
        shape = kind
        conf = [len(ref1)] if kind == 'ref1' else None
    else:
        shape = draw(st.lists(st.sampled_from([1, 2, 3, -1] + (['ref1', 'ref2'] if kind == 'mixed' else [])),
                              min_size=1, max_size=3))
        conf = [len(others[s]) if isinstance(s, str) else s for s in shape]
    how = draw(st.sampled_from(['full', 'full', 'partial', 'partial', 'random', 'random', 'empty']))
    if conf is None:
        if how == 'full':
            value = [[draw(leaf) for _ in w] for w in ref2] if kind == 'ref2' else [[[draw(leaf) for _ in u] for u in w] for w in ref3]
        elif how == 'partial':
            value = draw(st.one_of(leaf, st.lists(leaf, min_size=1, max_size=3)))
            if kind == 'ref3' and draw(st.booleans()):
                # the lists of one outer entry, repeated if all entries have this structure
                value = [[draw(leaf) for _ in u] for u in draw(st.sampled_from(ref3))]
        else:
            value = draw(nested(leaf, draw(st.sampled_from([[], [-1], [-1, -1], [-1, -1, -1], [len(ref2), -1]]))))
    elif how == 'full':
        value = draw(nested(leaf, conf))
    elif how == 'partial':
        value = draw(nested(leaf, conf[draw(st.integers(0, len(conf))):]))
    elif how == 'random' or kind == 'any':
        value = draw(nested(leaf, draw(st.lists(st.sampled_from([1, 2, 3, -1]), max_size=4))))
        # near misses: change one length
    else:
        value = [] if conf and (conf[0] == -1 or len(conf) == 1) else draw(leaf)
    if isinstance(value, list) and value and draw(st.integers(0, 3)) == 0:
        # change one length somewhere
        w = value
        if isinstance(w[0], list) and draw(st.booleans()):
            w = w[-1]
        while isinstance(w[0], list) and draw(st.booleans()):
            w = w[draw(st.integers(0, len(w) - 1))]
        if draw(st.booleans()) and len(w) > 1:
            w.pop()
        else:
            w.append(copy.deepcopy(w[-1]))
    opt = {'shape': shape, 'datatype': dt}
    if dt == 'str' and draw(st.integers(0, 2)) == 0:
        opt['choices'] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    return {'opt': opt, 'others': others, 'value': value,
            'ws': draw(st.lists(st.integers(0, len(WS) - 1), max_size=6)),
            'optional': draw(st.booleans())}


def api():
    try:
        from hyvr.input.option_parsing import Section, Option
    except ImportError as e:
        raise Skip(str(e))
    return Section, Option


def identical(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return a == b


def ref_options(Option):
    return [Option('ref1', list, shape=[-1], datatype=str), Option('ref2', list, shape=[-1, -1], datatype=str),
            Option('ref3', list, shape=[-1, -1, -1], datatype=str)]


def check_list(case, env):
    Section, Option = api()
    o = case['opt']
    w = Writer(case['ws'])
    kw = {}
    if 'choices' in o:
        ch = o['choices']
        kw['validation_func'] = lambda x: x in ch
    opts = ref_options(Option) + [Option('opt', list, shape=copy.deepcopy(o['shape']), datatype=TYPES[o['datatype']],
                                         optional=case['optional'], default=None, **kw)]
    txt = {k: w.text(v) for k, v in case['others'].items()}
    txt['opt'] = w.text(case['value'])
    try:
        exp = model(o, case['value'], case['others'])
    except Reject:
        exp = Reject
    try:
        res = Section('sec', opts).parse(dict(txt))['opt']
    except Exception as e:
        if exp is Reject:
            return 'rejected'
        raise Violation('{!r} with shape {} was rejected ({}: {}), expected {}'.format(
            txt['opt'], o['shape'], type(e).__name__, e, exp))
    need(exp is not Reject, '{!r} with shape {} was accepted as {}, but must be rejected', txt['opt'], o['shape'], res)
    need(identical(res, exp), '{!r} with shape {} was read as {}, expected {}', txt['opt'], o['shape'], res, exp)
    return 'expanded' if depth(exp) != depth(case['value']) else ('nested' if depth(exp) > 1 else 'list')


# ---------------------------------------------------------------------------------------------
@st.composite
def scalar_cases(draw):
    dt = draw(st.sampled_from(['int', 'float', 'str', 'bool', 'bool']))
    if dt == 'bool':
        text = draw(st.sampled_from(['true', 'True', 'TRUE', 'false', 'False', 'FALSE', 'yes', 'no', 'Yes', 'NO', '0', '1',
                                     'maybe', 'f', 't', '', 'tru', 'on', 'off', 'y', 'n', 'yes no', 'on2', '-1', '1.0', 'nein', 'none']))
    elif dt == 'int':
        text = draw(st.one_of(st.integers(-10**9, 10**9).map(str), st.sampled_from(['1.5', 'x', '', '[1]', '1e3', '1,2'])))
    elif dt == 'float':
        text = draw(st.one_of(leaf_s['float'].map(repr), st.integers(-999, 999).map(str),
                              st.sampled_from(['1,5', 'x', '', '[1]', '1 2', '0x1'])))
    else:
        text = draw(st.sampled_from(NAMES + ['with space', '[x]']))
    alts = draw(st.lists(st.sampled_from(['alt1', 'alt2', 'alt3']), max_size=3, unique=True))
    where = draw(st.sampled_from(['std', 'std', 'none', 'alt', 'both', 'alts']))
    return {'dtype': dt, 'text': text, 'alts': alts, 'where': where, 'second': draw(st.booleans()),
            'optional': draw(st.booleans()), 'altstr': draw(st.booleans()), 'unknown': draw(st.booleans()),
            'default': draw(st.sampled_from([None, 3, 'dflt', True, 2.5, [1, 2]])),
            'choices': draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=1, max_size=3)))}


def scalar_model(dt, text):
    if dt == 'bool':
        t = text.lower()
        if t in ('true', 'yes'):
            return True
        if t in ('false', 'no'):
            return False
        if t in ('0', '1'):
            return t == '1'
        raise Reject
    if dt == 'str':
        return text
    try:
        return {'int': int, 'float': float}[dt](text)
    except ValueError:
        raise Reject


def check_scalar(case, env):
    Section, Option = api()
    dt = case['dtype']
    ty = dict(TYPES, bool=bool)[dt]
    alts = list(case['alts'])
    kw = {}
    if alts:
        kw['alternatives'] = alts[0] if (case['altstr'] and len(alts) == 1) else list(alts)
    if case['choices'] is not None and dt == 'str':
        ch = case['choices']
        kw['validation_func'] = lambda x: x in ch
    opts = [Option('opt', ty, optional=case['optional'], default=copy.deepcopy(case['default']), **kw),
            Option('other', float)]
    other_text = {'bool': 'no', 'int': '77', 'float': '7.25', 'str': 'b1'}[dt]
    d = {'other': '1.5'}
    where = case['where']
    if where in ('alt', 'alts', 'both') and not alts:
        where = 'std'
    text = case['text']
    if where == 'std':
        d['opt'] = text
    elif where == 'alt':
        d[alts[-1]] = text
    elif where == 'alts':
        for i, a in reversed(list(enumerate(alts))):
            d[a] = text if i == 0 else other_text
    elif where == 'both':
        d['opt'] = text
        d[alts[0]] = other_text
    if case['unknown']:
        d['zzz'] = 'whatever'
    try:
        if where == 'none':
            if not case['optional']:
                raise Reject
            exp = case['default']
        else:
            exp = scalar_model(dt, text)
            if case['choices'] is not None and dt == 'str' and exp not in case['choices']:
                raise Reject
    except Reject:
        exp = Reject
    try:
        out = Section('sec', opts).parse(dict(d))
    except Exception as e:
        need(exp is Reject, '{} option {!r} ({}) was rejected: {}: {}', dt, text, where, type(e).__name__, e)
        if where == 'none':
            need('opt' in str(e), 'the error for a missing option does not name it: {}', e)
        return 'rejected ' + dt
    need(exp is not Reject, '{} option {!r} ({}) was accepted as {!r}', dt, text, where, out.get('opt'))
    need('opt' in out and identical(out['opt'], exp), '{} option {!r} ({}) was read as {!r}, expected {!r}', dt, text, where, out.get('opt'), exp)
    need(identical(out['other'], 1.5), 'other option has changed: {!r}', out['other'])
    if where == 'none' and isinstance(exp, list):
        # defaults must not be shared between parsed files
        out['opt'].append(99)
        again = Section('sec', opts).parse(dict(d))
        need(identical(again['opt'], exp), 'default value was changed by an earlier parse: {!r}', again['opt'])
    return where + ' ' + dt


# ---------------------------------------------------------------------------------------------
@st.composite
def malformed(draw):
    dt = draw(st.sampled_from(['int', 'float', 'str']))
    v = draw(nested(leaf_s[dt], draw(st.sampled_from([[-1], [-1, -1], [2, 2], [-1, -1, -1]]))))
    kind = draw(st.sampled_from(['drop_close', 'drop_open', 'extra_close', 'extra_open', 'mixdepth', 'badleaf', 'empty_entry', 'trailing']))
    return {'dt': dt, 'value': v, 'kind': kind, 'ws': draw(st.lists(st.integers(0, len(WS) - 1), max_size=4)),
            'pos': draw(st.integers(0, 3))}


def check_malformed(case, env):
    Section, Option = api()
    v = copy.deepcopy(case['value'])
    k = case['kind']
    w = Writer(case['ws'])
    t = w.text(v)
    if k == 'drop_close':
        t = t[:-1]
    elif k == 'drop_open':
        # drop an inner or outer bracket
        i = [i for i, c in enumerate(t) if c == '['][min(case['pos'], t.count('[') - 1)]
        t = t[:i] + t[i + 1:]
        if i == 0 and case['dt'] == 'str' and not t.strip().startswith('['):
            return None    # a plain string
    elif k == 'extra_close':
        t = t + ']'
    elif k == 'extra_open':
        t = '[' + t
    elif k == 'mixdepth':
        if depth(v) < 2 and len(v) < 2:
            return None
        i = min(case['pos'], len(v) - 1)
        if len(v) < 2:
            v.append(copy.deepcopy(v[0]))
        v[i] = v[i][0] if isinstance(v[i], list) else [v[i]]
        t = w.text(v)
    elif k == 'badleaf':
        if case['dt'] == 'str':
            return None
        x = v
        while isinstance(x[0], list):
            x = x[min(case['pos'], len(x) - 1)]
        x[min(case['pos'], len(x) - 1)] = 'abc'
        t = w.text(v)
    elif k in ('empty_entry', 'trailing'):
        if case['dt'] == 'str':
            return None
        i = t.index(']')
        t = t[:i] + ',' + (',1' if k == 'empty_entry' else '') + t[i:]
    res = None
    for shape in (-1, [-1], [-1, -1], [-1, -1, -1]):
        try:
            res = Section('sec', [Option('opt', list, shape=shape, datatype=TYPES[case['dt']])]).parse({'opt': t})
        except Exception:
            continue
        raise Violation('malformed list {!r} was accepted as {!r}'.format(t, res['opt']))
    return 'malformed ' + k


SUBS = [Sub('lists', list_cases(), check_list, quick=12000),
        Sub('scalars', scalar_cases(), check_scalar, quick=3000),
        Sub('malformed', malformed(), check_malformed, quick=2000)]
