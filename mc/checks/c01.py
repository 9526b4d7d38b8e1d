"""C01: well-formed descriptors"""
import itertools
import os
from ..core import Space
from ..util import deviations
from emva1288.process import ParseEmvaDescriptorFile

ID = 'C01'
RULE = ('every ordered sequence of series up to a depth over an alphabet of '
        'series, every layout that deviates from the plain one in a bounded '
        'number of ways, every history of parses over a set of descriptors; '
        'the expectation comes from the abstract descriptor, not its text')
ASSUME = ['file names without white space', 'UTF-8 text']
TECH = ('exhaustive enumeration of descriptor structures, layouts (bounded '
        'deviations) and parse histories against the abstract descriptor')

# (kind, exposure, photons, number of images); photons 0 is dark
SERIES = [('b', 1e6, 100.0, 2), ('d', 1e6, 0.0, 2), ('b', 1e6, 200.5, 2),
          ('b', 1e6, 100.0, 3), ('d', 1e6, 0.0, 3), ('b', 2e6, 100.0, 2),
          ('d', 2e6, 0.0, 2), ('b', 2.5, 100.0, 7), ('d', 2.5, 0.0, 50)]

PLAIN = {'eol': '\n', 'comment': 0, 'blank': 0, 'lead': '', 'sep': ' ',
         'trail': '', 'pathsep': '/', 'dec': '.', 'num': 'plain',
         'path': 'none', 'last_eol': True, 'sub': 'images', 'fmtpos': 'start',
         'order': 'asis', 'vers': '4.0', 'name': '.'}
LAYOUT = {'eol': ['\n', '\r\n', '\r'], 'comment': [0, 1, 2, 3, 4],
          'blank': [0, 1, 2, 3], 'lead': ['', ' ', '\t', '  \t '],
          'sep': [' ', '\t', '   '], 'trail': ['', ' ', '\t '],
          'pathsep': ['/', '\\'], 'dec': ['.', ','],
          'num': ['plain', 'int', 'exp', 'long', 'plus'],
          'path': ['none', 'given', 'empty', 'relative', 'bare'],
          'last_eol': [True, False],
          'sub': ['images', '', 'a/b/c', '.', 'x.y', '..', 'i', 'b'],
          'fmtpos': ['start', 'middle', 'end'],
          'order': ['asis', 'reversed', 'rot'],
          'vers': ['4.0', '3', 'v', '3.1-rc'],
          # what is between the numbers in a file name
          'name': ['.', '#', '#1', ',', ';', '%20', "'", '"', '(b)', '&',
                   '~', '$x', '*', '=', 'v', '-i', '[0]', '{0}', '%s', '..',
                   '\u00e9', '\u4e2d']}


def number(v, lay):
    if v == int(v) and lay['num'] == 'int':
        s = '%d' % v
    elif lay['num'] == 'exp':
        s = '%.10e' % v
    elif lay['num'] == 'long':
        s = '%.6f' % v
    elif lay['num'] == 'plus':
        s = '+%r' % v
    else:
        s = repr(v)
    return s.replace('.', lay['dec'])


def image_name(si, k, lay):
    sub = lay['sub']
    f = '%d_%d.png' % (si, k) if (si + k) % 3 else '%d%s%d.tif' % (
        si, lay['name'], k)
    # also at the beginning of a name
    f = (lay['name'] if k == 1 and lay['name'] != '.' else 's') + f
    return (sub.split('/') if sub else []) + [f]


def render(series, lay, fmt=(12, 640, 480)):
    """-> bytes"""
    blocks = []
    for si, (cmd, t, p, n) in series:
        b = [[cmd, number(t, lay)] + ([number(p, lay)] if cmd == 'b' else [])]
        for k in range(n):
            b.append(['i', lay['pathsep'].join(image_name(si, k, lay))])
        blocks.append(b)
    if lay['order'] == 'reversed':
        blocks.reverse()
    elif lay['order'] == 'rot' and blocks:
        blocks = blocks[1:] + blocks[:1]
    head = [[['v', lay['vers']]], [['n'] + [str(x) for x in fmt]]]
    if lay['fmtpos'] == 'start':
        blocks = head + blocks
    elif lay['fmtpos'] == 'end':
        blocks = blocks + head
    else:
        blocks = head[:1] + blocks[:1] + head[1:] + blocks[1:]
    lines = []
    c = lay['comment']
    if c:
        lines.append('# b 1 2')
    for b in blocks:
        if c == 2:
            lines.append('#')
        if lay['blank'] == 1:
            lines.append('')
        for k, l in enumerate(b):
            lines.append(lay['lead'] + lay['sep'].join(l) + lay['trail'])
            if c == 3:
                lines.append('  # i images/not_me.png')
            if lay['blank'] == 2:
                lines.append('')
            if lay['blank'] == 3:
                lines.append(' \t ')
    if c == 4:
        lines.append('#n 8 1 1')
        lines.append('\t#d 1')
    text = lay['eol'].join(lines)
    if lay['last_eol']:
        text += lay['eol']
    return text.encode('utf-8')


def expected(series, lay, base):
    out = {'temporal': {}, 'spatial': {}}
    for si, (cmd, t, p, n) in series:
        kind = 'temporal' if n == 2 else 'spatial'
        out[kind].setdefault(t, {})[p] = [
            os.path.normpath(os.path.join(base, *image_name(si, k, lay)))
            for k in range(n)]
    return out


def normal(images):
    return {kind: {t: {p: [os.path.normpath(f) for f in fs]
                       for p, fs in d.items()} for t, d in v.items()}
            for kind, v in images.items()}


def parse(ctx, text, lay, name='EMVA1288descriptor.txt'):
    """-> (parser, base directory)"""
    root = ctx.tmp
    d = os.path.join(root, 'set.1')
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, name)
    with open(fn, 'wb') as f:
        f.write(text)
    ctx.step()
    how = lay['path']
    if how == 'none':
        return ParseEmvaDescriptorFile(fn), d
    if how == 'given':
        o = os.path.join(root, 'other', 'place')
        return ParseEmvaDescriptorFile(fn, path=o), o
    if how == 'empty':
        return ParseEmvaDescriptorFile(fn, path=''), ''
    old = os.getcwd()
    try:
        if how == 'relative':
            os.chdir(root)
            return ParseEmvaDescriptorFile(os.path.join('set.1', name)), \
                'set.1'
        os.chdir(d)
        return ParseEmvaDescriptorFile(name), ''
    finally:
        os.chdir(old)


def verify(ctx, p, base, series, lay, fmt=(12, 640, 480)):
    ctx.eq('images', normal(p.images), expected(series, lay, base))
    ctx.eq('format', dict(p.format), {'bits': fmt[0], 'width': fmt[1],
                                      'height': fmt[2]})
    for v in p.format.values():
        ctx.true('format is integer', isinstance(v, int))
    ctx.eq('version', p.version, lay['vers'])


def run_structure(case, ctx):
    seq, fmtpos = case
    lay = dict(PLAIN, fmtpos=fmtpos)
    series = [(i, SERIES[i]) for i in seq]
    p, base = parse(ctx, render(series, lay), lay)
    verify(ctx, p, base, series, lay)
    ctx.state(normal(p.images).__repr__().replace(base, ''))
    ctx.outcome(sorted((k, len(v)) for k, v in p.images.items()))


def run_layout(case, ctx):
    lay = dict(PLAIN, **case)
    series = [(i, SERIES[i]) for i in (0, 1, 7, 8, 5, 6)]
    p, base = parse(ctx, render(series, lay), lay)
    verify(ctx, p, base, series, lay)
    ctx.state(case)


def run_number(case, ctx):
    text, value, where = case
    ctx.step()
    lay = dict(PLAIN)
    body = {'t': 'b %s 7.5' % text, 'p': 'b 12.5 %s' % text,
            'd': 'd %s' % text}[where]
    raw = 'v 4.0\nn 8 3 2\n%s\ni images/a.png\ni images/b.png\n' % body
    p, base = parse(ctx, raw.encode(), lay)
    t, ph = {'t': (value, 7.5), 'p': (12.5, value), 'd': (value, 0.0)}[where]
    names = [os.path.join(base, 'images', x) for x in ('a.png', 'b.png')]
    ctx.eq('images', normal(p.images), {'temporal': {t: {ph: names}},
                                        'spatial': {}})
    ctx.eq('format', dict(p.format), {'bits': 8, 'width': 3, 'height': 2})
    ctx.state(case)


def run_format(case, ctx):
    lay = dict(PLAIN)
    series = [(0, SERIES[0])]
    p, base = parse(ctx, render(series, lay, case), lay)
    verify(ctx, p, base, series, lay, case)
    ctx.state(case)


def run_repeat(case, ctx):
    """the same file may be named more than once"""
    groups = case
    ctx.step()
    lay = dict(PLAIN)
    raw = 'v 4.0\nn 8 3 2\n'
    want = {'temporal': {}, 'spatial': {}}
    for j, names in enumerate(groups):
        t, p = [(1e6, 5.5), (1e6, 0.0), (2e6, 5.5)][j]
        raw += ('b %r %r\n' % (t, p) if p else 'd %r\n' % t) + \
            ''.join('i %s\n' % n for n in names)
    p, base = parse(ctx, raw.encode(), lay)
    for j, names in enumerate(groups):
        t, ph = [(1e6, 5.5), (1e6, 0.0), (2e6, 5.5)][j]
        want['temporal' if len(names) == 2 else 'spatial'].setdefault(
            t, {})[ph] = [os.path.normpath(os.path.join(base, n))
                          for n in names]
    ctx.eq('images', normal(p.images), want)
    ctx.state(case)


DESCS = [([0, 1], (8, 4, 3)), ([7, 8, 0, 1], (12, 640, 480)),
         ([5, 6, 3, 4], (16, 5, 9))]


def run_history(case, ctx):
    """parses must not influence each other, all objects stay as they were"""
    alive = []
    for step, di in enumerate(case):
        seq, fmt = DESCS[di]
        series = [(i, SERIES[i]) for i in seq]
        lay = dict(PLAIN)
        p, base = parse(ctx, render(series, lay, fmt), lay,
                        'd%d_%d.txt' % (step, di))
        alive.append((p, base, series, lay, fmt))
        for a in alive:
            verify(ctx, *a)
    ctx.state(case)


def run_rewrite(case, ctx):
    """a descriptor that is changed in place is read again"""
    lay = dict(PLAIN, path=case[0])
    for di in case[1]:
        seq, fmt = DESCS[di]
        series = [(i, SERIES[i]) for i in seq]
        p, base = parse(ctx, render(series, lay, fmt), lay)
        verify(ctx, p, base, series, lay, fmt)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    depth = 4 if deep else 3
    seqs = [s for n in range(1, depth + 1)
            for s in itertools.permutations(range(len(SERIES)), n)]
    st = [(s, f) for s in seqs for f in ('start', 'middle', 'end')
          if f == 'start' or len(s) < 4]
    lay = [{k: v for k, v in d.items() if v != PLAIN[k]}
           for d in deviations(PLAIN, LAYOUT, 3 if deep else 2)]
    nums = []
    for txt, val in (('1', 1.0), ('1.0', 1.0), ('0.001', 0.001),
                     ('123.456', 123.456), ('123,456', 123.456),
                     ('1000000', 1e6), ('1e6', 1e6), ('1,5e3', 1500.0),
                     ('50000000.5', 50000000.5), ('50000000,5', 50000000.5),
                     ('499999999.9', 499999999.9), ('00012.50', 12.5),
                     ('.5', .5), (',5', .5), ('5.', 5.0), ('5,', 5.0),
                     ('1e-3', 1e-3), ('1E+2', 100.0),
                     ('16777217', 16777217.0),
                     ('9007199254740991', 9007199254740991.0),
                     ('0.1', 0.1), ('0,30000000000000004',
                                    0.30000000000000004)):
        for w in 'tpd':
            nums.append((txt, val, w))
    fm = [(b, w, h) for b in (1, 8, 10, 12, 14, 16) for w in (1, 2, 640, 4096)
          for h in (1, 3, 480, 10000)]
    hist = [h for n in range(1, 5 if deep else 4)
            for h in itertools.product(range(3), repeat=n)]
    chg = [(how, h) for how in ('none', 'given', 'relative', 'bare')
           for n in (2, 3, 4) for h in itertools.product(range(3), repeat=n)]
    al = ('a.png', 'b/a.png', 'b/c.tif')
    groups = [g for L in (2, 3, 4) for g in itertools.product(al, repeat=L)]
    rpt = [(g,) for g in groups] + [
        (g, h) for g in groups[:36 if not deep else None]
        for h in groups[:36]] + [
        (g, h, k) for g in groups[:9] for h in groups[:9]
        for k in groups[:9]]
    return [Space('repeated files', rpt, run_repeat,
                  bound='up to 3 series of 2 to 4 of %d files' % len(al)),
            Space('structures', st, run_structure,
                  bound='all ordered selections of up to %d of %d series'
                  % (depth, len(SERIES))),
            Space('layouts', lay, run_layout,
                  bound='up to %d deviations from the plain layout'
                  % (3 if deep else 2)),
            Space('numbers', nums, run_number, bound='listed number texts'),
            Space('formats', fm, run_format, bound='listed formats'),
            Space('changed files', chg, run_rewrite,
                  bound='all histories of contents of one file up to depth 4'),
            Space('histories', hist, run_history,
                  bound='all histories of parses up to depth %d'
                  % (4 if deep else 3))]
