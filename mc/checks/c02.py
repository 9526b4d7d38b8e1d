"""C02: malformed descriptors"""
import os
from ..core import Space
from emva1288.process import ParseEmvaDescriptorFile

ID = 'C02'
RULE = ('every single (thorough: and every pair of) malformation from a '
        'menu applied at every position of several well-formed descriptors; '
        'unknown command lines inserted at every place between series')
ASSUME = ['malformations are those of the menu',
          'a line of one word is not considered an unknown command']
TECH = ('exhaustive fault enumeration over descriptor positions on the real '
        'parser')

BAD = (ValueError, SyntaxError)


def base(nr):
    """list of blocks, each a list of lines"""
    def ser(cmd, n, k):
        return [cmd] + ['i images\\i%d_%d.png' % (k, j) for j in range(n)]
    if nr == 0:
        b = [['v 4.0'], ['n 8 4 3'], ser('b 1000.0 10.0', 2, 0),
             ser('d 1000.0', 2, 1)]
    elif nr == 1:
        b = [['n 12 640 480'], ser('b 1000.0 10.0', 2, 0),
             ser('d 1000.0', 2, 1), ser('b 1000.0 10.0', 3, 2),
             ser('d 1000.0', 4, 3), ['v 3.0']]
    else:
        b = [ser('d 5,5', 3, 0), ser('b 5,5 7,25', 5, 1), ['v 4.0'],
             ['n 16 3 2'], ser('d 5,5', 2, 2), ser('b 5,5 7,25', 2, 3),
             ser('b 6,5 7,25', 2, 4), ser('d 6.5', 2, 5)]
    return b


def isser(b):
    return b[0][0] in 'bd'


def mutations(blocks):
    """-> list of (name, new blocks); each result is malformed"""
    out = []

    def put(name, new):
        out.append((name, new))

    def repl(i, j, line):
        new = [list(b) for b in blocks]
        new[i][j] = line
        return new
    garbage = ('abc', '1.2.3', '0x10', '1e', '--1', '1,2,3', 'O', '-',
               '1;5', "1'000", '12a')
    for i, b in enumerate(blocks):
        if isser(b):
            # too few images
            put('one image', blocks[:i] + [b[:2]] + blocks[i + 1:])
            put('no image', blocks[:i] + [b[:1]] + blocks[i + 1:])
            # a series given twice, anywhere
            for k in range(len(blocks) + 1):
                dup = [b[0]] + [x.replace('images', 'more') for x in b[1:]]
                put('duplicate', blocks[:k] + [dup] + blocks[k:])
            if b[0][0] == 'd':
                dup = ['b %s 0.0' % b[0].split()[1]] + b[1:]
                put('bright 0 beside dark', blocks + [dup])
                dup = ['b %s 0' % b[0].split()[1]] + b[1:]
                put('bright 0 before dark', [dup] + blocks)
            else:
                f = b[0].split()
                try:
                    eq = 'b %r %re0' % (float(f[1].replace(',', '.')),
                                        float(f[2].replace(',', '.')))
                except ValueError:
                    eq = b[0]
                put('duplicate spelled differently',
                    blocks + [[eq] + b[1:]])
        if b[0][0] == 'n':
            for k in range(len(blocks) + 1):
                put('second format', blocks[:k] + [list(b)] + blocks[k:])
                put('other format', blocks[:k] + [['n 10 7 7']] + blocks[k:])
        for j, line in enumerate(b):
            f = line.split()
            if f[0] == 'v':
                put('lone v', repl(i, j, 'v'))
                continue
            put('field missing', repl(i, j, ' '.join(f[:-1])))
            put('field added', repl(i, j, line + ' 7'))
            put('field added text', repl(i, j, line + ' x'))
            put('only command', repl(i, j, f[0]))
            if f[0] in 'nbd':
                for k in range(1, len(f)):
                    for g in garbage + (('8.5',) if f[0] == 'n' else ()):
                        put('number', repl(i, j, ' '.join(
                            f[:k] + [g] + f[k + 1:])))
    # images without their series
    for k in range(len(blocks) + 1):
        if k == 0 or not isser(blocks[k - 1]):
            put('stray image', blocks[:k] + [['i images\\x.png']] +
                blocks[k:])
    for i, b in enumerate(blocks):
        if isser(b):
            for j in range(1, len(b)):
                put('interrupted series', blocks[:i] +
                    [b[:j] + ['x unknown command'] + b[j:]] +
                    blocks[i + 1:])
    return out


def write(ctx, data):
    fn = os.path.join(ctx.tmp, 'd.txt')
    with open(fn, 'wb') as f:
        f.write(data)
    return fn


def text(blocks, eol='\n'):
    return (eol.join(l for b in blocks for l in b) + eol).encode()


def run_bad(case, ctx):
    nr, k, eol = case
    name, blocks = mutations(base(nr))[k]
    fn = write(ctx, text(blocks, eol))
    e = ctx.raises('refuse: ' + name, BAD, ParseEmvaDescriptorFile, fn)
    ctx.outcome(type(e).__name__, name)
    ctx.state(blocks)


def run_bad2(case, ctx):
    nr, k, m = case
    name, blocks = mutations(base(nr))[k]
    alt = mutations(blocks)
    if m >= len(alt):
        return
    # the second fault might repair the first one only by removing the
    # same line; keep those where the fault lines differ
    name2, blocks2 = alt[m]
    fn = write(ctx, text(blocks2))
    e = ctx.raises('refuse: %s + %s' % (name, name2), BAD,
                   ParseEmvaDescriptorFile, fn)
    ctx.outcome(type(e).__name__)
    ctx.state(blocks2)


BYTES = [b'\xff', b'\xc3\x28', b'\x80', b'\xe9', b'\xed\xa0\x80',
         b'\xfe\xff']


def run_bytes(case, ctx):
    nr, pos, k, comment = case
    lines = text(base(nr)).split(b'\n')
    bad = BYTES[k]
    if comment:
        lines.insert(pos, b'# caf' + bad + b' x')
    else:
        lines[pos] = lines[pos] + bad
    fn = write(ctx, b'\n'.join(lines))
    e = ctx.raises('not text', BAD, ParseEmvaDescriptorFile, fn)
    ctx.outcome(type(e).__name__)
    ctx.state(case)


UNKNOWN = ['x 1', 'x 1 2 3', 'B 1000.0 10.0', 'D 1000.0', 'N 8 1 1',
           'I images\\q.png', 'bb 1 2', 'dark 1000.0', 'image a.png',
           '; a comment', '// b 1 2', 'n: 8 4 3', 'V 9']


def run_unknown(case, ctx):
    nr, places, ui = case
    blocks = base(nr)
    good = ParseEmvaDescriptorFile(write(ctx, text(blocks)))
    want = (good.images, good.format, good.version)
    new = []
    for k in range(len(blocks) + 1):
        if k in places:
            new.append([UNKNOWN[ui]])
        if k < len(blocks):
            new.append(blocks[k])
    p = ParseEmvaDescriptorFile(write(ctx, text(new)))
    ctx.step(2)
    ctx.eq('unknown command skipped', (p.images, p.format, p.version), want)
    ctx.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    bad = [(nr, k, eol) for nr in range(3)
           for k in range(len(mutations(base(nr))))
           for eol in ('\n', '\r\n')]
    s = [Space('single faults', bad, run_bad,
               bound='one malformation at every position, 3 descriptors')]
    byt = [(nr, pos, k, c) for nr in range(3)
           for pos in range(len(text(base(nr)).split(b'\n')) - 1)
           for k in range(len(BYTES)) for c in (0, 1)]
    s.append(Space('bytes', byt, run_bytes,
                   bound='%d bad byte strings at every line' % len(BYTES)))
    unk = []
    for nr in range(3):
        n = len(base(nr)) + 1
        for u in range(len(UNKNOWN)):
            for a in range(n):
                unk.append((nr, [a], u))
                for b in range(a + 1, n):
                    if deep or u < 4:
                        unk.append((nr, [a, b], u))
    s.append(Space('unknown commands', unk, run_unknown,
                   bound='at every one or two places between series'))
    if deep:
        # faults that add a line can not be repaired by another fault
        # elsewhere in the menu, except by destroying the added line itself
        two = []
        for k, (name, blocks) in enumerate(mutations(base(0))):
            if name in ('duplicate', 'second format', 'other format',
                        'number', 'one image', 'no image'):
                two += [(0, k, m) for m in range(len(mutations(blocks)))]
        s.append(Space('double faults', two, run_bad2,
                       bound='every pair of malformations, 1 descriptor'))
    return s
