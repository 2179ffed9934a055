"""What each check explores: jobs = harness entry + bounds. See DESIGN.md for the meaning of the modes."""
SCHEMAS = ["l", "h", "i", "d", "b", "f", "g", "s", "c", "v", "y", "t", "n", "m", "o",
           "[l", "[b", "[s", "(lb", "(sf", "{l}", "{lb}", "<lb>", "<fs>", "[[l", "{[l}", "{<lb>}",
           "{l{b}}", "[{lb}", "(l[b", "<[l{b}>", "{l[lf}", "{bs}", "{fg}", "{(lb}", "{{l}}",
           "{lbfgstym[l(lb{l}<lb>}", "{f}", "{g}", "{s}", "{y}", "{t}", "{n}", "{b}", "{d}",
           "{}", "<l>", "{ff}", "[f", "<ff>", "{[f}", "(ff", "{lf}", "[y", "[g", "{lhidc}", "[t", "[m", "{tm}", "<tm>", "(st", "{mf}", "W", "{W}",
           "X", "p", "q", "{pq}", "[[[[l", "{{{{l}}}}", "<<lb>{l}>", "([l(l{b}", "{ppp}", "[<[lb>"]
COMP = {'none': 0, 'snappy': 1, 'zstd': 2}
TAIL = {'full': 0, 'delta': 1, 'small': 2, 'med': 3, 'lit': 4, 'run': 5, 'first': 6, 'ext': 7}
NULL = {'no': 0, 'any': 1, 'third': 2, 'first': 3, 'all': 4, 'aux': 5, 'after': 6, 'lcg': 7, 'alt': 8, 'last': 9}
PRE = {'lit': 0, 'run': 1, 'delta': 2, 'trip': 3, 'mix': 4}

class Job:
    def __init__(self, entry, schema, **k):
        self.entry, self.schema, self.k = entry, schema, k
        # integers, booleans and lengths stay in their encoders for a while: beside a column of doubles every batch can close its stripe
        if entry in ('run', 'order', 'sink', 'counts') and k.get('limit', -1) >= -2 and k.get('limit', -1) != -1 and len([x for x in k.get('rows', [2]) if x]) * k.get('rep', 1) > 1 and k.get('pad', 1) and not k.get('exact') and not set('fgscvynmopq+') & set(schema): schema = '+' + schema
        pad = entry not in ('limits', 'variants', 'tags', 'proto', 'lengths') and schema[0] == '+'
        name = str(schema)
        if pad: schema = schema[1:]
        if entry in ('limits', 'variants', 'tags', 'proto', 'lengths'): self.p = [schema, k.get('rep', 0)]
        else:
            g = lambda n, d: k.get(n, d)
            b = list(g('rows', [2])); b = (b + [-1] * 3)[:3]
            self.p = [SCHEMAS.index(schema), g('stride', 10), COMP[g('comp', 'none')], g('block', 64), g('limit', -1)] + b + \
                [NULL[g('null', 'no')], NULL[g('nnull', 'no')], TAIL[g('tail', 'full')], g('aux', 0), g('prefix', 0), PRE[g('pre', 'lit')], g('level', 0),
                 g('x15', 0), g('x16', -1), g('x17', -1), g('x18', 0), g('exact', 0), g('x20', 0), g('rep', 1), int(pad), g('order', 0)]
        self.name = entry + ' ' + name + ' ' + ' '.join(f"{a}={'+'.join(map(str, v)) if isinstance(v, (list, tuple)) else v}" for a, v in k.items())
    def line(self): return ' '.join([self.entry] + [str(x) for x in self.p])

def R(schema, **k): return Job('run', schema, **k)

def c01(t):
    q = [R('l', rows=[1]), R('l', rows=[2], tail='delta', null='any'), R('l', rows=[5], tail='small', null='any'), R('l', rows=[3], tail='med'), R('l', rows=[3,0,3], tail='small'),
         R('d', rows=[2], tail='delta'), R('i', rows=[1], null='any'), R('h', rows=[1], null='any')]
    for n in (127, 128): q.append(R('l', rows=[n + 3], prefix=n, tail='small'))
    for n in (128, 129, 130): q.append(R('l', rows=[n + 3], prefix=n, pre='run', tail='small'))
    for n in (129, 130): q.append(R('l', rows=[n + 2], prefix=n, pre='delta', tail='small'))
    q += [R('l', rows=[129], prefix=127, tail='first'), R('l', rows=[5], tail='small', comp='snappy', block=3), R('l', rows=[5], tail='small', comp='zstd', block=2), R('l', rows=[2, 2, 2], tail='small', limit=-2), R('l', rows=[4], tail='small', stride=1, null='any'),
          R('l', rows=[70000], prefix=69998, tail='small'), R('l', rows=[3000], prefix=2998, pre='mix', tail='small'), R('l', rows=[600], prefix=598, pre='trip', tail='small'), R('l', rows=[1, 1], limit=0), R('l', rows=[2, 1], tail='small', limit=0, null='any'), R('d', rows=[4, 4], tail='small', limit=0, pad=0), R('l', rows=[3], tail='ext', stride=2), R('l', rows=[3], tail='ext', comp='snappy', block=11, null='any')]
    if t: q += [R('l', rows=[7], tail='small'), R('l', rows=[6], tail='small', null='any', stride=2), R('l', rows=[4], tail='ext', null='any'), R('l', rows=[2]), R('l', rows=[3], tail='delta'), R('d', rows=[2]), R('i', rows=[2], tail='delta', null='any')] + [R('l', rows=[n + 4], prefix=n, pre=p, tail='small') for p in ('lit', 'run', 'delta', 'trip', 'mix') for n in (126, 127, 128, 129, 130, 131, 255, 256, 258)] + [R('l', rows=[4], tail='small', comp=c, block=b) for c in ('snappy', 'zstd') for b in (1, 2, 3, 4, 5)]
    return q

def c02(t):
    q = [R('b', rows=[n], null='no') for n in (1, 7, 8, 9, 17, 25)] + [R('b', rows=[6], null='any'), R('b', rows=[3, 0, 6], null='any', stride=2), R('b', rows=[9, 9], limit=-2)]
    for n in (1007, 1016, 1023): q.append(R('b', rows=[n + 10], prefix=n))
    for n in (1023, 1032, 1039): q.append(R('b', rows=[n + 18], prefix=n, pre='run'))
    q += [R('b', rows=[25], comp='snappy', block=2), R('b', rows=[25], comp='zstd', block=1), R('{bs}', rows=[9], null='no', aux=1, tail='run'), R('[b', rows=[4], aux=10), R('b', rows=[70000], prefix=69990), R('b', rows=[3000], prefix=2990, pre='mix'), R('b', rows=[12], stride=8), R('b', rows=[12], stride=1, limit=0)]
    if t: q += [R('b', rows=[n]) for n in range(2, 34)] + [R('b', rows=[9], null='any'), R('b', rows=[8], null='any', stride=3)] + [R('b', rows=[n + 18], prefix=n, pre=p) for p in ('lit', 'run') for n in (1000, 1008, 1015, 1016, 1017, 1024, 1031, 1032, 1033, 1040, 1047, 1048)] + [R('b', rows=[20], comp=c, block=b, stride=s) for c in ('snappy', 'zstd') for b in (1, 2, 3) for s in (5, 8)]
    return q
def c03(t):
    q = [R('f', rows=[3]), R('g', rows=[2]), R('g', rows=[3]), R('f', rows=[3], null='any'), R('g', rows=[2, 2], limit=0), R('f', rows=[2, 2], comp='snappy', block=3), R('g', rows=[2], comp='zstd', block=5), R('f', rows=[2], stride=1, null='any'), R('{fg}', rows=[2]), R('f', rows=[3], stride=2, limit=0), R('g', rows=[1, 1], stride=1, comp='snappy', block=9), R('[f', rows=[2], aux=2), R('f', rows=[70], prefix=68, stride=16), R('<ff>', rows=[3])]
    if t: q += [R('f', rows=[5], null='any'), R('g', rows=[4], null='any'), R('g', rows=[4], stride=1, limit=0), R('f', rows=[2000], prefix=1997), R('g', rows=[2000], prefix=1997, comp='snappy', block=100)] + [R(s, rows=[2], comp=c, block=b) for s in 'fg' for c in ('snappy', 'zstd') for b in range(1, 9)]
    return q
def c04(t):
    q = [R(s, rows=[2], null='any') for s in 'scvy'] + [R('s', rows=[2], tail='small', aux=4), R('s', rows=[3, 0, 2], aux=0), R('y', rows=[3], aux=3, stride=1), R('s', rows=[130], prefix=127, aux=0), R('s', rows=[133], prefix=129, pre='run', aux=3),
         R('s', rows=[2], aux=5, comp='snappy', block=3), R('y', rows=[2], aux=9, comp='zstd', block=4), R('v', rows=[1], aux=130), R('y', rows=[2], aux=200), R('s', rows=[2, 2], aux=0, limit=-2), R('s', rows=[2], aux=3000, tail='lit'), R('y', rows=[2], aux=3000, stride=1), R('y', rows=[1], aux=70000, tail='lit'), R('s', rows=[2], aux=40000, tail='lit', comp='snappy', block=1000), R('s', rows=[300], prefix=298, aux=2, stride=100), R('v', rows=[3], aux=0, stride=2, limit=0, null='any')]
    if t: q += [R(s, rows=[3], aux=0, null='any', stride=k, limit=l) for s in 'scvy' for k in (1, 2) for l in (-1, 0)] + [R('s', rows=[1], aux=k, tail='small') for k in (2, 4, 6, 8, 10)] + [R('y', rows=[1], aux=k) for k in (1, 2, 16, 64, 127, 128, 129, 255, 256, 257, 1000)] + [R('s', rows=[4], aux=0), R('y', rows=[3], aux=100), R('c', rows=[2], aux=101), R('s', rows=[1000], prefix=997, aux=1, pre='trip')]
    return q
def c05(t):
    q = [R('t', rows=[1], aux=0, tail='small'), R('t', rows=[1], aux=1, tail='med'), R('t', rows=[2], aux=1, tail='med'), R('t', rows=[2], aux=2, tail='small'), R('t', rows=[3], aux=1, tail='small', null='any'), R('t', rows=[2], aux=1, tail='small', comp='snappy', block=3), R('t', rows=[2], aux=1, tail='small', comp='zstd', block=3),
         R('t', rows=[1, 2], aux=1, tail='small', limit=0), R('t', rows=[132], prefix=129, pre='run', aux=1, tail='small'), R('t', rows=[131], prefix=128, aux=1, tail='small'), R('t', rows=[3], aux=1, tail='small', stride=1), R('{t}', rows=[3], aux=1, tail='small', nnull='any'), R('[t', rows=[2], aux=1, tail='small'), R('{tm}', rows=[2], aux=1, tail='small', nnull='any')]
    if t: q += [R('t', rows=[1], aux=0, tail='med'), R('t', rows=[2], aux=1, tail='delta'), R('t', rows=[2], aux=0, tail='small'), R('t', rows=[3], aux=2, tail='small'), R('t', rows=[1], aux=0)]
    return q
def c06(t):
    q = [R('m', rows=[2], aux=k) for k in range(12)] + [R('m', rows=[2], aux=53), R('o', rows=[3], aux=4, null='any'), R('n', rows=[2], aux=53)] + [R(s, rows=[1], aux=52) for s in 'nmo'] + \
        [R('m', rows=[2], aux=53, comp='snappy', block=4), R('m', rows=[2], aux=53, comp='zstd', block=4), R('n', rows=[1, 1], aux=53, limit=0), R('n', rows=[2, 2], aux=2, limit=0), R('o', rows=[132], prefix=130, aux=53), R('m', rows=[131], prefix=128, aux=3), R('m', rows=[3], aux=5, stride=1), R('{n}', rows=[3], aux=6, nnull='any'), R('n', rows=[2], aux=8), R('o', rows=[2], aux=11), R('[m', rows=[2], aux=2, tail='small')]
    if t: q += [R('m', rows=[2], aux=52), R('o', rows=[3], aux=52, null='any'), R('m', rows=[1], aux=51), R('m', rows=[1], aux=50), R('n', rows=[1], aux=50), R('o', rows=[1], aux=50)] + [R('m', rows=[3], aux=k) for k in range(12)]
    return q
def c07(t):
    q = [R('[l', rows=[3], tail='small', nnull='any'), R('(lb', rows=[2], tail='small', nnull='any', null='any'), R('[s', rows=[2], aux=0), R('(sf', rows=[2], aux=1, tail='small'), R('[[l', rows=[2], tail='small', nnull='any'), R('{[l}', rows=[3], tail='small'), R('[{lb}', rows=[2], tail='small', nnull='any'), R('(l[b', rows=[2], tail='small'),
         R('[l', rows=[2, 2], tail='small', limit=-2), R('[b', rows=[131], prefix=1000, aux=1), R('[l', rows=[3], aux=5, tail='lit'), R('[l', rows=[3], tail='small', comp='snappy', block=2), R('[l', rows=[3], tail='small', stride=1), R('{(lb}', rows=[2], tail='small'), R('(lb', rows=[1, 1], tail='small', nnull='any', limit=0, stride=1), R('[s', rows=[1, 1], aux=0, limit=0, comp='zstd', block=3, tail='small'), R('[[l', rows=[1, 1], tail='lit', limit=0, nnull='any'), R('[b', rows=[1100], prefix=2000000, aux=4, stride=100)]
    if t: q += [R('[l', rows=[4], tail='small', nnull='any'), R('(lb', rows=[3], tail='lit', nnull='any', null='any'), R('[[l', rows=[3], tail='lit', nnull='any'), R('[{lb}', rows=[3], tail='lit', nnull='any'), R('(l[b', rows=[3], tail='lit', nnull='any'), R('(sf', rows=[3], aux=0, tail='small'), R('[l', rows=[2, 2], tail='small', nnull='any', limit=-2, comp='snappy', block=2)] + [R('[l', rows=[2], aux=k, tail='lit') for k in (5, 6, 7, 9)]
    return q
def c08(t):
    q = [R('{lb}', rows=[3], tail='small', nnull='any', null='any'), R('{l}', rows=[4], tail='small', nnull='any'), R('<lb>', rows=[3], tail='small', nnull='any'), R('<fs>', rows=[2], tail='small', aux=0), R('{l{b}}', rows=[3], tail='small', nnull='any'), R('<[l{b>}' if False else '<[l{b}>', rows=[2], tail='small'), R('{<lb>}', rows=[3], tail='small', nnull='any'),
         R('{{l}}', rows=[3], tail='small', nnull='any'), R('{l[lf}', rows=[2], tail='small'), R('<lb>', rows=[132], prefix=1000, aux=3, tail='small'), R('<lb>', rows=[2, 2], limit=-2, tail='small'), R('{lb}', rows=[2, 2], tail='small', comp='snappy', block=3), R('<lb>', rows=[3], stride=1, tail='small'), R('{lbfgstym[l(lb{l}<lb>}', rows=[2], tail='lit', nnull='any', aux=1), R('<l>', rows=[2], tail='small'), R('{}', rows=[3], nnull='any'), R('W', rows=[2], aux=7), R('{W}', rows=[2], aux=7, nnull='any'), R('{lb}', rows=[2, 2], tail='small', limit=0, nnull='any', stride=1), R('<lb>', rows=[2, 1], tail='small', limit=0, nnull='any', null='any')]
    if t: q += [R('<lb>', rows=[4], tail='small', nnull='any'), R('{<lb>}', rows=[4], tail='lit', nnull='any', null='any'), R('{l{b}}', rows=[4], tail='lit', nnull='any', null='any'), R('<[l{b}>', rows=[3], tail='lit', nnull='any'), R('{{l}}', rows=[4], tail='lit', nnull='any', null='any'), R('W', rows=[3], aux=7, tail='lit'), R('W', rows=[2, 1], aux=7, limit=0, stride=1), R('<fs>', rows=[3], aux=0), R('<lb>', rows=[3], comp='zstd', block=1, tail='small')]
    return q
def c09(t):
    q = [R(s, rows=[4], null='any', nnull='any', tail='lit', aux=1) for s in ["l", "d", "b", "f", "g", "s", "y", "t", "m", '[l', '(lb', '{lb}', '<lb>']]
    q += [R('{lb}', rows=[2, 2], null='any', tail='lit', limit=0), R('l', rows=[2, 2], null='any', tail='lit', limit=0), R('[l', rows=[2, 1], nnull='any', null='any', tail='lit', limit=0, aux=1), R('l', rows=[9], null='any', tail='run'), R('{l}', rows=[4], null='any', nnull='any', tail='lit')]
    q += [R('{lbfgstym[l(lb{l}<lb>}', rows=[3], null=x, nnull=y, tail='lit', aux=1) for x in ('alt', 'first', 'last', 'all') for y in ('no', 'alt')]
    q += [R('l', rows=[1043], prefix=1038, null='after', tail='run', pre='run'), R('s', rows=[4], null='any', tail='lit', comp='snappy', block=1), R('<lb>', rows=[4], null='any', nnull='any', tail='lit', stride=2)]
    q += [R(s, rows=[3, 2], null='any', tail='lit', aux=1, stride=k, limit=l) for s in ("l", "b", "f", "s", "t", "m") for k, l in ((1, 0), (2, -2))]
    if t: q += [R(s, rows=[6], null='any', tail='lit', aux=1, stride=k, limit=l) for s in LEAF for k in (1, 2, 3, 4) for l in (-1, 0)] + [R('l', rows=[n + 10], prefix=n, null='after', tail='run', pre='run') for n in range(1016, 1064, 4)] + [R(s, rows=[2, 2, 2], nnull='any', null='any', tail='lit', limit=0, aux=1) for s in ('{lb}', '<lb>', '{l{b}}')]
    return q
def c10(t):
    q = []
    for c in ('snappy', 'zstd'):
        q += [R('l', rows=[2], tail='med', comp=c, block=-1), R('y', rows=[2], aux=9, comp=c, block=-1), R('s', rows=[1], aux=3, tail='small', comp=c, block=64), R('s', rows=[2], aux=102, tail='lit', comp=c, block=64), R('{lb}', rows=[3], tail='small', comp=c, block=7), R('g', rows=[2], comp=c, block=-1), R('b', rows=[20], comp=c, block=1),
              R('s', rows=[3], aux=40, comp=c, block=16, tail='lit', pre='mix'), R('l', rows=[2], tail='med', comp=c, block=0), R('s', rows=[2], aux=0, comp=c, block=262144), R('s', rows=[4], aux=40, comp=c, block=-1, tail='lit'), R('l', rows=[2, 2], tail='small', comp=c, block=5, limit=0), R('[l', rows=[2], tail='small', comp=c, block=3)]
        if t: q += [R('s', rows=[1], aux=102, comp=c, block=64), R('y', rows=[2], aux=33, comp=c, block=32), R('s', rows=[2], aux=102, comp=c, block=64), R('l', rows=[2], tail='delta', comp=c, block=-1)]
    for c in ('snappy', 'zstd'): q += [R('y', rows=[1], aux=40000, comp=c, block=262144, tail='lit'), R('y', rows=[2], aux=40000, comp=c, block=33000, tail='lit'), R('y', rows=[2], aux=40000, comp=c, block=40000, tail='lit'), R('y', rows=[3], aux=3000, comp=c, block=3001, tail='lit', stride=2)]
    q += [R('y', rows=[1], aux=9000000, comp='snappy', block=8388607, tail='lit')] if t else []
    q += [R('s', rows=[2], aux=40, comp='zstd', block=100, level=-1, tail='lit', pre='mix')]
    return q
def c11(t):
    q = []; BIG = '{lbfgstym[l(lb{l}<lb>}'
    for c in ('none', 'snappy', 'zstd'):
        q += [R('l', rows=[2, 2], tail='med' if c == 'none' or t else 'small', limit=-2, comp=c), R(BIG, rows=[2, 1], null='alt', tail='small' if c == 'none' else 'lit', limit=0, comp=c, aux=1), R('s', rows=[2], comp=c, aux=0, null='any'), R('[l', rows=[2, 2] if c == 'none' or t else [1, 1], comp=c, tail='small', limit=-2, stride=1)]
        q += [R(s, rows=[1, 1], null='any', nnull='any', tail='lit', limit=0, comp=c, aux=1, block=5) for s in ('(lb', '{lb}', '<lb>', 't', 'm')]
    q += [R('l', rows=[]), R('{lb}', rows=[0, 0]), R('l', rows=[1], stride=0), R('<lb>', rows=[2, 1], tail='small', limit=0), R('l', rows=[0, 3, 0], limit=0, tail='small'), R(BIG, rows=[]), R(BIG, rows=[0], comp='snappy'), R('s', rows=[], comp='zstd'), R('W', rows=[1], aux=7), R('y', rows=[2, 1], aux=40000, comp='snappy', block=262144, tail='lit', limit=0), R('l', rows=[1, 1, 1], limit=0, stride=1, tail='small'), R('s', rows=[2, 2], aux=1, stride=1, limit=-2)]
    if t: q += [R(s, rows=[2, 1], null='any', nnull='any', tail='lit', limit=l, comp=c, aux=1, block=b, stride=k) for s in ('l', 's', '[l', '(lb', '{lb}', '<lb>', 't', 'm') for c, b in (('none', 64), ('snappy', 3), ('zstd', 7)) for l in (-1, 0) for k in (1, 2)]
    return q
def c12(t):
    q = [R('f', rows=[2, 1, 2], limit=-2, exact=1, tail='small'), R('g', rows=[1, 2, 1], limit=-2, exact=1), R('{fg}', rows=[1, 1, 1], limit=-2, exact=1, tail='lit'), R('s', rows=[1, 1, 1], limit=-2, exact=1, aux=0), R('l', rows=[2, 2, 2], limit=-2, tail='small'), R('{l[lf}', rows=[1, 1, 1], limit=-2, tail='lit'), R('{l[lf}', rows=[1, 1], limit=-2, tail='small'), R('f', rows=[2, 0, 2], limit=0, exact=1), R('f', rows=[2, 2], limit=-1), R('f', rows=[2, 0, 1], limit=8, exact=1),
         R('l', rows=[2, 2, 1], null='any', limit=-2, tail='small'), R('t', rows=[2, 2], limit=0, tail='lit', null='any', aux=1), R('f', rows=[2, 2, 2], limit=-2, exact=1, tail='lit', comp='snappy', block=64)]
    q += [R(s, rows=[2, 2, 1], limit=-2, tail='lit', null='any', nnull='no', aux=1, stride=2) for s in LEAF] + [R(s, rows=[1, 1, 1], limit=-2, tail='lit', nnull='any', aux=1, stride=1) for s in ('[l', '(lb', '{lb}', '<lb>')] + [R('f', rows=[2, 3, 1], limit=-2, exact=1, stride=2, tail='lit')]
    q += [R('f', rows=[2, 1, 2], limit=-2, exact=1, tail='lit', comp=c, order=-2, stride=3) for c in ('none', 'snappy', 'zstd')]
    if t: q += [R('l', rows=[3, 2, 3], limit=-2, tail='small'), R('g', rows=[2, 2, 2], limit=-2, exact=1, null='no'), R('f', rows=[3, 2, 3], limit=-2, exact=1, stride=2, tail='lit'), R('{lbfgstym[l(lb{l}<lb>}', rows=[1, 1, 1], limit=-2, tail='lit', aux=1, nnull='any')]
    return q
LEAF = ["l", "d", "b", "f", "g", "s", "y", "t", "m"]
def c13(t):
    q = [R(s, rows=[3], null='any', tail='lit', stride=2) for s in LEAF] + [R(s, rows=[2, 2], null='any', tail='lit', stride=1, limit=0) for s in LEAF] + [R(s, rows=[2, 1], null='any', nnull='any', tail='lit', stride=2, limit=0, aux=1) for s in ('[l', '(lb', '{lb}', '<lb>')]
    q += [R('l', rows=[]), R('l', rows=[0]), R('{lbfgstym[l(lb{l}<lb>}', rows=[5, 4], null='lcg', nnull='alt', tail='lit', stride=3, limit=-2, aux=3), R('l', rows=[300], tail='run', prefix=295, null='after', stride=128)]
    q += [R(s, rows=[2, 1, 2], null='any', tail='lit', stride=3, limit=-2, aux=1) for s in LEAF]
    if t: q += [R(s, rows=[6], null='any', tail='lit', stride=k, limit=l, aux=1) for s in LEAF for k in (1, 2, 3, 4) for l in (-1, 0)] + [R(s, rows=[3, 2], null='any', nnull='any', tail='lit', stride=k, limit=0, aux=1) for s in ('[l', '(lb', '{lb}', '<lb>') for k in (1, 2, 3)]
    return q
def c14(t):
    q = [R('l', rows=[2]), R('l', rows=[2], tail='ext', stride=1), R('d', rows=[1, 1], tail='ext', limit=0, null='any'), R('l', rows=[3], tail='ext'), R('d', rows=[1, 1, 1], tail='ext', limit=0), R('l', rows=[3], tail='small', stride=2), R('i', rows=[2, 1], tail='small', stride=1, limit=0), R('{l}', rows=[2], tail='ext', nnull='any', stride=1), R('l', rows=[3], tail='med'), R('l', rows=[2, 1], tail='med', null='any', stride=1, limit=0), R('i', rows=[3], tail='med'), R('h', rows=[2], tail='delta'), R('l', rows=[4], tail='small', null='any', stride=2), R('{lhidc}', rows=[2], tail='small', aux=1)]
    if t: q += [R('l', rows=[2], stride=1), R('l', rows=[3], tail='ext', stride=2), R('l', rows=[3], tail='ext', stride=1, null='any'), R('i', rows=[2, 1], tail='ext', stride=1, limit=0), R('d', rows=[1, 1], limit=0), R('l', rows=[4], tail='ext'), R('l', rows=[4], tail='ext', stride=2), R('l', rows=[4], tail='med', stride=2), R('l', rows=[1, 1, 1], limit=0), R('l', rows=[3], stride=1), R('{l}', rows=[2], nnull='any'), R('[l', rows=[2], aux=1), R('<l>', rows=[2]), R('{lb}', rows=[2]), R('h', rows=[2]), R('i', rows=[2]), R('d', rows=[2])]
    return q
def c15(t):
    q = [R('f', rows=[2]), R('g', rows=[2]), R('f', rows=[3], null='any'), R('g', rows=[3]), R('f', rows=[3], tail='small', stride=1), R('g', rows=[2, 2], tail='small', limit=0), R('{fg}', rows=[1, 1], limit=0), R('f', rows=[2, 1], stride=1, limit=0), R('f', rows=[4], tail='small', stride=2, null='any'), R('g', rows=[4], tail='small', stride=2, null='any', limit=0), R('f', rows=[2, 2], stride=2, limit=0), R('{f}', rows=[2], nnull='any'), R('[f', rows=[2], aux=1), R('<ff>', rows=[2]), R('f', rows=[1, 1, 1], limit=0), R('g', rows=[1, 1], limit=0, stride=1)]
    if t: q += [R('f', rows=[4]), R('g', rows=[4]), R('f', rows=[5], tail='small', stride=2), R('g', rows=[1, 1, 1], limit=0), R('f', rows=[3], stride=1), R('g', rows=[3], stride=1), R('g', rows=[3], null='any', stride=2), R('f', rows=[2, 1, 1], tail='small', limit=-2, null='any')]
    return q
def c16(t):
    q = [R('s', rows=[2], aux=0, null='any'), R('y', rows=[3], aux=0, null='any'), R('c', rows=[3], aux=1), R('v', rows=[2], aux=2), R('s', rows=[3], aux=1, stride=1), R('s', rows=[2, 1], aux=1, limit=0), R('s', rows=[2], tail='small', aux=4), R('y', rows=[2, 2], aux=0, limit=0, stride=1), R('s', rows=[3], aux=100), R('s', rows=[2], aux=101), R('s', rows=[2], aux=3000, tail='lit'), R('s', rows=[2], aux=3000, stride=1), R('y', rows=[2], aux=3000, limit=0), R('s', rows=[2], aux=0, stride=1, limit=0, null='any'), R('s', rows=[1, 1, 1], aux=1, limit=0), R('c', rows=[4], aux=1, stride=2), R('v', rows=[2, 2], aux=1, stride=2, limit=0), R('{s}', rows=[3], aux=1, nnull='any'), R('[s', rows=[2], aux=1), R('(sf', rows=[2], aux=1, tail='lit'), R('y', rows=[4], aux=0, stride=2, null='any'), R('s', rows=[200], prefix=197, aux=2, stride=64)]
    if t: q += [R(s, rows=[3], aux=0, null='any', stride=k, limit=l) for s in 'scvy' for k in (1, 2) for l in (-1, 0)] + [R('s', rows=[4], aux=0), R('s', rows=[5], aux=1), R('s', rows=[3], tail='small', aux=4, stride=1), R('s', rows=[4], aux=100, stride=2), R('s', rows=[3], aux=101), R('s', rows=[2], aux=300)]
    return q
def c17(t):
    q = [R('t', rows=[1], aux=0, tail='small'), R('t', rows=[1], aux=1, tail='med'), R('t', rows=[2], aux=1, tail='med'), R('t', rows=[3], aux=1, tail='small', stride=1), R('t', rows=[2, 1], aux=1, tail='small', null='any', limit=0), R('{t}', rows=[2], aux=2, tail='small', nnull='any'), R('t', rows=[3, 1], aux=1, tail='lit', stride=2, limit=0, null='any'), R('t', rows=[1, 1, 1], aux=1, tail='small', limit=0), R('[t', rows=[2], aux=1, tail='small'), R('<tm>', rows=[3], aux=1, tail='small'), R('(st', rows=[2], aux=1, tail='small'), R('t', rows=[3], aux=1, tail='small', null='any', stride=2), R('t', rows=[1, 2], aux=1, tail='small', limit=0), R('t', rows=[4], prefix=2, aux=1, tail='small', stride=2), R('t', rows=[6], prefix=4, aux=1, tail='small', stride=2, null='after')]
    if t: q += [R('t', rows=[4], aux=1, tail='small', stride=2), R('t', rows=[2, 2], aux=1, tail='small', stride=1, limit=0), R('t', rows=[4], aux=1, tail='small', stride=2, null='any'), R('t', rows=[1], aux=0, tail='med'), R('t', rows=[1], aux=0), R('t', rows=[2], aux=0, tail='small'), R('t', rows=[3], aux=2, tail='small'), R('t', rows=[2], aux=1, tail='delta')]
    return q
def c18(t):
    q = [R('m', rows=[2], aux=k) for k in range(12)] + [R('n', rows=[1], aux=52), R('m', rows=[1], aux=52), R('o', rows=[1], aux=52), R('m', rows=[2], aux=53), R('o', rows=[2], aux=53), R('m', rows=[1, 1], aux=7, limit=0), R('m', rows=[2], aux=7, stride=1), R('o', rows=[3], aux=0, null='any', stride=1), R('m', rows=[2, 1], aux=2, limit=0), R('m', rows=[2], aux=53, limit=0, stride=1), R('n', rows=[2], aux=8), R('o', rows=[2], aux=3), R('m', rows=[4], aux=7, stride=2), R('m', rows=[4], aux=2, stride=2), R('m', rows=[1, 1, 1], aux=7, limit=0), R('n', rows=[1, 1, 1], aux=8, limit=0), R('[m', rows=[2], aux=2), R('{n}', rows=[2], aux=2, nnull='any'), R('<tm>', rows=[2], aux=7, tail='lit'), R('o', rows=[2, 2], aux=7, stride=1, limit=0)]
    if t: q += [R(s, rows=[3], aux=k) for s in 'nmo' for k in range(12)] + [R('m', rows=[2, 2], aux=k, stride=1, limit=0) for k in range(12)] + [R(s, rows=[1], aux=k) for s in 'nmo' for k in (50, 51)] + [R('m', rows=[2], aux=52), R('n', rows=[2], aux=52, stride=1)]
    return q
def c19(t):
    q = [R('b', rows=[6], null='any', stride=2), R('b', rows=[20]), R('b', rows=[3, 4], limit=0), R('b', rows=[130], prefix=125, pre='run'), R('b', rows=[3, 3], null='any', limit=-2, stride=2), R('[b', rows=[3], aux=0), R('{bs}', rows=[4], nnull='any', aux=1, tail='run'), R('b', rows=[2, 2, 2], limit=0, stride=1), R('b', rows=[9], stride=3, null='no'), R('<lb>', rows=[3], tail='run'), R('(lb', rows=[3], tail='run', aux=1), R('b', rows=[1000], prefix=992, stride=128), R('b', rows=[5], null='any', limit=0, stride=2)]
    if t: q += [R('b', rows=[7], null='any', stride=k, limit=l) for k in (1, 2, 3, 4) for l in (-1, 0)] + [R('b', rows=[n]) for n in range(1, 33)] + [R('b', rows=[3, 3, 3], limit=-2, stride=k) for k in (1, 2, 3)]
    return q
def c20(t):
    q = [R(s, rows=[5], tail='lit', null='any', stride=2) for s in LEAF] + [R('l', rows=[4], tail='small', stride=k) for k in (1, 2, 3, 4, 5)] + [R('{lb}', rows=[3, 2], tail='small', stride=2), R('{l}', rows=[4], nnull='any', tail='lit', stride=2), R('[l', rows=[4], tail='lit', stride=2, aux=0), R('<lb>', rows=[4], tail='lit', stride=2), R('(lb', rows=[4], tail='lit', stride=2), R('l', rows=[3, 3], tail='small', stride=2, limit=0), R('l', rows=[2, 3], null='any', tail='lit', stride=2, limit=-2), R('l', rows=[3], stride=0, tail='small')]
    q += [R(s, rows=[3, 4], tail='lit', null='any', stride=3, limit=0, aux=1) for s in LEAF] + [R(s, rows=[3, 3], tail='lit', stride=3, aux=1) for s in LEAF] + [R('{lbfgstym[l(lb{l}<lb>}', rows=[3], tail='lit', aux=1, nnull='no', stride=2), R('l', rows=[300], prefix=297, tail='small', stride=100), R('l', rows=[2, 2, 2], tail='lit', stride=4, limit=-2), R('l', rows=[3, 2], tail='lit', stride=5, limit=0, comp='snappy', block=3)]
    if t: q += [R(s, rows=[6], tail='lit', null='any', stride=k, limit=l, aux=1) for s in LEAF for k in (1, 2, 3, 4, 5, 6) for l in (-1, 0)] + [R(s, rows=[a, b], tail='lit', stride=k, limit=-2, aux=1) for s in LEAF for k in (1, 2, 3) for a in (1, 2, 3) for b in (1, 2, 3)]
    return q
def c21(t):
    q = [R(s, rows=[5], tail='lit', null='any', stride=2) for s in LEAF] + [R('l', rows=[5], tail='small', stride=k) for k in (1, 2, 3)] + [R('s', rows=[3], aux=0, stride=1), R('b', rows=[12], stride=5), R('b', rows=[21], stride=9), R('l', rows=[4], tail='small', stride=1, comp='snappy', block=2), R('{lb}', rows=[5], tail='small', stride=2, comp='zstd', block=3), R('t', rows=[3], tail='small', aux=1, stride=1), R('l', rows=[130], prefix=127, tail='small', stride=64),
         R('[l', rows=[4], tail='lit', stride=2, aux=0), R('m', rows=[3], aux=7, stride=1, comp='snappy', block=4), R('y', rows=[4], aux=3, stride=1, comp='zstd', block=2), R('f', rows=[4], stride=1, comp='snappy', block=3, tail='small'), R('l', rows=[4], null='any', tail='lit', stride=1, comp='snappy', block=1), R('<lb>', rows=[4], tail='lit', stride=2, null='any')]
    q += [R(s, rows=[4], tail='lit', null='any', stride=1, comp=c, block=b, aux=1) for s in ('b', 'f', 's', 't', 'm', '[l', '(lb') for c, b in (('snappy', 1), ('zstd', 3))] + [R('l', rows=[3, 3], tail='small', stride=2, limit=0), R('l', rows=[600], prefix=597, tail='small', pre='mix', stride=97), R('l', rows=[400], prefix=397, tail='small', pre='run', stride=130), R('b', rows=[1100], prefix=1090, stride=501), R('y', rows=[4], aux=3000, tail='lit', stride=1, comp='snappy', block=1000), R('s', rows=[4], aux=3000, tail='lit', stride=2, comp='zstd', block=4096), R('l', rows=[70], prefix=67, null='after', tail='lit', stride=9)]
    if t: q += [R(s, rows=[5], tail='lit', null='any', stride=k, comp=c, block=b, aux=1) for s in LEAF + ['[l', '(lb', '{lb}', '<lb>'] for k in (1, 2, 3) for c, b in (('none', 64), ('snappy', 1), ('snappy', 3), ('zstd', 2), ('zstd', 5))] + [R('l', rows=[n + 3], prefix=n, pre=p, tail='small', stride=k) for p in ('lit', 'run', 'delta', 'mix') for n in (127, 128, 130, 256) for k in (63, 64, 127, 128, 129, 130)] + [R('b', rows=[n + 6], prefix=n, pre=p, stride=k) for p in ('lit', 'run') for n in (1014, 1024, 1034) for k in (7, 8, 509)]
    return q
def c22(t):
    C = lambda s, **k: Job('config', s, **k)
    q = [C('l', rows=[2], x15=2, comp=c, block=100, order=-2, tail='lit', level=-1) for c in ('none', 'snappy', 'zstd')] + [C('m', rows=[1], x15=1, aux=0), C('c', rows=[1], x15=1, aux=1), C('v', rows=[1], x15=1, aux=1), C('l', rows=[1], x15=2, tail='small'), C('{lb}', rows=[1], x15=8, tail='small'), C('l', rows=[2], x15=4, comp='snappy', tail='small'), C('l', rows=[2], x15=4, comp='zstd', tail='small'), C('{lbfgstym[l(lb{l}<lb>}', rows=[1], tail='lit', aux=1, x15=1), C('{lhidc}', rows=[1], tail='lit', aux=1, x15=1)] + [C(s, rows=[1], tail='lit', aux=1) for s in SCHEMAS]
    return q
def c23(t):
    N = lambda s, **k: Job('counts', s, **k)
    q = [N(s, rows=[2, 1], x15=1, tail='run', aux=1) for s in SCHEMAS if not set('WX') & set(s)] + [N(s, rows=[2, 2], x15=1, tail='run', aux=1, stride=k) for s in SCHEMAS if not set('WX') & set(s) and s != '{lbfgstym[l(lb{l}<lb>}' for k in (1, 2, 4)] + [N('{lbfgstym[l(lb{l}<lb>}', rows=[2], x15=1, tail='run', aux=1, stride=k) for k in (1, 2)] + [N(s, rows=[2], x15=2, tail='run', nnull='any', aux=0) for s in ('{lb}', '<lb>', '[l', '(lb', '{l{b}}', '[[l')] + [N('l', rows=[0, 2], x15=1, tail='run'), N('{lb}', rows=[2, 2], x15=2, tail='run', limit=0)]
    q += [N(s, rows=[1, 2], x15=1, tail='run', aux=1, limit=0, stride=k) for s in ('{lb}', '<lb>', '[l', '(lb', '{l{b}}', '[[l') for k in (1, 10)]
    if t: q += [N(s, rows=[3], x15=2, tail='run', nnull='any', aux=1, stride=k) for s in ('{lb}', '<lb>', '[l', '(lb', '{l{b}}') for k in (1, 2, 3)] + [N(s, rows=[2, 2], x15=2, tail='run', aux=1) for s in ('{lb}', '<lb>', '[l', '(lb', '{l{b}}', '[[l', '{<lb>}', '[{lb}', '(l[b')]
    return q
def c24(t):
    S = lambda s, **k: Job('sink', s, **k)
    q = [S('l', rows=[2], tail='small', x15=k) for k in range(9)] + [S('{lb}', rows=[2, 1], tail='lit', limit=0, x15=k) for k in range(9)] + [S('s', rows=[2], tail='lit', comp='snappy', block=4, x15=k) for k in (0, 1, 2, 3, 5, 7)] + [S('l', rows=[2], tail='lit', comp='zstd', block=4, x15=k) for k in (0, 3)] + [S('y', rows=[2], aux=3000, tail='lit', x15=k) for k in (0, 1, 2, 3, 4, 8)] + [S('l', rows=[], x15=k) for k in range(9)]
    if t: q += [S('{lbfgstym[l(lb{l}<lb>}', rows=[2, 1], tail='lit', aux=1, limit=0, x15=k, comp=c, block=5) for k in range(9) for c in ('none', 'snappy', 'zstd')]
    return q
def c25(t):
    O = lambda s, **k: Job('order', s, **k)
    q = [O(s, rows=[3], tail='small', x20=1, aux=1) for s in ('l', 'b', 's', '{lb}', '[l', '<lb>', '(lb')] + [O('{lb}', rows=[4], tail='lit', null='alt', stride=2), O('l', rows=[4], tail='small', comp='snappy', block=3, x20=1), O('{lbfgstym[l(lb{l}<lb>}', rows=[3], tail='lit', aux=1, nnull='alt', x20=1), O('m', rows=[2], aux=53, x20=1), O('t', rows=[2], aux=1, tail='small', x20=1), O('f', rows=[2], x20=1)] + [O(s, rows=[3], tail='lit', aux=1, x20=1, stride=k, null=n, nnull=n) for s in ('l', 'b', 's', '{lb}', '[l', '<lb>', '(lb', 't', 'm') for k in (1, 2) for n in ('no', 'alt')] + [O('y', rows=[3], aux=3000, tail='lit', x20=1, comp='snappy', block=1000), O('l', rows=[132], prefix=129, tail='small', x18=1, x15=128, x16=1, x17=3), O('l', rows=[260], prefix=257, pre='mix', tail='lit', x18=1, x15=0, x16=129, x17=131), O('b', rows=[12], prefix=9, tail='lit', x20=1, stride=5)]
    if t: q += [O(s, rows=[4], tail='small', aux=1, stride=k) for s in ('l', 'b', 's', '{lb}', '[l', '<lb>', '(lb') for k in (1, 2, 3)] + [O(s, rows=[3], tail='lit', aux=1, null='any', nnull='any', comp=c, block=3, stride=2) for s in ('l', 'b', 's', '{lb}', '[l', '<lb>', '(lb', 't', 'm') for c in ('none', 'snappy', 'zstd')]
    return q
def c26(t): return [Job('limits', k) for k in range(5)]
def c27(t): return [Job('proto', k, rep=r) for k in range(24) for r in ((0, 2) if t else (0,))]
def BIG(p):
    """Few inputs at the end of thousands of values: whatever is counted, measured or placed beyond 255 or 65535."""
    O = lambda s, **k: Job('order', s, **k); C = lambda s, **k: Job('config', s, **k)
    return {
    'C01': [R('l', rows=[70000], prefix=69998, tail='small'), R('d', rows=[66000], prefix=65998, pre='mix', tail='small')],
    'C02': [R('b', rows=[70000], prefix=69996, stride=0, null='after')],
    'C03': [R('g', rows=[9002], prefix=9000), R('f', rows=[17002], prefix=17000, null='after')],
    'C04': [R('s', rows=[2], aux=70000, tail='lit'), R('y', rows=[1], aux=66000, tail='lit', comp='snappy', block=262144), R('s', rows=[40000], prefix=39999, tail='small', aux=2)],
    'C05': [R('t', rows=[9001], prefix=9000, aux=1, tail='small', null='after')],
    'C06': [R('m', rows=[9001], prefix=9000, aux=7), R('m', rows=[9001], prefix=9000, aux=2, null='after')],
    'C07': [R('[b', rows=[2], aux=8, tail='lit'), R('(lb', rows=[2], aux=8, tail='lit')],
    'C08': [R('<lb>', rows=[9001], prefix=9000, tail='lit', aux=3, null='after', stride=0), R('{lb}', rows=[9001], prefix=9000, tail='lit', nnull='after')],
    'C09': [R('g', rows=[9003], prefix=9000, null='after', stride=4000)],
    'C10': [R('s', rows=[2], aux=70000, tail='lit', comp='snappy', block=65536), R('l', rows=[9000], prefix=8998, tail='small', comp='zstd', block=1000)],
    'C11': [R('g', rows=[9002], prefix=9000, stride=9001), R('s', rows=[2, 1], aux=70000, tail='lit', limit=0, stride=1)],
    'C12': [R('(ff', rows=[2, 2, 1], limit=-2, tail='lit', aux=1), R('(ff', rows=[2, 1, 1], limit=-2, tail='lit', aux=0), R('<ff>', rows=[2, 2, 1], limit=-2, tail='lit', aux=0), R('[g', rows=[1, 2, 1], limit=-2, tail='lit', aux=0), R('{ff}', rows=[1, 1, 2], limit=-2, tail='lit', nnull='any'), R('(st', rows=[1, 2, 1], limit=-2, tail='lit', aux=1), R('[y', rows=[1, 1, 1], limit=-2, tail='lit', aux=1), R('g', rows=[9000, 9000, 2], limit=70000, tail='lit', exact=1)],
    'C13': [R('b', rows=[70000], prefix=69998, stride=66000), R('b', rows=[70000], prefix=69998, stride=0, null='after')],
    'C14': [R('l', rows=[70000], prefix=69998, tail='small', stride=66000)],
    'C15': [R('g', rows=[9002], prefix=9001, tail='small', stride=5000)],
    'C16': [R('s', rows=[3], aux=70000, tail='lit', stride=2), R('y', rows=[3], aux=70000, tail='lit', stride=2)],
    'C17': [R('t', rows=[9001], prefix=9000, aux=1, tail='small', stride=4000)],
    'C18': [R('m', rows=[9001], prefix=9000, aux=7, stride=4000)],
    'C19': [R('b', rows=[70000], prefix=69994, stride=66000)],
    'C20': [R('b', rows=[70000], prefix=69998, stride=66000), R('l', rows=[66000], prefix=65999, tail='lit', stride=1000, null='after')],
    'C21': [R('g', rows=[9003], prefix=9000, stride=9000), R('s', rows=[3], aux=70000, stride=1, tail='lit'), R('b', rows=[70000], prefix=69990, stride=66000), R('s', rows=[3], aux=70000, stride=1, tail='lit', comp='snappy', block=65536), R('l', rows=[40000], prefix=39998, tail='lit', stride=39000)],
    'C22': [C('{lb}', rows=[1], x15=24, tail='lit')],
    'C24': [Job('sink', 'g', rows=[2000], tail='lit', x15=k) for k in (0, 2, 3, 5)],
    'C25': [O('{g}', rows=[700], tail='lit', x18=1, x15=300, x16=0, x17=400), O('{lbfgstym[l(lb{l}<lb>}', rows=[1000], tail='lit', aux=1, x18=1, x15=64, x16=936, stride=100), O('[g', rows=[700], tail='lit', aux=1, x18=1, x15=699, x16=1, stride=1000), O('<fs>', rows=[2000], tail='lit', aux=3, x18=1, x15=1000, x16=1000, stride=300)],
    }.get(p, [])
def more(p, t):
    """Jobs several checks share: many row groups, many stripes, wide and deep schemas, wide decimal scales."""
    N = lambda s, **k: Job('counts', s, **k)
    S = lambda s, **k: Job('sink', s, **k)
    q = []
    if p in ('C09', 'C11', 'C13', 'C14', 'C16', 'C19', 'C20', 'C21', 'C22'):
        q += [R('l', rows=[1], rep=150, limit=0, tail='lit'), R('{lb}', rows=[2], rep=70, limit=0, tail='lit', comp='snappy', block=100), R('l', rows=[300], stride=1, tail='lit'), R('l', rows=[1], rep=400, limit=30, tail='lit')]
    if p in ('C08', 'C09', 'C11', 'C13', 'C20', 'C21', 'C22'): q += [R('X', rows=[1, 1], limit=0)]
    if p == 'C08': q += [Job('variants', 0), Job('tags', 0), R('{{{{l}}}}', rows=[2], tail='small', nnull='any'), R('<<lb>{l}>', rows=[3], tail='small', nnull='any'), R('[<[lb>', rows=[2], tail='lit'), R('X', rows=[2])]
    q += BIG(p)
    if p == 'C07': q += [R('[[[[l', rows=[2], aux=2, tail='small'), R('([l(l{b}', rows=[2], aux=2, tail='small')]
    if p in ('C06', 'C18'): q += [R(s, rows=[2], aux=k) for s in 'pq' for k in (0, 3, 7, 8, 9, 10, 11)]
    if p == 'C18': q += [R('{pq}', rows=[1], aux=53), R('p', rows=[1], aux=53)] + ([R('q', rows=[2], aux=53)] if t else [])
    if p == 'C12': q += [R('g', rows=[1, 2, 3], rep=30, limit=-2, exact=1, tail='lit'), R('g', rows=[1], rep=20, limit=-2, exact=1, tail='lit')]
    if p == 'C23': q += [Job('lengths', k, rep=n) for k in (0, 1) for n in ((1, 2, 3, 4) if t else (1, 2, 3))] + [N(s, rows=[2], x15=0, x16=2, tail='run', aux=1, stride=k) for s in ('l', 'b', '{lb}', '[l', '<lb>', '(lb') for k in (1, 2, 10)] + [N('{lb}', rows=[], x16=2, stride=1, tail='run')] + [N('+' + s, rows=[2], limit=0, x16=2, tail='run', aux=1, stride=k) for s in ('l', 'b', '{lb}', '[l', '<lb>', '(lb') for k in (1, 10)] + [ N('{lbfgstym[l(lb{l}<lb>}', rows=[1], x16=1, tail='run', aux=1)]
    if p == 'C24': q += [S(s, rows=[1, 1, 1], tail='lit', limit=0, x15=k, x16=1) for s in ('l', '{lb}') for k in (3, 4, 8)] + [S('l', rows=[1, 1], tail='lit', limit=0, comp='snappy', block=5, x15=3, x16=1)] + [S('l', rows=[1], tail='lit', x15=9, x17=6), S('l', rows=[1, 1], limit=0, tail='lit', x15=9, x17=5, x16=1), S('s', rows=[1], comp='snappy', block=4, tail='lit', x15=9, x17=4), S('{lb}', rows=[2], tail='lit', null='alt', x15=9, x17=5)] + ([S('l', rows=[1], tail='lit', x15=9, x17=10), S('{lb}', rows=[2], tail='lit', null='alt', x15=9, x17=7), S('{lb}', rows=[1, 1], tail='lit', limit=0, comp='zstd', block=9, x15=9, x17=6)] if t else [])
    return q
P = {f'C{i:02d}': globals()[f'c{i:02d}'] for i in range(1, 28)}
def jobs(p, tier): return P[p](tier == 'thorough') + more(p, tier == 'thorough')
