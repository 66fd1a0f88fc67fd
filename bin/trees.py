"""Trees that are put together by hand with the factory of the parser, observed and validated by the specification."""
import random
from vlib import *
from notation import canon, character
import gen

NAMES = ['f', 'a', 'x', 'a::b', '::x', '_p', 'notify', 'b_1', 'include', 'node', 'string', 'hiera_include', 'title', 'trusted', 'facts', 'server_facts', 'A', 'File', 'A::B', 'Foo', 'default', '3a', '1', 'a-b', 'aB', 'A::b', 'a::', 'name', '__x', 'a::B', '', 'application', 'produces', 'consumes', 'true', 'undef']
RESERVED = ['attr', 'private', 'application', 'produces', 'consumes']
REFS = ['A', 'File', 'A::B', 'String', 'Resource', 'Type', 'Class', 'Foo::BAR']
TEXTS = ['', 'a', 'x y', 'a"b', "it's", '\\', '\n', '\t', '\x00', '\x01', '\u00e9', '\u2028', '\U0001f600', '$x', '/', 'a/b', '(', '[', 'a+', '1', '0x1', '<%', '${', '\x7f', 'a::b', 'A', '9a', '&<>']
SOURCES = ['', 'x', 'abc', 'a\nb', '\u00e9\u00e9', 'a\r\nb\n\nc', '\U0001f600x\n\u2028y', '\n\n', '$x = 1\nnotice($x)\n', 'one two three\n  four\n\tfive\n']
ARITH, ASSIGN = ['+', '-', '*', '/', '%', '<<', '>>'], ['=', '+=', '-=']
COMPARE, MATCH, REL = ['==', '!=', '<', '<=', '>', '>='], ['=~', '!~'], ['->', '~>', '<-', '<~']
FORMS, STYLES = ['regular', 'virtual', 'exported'], ['action', 'resource', 'workflow', 'stateHandler', 'collect', '']
PARAMS, BODIES, OPERATIONS = ('Parameter',), ('ResourceBody',), ('AttributeOp', 'AttributesOp')
QUERIES = ('VirtualQuery', 'ExportedQuery')
ANY = None
HOSTS = ('String', 'QualifiedName', 'Default', 'Regexp', 'ConcatenatedString')


def one(*ks):
    return ('1', ks)


def maybe(*ks):
    return ('?', ks)


def some(*ks):
    return ('*', ks)


# method: (attributes, parts), in the order of the arguments
METHODS = {
    'Access': ([], [one(), some()]), 'Step': (['name', STYLES], [maybe(), maybe()]), 'And': ([], [one(), one()]),
    'Application': (['name'], [some(*PARAMS), one()]), 'Array': ([], [some()]), 'Arithmetic': ([ARITH], [one(), one()]),
    'Assignment': ([ASSIGN], [one(), one()]), 'AttributeOp': ([['=>', '+>'], 'name'], [one()]), 'AttributesOp': ([], [one()]),
    'Block': ([], [some()]), 'Boolean': (['bool'], []), 'CallMethod': ([], [one('NamedAccess'), some(), maybe('Lambda')]),
    'CallNamed': (['bool'], [one(), some(), maybe('Lambda')]), 'CapabilityMapping': ([['produces', 'consumes'], 'ref'], [one(), some(*OPERATIONS)]),
    'Case': ([], [one(), some('When')]), 'Class': (['name', 'parent'], [some(*PARAMS), one('Block')]), 'Collect': ([], [one(), one(*QUERIES), some(*OPERATIONS)]),
    'Comparison': ([COMPARE], [one(), one()]), 'ConcatenatedString': ([], [some('String', 'Text')]), 'Default': ([], []),
    'Definition': (['name'], [some(*PARAMS), one('Block')]), 'EppExpression': ([], [some(*PARAMS), one()]), 'ExportedQuery': ([], [one()]),
    'Float': (['float'], []), 'Function': (['name'], [some(*PARAMS), one(), maybe()]), 'Hash': ([], [some('KeyedEntry')]),
    'Heredoc': (['text'], [one('String', 'ConcatenatedString')]), 'If': ([], [one(), one(), one()]), 'In': ([], [one(), one()]),
    'Integer': (['int', ['10', '8', '16']], []), 'KeyedEntry': ([], [one(), one()]), 'Lambda': ([], [some(*PARAMS), one(), maybe()]),
    'Match': ([MATCH], [one(), one()]), 'NamedAccess': ([], [one(), one()]), 'Negate': ([], [one()]),
    'Node': ([], [some(*HOSTS), maybe(*HOSTS), one('Block')]), 'Nop': ([], []), 'Not': ([], [one()]), 'Or': ([], [one(), one()]),
    'Parameter': (['name', 'bool'], [maybe(), maybe()]), 'Parenthesized': ([], [one()]), 'Plan': (['name'], [some(*PARAMS), one(), maybe()]),
    'Program': ([], [one()]), 'QualifiedName': (['name'], []), 'QualifiedReference': (['ref'], []), 'Regexp': (['text'], []),
    'RelOp': ([REL], [one(), one()]), 'RenderExpression': ([], [one()]), 'RenderString': (['text'], []), 'ReservedWord': (['reserved', 'bool'], []),
    'Resource': ([FORMS], [one(), some(*BODIES)]), 'ResourceBody': ([], [one(), some(*OPERATIONS)]),
    'ResourceDefaults': ([FORMS], [one(), some(*OPERATIONS)]), 'ResourceOverride': ([FORMS], [one(), some(*OPERATIONS)]),
    'Select': ([], [one(), some('Selector')]), 'Selector': ([], [one(), one()]), 'Site': ([], [one()]), 'String': (['text'], []),
    'Text': ([], [one()]), 'TypeAlias': (['ref'], [one()]), 'TypeDefinition': (['ref', 'parent'], [one()]), 'TypeMapping': ([], [one(), one()]),
    'Undef': ([], []), 'Unfold': ([], [one()]), 'Unless': ([], [one(), one(), one()]), 'Variable': ([], [one('QualifiedName', 'Index')]),
    'VirtualQuery': ([], [one()]), 'When': ([], [some(), one()]),
}
# what is no part of others unless it is asked for
PARTS = {'Parameter', 'ResourceBody', 'AttributeOp', 'AttributesOp', 'When', 'Selector', 'KeyedEntry', 'VirtualQuery', 'ExportedQuery', 'Text', 'EppExpression', 'Program'}
LEAVES = ['Boolean', 'Default', 'Float', 'Integer', 'Nop', 'QualifiedName', 'QualifiedName', 'QualifiedReference', 'Regexp', 'RenderString', 'ReservedWord', 'String', 'String', 'Undef', 'Variable', 'Variable']
WHOLE = [m for m in METHODS if m not in PARTS and METHODS[m][1]]


def attribute(r, k):
    """(for the harness, for the specification)"""
    if isinstance(k, list):
        v = r.choice(k)
    elif k == 'name':
        v = r.choice(NAMES)
    elif k == 'reserved':
        v = r.choice(NAMES + RESERVED * 4)
    elif k == 'ref':
        v = r.choice(REFS)
    elif k == 'parent':
        v = r.choice(['', '', 'a', 'Foo', 'a::b'])
    elif k == 'bool':
        b = r.random() < .5
        return 'true' if b else 'false', b
    elif k == 'int':
        v = str(r.choice([0, 1, -1, 7, 10, 4711, 2 ** 31, 2 ** 63 - 1, -2 ** 63, r.randrange(10 ** 6)]))
    elif k == 'float':
        v = r.choice(['0', '1.5', '-1.5', '1e21', '1e-7', '123456789012345678', '0.1', '5e-324', '1e308', '%de%d' % (r.randrange(10 ** r.randrange(1, 18)), r.randrange(-30, 30))])
        return v, canon(float(v))
    elif k == 'text':
        v = r.choice(TEXTS) if r.random() < .7 else ''.join(r.choice(TEXTS) if r.random() < .8 else character(r) for _ in range(3)) if r.random() < .95 else 'x' * r.choice((15, 16, 17, 40, 64, 65, 129, 300)) + r.choice(TEXTS)
        return v, [ord(c) for c in v]
    return v, v


def tree(r):
    """(source, operations for the harness, operations for the specification)"""
    src = r.choice(SOURCES) if r.random() < .6 else gen.sources(r.randrange(10 ** 6), 1, ['valid', 'pos'], 0, 0)[0][0]
    if isinstance(src, bytes):
        src = src.decode('utf-8', 'ignore')
    src = src.replace('\0', '')[:120]
    at = [0]
    for c in src:
        at.append(at[-1] + len(c.encode()))
    hs, ss, kinds = [], [], []

    def make(m, depth):
        if m == 'Index':
            return put('Integer', [str(r.randrange(12)), '10'], [])
        return put(m, None, [slot(x, depth) for x in METHODS[m][1]])

    def slot(x, depth):
        n, ks = x
        count = 1 if n == '1' else r.choice((0, 1)) if n == '?' else r.choice((0, 1, 1, 2, 2, 3)) if r.random() < .97 else r.choice((5, 8, 9, 12, 17, 24))
        return [part(ks, depth) for _ in range(count)]

    def part(ks, depth):
        old = [i for i, k in enumerate(kinds) if (k in ks if ks else k not in PARTS)]
        if old and r.random() < .2:
            return r.choice(old[-6:])
        if ks:
            return make(r.choice(ks), depth)
        return make(r.choice(LEAVES if depth >= 4 or len(kinds) > 40 or r.random() < .35 else WHOLE), depth + 1)

    def put(m, vs, cs):
        if vs is None:
            two = [attribute(r, k) for k in METHODS[m][0]]
        else:
            two = [(v, v) for v in vs]
        a, b = r.randrange(len(at)), r.randrange(len(at))
        a, b = min(a, b), max(a, b)
        hs.append({'m': m, 'o': at[a], 'n': at[b] - at[a], 'v': [x for x, y in two], 'c': cs})
        ss.append({'m': m, 'o': at[a], 'n': at[b] - at[a], 'v': [y for x, y in two], 'c': cs})
        kinds.append(m)
        return len(kinds) - 1
    m = r.choice(list(METHODS))
    if r.random() < .4:
        m = r.choice(['Program', 'Block', 'Program', 'Resource', 'Call' + 'Named', 'Hash', 'Case'])
    make(m, 0)
    size = []
    for h in hs:
        size.append(1 + sum(size[i] for c in h['c'] for i in c))
    # nodes that are shared count as often as they are seen
    return (src, hs, ss) if size[-1] <= 80 and sum(size) <= 400 else tree(r)


def trees(seed, n):
    r = random.Random('trees %s' % seed)
    return [tree(r) for _ in range(n)]


FACETS = 'HSPTCNFJL01234'


def run(ts):
    return observe_many([{'s': s.encode(), 'f': FACETS[1:], 'tree': h} for s, h, o in ts])


# The parameters of a definition are the keys of a map in PN, and not every word is a key. What a conversion makes of
# other words is left open: no parser makes such parameters
KEY = re.compile(r'^((::)?[A-Za-z_-][0-9A-Za-z_-]*(::[0-9A-Za-z_-]+)*)?$')


def judged(ops):
    return FACETS if all(KEY.match(o['v'][0]) for o in ops if o['m'] == 'Parameter') else ''.join(f for f in FACETS if f not in 'NFJ')


def validate(ts, results, timeout=900):
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for (s, h, o), x in zip(ts, results):
            f.write(json.dumps({'s': [ord(c) for c in s], 'ops': o, 'r': [[k, x[k]] for k in judged(o)] if x and '!' not in x else []}) + '\n')
    try:
        rc, out = tlc('TreesTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {i: {'!': 'a tree'} for i, x in enumerate(results) if not x or '!' in x}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(.)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad.setdefault(int(mm.group(1)) - 1, {})[mm.group(2)] = unescape(mm.group(3))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(ts) + 16:
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith('"'))[-4000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - 16}


if __name__ == '__main__':
    import sys, time
    build()
    ts = trees(sys.argv[2] if len(sys.argv) > 2 else 1, int(sys.argv[1]))
    res = run(ts)
    t = time.time()
    bad, st = validate(ts, res)
    print(len(ts), len(bad), st, time.time() - t)
    from collections import Counter
    print(Counter(k for d in bad.values() for k in d))
    shown = Counter()
    for i, d in sorted(bad.items(), key=lambda b: len(ts[b[0]][1])):
        k, w = next(iter(d.items()))
        shown[k] += 1
        if shown[k] <= 3:
            print(ts[i][0].__repr__(), k)
            for o in ts[i][2]:
                print('   ', o)
            print(' want', w, '\n got ', res[i] and res[i].get(k))
