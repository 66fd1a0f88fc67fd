"""All words of up to a length over small alphabets, and all ways to fill the slots of templates: sources for suites."""
import itertools
import gen


def words(alphabet, n, least=0):
    for k in range(least, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield ''.join(w)


def names():
    for w in words('aA_:-1$', 5, 1):
        yield w, ''
    for w in words(['a', 'é', '_', '::', '-', '0', '$', ' '], 3, 1):
        yield 'x' + w + 'y', ''


def digits():
    for w in words('018xe.-a', 5, 1):
        yield w, ''
    for w in words('0719aFxg', 3, 1):
        yield '0x' + w, ''
        yield '1.5e' + w, ''
        yield '1e-' + w, ''
    # at the edges of what an integer holds
    for base, digs in (('', '9223372036854775807'), ('0', '777777777777777777777'), ('0x', '7fffffffffffffff'), ('0X', '7FFFFFFFFFFFFFFF')):
        for i in range(len(digs)):
            for d in '018f':
                yield base + digs[:i] + d + digs[i + 1:], ''
        for x in (base + digs + '0', base + '0' + digs, base + '1' + digs, base + digs[:-1], '-' + base + digs, base + '00' + digs, base + 'f' + digs[1:], base + '8' + digs[1:], base + digs[:-1] + '8'):
            yield x, ''
            yield x + '.0', ''
    for n in range(1, 23):
        for d in '1789':
            yield d * n, ''
            yield '0' + d * n, ''
            yield '0x' + d * n, ''
    # as many digits as are kept
    for m in ('1', '12', '1234567', '123456789012345', '1234567890123456', '4503599627370497', '2251799813685249', '3141592653589793', '1000000000000001', '7654321098765433'):
        for k in range(len(m)):
            for e in ('', 'e1', 'e-1', 'e20', 'e-20', 'e100', 'E+15', 'e-100', 'e15', 'e16', 'e-4', 'e-5'):
                yield m[:k] + '.' + m[k:] + e if k else '0.' + m + e, ''
        yield m + '.0', ''
        yield '[' + m + '.0, ' + m + 'e5]', ''


def floats():
    """Doubles: many digits, halfway cases, the ends of the range, powers of ten."""
    import random
    r = random.Random('floats')
    for x in range(-330, 312):
        for d in ('1', '9', '5.5', '4.45') + (('2.2250738585072014', '1.7976931348623157', '0.00099999999999999999999') if abs(x) < 25 or abs(x) > 300 else ()):
            yield '%se%d' % (d, x), ''
    for t in ('17976931348623157', '17976931348623158', '179769313486231580793', '179769313486231580794', '17976931348623159', '1797693134862315'):
        for x in (308, 307, 309):
            yield '%s.%se%d' % (t[0], t[1:], x), ''
            yield '%s.0e%d' % (t, x - len(t) + 1), ''
    for t in ('22250738585072014', '22250738585072011', '2225073858507201', '49406564584124654', '24703282292062327', '24703282292062328', '5', '25', '24', '74', '75', '1', '3', '123456789'):
        for x in (-308, -309, -323, -324, -325):
            yield '%s.%se%d' % (t[0], t[1:] or '0', x), ''
    # whole numbers and halves between two doubles
    for e in (1, 2, 3, 10, 30):
        for _ in range(60):
            m = r.randrange(2 ** 52, 2 ** 53)
            for h in (2 * m, 2 * m + 1):
                v = h * 2 ** (e - 1)
                yield '%d.0' % v, ''
                yield '%d.%s' % (v, r.choice(('00000000000000000001', '5', '0000000'))), ''
                yield '%d.9999999' % (v - 1), ''
    for e in (1, 5, 20):
        for _ in range(60):
            h = 2 * r.randrange(2 ** 52, 2 ** 53) + 1
            d = str(h * 5 ** (e + 1))
            for t in (d, d + '1', str(int(d) - 1) + '9'):
                yield '%s.%se%d' % (t[0], t[1:], len(d) - 1 - (e + 1)), ''
    for n in range(14, 24):
        for _ in range(60):
            d = ''.join(r.choice('0123456789') for _ in range(n))
            k = r.randrange(1, n)
            yield d[:k].lstrip('0') + '0.' + d[k:], ''
            yield '-' + d[:k].lstrip('0') + '.' * (d[:k].strip('0') != '') + d[k:] + 'e%d' % r.randrange(-30, 30), ''
            yield '[0.' + d + ', ' + d[:k].lstrip('0') + '5e-' + str(r.randrange(1, 24)) + ']', ''
    # neighbours of what has few digits
    for _ in range(400):
        d = str(r.randrange(1, 10 ** r.randrange(1, 7)))
        k = r.randrange(1, len(d) + 1)
        t = d[:k] + '.' + d[k:]
        yield t + '0' * r.randrange(3, 9) + '1', ''
        yield t + '0' * (17 - len(d)) + r.choice('123456789'), ''
    # whole numbers as floats
    for n in range(15, 20):
        for _ in range(40):
            yield str(r.randrange(10 ** (n - 1), min(10 ** n, 2 ** 63))), ''
    for e in range(50, 63):
        for k in (-1025, -1024, -513, -512, -511, -257, -256, -129, -128, -3, -2, -1, 0, 1, 2, 3, 127, 128, 129, 256, 257, 511, 512, 513, 1024, 1025, 1536):
            yield str(2 ** e + k), ''
            yield '-%d' % (2 ** e + k), ''


def pairs():
    """All pairs of ASCII characters, in some places."""
    cs = [chr(c) for c in range(32, 127)] + ['\n', '\t', '\r']
    for a in cs:
        yield a, ''
        for b in cs:
            for t in ('%s%s', 'a%s%s1', '"$%s%s}"', '$a%s%sB'):
                yield t % (a, b), ''
        for t in ('$a%s = 1', '"\\%s"', '@(E/%s)\nx\\%s\n|E\n', '@(%s)\n%s\n| %s\n', '0%s', '1%s', '0x%s', '/%s/', "'%s'", "'\\%s'", 'class a%s { }', 'class %s { }', '::%s', 'A::%s', 'a::b%s', '"$a::%s"', '"${%s}"', '"${a%s}"', '-%s', '%s-', '#%s\n1', '/*%s*/ 1', '1 %s 2', '$a %s= 1', '[%s]', '{%s}', '(%s)', 'f(%s)', 'a.%s', '$%s', '$%s::b', '$_%s', '%s => 1', '|%s|'):
            yield t.replace('%s', a), ''
        for t in ('<%s a %%>', '<%%%s a %%>', '<%% a %s>', 'a%s<%% b %%>', '<%%# %s %%>%s', '<%% a %%>%s', '<%% a -%%>%s', '<%% a -%%>%s\nb', '%s<%%- a %%>', 'b\n%s <%%- a %%>'):
            yield t.replace('%s', a).replace('%%', '%'), 'e'


def escapes():
    for w in words(['\\', '$', '{', '}', 'a', 'u', 'n', "'", '4', '\n'], 4):
        yield '"' + w + '"', ''
    for w in words(['\\', "'", 'n', '\n', '$', '"'], 5):
        yield "'" + w + "'", ''
    for w in words(['\\', '`', 'n', '\n', '$'], 4):
        yield '`' + w + '`', 'b'
    for w in words(['\\', '/', 'a', '\n', '*', '$'], 5):
        yield '$a =~ /' + w + '/', ''
    for w in words('0aF}g{8', 4):
        yield '"\\u' + w + '"', ''
        yield '"\\u{' + w + '}"', ''
        yield '"\\x' + w + '"', 'h'
        if len(w) < 3:
            yield '"\\x' + w + '"', ''
            yield '"a\\u{1F' + w + '}b"', ''
            yield '"\\u{10' + w + 'ff}"', ''
            yield '"\\u{' + w + '10ffff}"', ''
            yield '"\\uD8' + w + '"', ''
    for c in range(32, 127):
        for q in ('"%s"', "'%s'", "`%s`", '"a%sb${c}d%se"', '@("E"/%s)\nx\n| E\n', '@("E"/)\na%s b\n| E\n', '@("E"/t)\na%s b\n| E\n', "/%s/", '"%s4"', '"%s41"'):
            for m in ('', 'h', 'b'):
                if m == '' or ('`' in q) == (m == 'b'):
                    yield q.replace('%s', '\\' + chr(c) if '(' not in q or 'a%s' in q else chr(c)), m


PUNCT = list('=+-<>|!~./*#%@&?:')


def punct():
    for w in words(PUNCT, 3, 1):
        yield w, ''
        yield 'a' + w + 'b', ''
        yield '$a ' + w + ' $b', ''
        if len(w) < 3:
            yield '1' + w + '1', ''
            yield '/' + w + '/', ''
            yield 'A' + w + '$b' + w + '1', ''
            for m in 'ewt':
                yield 'a' + w + 'b', m
    for a, b in itertools.product([',', ';', '[', ']', '(', ')', '{', '}', '|', '.', '=>', '+', 'a', '1', '$a', 'A', '\n', ' ', '#'], repeat=2):
        for c in ('[', '(', '{', '|', ']', ')', '}', '', '1', 'a', '.', '/', '<', '='):
            yield a + b + c, ''
            yield 'a' + a + b + c, ''
            yield '$a' + a + b + c + ']', ''


def templates():
    """EPP text and tags."""
    for w in words(['<', '%', '=', '-', '#', '|', '>', '\n', 'a', ' '], 4):
        yield w, 'e'
        yield '<%' + w, 'e'
        if len(w) < 4:
            yield '<%= $a ' + w, 'e'
            yield 'a\n  <%' + w + '%>', 'e'
            yield '<%' + w + ' -%>\nb', 'e'
            yield '<%# ' + w + '%>c', 'e'
            yield '<%|' + w + '|%> d', 'e'
            yield '<% if a { %>' + w + '<% } %>', 'e'
            yield w + '<%- 1 -%> ' + w, 'e'


def heredocs():
    for w in words(['E', '"', ':', '/', 'n', '$', ' ', 'j', 'L', 'é'], 4):
        yield '@(' + w + ')\nx$a\\n\nE\n', ''
    body = ' a\\tb\\n\\$c\\sd\\re\\u00e5f\\\\g\\\n  ${h} $i\\q'
    flags = 'trnsuL$'
    for k in range(len(flags) + 1):
        for fs in itertools.combinations(flags, k):
            f = ''.join(fs)
            for q in ('"E"', 'E'):
                yield '@(%s/%s)\n%s\n| E\n' % (q, f, body), ''
                yield '@(%s:j/%s)\n %s\n  |- E\n1' % (q, f[::-1], body), ''
    # margins
    for line1, line2, end, mark in itertools.product(['', ' ', '  ', '   ', '\t', ' \t'], ['', ' ', '  x', '\ty', 'z', '\n', ' $v'], ['', ' ', '  ', '\t'], ['', '|', '-', '|-', '| ', '- ', '|- ', '| - ', '-|', '||']):
        for q in ('E', '"E"/L', '"E"'):
            yield '@(%s)\n%sa\n%s\n%s%sE\n' % (q, line1, line2, end, mark), ''
    # what comes between and after
    for a, b, c in itertools.product(['', ' ', ', @(F)', ' + 1', '.f', '# c', ' /* c */', ' }', '; 2', ' @(E)', '[1]', ' $x'], ['x\n', '', 'x\n\n', '\r\n', 'E F\n', 'E\n', '| Ex\n', 'a\r\n'], ['E\n', '| E\n', '|- E', 'E\nF\n', '| E\ny\nF\n3', '- E \n4', 'E\r\n5', 'EE\nE']):
        yield '[@(E)' + a + ']\n' + b + c, ''
        yield '@("E")' + a + '\n' + b + c, ''
    for w in words(['E', ' ', '|', '-', '\n', 'x', '\r'], 5):
        yield '@(E)\nx\n' + w, ''
    for w in words(['\\', '\n', 'n', '$', '{', '}', 'a', '"', ' '], 4):
        yield '@("E"/nL$)\n' + w + '\nE\n', ''
        if len(w) < 4:
            yield '@("E")\n' + w + '\n|E\n', ''
            yield '@(E/L)\n ' + w + '\n |E\n', ''


def interpolations():
    for w in words(['a', '$', '.', '[', '1', ']', '(', ')', ' ', '{', '}', '|', ':'], 4):
        yield '"${' + w + '}"', ''
    for w in words(['a', 'A', '_', ':', '[', '1', ']', '-', '$', '{', '}'], 4):
        yield '"$' + w + '"', ''
    links = ['.b', '.c(1)', '.d |$x| { $x }', '.e(2) |$y| { }', '[1]', '[a, b]', '(3)', '(4) |$z| { 1 }', ' |$q| { }', ' + 1', '::z', '.1', '.F']
    for head in ('a', '$a', 'A', '1', 'a::b', 'if', '::a', '(a)', "'a'", 'notice'):
        for ls in words(links, 3 if head in ('a', '$a', 'notice') else 2):
            yield '"x${' + head + ls + '}y"', ''
    for k in gen.KEYWORDS + ['attr', 'private', 'notice', 'workflow', 'resource', 'returns', 'type', 'b-c', 'a-b-c']:
        for f in ('"${%s}"', '"${ %s }"', '"${%s.b}"', '"${%s[1]}"', '"${%s(1)}"', '"${%s::b}"', '"$%s"', '"${$%s}"', '"${%s.%s}"', '"${a.%s}"', '@("E")\n${%s}\n| E\n', '"${a[%s]}"', '"${%s |$a| { }}"', '"${%s.b |$a| { }}"'):
            for m in ('', 'w', 't'):
                yield f.replace('%s', k), m


OPERANDS = ["'s'", '"s"', '"a${b}"', '"${a}"', '@(E)', '@("E")', '1', '1.5', '0x1F', 'a', 'a::b', 'A', 'A::B', '$a', '$a::b', '/r/', 'true', 'undef', 'default', '[1]', '[]', '{a => 1}', '{}', '(1)', 'f(1)', 'f()', '$a[1]', 'A[1]', '$a.b', '$a.b(1)', 'f() |$x| { }',
            '$a ? { 1 => 2 }', 'if a { }', 'case a { 1: { } }', 'unless a { }', '!a', '-1', '*$a', 'notice', 'notice 1', 'type', 'node', 'class', 'file { a: }', 'A { a => 1 }', 'A <| |>', 'class a { }', 'define a { }', 'type A = B', 'attr', 'private', 'application', '`x`', 'import "a"', 'and', 'x-y', '$1', 'step', 'site { }', 'a produces']
FOLLOWERS = ['/ 2 / 3', '/2/3', '/2/', '[1]', '[1, 2]', '(1)', '()', '{ }', '{ a: }', '{ a => 1 }', '{ "a": b => 1 }', '- 1', '-1', '.a', '.a(1)', '. 1', '.class', '.default', '? { 1 => 2 }', '? 1 => 2', '|$x| { }', '| |', '<| |>', '<| a == 1 |>', '<<| |>>', '<| |> { a => 1 }', '=> 1', '+> 1', '=', '= 1', '+= 1', '-= 1',
             '== 1', '!= 1', '=~ /a/', '!~ /a/', '-> A', '~> A', '<- A', '<~ A', 'and 1', 'or 1', 'in 1', '* 2', '*$b', '% 2', '<< 1', '>> 1', '>> { }', '< 1', '> 1', '>= 1', '<= 1', '+ 1', '! 1', '!b', '; 1', ', 1', ',', '1', 'b', 'B', '$b', '"b"', "'b'", '/b/', '@(F)', '@file { a: }', '@@ 1', 'produces B { }', 'inherits b { }',
             ': 1', '::a', ':', '#', '/* c */ 1', 'else { }', 'elsif b { }', 'b { }', 'b { c: }', '[1](2)', '(1)[2]', '(1) |$x| { }', '.a |$x| { }', '.a.b(1).c', '%>', '&', '~', '\\', ')', ']', '}', '..', '...', '1.5', '.5', '?', '!']


def contexts():
    """What may follow what, close and apart."""
    for o, f in itertools.product(OPERANDS, FOLLOWERS):
        h = o.startswith('@(') and '\nx\n| E\n' or ''
        g = '@(F)' in f and '\ny\n| F\n' or ''
        for sep in ('', ' ', '\n') if not h else ('', ' '):
            yield o + sep + f + h + g, 'b' if '`' in o else ''
        if not h:
            for m in 'wt':
                yield o + ' ' + f + g, m


TOKENS = ('class define function if unless case node type plan step inherits default true in and = == => +> + - * ! ( ) [ ] { } , ; : ? | . >> -> @ <| |> a foo::bar ::a Foo notice $a $1 $x::y 1 1.5 \'s\' "${a}" /r/ {} [1] () site application workflow').split() + ['', '\n', '$a = 1', 'Foo $b', 'a => 1', '* => $a', '$x,', '{ 1 }']
FEW = ('default * ( ) [ ] { } , ; : | = => +> >> . + a Foo $a 1 \'s\' /r/').split() + ['']
SLOTS2 = ['class %s %s { }', 'class a(%s %s) { }', 'class a inherits %s %s', 'define %s %s { }', 'define a(%s %s $z) { }', 'function %s %s { }', 'function a() %s %s { }', 'plan %s %s { }', 'type %s %s', 'type A = %s %s', 'type A %s %s', 'node %s %s { }', 'node a %s %s { }', 'node a, %s %s { }', 'if %s %s { }', 'if a { %s } %s',
          'if a { } else %s %s', 'unless a { } %s { %s }', 'case %s %s { 1: { } }', 'case a { %s %s { } }', 'case a { 1: %s %s }', 'a ? { %s => %s }', 'a ? %s %s', '$a.%s %s', 'f(%s %s)', 'f() |%s %s| { }', 'f() |$a| %s { %s }', 'f() %s %s', '[%s %s]', '{ %s %s }', '{ a => %s, %s }', '$a[%s %s]', '(%s %s)', '"${%s %s}"', '@%s %s { a: }', 'file { %s %s }',
          'file { a: %s %s }', 'file { a: b => 1 %s %s }', '%s { a: } %s', '%s { a => 1 } %s', 'File { %s %s }', 'A <| %s %s |>', 'A <| a == 1 %s %s |>', 'A <<| |>> %s %s', 'A <| |> { %s %s }', 'A produces %s { %s }', 'A %s B { a => 1 %s }', 'site %s %s', 'application a %s %s', 'notice %s %s', 'notice 1, %s %s', '%s 1 %s', 'A -> %s %s', '$a = %s %s', '! %s %s', '%s %s', '- %s %s', '* %s %s',
          'return %s %s', '%s; %s', 'import %s %s', 'class a { %s %s }', 'function f() >> %s %s']
SLOTS3 = ['class %s %s %s', 'define a(%s %s %s) { }', 'f() |%s %s %s|', 'file { %s %s %s }', 'file { a: b %s %s %s }', 'a ? { %s %s %s }', 'case a { %s %s %s { } }', 'A <| %s %s %s |>', 'type A %s %s %s', 'node %s %s %s { }', '{ %s %s %s }', 'f(%s %s %s)', 'if a %s %s %s', 'A %s B { %s %s }', 'function a %s %s %s', 'notice %s %s %s']


def slots():
    seen = set()
    for t in SLOTS2:
        for w in itertools.product(TOKENS, repeat=2):
            yield t % w, ''
    for t in SLOTS3:
        for w in itertools.product(FEW, repeat=3):
            yield t % w, ''


WFSLOTS = ['workflow %s { %s }', 'workflow a { %s } %s', 'workflow a { } { %s %s }', 'resource a { } { %s %s }', 'resource a { } { a => %s %s }', 'resource a %s { } %s', 'action a { %s %s }', 'action a { } %s %s', 'workflow a { } %s { %s }', 'workflow a { returns %s %s }', 'workflow a { parameters => %s %s }', 'workflow a { returns => ( %s %s ) }',
           '%s a { } %s', 'workflow a { } times( %s %s ) |$x| { }', 'workflow a { } each( $b ) |%s %s| { }', 'workflow a { } %s ( %s ) |$x| { }', 'step %s %s { }', 'workflow a { } { resource b { } %s { %s } }', 'workflow a { when => %s, %s }', 'stateHandler a { } { %s %s }', 'workflow a { } $x = %s (1) %s', 'resource a { } { b => [ %s, %s ] }', 'resource a { } { b => { %s => %s } }',
           'resource a { } { b => f( %s, %s ) }', 'workflow a { } range( 1, %s ) %s { }', 'workflow a { iteration => %s %s }']
WFTOKENS = ('workflow resource action stateHandler step function class returns parameters times each range type default => +> = , ; : ( ) [ ] { } | + . a foo::bar A $a $1 1 \'s\' "${a}" f(1) [1] {} () ($a) |$x| {a=>1}').split() + ['', '(Integer $a = 1)', 'a => $b', 'String $c', '$x = each', 'resource r { }', 'function g() { }', '{ resource c { } }', '$a.b', 'A[1]']


def steps():
    for t in WFSLOTS:
        for w in itertools.product(WFTOKENS, repeat=2):
            yield t % w, 'w'
    for t in ('workflow a { } { } %s', 'resource a { } { } %s', '%s a { }', 'workflow a { %s => 1 }', '%s'):
        for w in WFTOKENS:
            yield t % w, ''
            yield t % w, 'w'
            yield t % w, 'tw'


def letters():
    # the edges of all ranges of letters, and of what else there is beyond ASCII
    import unicodedata
    known = lambda c: not 0xd800 <= c < 0xe000 and unicodedata.category(chr(c)) != 'Cn'
    cat = lambda c: unicodedata.category(chr(c))[0] if known(c) else ''
    edges = [c for c in range(128, 0x110000) if known(c) and (cat(c - 1) != cat(c) or c + 1 < 0x110000 and cat(c + 1) != cat(c))]
    for i, c in enumerate(edges):
        for t in ('$%c', '0%c', '1.5%c', '1e3%c', '0x%c', '%c', 'a%c', '"$%c"', '$a%c')[(i % 3) * 3:][:3]:
            yield t % c, ''


ALL = dict(letters=letters, names=names, digits=digits, floats=floats, pairs=pairs, escapes=escapes, punct=punct, templates=templates, heredocs=heredocs, interpolations=interpolations, contexts=contexts, slots=slots, steps=steps)


def sources(name):
    for s, m in ALL[name]():
        yield s.encode('utf-8', 'surrogatepass'), m


if __name__ == '__main__':
    for k in ALL:
        n = len(set(sources(k)))
        print(k, n)
