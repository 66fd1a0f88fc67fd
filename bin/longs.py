"""Much of everything: lists with many elements, long words, texts, chains and lines."""
import random

ATOMS = ['$a', '1', 'x', 'Y', "'s'", 'f(1)', '[1]', '"d${b}"', '-1', 'true', '$c[1]', '(2)', '{a => 1}', '1.5', 'undef', '"\u00e9"', 'default', '$d.e', 'A::B[c]', '!$a', "''"]
COUNTS = [4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100]
LENGTHS = [7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600]


LONGER = [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


class Long:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def c(self, *xs):
        return self.r.choice(xs)

    def many(self, n, sep, f=None, trail=0):
        f = f or (lambda i: self.r.choice(ATOMS))
        return sep.join(f(i) for i in range(n)) + (sep.strip() if self.r.random() < trail else '')

    def op(self, i):
        return self.c('a%d => %s', 'b%d +> %s', 'a%d => %s') % (i, self.r.choice(ATOMS)) if self.r.random() < .97 else '* => $x'

    def param(self, i):
        # one of those before it, at times
        i = i if self.r.random() < .97 else self.r.randrange(i + 1)
        return self.c('', '', 'Integer ', 'Optional[A] ') + '$p%d' % i + self.c('', '', ' = 1', ' = $x')

    def text(self, n):
        """Text without quotes or escapes."""
        k = self.r.random()
        if k < .4:
            return 'abcdefghij'[self.r.randrange(10)] * n
        if k < .6:
            return ''.join(self.r.choice('abc XYZ019_-.,') for _ in range(n))
        i = self.r.randrange(n)
        return 'a' * i + self.c('\u00e9', '\u65e5', '\U0001f600', '\n', '\t', '\u2028') + 'b' * (n - i - 1)

    def word(self, n):
        return ('abcdefghijklmnopqrstuvwxyz_0123456789' * (n // 37 + 1))[:n]

    def one(self):
        """(source, mode)"""
        n = self.r.choice(COUNTS)
        m = min(n, 20)
        L = self.r.choice(LENGTHS) if self.r.random() < .96 else self.r.choice(LONGER)
        k = self.r.randrange(5)
        if k == 0:
            s = self.wide(n, m)
        elif k == 1:
            s = self.chain(n, m)
        elif k == 2:
            s = self.longword(L)
        elif k == 3:
            return self.modal(n, m, L)
        else:
            s = self.line(L)
        return s, ''

    def wide(self, n, m):
        r = self.r
        b = lambda i: '{ ' + self.c('', '1', 'f()', 'x') + ' }'
        return r.choice([
            lambda: '[' + self.many(n, ', ', trail=.2) + ']',
            lambda: '{' + self.many(n, ', ', lambda i: '%s => %s' % (self.c('k%d' % i, "'k%d'" % i, str(i), 'k%d' % (i // 2)), r.choice(ATOMS)), .2) + '}',
            lambda: 'f(' + self.many(n, ', ', trail=.2) + ')' + self.c('', ' |$a| { $a }'),
            lambda: 'notice ' + self.many(n, ', '),
            lambda: '$a.f(' + self.many(n, ', ') + ')' + self.c('', ' |$a| { $a }'),
            lambda: '$a[' + self.many(n, ', ') + ']',
            lambda: 'f() |' + self.many(n, ', ', self.param) + '| { }',
            lambda: self.c('class', 'define', 'function') + ' a(' + self.many(n, ', ', self.param, .2) + ') { ' + self.many(self.r.randrange(3), '; ') + ' }',
            lambda: 'file { ' + self.many(n, '; ', lambda i: "'t%d': %s" % (i, self.c('', 'a => 1', 'a => 1, * => $b', 'a => 1, b => 2'))) + ' }',
            lambda: 'file { [' + self.many(n, ', ') + ']: a => 1 }',
            lambda: self.c('', '@', '@@') + 'file { "x": ' + self.many(n, ', ', self.op, .2) + ' }',
            lambda: self.c('File', 'File[a]', 'Class', '@File') + ' { ' + self.many(n, ', ', self.op, .2) + ' }',
            lambda: 'File <| a == 1 |> { ' + self.many(n, ', ', self.op) + ' }',
            lambda: 'A[' + self.many(n, ', ') + '] { a => 1 }',
            lambda: 'case $a { ' + self.many(n, ' ', lambda i: '%s: %s' % (self.many(r.randrange(1, 4), ', '), b(i))) + ' }',
            lambda: 'case $a { ' + self.many(n, ', ') + ': { } }',
            lambda: '$a ? { ' + self.many(n, ', ', lambda i: r.choice(ATOMS) + ' => ' + r.choice(ATOMS), .2) + ' }',
            lambda: 'if $a ' + b(0) + ''.join(' elsif $%s %s' % ('abc'[i % 3], b(i)) for i in range(m)) + self.c('', ' else { 2 }'),
            lambda: self.many(n, self.c('\n', '; ', ' ;\n')),
            lambda: self.many(n, self.c('\n', '; '), lambda i: '$a%d = %s' % (i, r.choice(ATOMS))),
            lambda: self.many(n, '\n', lambda i: self.c('class a%d { }', 'define b::c%d { }', 'function f%d() { }', 'type A%d = B', 'node n%d { }') % i),
            lambda: 'if $a { ' + self.many(n, '; ') + ' }',
            lambda: 'f() |$x| { ' + self.many(n, '; ') + ' }',
            lambda: '"' + self.many(n, self.c('', ' ', '-'), lambda i: self.c('${a%d}' % i, '$b', 'c', '${1 + 2}', '\\n', '${x.y(1)}')) + '"',
            lambda: '@("E")\n' + self.many(n, self.c('', '\n', '-'), lambda i: self.c('${a%d}' % i, 'c', '${1 + 2}', ' d', 'xyz')) + '\n| E\n',
            lambda: 'node ' + self.many(n, ', ', lambda i: self.c('n%d' % i, "'n%d'" % i, 'a.b%d' % i, '/n%d/' % i)) + ' { }',
            lambda: self.many(m, ', ', lambda i: '@(E%d)' % i) + '\n' + ''.join('x%d\nE%d\n' % (i, i) for i in range(m)),
            lambda: 'class a { ' + self.many(m, '\n', lambda i: 'class b%d { }' % i) + ' }',
            lambda: 'A produces B { ' + self.many(n, ', ', self.op) + ' }',
            lambda: 'type A = {' + self.many(n, ', ', lambda i: 'a%d => %s' % (i, r.choice(ATOMS))) + '}',
            lambda: 'type A = Enum[' + self.many(n, ', ', lambda i: 'e%d' % i) + ']',
            lambda: '[' + self.many(n, ', ') + '] = [' + self.many(n, ', ') + ']',
            lambda: 'f(' + self.many(n, ', ', lambda i: 'k%d => %d' % (i, i)) + ')',
            lambda: 'f(1, ' + self.many(n, ', ', lambda i: 'k%d => %d' % (i, i)) + ')',
            lambda: 'f(' + self.many(n, ', ', lambda i: '*$a%d' % i) + ')',
        ])()

    def chain(self, n, m):
        r = self.r
        o = self.c('+', '-', '*', '/', '%', '<<', '>>', '==', '!=', '=~', '<', '>=', 'and', 'or', 'in', '->', '~>', '<-', '=')
        q = min(n, 12)
        return r.choice([
            lambda: self.many(m, ' %s ' % o),
            lambda: self.many(n, ' %s ' % o, lambda i: self.c('$a', '1', 'x')),
            lambda: r.choice(ATOMS) + ''.join(' ' + self.c('+', '-', '*', 'and', 'or', 'in', '==', '<', '>>', '=~') + ' ' + r.choice(ATOMS) for _ in range(m)),
            lambda: '$a' + ''.join(self.c('.f', '.g(1)', '[1]', '.h |$x| { }', '.i(2, 3)', '[a, b]') for _ in range(m)),
            lambda: 'a' + '::b' * n,
            lambda: 'A' + '::B' * n + self.c('', '[1]', ' { a => 1 }', '(1)'),
            lambda: '$a' + '::b' * n,
            lambda: self.c('!', '- ', '*', '!-') * q + '$a',
            lambda: '[' * m + self.c('', '1', '$a') + ']' * m,
            lambda: '(' * m + self.c('1', '$a', '$a + 1') + ')' * m,
            lambda: '{a => ' * m + '1' + '}' * m,
            lambda: 'f(' * m + '1' + ')' * m,
            lambda: 'if $a { ' * m + '1' + ' }' * m,
            lambda: ''.join('class a%d { ' % i for i in range(m)) + '1' + ' }' * m,
            lambda: '"${' * min(m, 5) + 'a' + '}"' * min(m, 5),
            lambda: self.within(self.c(2, 3, 3, 4, 5, 6)),
            lambda: self.within(self.c(2, 3, 4)) + self.c('', ' ', ';\n') + self.within(2),
            lambda: 'A <| ' + self.many(m, self.c(' and ', ' or '), lambda i: 'a%d == %d' % (i, i)) + ' |>',
            lambda: self.many(q, self.c(' -> ', ' ~> ', '\n-> '), lambda i: self.c('File[a]', 'file { "a": }', 'A <| |>', 'Class[b]')),
            lambda: '$a = ' * q + '1',
            lambda: '$a' + '[1]' * n,
            lambda: '$a' + '.b' * n,
            lambda: '$a' + ' ? { 1 => $b }' * q,
            lambda: '1 ? { 1 => ' * q + '2' + ' }' * q,
            lambda: 'f() |$x| { ' * q + '1' + ' }' * q,
            lambda: 'f(1)' + '(2)' * n,
        ])()

    def within(self, n):
        """Strings in expressions in strings."""
        if not n:
            return self.c('$a', 'b', '1', "'s'", '"t"', 'f(1)')
        e = self.within(n - 1)
        e = self.c('%s', '%s', 'f(%s)', 'g(1, %s, x)', '$a[%s]', '[%s]', '$a + %s', '(%s)', '$a.b(%s) |$x| { $x }', '{ a => %s }', 'if $a { %s } else { 2 }', '$a ? { 1 => %s }', ' %s ', '"x${$y}z", %s') % e
        t = lambda: self.c('', '', 'x', ' y ', '\u00e9', '\n', '\\n', '$b ')
        return '"%s${%s}%s"' % (t(), e, t())

    def longword(self, n):
        r = self.r
        d = ''.join(r.choice('0123456789') for _ in range(min(n, 330)))
        return r.choice([
            lambda: self.word(n), lambda: 'A' + self.word(n), lambda: '$' + self.word(n), lambda: self.word(n) + '::' + self.word(n),
            lambda: "'" + self.text(n) + "'", lambda: '"' + self.text(n) + '"', lambda: '"' + self.text(n) + '${' + self.word(9) + '}' + self.text(n // 2 + 1) + '"',
            lambda: '/' + self.word(n) + '/', lambda: '"' + self.c('\\n', '\\u00e9', '\\u{1F600}', '\\\\', '\\"', '\\s', '\\q') * min(n, 100) + '"',
            lambda: "'" + self.c("\\'", '\\\\', '\\n') * min(n, 100) + "'", lambda: '1' + d, lambda: '0.' + d, lambda: '1' + d + '.5', lambda: '1.' + '0' * min(n, 300) + '1', lambda: '0x' + '0' * n + '1F', lambda: '0' * n + '17',
            lambda: '1e' + '0' * min(n, 60) + '5', lambda: '# ' + self.text(n).replace('\n', ' ') + '\n$a', lambda: '/* ' + self.text(n) + ' */ $a', lambda: ' ' * n + '$a', lambda: '\n' * n + '$a', lambda: '$a' + '\t' * n + '+' + '\r\n' * min(n, 50) + '1',
            lambda: '@(E)\n' + self.text(n) + '\nE\n', lambda: '@(E)\n' + ' ' * n + 'a\n' + ' ' * (n // 2) + '| E\n', lambda: '@(' + self.word(n) + ')\na\n' + self.word(n) + '\n', lambda: '@("E":' + self.word(n) + '/tn)\na\\t\n| E\n',
            lambda: '@(E)\n' + ''.join('%s\n' % self.text(4) for _ in range(min(n, 60))) + '|- E\n', lambda: self.word(n) + " { 'a': " + self.word(n) + ' => 1 }', lambda: 'class ' + self.word(n) + '($' + self.word(n) + ') { }',
            lambda: '$a.' + self.word(n), lambda: "'" + self.text(n), lambda: '"' + self.text(n), lambda: '/* ' + self.text(n), lambda: '@(E)\n' + self.text(n) + '\n', lambda: self.text(n), lambda: '"' + '$' * n + 'a"', lambda: '"' + '{' * n + '"',
            lambda: self.near(n), lambda: self.near(n),
            lambda: 'f(' + self.word(n) + ' ]', lambda: '}' + self.word(n), lambda: "node '" + self.word(n).replace('_', '.') + "' { }", lambda: '{' + self.word(n) + ' => 1, ' + self.word(n) + ' => 2}',
        ])()

    def near(self, n):
        """Words that differ in little, late."""
        w = self.word(n)
        k = self.r.randrange(len(w))
        v = self.c(w[:-1], w + 'x', w[:-1] + '_', w[:k] + '0' + w[k + 1:], w[:k] + '_', w.upper(), w + ' x', w)
        return self.c('@(%s)\n%s\n %s\n| %s\nx\n%s\n' % (w, v, v, v, w), '{ %s => 1, %s => 2 }' % (w, v.replace(' ', '')), "{ '%s' => 1, \"%s\" => 2 }" % (w, v), 'class a($%s, $%s) { }' % (w, v.replace(' ', '').lower()),
                      'class %s { } class %s { }' % (w, v.replace(' ', '').lower()), '$%s = $%s' % (w, v), '@(%s)\n  a\n  | %s\n  b\n  |- %s\n' % (w, v, w), '/* %s */ %s' % (w, v), "f('%s') |$%s| { $%s }" % (v, w, v))

    def line(self, n):
        """Statements after something long on the same line."""
        a = self.c(lambda: "'" + self.text(n).replace('\n', ' ') + "'; ", lambda: '/* ' + self.text(n) + ' */ ', lambda: ' ' * n, lambda: '"${a}' + self.text(n) + '"; ', lambda: self.many(min(n, 30), '; ') + '; ')()
        b = self.c('$a = [1, x]', 'f(1, 2) |$x| { $y }', "file { 'a': b => 1 }", '"a${b}c"', '@(E)\nx\n| E\n', 'case 1 { 2: { 3 } }', 'class a::b($c) inherits d { }', '1 + (2', "$a ? { 1 => 'b' }", 'A <| b == c |>', '$a = 1 $b = 2\n$c = 3', '}', '"x', '$a[1][2].b', '{a => 1, a => 2}', 'type A = B[c]', '1; 2; 3', 'notice(')
        return a + b

    def modal(self, n, m, L):
        r = self.r
        q = lambda i: self.c('text', ' \n', '<%= $a %>', '<% $b = 1 -%>\n', '<%# c %>', '<%%', '%%>', "<%= 'x' -%>", '\u00e9')
        return r.choice([
            lambda: (self.many(n, self.c('', ' ', '\n'), q), 'e'),
            lambda: ('<%|' + self.many(n, ', ', self.param) + '|%>' + self.text(L), 'e'),
            lambda: (self.text(L) + '<%= $a %>' + self.text(L), 'e'),
            lambda: ('<%# ' + self.text(L) + ' %>' + ' ' * min(L, 80) + '<%- $a -%>' + ' ' * min(L, 80) + '\nb', 'e'),
            lambda: ('plan a(' + self.many(n, ', ', self.param) + ') { ' + self.many(r.randrange(4), '; ') + ' }', 't'),
            lambda: (self.many(m, '\n', lambda i: 'plan p%d() { }' % i), 't'),
            lambda: ('action a { parameters => (' + self.many(n, ', ', self.param) + '), returns => (' + self.many(m, ', ', lambda i: 'String $r%d' % i) + ') } { ' + self.many(r.randrange(4), '; ') + ' }', 'w'),
            lambda: ('resource a { } { ' + self.many(n, ', ', lambda i: 'a%d => %s' % (i, r.choice(ATOMS))) + ' }', 'w'),
            lambda: ('workflow w { } { ' + self.many(m, '\n', lambda i: self.c('resource r%d { } { a => $b }', 'action a%d { } { }', 'workflow w%d { } { }', 'stateHandler s%d { } { }') % i) + ' }', 'w'),
            lambda: (''.join('workflow w%d { } { ' % i for i in range(min(m, 10))) + 'action x { } { }' + ' }' * min(m, 10), 'w'),
            lambda: ('action ' + self.word(L) + ' { ' + self.many(m, ', ', lambda i: 'p%d => %d' % (i, i)) + ' } { }', 'w'),
            lambda: ('`' + self.text(L) + '`', 'b'),
            lambda: ('"' + '\\x41' * min(L, 60) + '"', 'h'),
            lambda: ('resource a { returns => ($a = (' + self.many(m, ', ', lambda i: 'b%d' % i) + ')) } { }', 'w'),
        ])()


def sources(seed, n):
    g = Long('long %s' % seed)
    out, seen = [], set()
    while len(out) < n:
        s, m = g.one()
        b = s.encode()
        if len(b) <= 4400 and (b, m) not in seen:
            seen.add((b, m))
            out.append((b, m))
    return out


def texts(seed, n):
    """Texts that need not be programs, with long lines and many."""
    r = random.Random('texts %s' % seed)
    al = 'abc {}()"\'$\t\r' * 3 + '\u00e9\u65e5\U0001f600\u2028\ufffd\x85'
    out = []
    for _ in range(n):
        s, left = '', r.choice((60, 200, 700, 1500))
        plain = r.random() < .3
        while left > 0:
            k = min(left, r.choice((0, 0, 1, 2, 5, 20, 40, 70, 100, 130, 260, 300, 520, 600, 1100)))
            a = r.random() < .4
            s += ''.join('x' if a or plain else r.choice(al) for _ in range(k))
            if a and k and r.random() < .6:
                i = len(s) - 1 - r.randrange(k)
                s = s[:i] + r.choice('\u00e9\u65e5\U0001f600') + s[i + 1:]
            s += r.choice(('\n', '\n', '\n', '\r\n', '\n\n', '\r'))
            left -= k + 1
        out.append((s.rstrip('\n').encode() if r.random() < .5 else s.encode(), ''))
    return out
