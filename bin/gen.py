"""Random sources, from a seed: derivations of the language by domain, mutations of them, and token soup."""
import random
import re

KEYWORDS = ('and application attr case class consumes default define else elsif false function if import in inherits node or plan '
            'produces site step true type undef unless').split()
PUNCT = ('= += -= == != =~ !~ < <= > >= << >> + - * / % ! ( ) [ ] { } { } ( ) , ; : :: ? | || && . .. => +> -> ~> <- <~ @ @@ '
         '<| |> <<| |>> $ ` \\ ~ # & ^ %> -%> <% <%= <%- <%# \' "').split()
WORDS = ['a', 'b1', 'foo', 'foo::bar', '::foo', 'Foo', 'Foo::Bar', '::Foo', '_x', 'x_y', 'notice', 'include', 'fail', 'return', 'break',
         'next', 'tag', 'a-b', 'x1::Y', 'Class', 'File', 'Integer', 'Optional', 'string', 'é', 'require', 'contain', 'realize', 'a::',
         'A::b', 'ünicode', 'alert', 'debug', 'attr', 'private', 'type', 'step', 'application', 'workflow', 'resource', 'action', 'stateHandler', 'collect',
         'iteration', 'times', 'range', 'each', 'returns', 'parameters', 'when', 'guard', 'plan', 'site', 'node', 'function', 'default']
NUMS = ['0', '1', '42', '007', '0x1F', '0xg', '08', '1.5', '1e3', '1.0e-2', '0.5E+4', '1.', '.5', '1a', '0x', '1e', '1.e3', '9223372036854775807',
        '9223372036854775808', '0777777777777777777777', '01777777777777777777777', '0x7fffffffffffffff', '0xffffffffffffffff', '1..2', '00', '1e400', '0.0', '12.50', '1_000', '5e-1', '0.1', '0.7', '9.95', '1e23', '8.5e-7', '0.3333333333333333333', '12345678901234567890.5', '1.7976931348623159e308', '5e-324', '7e22']
STRS = ["'a'", "''", '"b"', '""', "'it\\'s'", '"a${b}c"', '"$x y"', '"${x.y}"', "'a\\\\b'", '"\\n\\t\\$"', '"\\u00e5"', '"\\u{1F600}"', '"\\x41"', '"\\q"', '"${1 + 2}"', '"$x::y[1]"',
        "'\\q'", '"${x[1]}"', '"${notice(1)}"', '"é"', "'å'", '"a\nb"', '"$"', '"${"', "'x", '"x', '"\\u{zz}"', '"\\u12"', '"\\x4"', '"${if}"', '"${a}${b}"', '"$1"', '"${1}"', '"\\\n"']
COMMENTS = ['# c\n', '/* c */', '/* c\n d */', '#\n', '/**/', '# é\n', '/***/']
VARS = ['$a', '$foo::bar', '$::x', '$1', '$0', '$10', '$a_b', '$_x', '$A', '$x-y', '$01', '$a::B', '$class', '$é']
HEREDOCS = ['@(E)\nabc\nE\n', '@("E")\na ${b} c\n| E\n', '@(E/tn)\na\\tb\\n\n|- E\n', '@("E":json/L)\n{ \\\n }\n  | E\n', '@( E )\n x\n -E\n', '@(E)\nE\n', '@("E"/)\n\\t$x\n-E\n', '@(E', '@()\n', '@(E)\nabc\n',
            '@("E"/$)\n a \\$b ${1+2}\n | E', '@(E:json)\n  é\n  | E\n', '@(E/x)\nE\n', '@(E/tt)\nE\n', '@("E)\nE\n', '@(E:a:b)\nE\n', '@(E/L)\na\\\nb\n- E\n']
OPS = ['+', '-', '*', '/', '%', '<<', '>>', '==', '!=', '=~', '!~', '<', '<=', '>', '>=', 'and', 'or', 'in', '=', '+=', '-=', '->', '~>', '<-', '<~', '.']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def c(self, *xs):
        return self.r.choice(xs)

    def ws(self):
        k = self.r.random()
        if k < .7:
            return ' '
        return self.c('\n', '  ', '\t', ' \n ', self.r.choice(COMMENTS) + '\n', ' ' + self.r.choice(COMMENTS) + ' ', '\r\n', ' ')

    def sp(self):
        return '' if self.p(.6) else self.ws()

    def j(self, *parts):
        return ''.join(p + self.sp() for p in parts)

    def js(self, *parts):
        return ''.join(p + self.ws() for p in parts)

    def name(self):
        return self.c('a', 'b', 'foo', 'foo::bar', 'x_y', 'a1', '::top', 'a::b::c', 'file', 'notify')

    def ref(self):
        return self.c('Foo', 'Foo::Bar', 'Integer', 'File', '::Top', 'Class', 'String', 'Optional', 'Resource')

    def var(self):
        return self.c('$a', '$b', '$foo::bar', '$::x', '$1', '$0', '$x_y', '$c')

    def num(self):
        return self.c('0', '1', '2', '10', '42', '017', '0x1F', '1.5', '1e3', '2.5e-3', '0.25', '-1', '- 1', '+1', '-1.5', '3.0', '0xABCDEF', '00', '0.1', '7.7', '99.999999999999999', '6.02214076e23')

    def string(self, d=1):
        k = self.r.randrange(12)
        if k < 3:
            return "'" + ''.join(self.c('a', 'b', ' ', '\\\'', '\\\\', '\\n', '$x', '"', '\n', 'é', '${a}', '#') for _ in range(self.r.randrange(4))) + "'"
        if k < 6:
            return '"' + ''.join(self.c('a', ' ', '\\"', '\\\\', '\\n', '\\t', '\\r', '\\s', '\\$', "'", '\n', 'é', '\\u00e5', '\\u{1F600}', '\\x41', '#', '\\u{61}', '\\x4', '\\xzz', '\\u{', '\\u6') for _ in range(self.r.randrange(5))) + '"'
        if k < 11:
            return self.interp(d)
        return self.r.choice(STRS)

    def interp(self, d=1):
        return '"' + ''.join(self.c('a', ' ', '\\n', '${' + self.sp() + self.iexpr(d) + '}', self.c('$a', '$a::b', '$a[1]', '$1', '$x-y', '$', '$ ', '$$'), 'é ', '\n',
                                    '${' + self.name() + self.c('', '[1]', '.x', '.x(1)', '[1][2].y', '::z', ' + 1', '.b.c(1).d', '.b[1].c', '[1].b(2) |$x| { }', '.b.c', '(1)', '(1).b', '[a].b', ' |$x| { }', '.1', self.chain()) + '}') for _ in range(self.r.randrange(1, 5))) + '"'

    def chain(self):
        return ''.join(self.c('.b', '.c(1)', '.d |$x| { $x }', '.e(2, $y) |$y, $z| { 1 }', '[1]', '[$a, b]', '(3)', '.each |$x| { $x.f |$y| { } }', '.f("${g.h}")', ' |$q| { }') for _ in range(self.r.randrange(1, 5)))

    def iexpr(self, d):
        return self.expr(d - 1) if d > 0 else self.c('a', '$a', '1', 'a.b', 'a[1]', '1.x', "'q'", 'if', 'foo(1)', 'a::b', '')

    def regex(self):
        return '/' + self.c('a', 'a.*b', '\\/', '[a-z]+', '\\d\\.', '', '(x|y)', 'é', 'a b') + '/'

    def heredoc(self, d=1):
        tag = self.c('E', 'END', 'A B', 'É')
        q = self.p(.5)
        t = ('"%s"' % tag) if q else tag
        syn = self.c('', '', ':json', ':a_b')
        esc = self.c('', '', '', '/', '/t', '/tn', '/$', '/L', '/tsrnuL$', '/u', '/s\\r')
        esc = esc.replace('\\', '')
        body = ''.join(self.c('a', '  b', '\\t', '\\n', '\\$', '\\\\', '\\\n', '\n', '\n', '\n   ', ' ', '$a', '${a}', '${1+2}', 'é', '\\u0041', '|', '-', '"') for _ in range(self.r.randrange(7)))
        end = self.c('', ' ', '  ', '   ') + self.c('', '|', '| ', '|-', '|- ', '-', '- ', '| -', '') + tag
        return '@(%s%s%s)%s\n%s\n%s\n' % (t, syn, esc, self.c('', '', ' ', ' + 1', ', 2', '# c'), body, end)

    def prim(self, d):
        k = self.r.randrange(26)
        if k < 5:
            return self.var()
        if k < 8:
            return self.num()
        if k < 9:
            return self.string(d)
        if k < 11:
            return self.name()
        if k < 13:
            return self.ref()
        if k < 14:
            return self.c('true', 'false', 'undef', 'default')
        if k < 15:
            return self.regex()
        if k < 17:
            return self.array(d)
        if k < 19:
            return self.hash(d)
        if k < 20:
            return '(' + self.sp() + self.expr(d - 1) + self.sp() + ')'
        if k < 22:
            return self.call(d)
        if k < 23:
            return self.var() + '[' + self.args(d) + ']'
        if k < 24:
            return self.ref() + '[' + self.args(d) + ']'
        return self.c('if', 'case', 'unless', 'x') != 'x' and self.cond(d - 1) or self.string(d)

    def args(self, d, n=3):
        a = [self.c('*', '', '', '', '', '', '', '') + self.expr(d - 1) for _ in range(self.r.randrange(1, n))]
        if self.p(.15):
            a.append(self.name() + self.sp() + '=>' + self.sp() + self.expr(d - 1))
        return (',' + self.sp()).join(a) + self.c('', '', '', ',')

    def array(self, d):
        return self.j('[') + ('' if self.p(.15) or d <= 0 else self.args(d)) + ']'

    def hash(self, d):
        e = [self.j(self.expr(d - 1), '=>') + self.expr(d - 1) for _ in range(self.r.randrange(3) if d > 0 else 0)]
        return self.j('{') + (',' + self.ws()).join(e) + self.c('', ',') * (len(e) > 0) + '}'

    def lam(self, d):
        return '|' + self.params(d, 2) + '|' + self.sp() + self.c('', '', '>> Integer ') + '{' + self.sp() + self.body(d - 1, 2) + self.sp() + '}'

    def call(self, d):
        k = self.r.randrange(8)
        if k > 5:
            return self.c('(1)', '(f(1))', '$a', '$a[1]', '(a)', 'a', 'A', "'a'", '[a]', '(A)', '$a.b', '(1 + 2)', '("a")', 'type', 'default', 'a.b', 'A[1]', '{}', '(notice)', 'unless', 'private', 'attr') + self.c('(1)', '()', '(1)(2)', ' (1)', '(1,)', '(1) |$x| { 1 }', '(*$a)', '.b(1)', '[1](2)', ' |$x| { $x }', '\n(1)', '(a => 1)', '(1, a => 1, b => 2)', '(a => 1, 2)', '(1)[2]', '(1).b(2)', ' [1]', ' [1] (2)', ' [1], 2')
        if k < 2:
            return self.name() + '(' + (self.args(d) if d > 0 and self.p(.7) else '') + ')' + (self.ws() + self.lam(d) if self.p(.25) and d > 0 else '')
        if k < 5:
            return self.c(self.var(), self.num(), self.name(), self.array(d - 1), self.ref(), '"s"') + self.sp() + '.' + self.sp() + self.c('each', 'map', 'foo', 'foo::bar', 'type', 'Foo') + \
                (('(' + self.args(d - 1) + ')') if self.p(.5) and d > 0 else '') + (self.ws() + self.lam(d) if self.p(.4) and d > 0 else '')
        return self.ref() + '(' + (self.args(d - 1) if d > 0 else '') + ')'

    def expr(self, d):
        if d <= 0:
            return self.c(self.var(), self.num(), self.name(), self.ref(), "'s'", '"d"', 'true', 'undef', 'default', '[]', '{}')
        k = self.r.randrange(13)
        if k < 4:
            return self.prim(d)
        if k < 9:
            o = self.r.choice(OPS)
            a, b = self.expr(d - 1), self.expr(d - 1)
            if o in ('and', 'or', 'in'):
                return a + self.ws() + o + self.ws() + b
            return a + self.sp() + (' ' + o + ' ' if self.p(.7) else o) + self.sp() + b
        if k < 10:
            return self.c('!', '-', '! ', '- ', '!!', '*', '*') + self.expr(d - 1)
        if k < 11:
            return self.expr(d - 1) + self.sp() + '?' + self.sp() + self.c('{ ' + ', '.join(self.c(self.expr(0), 'default', self.regex()) + ' => ' + self.expr(d - 1) for _ in range(self.r.randrange(1, 3))) + self.c('', ',') + ' }',
                                                                         self.expr(0) + ' => ' + self.expr(0))
        if k < 12:
            return self.expr(d - 1) + '[' + self.args(d - 1) + ']'
        return self.ops(d)

    def ops(self, d=3, n=None):
        """A chain of operators without parentheses."""
        n = n or self.r.randrange(2, 6)
        s = self.atom()
        for _ in range(n):
            o = self.r.choice(OPS[:-1])
            s += ' ' + o + ' ' + self.c('', '', '', '!', '-', '- ') + self.atom()
        return s

    def atom(self):
        return self.c('$a', '$b', '1', '2', 'x', 'Y', '(1 + 2)', '$a[1]', 'f(1)', '$c.d', '[1]', "'s'", '/r/', 'true', '{a => 1}', 'Foo[x]', '-1', '*$a', '@(X)\nq\n| X\n')

    def block(self, d, n=3):
        return '{' + self.sp() + self.body(d - 1, n) + self.sp() + '}'

    def body(self, d, n=3):
        k = self.r.randrange(n + 1)
        return self.c('\n', '; ', ' ', '\n').join(self.stmt(d) for _ in range(k))

    def cond(self, d):
        k = self.r.randrange(5)
        if k == 0:
            s = 'if ' + self.expr(d) + ' ' + self.block(d, 2)
            while self.p(.3):
                s += self.ws() + 'elsif ' + self.expr(d) + self.sp() + ' ' + self.block(d, 2)
            if self.p(.4):
                s += self.ws() + 'else ' + self.block(d, 2)
            return s
        if k == 1:
            return 'unless ' + self.expr(d) + ' ' + self.block(d, 2) + self.c('', '', '', '', '', ' elsif 1 { }') + (self.ws() + 'else ' + self.block(d, 2) if self.p(.3) else '')
        if k == 2:
            return 'case ' + self.expr(d) + ' {' + self.ws() + ''.join(', '.join(self.c(self.expr(0), 'default', self.regex(), "'x'") for _ in range(self.r.randrange(1, 3))) + self.c('', ',') * self.p(.2) + self.sp() + ':' + self.sp() +
                                                                   self.block(d, 1) + self.ws() for _ in range(self.r.randrange(1, 3))) + '}'
        return self.expr(d)

    def attrs(self, d, ops=('=>', '=>', '=>', '+>')):
        a = []
        for _ in range(self.r.randrange(4)):
            a.append(self.c(self.c('a', 'ensure', 'mode', 'if', 'type', 'x1', '*', 'default', 'in', 'node') + self.sp() + self.r.choice(ops) + self.sp() + self.expr(d - 1)))
        return (',' + self.ws()).join(a) + (self.c('', ',') if a else '')

    def resource(self, d):
        form = self.c('', '', '', '@', '@@', '@ ')
        k = self.r.randrange(9)
        if k < 5:
            t = self.c('file', 'foo::bar', 'class', '::x', 'notify', 'Foo', 'File[x]', '$a')
            bodies = ';'.join(self.sp() + self.c('"/a"', "'t'", '$a', "['a', 'b']", 'default', 'x', 'x::y', 'X[y]', '1') + self.sp() + ':' + self.sp() + self.attrs(d) for _ in range(self.c(1, 1, 1, 2, 3, 0)))
            return form + t + self.ws() + '{' + bodies + self.c('', ';') * (self.p(.2)) + self.sp() + '}'
        if k < 6:
            return form + self.c('File', 'file', 'Foo::Bar', 'File[x]', 'Class[a]', "Resource['a']", "Resource[a, 'b']", 'Resource', 'File[a, b]', 'Resource[$a, $b, $c]', 'File[a][b]', 'Resource[]', 'resource[a, b]', '$a[1, 2]', "Resource['a', 'b']") + ' {' + self.sp() + self.attrs(d) + self.sp() + '}'
        if k < 8:
            q = self.c('', 'a == 1', "a != 'x'", 'a == b and c == d', 'a == 1 or b == $c', '(a == 1)', '(a == 1 or b == 2) and c == 3', '1', 'a = 1', 'a', 'a == 1 and b', self.expr(1))
            b, e = self.c(('<|', '|>'), ('<<|', '|>>'))
            return self.c('File', 'Foo::Bar', 'file', 'Class', '$x') + ' ' + b + ' ' + q + ' ' + e + (' {' + self.sp() + self.attrs(d) + self.sp() + '}' if self.p(.3) else '')
        return ' '.join([self.resource(d - 1) if d > 0 else "File['a']", self.c('->', '~>', '<-', '<~'), self.resource(d - 1) if d > 0 else "File['b']"])

    def params(self, d, n=4, types=True):
        ps = []
        for _ in range(self.r.randrange(n)):
            t = self.c('', '', 'Integer ', 'Optional[String] ', 'Foo::Bar[1, 2] ', 'x ', 'Variant[Integer,Float]')
            ps.append(t + self.c('', '', '', '', '*') + self.c('$a', '$b', '$c', '$x1', '$d', '$_e', '$F') + (self.sp() + '=' + self.sp() + self.expr(d - 1) if self.p(.3) else ''))
        return self.sp() + (',' + self.ws()).join(ps) + (self.c('', ',') if ps else '')

    def definition(self, d):
        k = self.r.randrange(12)
        n = self.c('a', 'foo', 'foo::bar', 'x1', 'A', '::b', 'a::b::c', '"s"', 'x-y')
        if k < 3:
            return 'class ' + n + self.c('', '(' + self.params(d) + ')') + self.sp() + self.c('', '', ' inherits ' + self.c('b', 'foo::bar', '::x', 'default', 'B', '1', '')) + ' ' + self.block(d)
        if k < 5:
            return 'define ' + n + self.c('', '(' + self.params(d) + ')') + ' ' + self.block(d)
        if k < 7:
            return self.c('function ', 'plan ') + n + self.c('', '(' + self.params(d) + ')') + self.c('', '', ' >> Integer', ' >> Foo[1]') + ' ' + self.block(d)
        if k < 9:
            return 'node ' + ', '.join(self.c('a', 'a.b', "'a.b'", 'default', self.regex(), '"x"', 'a.b-c', '1', 'a.1.c', '$x', 'A', '"${a}"') for _ in range(self.r.randrange(1, 3))) + self.c('', '', ',') + self.c('', '', ' inherits b') + ' ' + self.block(d)
        if k < 11:
            return 'type ' + self.c('Foo', 'Foo::Bar', 'foo', 'Foo[1]') + self.c(' = ', ' = ', ' inherits B ', ' = B ', ' ', '=') + self.c('Integer', 'Variant[Integer, String]', 'Enum[a]', '{ a => 1 }', 'Object[{ a => 1 }]', 'Object{ a => 1 }', 'Foo', '1', self.expr(1), '')
        return self.c('application a { }', 'site { ' + self.stmt(d - 1) + ' }', 'import "a"', 'A produces B { a => 1 }', 'A consumes B { }', 'application x($a) { file { "x": } }')

    def state(self, d):
        """What a resource step has its attributes set to."""
        k = self.r.randrange(12 if d > 0 else 5)
        if k < 5:
            return self.c('$a', '$a::b', '1', 'x', 'A', "'s'", '"${a}"', '$1', 'undef', '$a + 1', '$a[1]', '$a.b', '-$a')
        if k < 6:
            return '[' + ', '.join(self.state(d - 1) for _ in range(self.r.randrange(3))) + ']'
        if k < 8:
            return '{' + ', '.join(self.state(d - 1) + ' => ' + self.state(d - 1) for _ in range(self.r.randrange(3))) + '}'
        if k < 11:
            return self.c('f', 'a::b', 'A', 'A::B', 'lookup', '$a', 'A[1]', 'new') + '(' + ', '.join(self.state(d - 1) for _ in range(self.r.randrange(3))) + ')' + self.c('', '', '', ' |$x| { $x }')
        return '(' + self.state(d - 1) + ')'

    def iteration(self):
        if self.p(.7):
            return ''
        return self.c('', '', '$x = ', '$x::y = ', '$1 = ', '$x ') + self.c('times', 'each', 'range', 'each', 'foo', '') + \
            self.c('(3)', '($a)', '()', '(1, 2)', '(Integer $a = 1)', '(*$a)', '($a = [1, 2])', '', '($a,)') + self.sp() + self.c('|$a|', '|$a, $b|', '|$a = 1|', '| |', '||', '|Integer $a,|', '', '|*$a|')

    def step(self, d):
        props = []
        for _ in range(self.r.randrange(4)):
            props.append(self.c(
                lambda: self.c('parameters', 'returns', 'parameters', 'returns') + self.sp() + '=>' + self.sp() + self.c(
                    '(' + self.params(1) + ')', '()', '$a', '[a]', '{a=>1}', 'x', '( $a, )', '(Integer $b = 1, $c,)', "'$a'", '($x = $y.z)', '(String $a, $b = c)', '($a = (b, c))', '($a = (b))', '($a = (b, c,), $d)', '($a = ())', '($a = x::y)',
                    '($a = (x::y, z))', '($a = 1)', '(A $b = (c, 1))', '($1)', '(A)', '(*$a)', '(A[1] $b)'),
                lambda: self.c('iteration', 'iterator') + self.sp() + '=>' + self.sp() + self.c('{ a => 1 }', 'each($a) |$x| { }', 'x'),
                lambda: self.c('when', 'typespace', 'state', 'resourceId', 'activity', 'call', 'type', 'step', 'returns', 'parameters', 'in', "'q'", '1', '$a') + self.sp() + self.c('=>', '=>', '=>', '+>', '') + self.sp() + self.expr(1))())
        head = self.c('', '', '', '', 'step ')
        nm = self.c('a', 'foo', 'b', 'a', 'foo', 'b', 'foo::bar', 'A', '', '"a"', 'type', '1', 'if')
        style = self.c('workflow', 'resource', 'action', 'stateHandler', 'workflow', 'resource', 'resource', 'action') if self.p(.92) else self.c('function', 'step', 'collect', 'foo', '', 'Resource')
        s = head + style + ' ' + nm + self.sp() + '{' + self.sp() + (',' + self.ws()).join(props) + (self.c('', ',') if props else '') + self.sp() + '}' + self.sp() + self.iteration() + self.sp()
        if self.p(.1):
            style = self.c('workflow', 'resource', 'action')
        if style == 'workflow':
            if self.p(.7):
                s += '{' + self.sp() + ''.join((self.step(d - 1) if self.p(.85) else self.c('function f() { }', 'function a::b($a) >> Integer { 1 }', 'notice 1', ';', 'foo a {}')) + self.ws() for _ in range(self.r.randrange(3) if d > 0 else 0)) + '}'
        elif style == 'resource':
            if self.p(.8):
                s += '{' + self.sp() + (',' + self.ws()).join(self.c('a', 'b', 'ensure', 'type', 'if', 'a', 'b', "'q'", 'A', 'x::y')[:None if self.p(.1) else 6] + self.sp() + self.c('=>', '=>', '=>', '=>', '=>', '+>', '') + self.sp() + self.state(2) for _ in range(self.r.randrange(4))) + \
                    self.c('', '', ',') + self.sp() + '}'
        elif self.p(.9):
            s += self.block(d - 1, 2)
        return s

    def wf(self, d=2):
        return self.ws().join(self.step(d) for _ in range(self.r.randrange(1, 3)))

    def stmt(self, d):
        if d <= 0:
            return self.c(self.expr(0), 'notice(1)', 'include a', '$a = 1', 'return(1)', 'break()', 'next', 'fail 1')
        k = self.r.randrange(16)
        if k < 3:
            return self.var() + self.sp() + self.c('=', '+=', '-=') + self.sp() + self.expr(d)
        if k < 5:
            return self.cond(d - 1)
        if k < 7:
            return self.resource(d - 1)
        if k < 9:
            return self.definition(d - 1)
        if k < 11:
            return self.c('notice', 'include', 'require', 'fail', 'tag', 'return', 'break', 'next', 'contain', 'realize', 'warning') + self.ws() + self.args(d).rstrip(',')
        if k < 12:
            return self.call(d)
        if k < 13:
            return self.expr(d) + self.sp() + '.' + self.call(d - 1)
        return self.expr(d)

    def program(self, d=3):
        return self.sp() + self.c('\n', '; ', '\n', ' ').join(self.stmt(d) for _ in range(self.r.randrange(1, 4))) + self.sp()

    def epp(self, d=2):
        out = ''
        if self.p(.3):
            out += self.c('<%|', '<%-|', '<%-\n|', '<% |', '<%# c %><%|') + self.params(1) + self.c('|%>', '|-%>', '| -%>\n', '| %>')
        for _ in range(self.r.randrange(5)):
            k = self.r.randrange(10)
            if k < 4:
                out += self.c('text', ' ', '\n', '  \n', 'é', '<%%', '%%>', '"q"', '$a', '%>', '\t', 'a\n b', '-', '<', '%')
            elif k < 6:
                out += self.c('<%=', '<%= ') + self.expr(1) + self.c(' %>', '%>', ' -%>', ' -%>\n', '')
            elif k < 7:
                out += self.c('<%#', '<%#-') + self.c(' c ', '', 'é', '\n', '%%>') + self.c('%>', '-%>', '-%>\n')
            elif k < 8:
                out += self.c('<%', '<%-', ' <%-', '\n  <%-') + ' ' + self.stmt(1) + ' ' + self.c('%>', '-%>', '-%> \n', '-%>\n')
            else:
                out += self.c('<% ', '<%- ') + self.c('if $a {', '$a.each |$x| {', 'unless $b {', 'case $a { 1: {') + self.c(' %>', ' -%>\n') + self.c('x', '', '<%= $x %>', '\n') + self.c('<% ', '<%- ') + self.c('}', '}', '} else {', '}}') + self.c(' %>', ' -%>\n')
        return out

    # ------------------------------------------------------------ validation
    def defname(self):
        return self.c('a', 'b', 'foo::bar', 'x1', 'a_b', 'string', 'Integer', 'type', 'application', 'consumes', 'produces', 'init', 'any', 'x::string', 'class', 'default',
                      'a::b::c', 'semver', 'timespan', 'A', 'object', 'unit', 'regexp', 'typeset', '::a', 'hash')

    def vparams(self):
        ps = [self.c('', '', 'Integer ', 'Application ', 'String[1] ') + self.c('', '', '', '', '*') + self.c('$a', '$a', '$b', '$name', '$title', '$x1', '$bAr', '$c', '$a::b', '$1', '$0x', '$::a', '$_c', '$')
              + self.c('', '', '', ' = 1', ' = $b = 2', ' = [$c = 3]', ' = f() |$x| { $y = 1 }', ' = ($d = 4)', ' = { a => $e = 5 }', ' = if true { $f = 1 }') for _ in range(self.r.randrange(4))]
        return '(' + ', '.join(ps) + ')'

    def lit(self, d=2):
        k = self.r.randrange(16 if d > 0 else 12)
        if k >= 14:
            return '[' + ', '.join(self.lit(d - 1) for _ in range(self.r.randrange(3))) + ']'
        if k >= 12:
            return '{' + ', '.join(self.lit(d - 1) + ' => ' + self.lit(d - 1) for _ in range(self.r.randrange(4))) + '}'
        return self.c('1', '0x1', '2', "'a'", '"a"', 'a', 'A', '/a/', 'true', 'false', 'undef', 'default', '1.0', '1.00', '-1', '-0.0', '0.0', '"a${1}"', '$x', '"1"', "''", 'application', 'attr', 'private', 'a::b', '@(E)\na\n| E\n',
                      '-0', '(1)', 'A[1]', '"[]"', "'(array 1)'", '1 + 1', '01', "'1.0'", 'case', '@("E")\n${a}\n| E\n', '-a', '!true', '"\\u0061"')

    def idem(self, d):
        """An expression that may or may not have an effect."""
        k = self.r.randrange(18 if d > 0 else 12)
        if k < 12:
            return self.c('1', '$a', "'x'", '"x${1}"', 'f()', '$a = 1', '1 + 2', '$a[1]', '!$a', '[1]', '{a=>1}', 'A', 'notice(1)', '$a =~ /b/', '$a == 1', '(1)', '(f())', '$a ? { 1 => 2 }', 'A -> B', 'A <| |>', 'undef', 'default', '$a.b', '$a.b()',
                          '/r/', 'File { a => 1 }', '@(E)\nx\n| E\n', 'a::b', '-$a', '*$a', 'class z {}', 'true', '$a in $b', '$a and $b', 'if true {}', '{}', 'include a', '@file { x: }', 'application', '$a != 1', '$a !~ /x/', '1.5', 'undef')
        b = lambda: '{ ' + '; '.join(self.idem(d - 1) for _ in range(self.r.randrange(3))) + ' }'
        return self.c(lambda: 'if ' + self.idem(0) + ' ' + b() + self.c('', ' else ' + b(), ' elsif ' + self.idem(0) + ' ' + b()),
                      lambda: 'unless ' + self.idem(0) + ' ' + b() + self.c('', ' else ' + b()),
                      lambda: 'case ' + self.idem(0) + ' { ' + ' '.join(self.c(self.idem(0), 'default', '1, 2', 'default, default', '1, default', 'class q {}') + ' : ' + b() for _ in range(self.r.randrange(1, 4))) + ' }',
                      lambda: '$a ? { ' + ', '.join(self.c('default', '1', self.idem(0)) + ' => ' + self.idem(0) for _ in range(self.r.randrange(1, 4))) + ' }')()

    def query(self, d=2):
        k = self.r.randrange(10)
        if k < 5 or d <= 0:
            return self.c('a', '$a', '1', '1.5', "'s'", 'true', '"s"', '"${a}"', 'undef', 'A', '[1]', 'f()', '-1', '$a[1]', 'a::b', '/r/', 'default', '!a', '(a)', 'a + 1', 'a in b', 'a =~ b', 'a = 1', '{}', 'x.y')
        if k < 8:
            return self.query(d - 1) + ' ' + self.c('==', '!=', '<', '>', 'and', 'or', 'and', '==') + ' ' + self.query(d - 1)
        return '(' + self.query(d - 1) + ')'

    def valid(self, d=3):
        """A statement that the validators may have opinions about."""
        k = self.r.randrange(24 if d > 0 else 19)
        ret = self.c('', '', ' >> Integer', ' >> Application', ' >> foo', ' >> A[1]', ' >> Produces[x]', ' >> a[1]')
        body = '{ ' + self.c('\n', '; ').join(self.c(self.idem, self.valid)(d - 1) for _ in range(self.r.randrange(3))) + ' }'
        if k < 3:
            return self.c('class ', 'define ', 'class ') + self.defname() + self.c('', self.vparams()) + ' ' + body
        if k < 5:
            return self.c('function ', 'plan ') + self.defname() + self.c('', self.vparams()) + ret + ' ' + body
        if k < 6:
            return 'node ' + ', '.join(self.c('a', 'a.b', "'a b'", '"a"', '"${a}"', 'default', '/a b/', '"a-b.c_d"', "'é'", '"a${1}b"', "'*'", '1', '"a\\x00b"', "''", 'a-b') for _ in range(self.r.randrange(1, 3))) + self.c('', " inherits 'a b'", ' inherits c') + ' ' + body
        if k < 8:
            return 'type ' + self.c('Foo', 'Integer', 'Foo::Bar', 'String', 'Type', 'Semver', 'SemVer', 'Timespan', 'Init', 'X::String') + ' = ' + self.c('Integer', 'A[1]', 'Application', 'foo', '[A]', '1', 'Produces[1]', 'Consumes', 'A::B', '$x', 'A{a=>1}')
        if k < 9:
            return 'type ' + self.c('Runtime[a, b]', 'Runtime[a, [/x/, "y"]]', "Runtime['a', [/x/, 'y']]", 'Runtime[a]', 'Foo[a]', 'Runtime', 'Runtime[a, [/x/, "y"], c]', 'Runtime[a, [/x/]]', "Runtime[a, ['x', 'y']]") + ' = ' + \
                self.c('A', 'A[1]', '[/x/, "y"]', "[/x/, 'y']", '1', '[/x/, y]', 'foo', "[/x/, 'y', 1]", '[/x/, "${y}"]')
        if k < 10:
            return self.c('A', 'a', 'A[b]', 'A[1]', 'A[b, c]', "A['x']", '$x', 'a[1]', 'A[B]') + self.c(' produces ', ' consumes ') + self.c('B', 'b', 'B::C', '::B', 'b::C', 'A::b') + ' { ' + self.c('', 'a => 1', '* => $a', 'a +> 1', 'a => 1, * => {}') + ' }'
        if k < 11:
            return self.c('application ', 'site ') + self.c('', self.defname() + self.vparams()) + body
        if k < 13:
            at = ', '.join(self.c('a => 1', 'b +> 1', '* => $x', '* => class q {}', 'c => 2', '* => {}', '* => (A <| |>)') for _ in range(self.r.randrange(4)))
            return self.c('', '', '@', '@@', '') + self.c('file { "a": %s }', 'class { "a": %s }', 'File { %s }', 'File["a"] { %s }', '$a { "x": %s }', 'class { %s }', 'Class { %s }', 'file { a: %s; b: * => 1, * => 2 }') .replace('%s', at)
        if k < 14:
            return self.c('File', 'file', '$x', 'File[a]', 'Class', 'A::B') + self.c(' <| %s |>', ' <<| %s |>>').replace('%s', self.c('', self.query())) + self.c('', '', ' { a => 1 }', ' { a +> 1 }', ' { * => 1 }')
        if k < 15:
            return self.c('$a', '$a::b', '$1', '$a[1]', '[$a, $b::c]', '[$a, [$0, $x[1]]]', 'a', 'A', '1', '($a::b)', '$::x', '"a"', '{a=>1}', '[[$a], $b]', 'f()') + self.c(' = ', ' = ', ' += ', ' -= ') + self.c('1', 'class q {}', '$b = 2', 'A <| |>')
        if k < 16:
            return self.c('"a"', '$a', 'a', 'A', 'A[1]', 'a[1]', '1', '(a)', '$a[1]', 'A[1][2]', '$a.b', '[1]', '{}', "'f'") + self.c('(1)', '()', '(1) |$a| { }', '.foo', '.Foo(1)', '.1', '.foo |*$a, $b| >> x { }', ' |$a, *$b, $a| { }', '.A', '.a[1]')
        if k < 17:
            return self.c('', '[', '1 + ', '!', '-', '$a == ', '{ a => ', 'notice ', 'f(', '$a in ', 'if ') + self.c('class q { }', 'A <| |>', '(class q { })', '!A <| |>', 'type X = Y', 'function f() { }', 'node n { }', '(A <<| |>>)', 'define d { }', 'site { }', 'A -> B') + self.c('', ']', ')', ' }', ' { }')
        if k < 18:
            return '{' + ', '.join(self.lit(2) + ' => ' + self.lit(1) for _ in range(self.r.randrange(2, 5))) + '}'
        if k < 19:
            return self.c('application', 'attr', 'private', '$a -> class q {}', 'A -> B -> C', 'A <| |> -> B', '[A] -> class q { }', 'step', 'workflow', 'consumes => 1', 'f(application)', '[private]', 'produces') + self.c('', ' -> D')
        return self.idem(d)

    def position(self):
        """Statements on lines of their own, with characters of several widths."""
        out = ''
        for _ in range(self.r.randrange(1, 5)):
            out += self.c('', ' ', '\t', '  ', '\r') + self.c('# é\n', '/* 日本 */', '', '', "'é'", '"日${a}本"', '"😀"') + self.c(' ', '\n', ' + ', '; ', ', ', '') + self.c(self.stmt(1), self.expr(1), self.interp(1), self.heredoc()) + self.c('\n', '\n\n', '\r\n', ' ', ' # ü\n')
        return out

    def deep(self):
        """Much of the same."""
        n = self.c(1, 2, 3, 5, 8, 15, 30)
        o = self.r.choice(OPS[:-1])
        a, b = self.c(('(', ')'), ('[', ']'), ('if true { ', ' }'), ('!', ''), ('- ', ''), ('f(', ')'), ('"${', '}"'), ('{ a => ', ' }'), ('unless $a { 1 } else { ', ' }'), ('$x |$y| { ', ' }'), ('class a { ', ' }'),
                      ('case 1 { 2: { ', ' } }'), ('$a ? { 1 => ', ' }'), ('f() |$a| { ', ' }'), ('$a[', ']'), ('not ', ''), ('*', ''), ('1 ' + o + ' ', ''), ('', ' ' + o + ' 1'), ('', '.b'), ('', '[1]'), ('', '; 1'), ('1, ', ''), ('A -> ', ''), ('', ' ? { a => b }'))
        if a.startswith('"') or a.startswith('- ') or a.startswith('$x |'):
            n = min(n, 4)
        return a * n + self.c('1', '$a', 'x', 'A', self.expr(1)) + b * (n if self.p(.9) else n - 1)

    def wrapped(self):
        """An expression where another construct has one."""
        e = self.c(self.expr(1), self.ops(2), self.call(1), self.string(1), self.resource(0), self.definition(0), self.cond(0), self.idem(0), self.name(), self.r.choice(KEYWORDS), self.lit(1))
        f = self.c('[%s]', '[1, %s]', '{%s => 1}', '{a => %s}', 'f(%s)', 'f(1, %s)', 'notice %s', 'notice 1, %s', '(%s)', '$a = %s', '!%s', '-%s', '*%s', '%s[1]', '$a[%s]', '%s.f', '$a.f(%s)', 'if %s { }', 'if 1 { %s }', 'if 1 { } else { %s }',
                   'unless %s { }', 'case %s { 1: { } }', 'case 1 { %s: { } }', 'case 1 { 2: { %s } }', '%s ? { 1 => 2 }', '1 ? { %s => 2 }', '1 ? { 2 => %s }', '1 ? 2 => %s', 'file { %s: }', 'file { "a": b => %s }', 'file { "a": * => %s }', '%s { "a": b => 1 }',
                   'File { a => %s }', 'File[%s] { a => 1 }', 'A <| a == %s |>', 'A <| %s |>', '%s <| |>', 'class a($b = %s) { }', 'class a(%s $b) { }', 'class a inherits %s { }', 'define a { %s }', 'function f() >> %s { }', 'node %s { }', 'type A = %s', 'type A %s',
                   '"${%s}"', '"a${ %s }b"', '%s -> A', 'A -> %s', '%s produces B { }', 'f() |$a = %s| { }', 'f() |%s $a| { %s }', '%s |$a| { }', '%s(1)', '%s %s', '%s\n%s', '%s; %s', '@%s', '@@%s', 'class %s { }', 'define %s { }', 'plan %s { }', 'site { %s }',
                   '%s\n[1]', '%s {}', 'include %s', '1 + %s', '%s + 1', '%s and 1', '1 in %s', '%s = 1', '%s => 1', 'return %s', '%s ? { default => %s }', 'function %s() { }', '%s;', '%s,', '1, %s', ';%s', '$a.%s', '%s.1', 'import %s', '%s # c', '/* */ %s /**/')
        return f.replace('%s', e)

    def soup(self, n=None, sep=None):
        n = n or self.r.randrange(1, 9)
        out = ''
        for _ in range(n):
            out += self.r.choice(self.r.choice([KEYWORDS, PUNCT, PUNCT, WORDS, NUMS, STRS, VARS, VARS, HEREDOCS if self.p(.3) else VARS, COMMENTS if self.p(.3) else PUNCT])) + (self.c('', ' ', ' ', ' ', '\n') if sep is None else sep)
        return out

    def chars(self, n=None):
        al = 'ab1_$"\'\\/{}()[]<>|&=+-*%!?:;,.@#~`^ \n\tEx0eé'
        return ''.join(self.r.choice(al) for _ in range(n or self.r.randrange(1, 7)))

    def mutate(self, s):
        for _ in range(self.c(1, 1, 2, 3)):
            n = len(s)
            i = self.r.randrange(n + 1)
            j = min(n, i + self.r.randrange(1, 6))
            k = self.r.randrange(7)
            if k == 0:
                s = s[:i] + s[j:]
            elif k == 1:
                s = s[:i] + self.r.choice(PUNCT) + s[i:]
            elif k == 2:
                s = s[:i] + s[i:j] + s[i:]
            elif k == 3:
                s = s[:i] + self.r.choice(self.r.choice([KEYWORDS, WORDS, NUMS, STRS, VARS])) + s[j:]
            elif k == 4:
                s = s[:i]
            elif k == 5:
                s = s[:i] + self.r.choice(PUNCT) + s[j:]
            else:
                s = s[:i] + self.c(' ', '\n', '\u00e5', '\\', '"', "'", '\u2028', '\u0000', '#', '/*', '\ufffd', '\U0001F600') + s[i:]
        return s

    def source(self, domain):
        """(bytes, mode) of the domain."""
        m = ''
        if domain == 'expr':
            s = self.expr(3)
        elif domain == 'ops':
            s = self.ops()
        elif domain == 'stmt':
            s = self.program(2)
        elif domain == 'res':
            s = self.resource(2)
        elif domain == 'def':
            s = self.definition(2)
        elif domain == 'call':
            s = self.c(self.call(3), self.stmt(2) if self.p(.3) else self.c('notice', 'include', 'foo', '$a.b') + ' ' + self.args(2))
        elif domain == 'str':
            s = self.string(2)
        elif domain == 'interp':
            s = self.interp(2)
        elif domain == 'heredoc':
            s = self.heredoc() + self.c('', '', '$x', '\n"a"\n', self.heredoc())
            if self.p(.3):
                s = self.c('$a = ', 'f(', '[1, ', '"${') + s
            if self.p(.2):
                s = '[' + '@(A), @(B)' + ']\na\n|A\n' + self.c('', '  ') + 'b\n' + self.c('|', '') + 'B\n'
        elif domain == 'num':
            s = self.c(self.r.choice(NUMS), self.num(), self.r.choice(NUMS) + self.c('+', '-', '.', ' ', 'e', 'x', '..') + self.r.choice(NUMS), self.numtext())
        elif domain == 'epp':
            s, m = self.epp(), 'e'
        elif domain == 'wf':
            s, m = self.wf(), 'w'
        elif domain == 'cond':
            s = self.cond(2)
        elif domain == 'soup':
            s = self.soup()
        elif domain == 'chars':
            s = self.chars()
        elif domain == 'valid':
            s, m = self.c('\n', '; ').join(self.valid() for _ in range(self.r.randrange(1, 3))), self.c('', '', '', 't', 'w')
        elif domain == 'query':
            s = 'A ' + self.c('<| %s |>', '<<| %s |>>').replace('%s', self.query(3))
        elif domain == 'lit':
            s = self.lit(3)
        elif domain == 'pos':
            s, m = self.position(), self.c('', '', '', '', 't', 'w', 'b')
            if self.p(.2):
                s, m = self.c('é\n', '', 'a\n日', '\r\n') + self.epp(), 'e'
        elif domain == 'deep':
            s = self.deep()
        elif domain == 'wrap':
            s, m = self.wrapped(), self.c('', '', '', 't', 'w')
        elif domain == 'tasks':
            s, m = self.program(2), 't'
        else:
            raise ValueError(domain)
        return s, m

    def numtext(self):
        k = self.r.randrange(4)
        if k == 0:
            return str(self.r.randrange(10 ** self.r.randrange(1, 21)))
        if k == 1:
            return '0' + ''.join(self.r.choice('01234567') for _ in range(self.r.randrange(1, 23)))
        if k == 2:
            return self.c('0x', '0X') + ''.join(self.r.choice('0123456789abcdefABCDEF') for _ in range(self.r.randrange(1, 18)))
        if k == 4:
            return '%d.%d' % (self.r.randrange(10 ** self.r.randrange(1, 12)), self.r.randrange(10 ** self.r.randrange(1, 20))) + self.c('', '', 'e%d' % self.r.randrange(-20, 20))
        a = ''.join(self.r.choice('0123456789') for _ in range(self.r.randrange(1, 9)))
        b = ''.join(self.r.choice('0123456789') for _ in range(self.r.randrange(1, 9)))
        return self.c('0', '1', '') + a.lstrip('0') * 1 + '.' + b + self.c('', 'e%d' % self.r.randrange(-250, 250), 'E+%d' % self.r.randrange(20))


DOMAINS = 'expr ops stmt res def call str interp heredoc num epp wf cond soup chars tasks valid query lit pos deep wrap'.split()


def sources(seed, n, domains=DOMAINS, mutated=.3, modes=.1):
    """n distinct (bytes, mode) pairs."""
    g = Gen(seed)
    seen, out = set(), []
    while len(out) < n:
        s, m = g.source(g.r.choice(domains))
        if g.p(mutated):
            s = g.mutate(s)
        if g.p(modes):
            m = g.c('', 'e', 'h', 'b', 'w', 't', 's', 'hb', 'es') if g.p(.7) else g.c('et', 'ew', 'tw', 'etw', 'htw', 'ts', 'ws', 'hbs', 'bt', 'eh', 'eb', 'bh')
        b = s.encode('utf-8', 'surrogatepass')
        if len(b) > 400 or (b, m) in seen:
            if len(b) > 400 or g.p(.001):
                continue
            if (b, m) in seen:
                g.r.random()
                continue
        seen.add((b, m))
        out.append((b, m))
    return out
