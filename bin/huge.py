"""Huge sources: one token, comment or text of a size at which a buffer or a number may end, and something after it."""
import random
from vlib import *

SIZES = [1023, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 70001]
TAILS = [b'$a + 1', b'$a = 1 +', b'1 )', b'class x { $y }', b'file { "x": }', b"notice('\xc3\xa9')\nfoo {", b'case 1 { 2: {} }', b'$x.y |$z| { 1 }', b'"a${b}c" == 1', b'\xc3\xa9']


def kinds():
    """(what it is, how large it may be, the source of a size, its mode)"""
    many = 70001
    return [
        ('comment', many, lambda n, t: b'#' + b'x' * n + b'\n' + t, ''),
        ('comments', 4097, lambda n, t: b'#xyz\xc3\xa9\n' * (n // 7) + t, ''),
        ('blanks', many, lambda n, t: b' ' * n + t, ''),
        ('lines', many, lambda n, t: b'\n' * n + t, ''),
        ('returns', 2049, lambda n, t: b'\r\n' * (n // 2) + t, ''),
        ('block comment', many, lambda n, t: b'/*' + b'x\n' * (n // 2) + b'*/' + t, ''),
        ('starred comment', 4097, lambda n, t: b'/*' + b'x*\n ' * (n // 4) + b'*/' + t, ''),
        ('single', many, lambda n, t: b"'" + b'a' * n + b"';" + t, ''),
        ('single escapes', 4097, lambda n, t: b"'" + b"\\'" * (n // 2) + b"';" + t, ''),
        ('double', many, lambda n, t: b'"' + b'a' * n + b'";' + t, ''),
        ('double escapes', 4097, lambda n, t: b'"' + b'\\n' * (n // 2) + b'";' + t, ''),
        ('double lines', 33000, lambda n, t: b'"' + b'\n' * n + b'${' + b'x' + b'}";' + t, ''),
        ('double wide', many, lambda n, t: b'"' + '\u00e9'.encode() * (n // 2) + b'";' + t, ''),
        ('interpolated', 9000, lambda n, t: b'"' + b'a' * n + b'${x}' + b'b' * n + b'${y}";' + t, ''),
        ('name', many, lambda n, t: b'a' * n + b'::b;' + t, ''),
        ('reference', 33000, lambda n, t: b'A' * n + b'[1];' + t, ''),
        ('variable', 33000, lambda n, t: b'$' + b'v' * n + b';' + t, ''),
        ('regexp', 33000, lambda n, t: b'$x =~ /' + b'r' * n + b'/;' + t, ''),
        ('digits', 1025, lambda n, t: b'1' * n + b';' + t, ''),
        ('zeroes', 1025, lambda n, t: b'1.' + b'0' * n + b';' + t, ''),
        ('heredoc', 8193, lambda n, t: b'@(E)\n' + b'some text\n' * (n // 10) + b'| E\n' + t, ''),
        ('heredoc line', 33000, lambda n, t: b'@("E"/t)\n  ' + b'x' * n + b'\n | E\n' + t, ''),
        ('text', many, lambda n, t: b'x' * n + b'<% ' + t + b' %>', 'e'),
        ('text lines', 4097, lambda n, t: b'xyz\n' * (n // 4) + b'<%= $a %>\n<% ' + t + b' %>', 'e'),
        ('template comment', many, lambda n, t: b'a <%#' + b'x' * n + b'%> b<% ' + t + b' -%>', 'e'),
        ('template blanks', 33000, lambda n, t: b'a' + b' ' * n + b'<%- ' + t + b' -%>' + b' ' * n + b'\nb', 'e'),
    ]


NESTS = [(b'[', b'1', b']'), (b'(', b'1', b')'), (b'{a=>', b'1', b'}'), (b'!', b'$a', b''), (b'$x+(', b'1', b')'), (b'f(', b'1', b')'), (b'if $a {', b'1', b'}'), (b'$x[', b'1', b']'),
         (b'f.each|$x|{', b'1', b'}'), (b'case $a {2:{', b'1', b'}}'), (b'1?{2=>', b'1', b'}'), (b'1+', b'1', b''), (b'$x=', b'1', b''), (b'"${', b'a', b'}"'), (b'unless f() {', b'$x=1', b'} else { 2 }'),
         (b'[a,', b'$b', b',c]'), (b'- ', b'$a', b''), (b'if 1 {} else { ', b'1', b'}'), (b'if 1 {} elsif 2 { ', b'1', b'}'), (b'a::', b'b', b''), (b'$x=~', b'1', b'')]


def nests(r, depths):
    """One thing in another, in another."""
    out = []
    for a, x, b in NESTS:
        for n in depths:
            s = a * n + x + b * n
            out.append((s, ''))
            if r.random() < .4:
                out.append((s[:-1] if r.random() < .5 else s + b';1 )', ''))
    return out


def sources():
    r = random.Random('huge')
    out = nests(r, (24, 31, 32, 33, 50, 63, 64, 65, 66))
    for name, most, make, m in kinds():
        sizes = [n for n in SIZES if n <= most]
        for n in (sizes if len(sizes) <= 5 else r.sample(sizes[:-2], 4) + sizes[-2:-1]):
            out.append((make(n - r.choice((0, 0, 1, 2, 5)), r.choice(TAILS)), m))
    return out


def fresh(seed, n):
    r = random.Random('huge %s' % seed)
    out = []
    while len(out) < n:
        name, most, make, m = r.choice(kinds())
        out.append((make(r.choice((r.randrange(1000, min(most, 12000)), r.randrange(60, 1000))), r.choice(TAILS)), m))
    return out


def files(r, n):
    """Of a size at which a buffer for files or lines may end."""
    ks = [k for k in kinds() if k[0] in ('comment', 'block comment', 'single', 'double', 'text', 'template comment', 'blanks')]
    out = []
    for k in range(n):
        name, most, make, m = r.choice(ks)
        t = r.choice(TAILS)
        # something before it, so that it is not all that there is
        out.append(((b'' if m else b'$z = 1\n') + make(r.choice((65536, 65537, 66000, 70001)), t), m))
    return out
