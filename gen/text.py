"""Byte strings as C++ source text."""


def lit(b):
    if isinstance(b, str):
        b = list(b.encode())
    out = []
    for x in b:
        ch = chr(x)
        out.append(ch if ch.isalnum() and x < 128 or ch in " .,_-+=:;<>()[]{}#" else "\\%03o" % x)
    return '"%s"' % "".join(out)


def ch(x):
    s = lit(bytes([x]))
    return "'%s'" % s[1:-1]


def bytes_of(t, n, alphabet):
    return bytes(t.pick(alphabet) for _ in range(n))
