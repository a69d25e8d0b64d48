"""Reference semantics of debug expressions: a tokenizer and precedence parser, and a 64-bit evaluator."""
import random, re, sys
sys.setrecursionlimit(20000)

HEAD = r"[A-Za-z_$][A-Za-z_$0-9]*"
TAIL = r"(?:\[(?:%s|\d+(?::\d+)?)\])" % HEAD
VAR = r"%s%s*(?:\.%s%s*)*" % (HEAD, TAIL, HEAD, TAIL)
TOKEN = re.compile(r"[ \t\n\r\v\f]*(?:(?P<hex>[0-9]+'h[0-9a-fA-F]+)|(?P<int>[0-9]+)|(?P<var>%s)|"
                   r"(?P<op>&&|\|\||==|!=|<=|>=|[-+*/%%<>&^|!~()]))" % VAR, re.A)
WS = " \t\n\r\v\f"
PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]
LEVEL = {op: i for i, ops in enumerate(PREC) for op in ops}
POISON = object()


def wrap(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def tokenize(text):
    out = []
    i = 0
    end = len(text.rstrip(WS))
    while i < end:
        m = TOKEN.match(text, i, end)
        if not m:
            return None
        k = m.lastgroup
        out.append((k, m[k]))
        i = m.end()
    return out


class Bad(Exception):
    pass


def parse(text):
    """the tree, or None when the text is not an expression"""
    toks = tokenize(text)
    if toks is None:
        return None
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else (None, None)

    def unary():
        nonlocal pos
        k, t = peek()
        pos += 1
        if k == "int":
            return ("lit", int(t))
        if k == "hex":
            v = int(t.split("'h")[1], 16)
            return ("lit", wrap(v) if v >> 64 == 0 else v)
        if k == "var":
            return ("var", t)
        if t == "(":
            e = binary(0)
            if peek()[1] != ")":
                raise Bad
            pos += 1
            return e
        if k == "op" and t in "!~+-":
            return ("un", t, unary())
        raise Bad

    def binary(level):
        nonlocal pos
        if level == len(PREC):
            return unary()
        e = binary(level + 1)
        while peek()[0] == "op" and peek()[1] in PREC[level]:
            op = peek()[1]
            pos += 1
            e = ("bin", op, e, binary(level + 1))
        return e
    try:
        e = binary(0)
        if pos != len(toks):
            raise Bad
        return e
    except Bad:
        return None


def symbols(e, out=None):
    out = set() if out is None else out
    if e[0] == "var":
        out.add(e[1])
    elif e[0] == "un":
        symbols(e[2], out)
    elif e[0] == "bin":
        symbols(e[2], out)
        symbols(e[3], out)
    return out


def ev(e, env):
    """the value, or POISON where C leaves it open (division by zero)"""
    k = e[0]
    if k == "lit":
        return e[1] if -(1 << 63) <= e[1] < 1 << 63 else POISON
    if k == "var":
        return env[e[1]]
    if k == "un":
        v = ev(e[2], env)
        if v is POISON:
            return v
        return {"!": lambda: int(not v), "~": lambda: wrap(~v), "+": lambda: v, "-": lambda: wrap(-v)}[e[1]]()
    op = e[1]
    a = ev(e[2], env)
    if op == "&&":
        if a is not POISON and not a:
            return 0
        b = ev(e[3], env)
        return POISON if a is POISON or b is POISON else int(bool(b))
    if op == "||":
        if a is not POISON and a:
            return 1
        b = ev(e[3], env)
        return POISON if a is POISON or b is POISON else int(bool(b))
    b = ev(e[3], env)
    if a is POISON or b is POISON:
        return POISON
    if op in "/%":
        if b == 0:
            return POISON
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return wrap(q) if op == "/" else wrap(a - q * b)
    return {"*": lambda: wrap(a * b), "+": lambda: wrap(a + b), "-": lambda: wrap(a - b), "<": lambda: int(a < b),
            ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b),
            "!=": lambda: int(a != b), "&": lambda: wrap(a & b), "^": lambda: wrap(a ^ b), "|": lambda: wrap(a | b)}[op]()


def text(e, rng=None, level=0, sp=None):
    """a text with that tree: parentheses where needed and sometimes elsewhere, random white space"""
    rng = rng or random.Random(0)
    s = sp or (lambda: rng.choice(["", "", " ", " ", "  ", "\t", "\n"]))
    k = e[0]
    if k == "lit":
        v = e[1]
        if v < 0 or rng.random() < 0.3:
            h = "%x" % (v & ((1 << 64) - 1))
            if rng.random() < 0.4:
                h = h.upper()
            if rng.random() < 0.2:
                h = "0" * rng.randrange(3) + h
            r = "%d'h%s" % (max(4 * len(h), 1), h)
        else:
            r = ("0" * rng.randrange(3) if rng.random() < 0.05 else "") + str(v)
    elif k == "var":
        r = e[1]
    elif k == "un":
        r = e[1] + s() + text(e[2], rng, len(PREC), sp)
        if level > len(PREC):
            r = "(" + r + ")"
    else:
        l = LEVEL[e[1]]
        r = text(e[2], rng, l, sp) + s() + e[1] + s() + text(e[3], rng, l + 1, sp)
        if level > l:
            r = "(" + s() + r + s() + ")"
    if rng.random() < 0.08:
        r = "(" + s() + r + s() + ")"
    return r


NAMES = ["a", "b", "clk", "_x", "$time", "a0", "data_in", "a.b", "top.mod.x", "arr[0]", "arr[3]", "arr[i]", "s.f[2].g", "w[7:0]",
         "A", "$depth3.x", "m[1][2]", "very_long_name_0123456789", "h", "x1.y2[31:16]"]
INTERESTING = [0, 1, -1, 2, -2, 3, 7, 8, 255, 256, (1 << 31) - 1, -(1 << 31), 1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 63),
               -(1 << 63) + 1, 0x5555555555555555, 1 << 62, 10, 100]


def rvalue(rng):
    r = rng.random()
    if r < 0.45:
        return rng.choice(INTERESTING)
    if r < 0.7:
        return rng.randrange(-4, 5)
    return wrap(rng.getrandbits(64))


def rtree(rng, depth, names=NAMES, ops=None):
    r = rng.random()
    if depth <= 0 or r < 0.12:
        if rng.random() < 0.6:
            return ("var", rng.choice(names))
        return ("lit", rvalue(rng) if rng.random() < 0.7 else rng.randrange(20))
    if r < 0.3:
        return ("un", rng.choice("!~+-"), rtree(rng, depth - 1, names, ops))
    return ("bin", rng.choice(ops or list(LEVEL)), rtree(rng, depth - 1, names, ops), rtree(rng, depth - 1, names, ops))


ALPHA = ["a", "b1", "_", "$x", "0", "12", "8'hf", "'", "h", "(", ")", "(", ")", "[", "]", "[0]", "[7:0]", "[a]", ":", ".", "+", "-", "*",
         "/", "%", "<", ">", "<=", ">=", "==", "!=", "=", "!", "~", "&", "&&", "|", "||", "^", " ", "\t", "\n", ",", "#", "@", "\"",
         "a.b", "x[1].y", "\xe9", "\x00", "?", "\\", "{", "}"]


def rgarbage(rng):
    return "".join(rng.choice(ALPHA) for _ in range(rng.randrange(0, 9)))


def mutate(rng, t):
    t = list(t)
    for _ in range(rng.randrange(1, 3)):
        k = rng.randrange(4)
        i = rng.randrange(len(t) + 1)
        if k == 0 and t:
            del t[min(i, len(t) - 1)]
        elif k == 1:
            t.insert(i, rng.choice(ALPHA))
        elif k == 2 and t:
            j = rng.randrange(len(t))
            i = min(i, len(t) - 1)
            t[i], t[j] = t[j], t[i]
        elif t:
            t.insert(i, t[min(i, len(t) - 1)])
    return "".join(t)
