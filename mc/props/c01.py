# -*- coding: utf-8 -*-
"""Transparency: cells behave exactly as in plain Python."""
import itertools
import textwrap

from common import Canon, RefSession, describe_exc, norm, snapshot, split_display
from driver import Session, boot
from explore import Stats, fork_call, pmap

LEVEL = "exploration"

PRELUDE = '''
import contextlib as _ctx
log = []
def t(i):
    print("t", i)
    return i
def tl(i):
    print("tl", i)
    return [i, i + 1, [i + 2]]
def td(i):
    print("td", i)
    return {"k": i, "m": [i]}
class Obj:
    def __init__(self, i): self.i = i; self.items = [i, 5]
    def meth(self, *a, **k): print("meth", self.i, a, sorted(k)); return self.i
    def ident(self): return self
    def __getitem__(self, i): print("get", i); return self.items[i] if isinstance(i, int) else i
    def __setitem__(self, i, v): print("set", i, v); self.items.append(v)
    def __delitem__(self, i): print("del", i)
    def __call__(self, *a): print("call", a); return self
    def __bool__(self): print("bool", self.i); return bool(self.i)
    def __repr__(self): return "Obj(%s)" % self.i
    def __eq__(self, o): print("eq"); return isinstance(o, Obj) and o.i == self.i
    __hash__ = None
    def __enter__(self): print("enter", self.i); return self
    def __exit__(self, *a): print("exit", a[0] and a[0].__name__); return False
    def __iter__(self): print("iter"); return iter([1, 2])
    def __contains__(self, x): print("contains", x); return True
    def __lt__(self, o): print("lt"); return True
    def __add__(self, o): print("add"); return self
    def __iadd__(self, o): print("iadd"); self.i += 1; return self
    @property
    def prop(self): print("prop"); return self.items
    @prop.setter
    def prop(self, v): print("setprop", v); self.items = v
def o(i):
    print("o", i)
    return Obj(i)
def f(*a, **k):
    print("f", len(a), sorted(k))
    return a[0] if a else None
def gen(n):
    print("gen")
    for i in range(n):
        got = yield i
        print("got", got)
    return n
def boom(*a):
    print("boom")
    raise ValueError("boom")
'''.strip()

# expression forms; @ marks an expression hole, filled left to right
FORMS = [
    "t(@)", "@ + 1", "1 + @", "@ + @", "-@", "not @", "~@", "@ * @", "@ // 3", "2 ** @",
    "@ < 5", "@ < @ < @", "@ == @", "@ != @", "@ is None", "@ is not @", "@ in [1, 2]", "1 in [@, 2]", "@ not in (1,)",
    "@ and @", "@ or @", "(@ if @ else @)", "(@ and @ or @)",
    "[@, @]", "(@, @)", "{@, 3}", "{'a': @, 'b': @}", "{@: 'a'}", "[*[@], 1]", "{**{'a': @}}", "(@,)", "[[@], [@]]", "((@, 1), [2])",
    "[1, 2, 3][@ % 3]", "[1, 2, 3][@ % 2:]", "[4, 5, 6][-@ % 3:@]", "{1: 2}.get(@)", "{1: 5, 2: 6}.get(@, @)", "[5, 6][t(1)] + @",
    "tl(@)", "tl(@)[0]", "tl(@)[2][0]", "td(@)['k']", "td(@)['m'][0]", "tl(t(1))[@ % 2]",
    "o(@).i", "o(@).items", "o(@).items[1]", "o(@).meth(@)", "o(t(1)).meth(@, a=@)", "o(@).ident().ident().i", "o(t(2))[@ % 2]", "o(t(2))(@)", "o(@).prop", "o(1).prop[0] + @", "o(@)[1:2]",
    "f(@)", "f(@, @)", "f(x=@)", "f(@, x=@, *[@])", "f(*[@, @], **{'z': @})", "f(f(@), f(@))", "(lambda: @)()", "(lambda x: x + 1)(@)", "(lambda x, y=@: y)(1)", "(lambda *a, **k: a)(@, z=@)",
    "[z for z in [@, @]]", "[@ for _ in range(2)]", "[z for z in range(3) if z < @]", "{z: @ for z in range(2)}", "{z % 2 for z in [@]}", "list(z + 1 for z in [@, 1])", "[(y, z) for y in range(2) for z in [@]]", "sum([@ for _ in range(2)])", "[[w for w in [z, @]] for z in range(2)]",
    "f'{@}'", "f'{@!r:>5}-{@}'", "f'{t(1):{5}}' + str(@)", "'%s' % (@,)", "str(@)", "len([@])", "max(@, 3)", "sorted([@, 1], key=lambda z: -z)", "list(map(lambda z: z + 1, [@]))", "list(zip([@], [2]))", "isinstance(@, int)", "type(@).__name__", "dict(a=@)", "set([@])", "tuple([@, @])", "int(str(@))", "list(enumerate([@]))",
    "(w := @)", "[w := @, w]", "f((w := @), w)", "next(gen(@ + 1))", "list(gen(@))[:1]", "'a b'.split()[@ % 2]", "'x'.join([str(@)])", "o(1) + o(@)", "o(@) < o(@)", "(yv for yv in [@]).__next__()", "o(@) == o(@)", "@ in o(1)", "[*o(@)]", "bool(o(@))", "boom(@)", "[1][5 + @]", "{}[@]", "o(1).nope(@)", "(1).nope", "undefined_name + @", "@()", "1 // (@ - @)", "None.x[@]",
    "__import__('math').floor(@)", "print(@)", "getattr(o(@), 'i')", "abs(-@).bit_length()", "(await_ := @)", "slice(@, None)", "[@][:]", "[@, 2][::-1]", "...", "b'x' * @", "1_000 + @", "0.5 + @",
]
ATOMS = ["t(1)", "t(0)"]


def fill(form, subs):
    parts = form.split("@")
    out = parts[0]
    for p, s in zip(parts[1:], subs):
        out += "(" + s + ")" + p
    return out


def nholes(form):
    return form.count("@")


def exprs1():
    for f in FORMS:
        n = nholes(f)
        for fillv in itertools.product(ATOMS, repeat=min(n, 2)):
            subs = list(fillv) + ["t(%d)" % (i + 3) for i in range(n - len(fillv))]
            yield fill(f, subs)
            if n == 0:
                break


def exprs2(every_hole=True, forms=FORMS):
    for f in forms:
        n = nholes(f)
        for h in range(n):
            for g in forms:
                inner = fill(g, ["t(%d)" % (i + 1) for i in range(nholes(g))])
                subs = ["t(%d)" % (i + 5) for i in range(n)]
                subs[h] = inner
                yield fill(f, subs)
            if not every_hole:
                break


# statement templates: one hole each, # marks the expression
STMTS = [
    "a = #", "a = b = #", "a, b = #, 2", "a, *b = [#, 2, 3]", "[a, (b, c)] = [1, (2, #)]", "a: int = #", "a = 1; a += #", "a = [1]; a += [#]", "L = [0, 1]; L[0] = #", "L = [0, 1, 2]; L[0:2] = [#]", "D = {}; D['x'] = #", "D = {'x': [1]}; D['x'][0] = #", "O = Obj(1); O.i = #", "O = Obj(1); O.items[0] = #", "O = Obj(1); O[2] = #", "O = Obj(1); O.prop = [#]", "O = Obj(2); O.i += #", "O = Obj(2); O += #", "L = [1, 2]; L[0] += #", "D = {'k': 1}; D['k'] += #",
    "#", "print(#)", "for a in [#, 2]: print(a)", "for a, b in [(1, #)]: print(a, b)", "for L in [[1]]: L.append(#)", "while True:\n    a = #\n    break", "if #: a = 1\nelse: a = 2", "assert # is not None, 'msg'", "with o(1) as a, _ctx.suppress(KeyError): b = #", "try:\n    a = #\nexcept Exception as e:\n    print(type(e).__name__, e)\nelse:\n    print('else')\nfinally:\n    print('fin')",
    "def g():\n    return #\na = g()", "def g(p=#):\n    return p\na = g()", "class K:\n    x = #\n    def m(self): return self.x\na = K().m()", "a = [# for _ in range(2)]", "L = [1, 2]; del L[0]; a = #", "L = []; L.append(#); a = L[-1]", "def g():\n    yield #\n    yield 2\na = list(g())", "def g():\n    nonlocal_ = #\n    def h(): return nonlocal_\n    return h\na = g()()", "global gg\ngg = #", "raise KeyError(#)", "match #:\n    case 1: a = 'one'\n    case [x, *_]: a = x\n    case {'k': v}: a = v\n    case Obj(i=1): a = 'obj'\n    case _: a = 'other'", "async def co(): return #\na = await co()",
    "try:\n    raise ValueError(#)\nexcept ValueError as e:\n    a = e.args", "D = {'a': 1}; D.update(b=#); a = dict(D)", "S = {1}; S.add(#); a = sorted(map(str, S))", "L = [3, 1, 2]; L.insert(0, #); L.pop(); a = L[:]",
]

CONTEXTS = {
    "top": "{}",
    "loop": "for _it in range(2):\n{1}",
    "func": "def _fn():\n{1}\n    return sorted((k, repr(v)) for k, v in locals().items() if isinstance(v, (int, str, list, tuple, dict)))\n_r1 = _fn()\n_r2 = _fn()\nprint(_r1 == _r2)",
    "if": "if t(1):\n{1}\nelse:\n    a = 7",
    "try": "try:\n{1}\nexcept Exception as _e:\n    print('caught', type(_e).__name__, _e)\nfinally:\n    print('cleanup')",
    "with": "with Obj(9) as _w:\n{1}",
    "while": "_n = 0\nwhile _n < 2:\n    _n += 1\n{1}\nelse:\n    print('done')",
    "cls": "class _K:\n{1}\nprint(sorted(k for k in vars(_K) if not k.startswith('_')))",
    "nested": "def _outer():\n    def _inner():\n{2}\n        return 1\n    return _inner() + _inner()\n_r = _outer()",
}


def in_context(stmt, ctx):
    tpl = CONTEXTS[ctx]
    ind = lambda n: textwrap.indent(stmt, "    " * n)
    return tpl.replace("{2}", ind(2)).replace("{1}", ind(1)).replace("{}", stmt)


def ok_syntax(src):
    import ast

    try:
        compile(src, "x", "exec", flags=ast.PyCF_ALLOW_TOP_LEVEL_AWAIT)
        return True
    except SyntaxError:
        return False


HID = ("_ctx",)


BASE = None


def prepare(config=None, prelude=True):
    s = Session(**(config or {}))
    ref = RefSession()
    if prelude:
        r = s.run(PRELUDE, cell_id="prelude", pos=-1)
        assert r.error is None, r.error
        ref.run(PRELUDE)
    return s, ref


def run_both(cells, st, key, config=None, compare_ns=True, frames=True, prelude=True):
    """cells: list of (cell id, source).  Executes them in order under ipyflow
    and under plain Python and compares everything observable after each."""
    if BASE is not None and prelude and not config:
        s, ref = BASE
    else:
        s, ref = prepare(config, prelude)
    n = 0
    for cid, src in cells:
        r = s.run(src, cell_id=cid)
        out, shown, exc = ref.run(src)
        gout, gshown = split_display(r.stdout)
        n += 1
        got = (norm(gout), norm(gshown), describe_exc(r.error, frames))
        want = (norm(out), norm(shown), describe_exc(exc, frames))
        if r.error is not None:
            # IPython prints the traceback on stdout
            got = (got[0][: len(want[0])], want[1] if exc is not None else got[1], got[2])
        st.outcomes.add(hash((want, src)) & 0xFFFFFFFF)
        st.transitions += 1
        bad = None
        if got != want:
            i = [j for j in range(3) if got[j] != want[j]][0]
            bad = "%s differs: ipyflow %r, Python %r" % (("stdout", "displayed value", "exception")[i], got[i], want[i])
        elif r.internal is not None:
            bad = "internal ipyflow exception surfaced: %r" % (r.internal,)
        elif compare_ns:
            a, b = snapshot(s.ns, HID), snapshot(ref.ns, HID)
            if a != b:
                d = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
                bad = "namespace differs at %s: ipyflow %s, Python %s" % (d[0], a.get(d[0]), b.get(d[0]))
        if bad:
            st.violation("%s" % (key,), bad + "\n    cells: %r" % (cells,), {"cells": cells, "config": config, "prelude": PRELUDE if prelude else None})
            return False
    return True


def batch(items, n):
    items = list(items)
    return [items[i : i + n] for i in range(0, len(items), n)]


def run_batch(part, st, wrap, one):
    """Several independent snippets in one cell; on mismatch, each alone."""
    cells = [(1, "\n".join(wrap(i, x) for i, x in enumerate(part)))]

    def whole():
        st2 = Stats()
        run_both(cells, st2, "batch")
        return st2

    st2 = fork_call(whole)
    ok = not st2.violations
    st.transitions += st2.transitions
    st.states += len(part)
    for x in part:
        st.outcomes.add(hash(x) & 0xFFFFFFFF)
    if not ok:
        n0 = len(st.violations)
        for x in part:

            def alone(x=x):
                st3 = Stats()
                one(x, st3)
                return st3

            st.merge(fork_call(alone))
        if len(st.violations) == n0:
            for v in st2.violations:
                v["key"] = "batch:" + part[0]
                st.add_violation(v)


def wrap_expr(i, e):
    return "try:\n    r%d = %s\n    print(r%d)\nexcept Exception as ex:\n    print(%d, type(ex).__name__, ex)" % (i, e, i, i)


def expr_part(rep, name, exprs):
    exprs = [e for e in dict.fromkeys(exprs) if ok_syntax(e)]

    def one(e, st):
        run_both([(1, e)], st, "expr:" + e)

    def case(part, st):
        run_batch(part, st, wrap_expr, one)

    st = pmap(batch(exprs, 30), case, chunk=4)
    st.samples = exprs[:2] + exprs[-1:]
    rep.add(name, st)


def stmt_cases(exprs):
    for e in exprs:
        for s in STMTS:
            for c in CONTEXTS:
                src = in_context(s.replace("#", e), c)
                if ok_syntax(src):
                    yield (c, s, src)



CORE = [
    "t(@)", "@ + 1", "-@", "@ < @ < @", "@ in [1, 2]", "@ and @", "(@ if @ else @)", "[@, @]", "(@,)", "{@, 3}", "{'a': @, 'b': @}", "{@: 'a'}", "[*[@], 1]", "{**{'a': @}}",
    "[1, 2, 3][@ % 2:]", "tl(@)[2][0]", "td(@)['m'][0]", "tl(t(1))[@ % 2]", "o(@).items[1]", "o(t(1)).meth(@, a=@)", "o(@).ident().ident().i", "o(t(2))[@ % 2]", "o(t(2))(@)", "o(@).prop",
    "f(@, x=@, *[@])", "f(*[@, @], **{'z': @})", "(lambda x, y=@: y)(1)", "(lambda: @)()", "[@ for _ in range(2)]", "{z: @ for z in range(2)}", "[(y, z) for y in range(2) for z in [@]]", "list(z + 1 for z in [@, 1])", "f'{@!r:>5}-{@}'", "(w := @)", "[w := @, w]", "list(gen(@))[:1]", "boom(@)", "undefined_name + @", "@()", "sorted([@, 1], key=lambda z: -z)", "print(@)", "o(1) + o(@)",
]

# multi-statement programs: run whole, statement per cell, and re-run
PROGRAMS = [
    "x = [1, 2, 3]\ny = x\ny.append(4)\nprint(x, y is x)\nx = x + [5]\nprint(x, y)",
    "d = {'a': {'b': [1]}}\nd['a']['b'].append(2)\ne = d['a']\ne['c'] = 3\nprint(d)\ndel d['a']['b']\nd",
    "def fib(n):\n    return n if n < 2 else fib(n - 1) + fib(n - 2)\nprint(fib(6))\n[fib(i) for i in range(4)]",
    "class A:\n    cnt = 0\n    def __init__(self, v):\n        self.v = v\n        A.cnt += 1\n    def add(self, k):\n        self.v += k\n        return self\na = A(1)\nb = A(2)\na.add(3).add(4)\nprint(a.v, b.v, A.cnt)\na.w = b\na.w.v = 9\nb.v",
    "class P:\n    def __init__(self): self.l = [1]\n    def who(self): return 'P'\nclass Q(P):\n    k = [1, 2]\n    m = {n: n for n in range(2)}\n    def __init__(self):\n        super().__init__()\n        self.l.append(self.who())\n    def who(self): return [super().who(), 'Q']\nq = Q()\nprint(q.l, q.k, q.m)\nisinstance(q, P)",
    "def outer():\n    n = 0\n    def inc(k=1):\n        nonlocal n\n        n += k\n        return n\n    return inc\ninc = outer()\ninc(); inc(5)\nprint(inc())\ninc.__closure__[0].cell_contents",
    "def g(n):\n    try:\n        for i in range(n):\n            yield i\n    finally:\n        print('closed')\nit = g(3)\nprint(next(it))\nprint(list(it))\ni2 = g(2)\nnext(i2)\ni2.close()",
    "acc = []\nfor i in range(5):\n    if i == 1: continue\n    if i == 4: break\n    acc.append(i)\nelse:\n    acc.append('else')\nwhile acc:\n    acc.pop()\nelse:\n    acc.append('done')\nacc",
    "try:\n    try:\n        1 / 0\n    except ZeroDivisionError as e:\n        raise KeyError('k') from e\n    finally:\n        print('inner')\nexcept KeyError as k:\n    print(type(k.__cause__).__name__)\nelse:\n    print('no')\nprint('after')",
    "import contextlib\n@contextlib.contextmanager\ndef cm(v):\n    print('in', v)\n    yield v * 2\n    print('out', v)\nwith cm(1) as p, cm(p) as q:\n    print(p, q)\nq",
    "def deco(k):\n    def w(fn):\n        def inner(*a, **kw):\n            print('call', fn.__name__, k)\n            return fn(*a, **kw) + k\n        return inner\n    return w\n@deco(10)\n@deco(20)\ndef h(a, /, b=2, *c, d, e=5, **f):\n    return a + b + sum(c) + d + e + len(f)\nh(1, d=4)\nh(1, 2, 3, d=4, z=1)",
    "import asyncio\nasync def w(n):\n    await asyncio.sleep(0)\n    return n\nasync def m():\n    r = [await w(i) for i in range(2)]\n    return r + [x async for x in ag()]\nasync def ag():\n    yield 7\n    await asyncio.sleep(0)\n    yield 8\nr = await m()\nprint(r)\nawait w(5)",
    "a, (b, *c), d = 1, (2, 3, 4), [5]\na, b = b, a\nc[0], c[1] = c[1], c[0]\nd += c\nd *= 2\nprint(a, b, c, d)\nx = y = z = []\nx.append(1)\ny is z, z",
    "s = 'abc'\nt2 = s.upper().lower().replace('b', 'x')\nu = f'{t2!r:>8}|{len(s):03d}|{s + \"z\"}'\nprint(u, sep='-', end='!\\n')\nv = '%s-%d' % (s, 3)\nu, v\ns[::-1]",
    "m = {1: 'a', 2: 'b'}\nfor k, v in m.items(): print(k, v)\nn = {v: k for k, v in m.items() if k > 1}\nm.update(n)\nm.setdefault('z', []).append(1)\nm.pop(1)\nlist(m.items())",
    "l = [5, 3, 1]\nl.sort()\nl.insert(1, 9)\nl.extend([7, 8])\nl.remove(9)\nl.reverse()\nl[1:3] = ['s']\ndel l[-1]\nprint(l, l.index('s'), l.count(7))\nl2 = l.copy()\nl2.clear()\nl, l2",
    "glob = 1\ndef setg():\n    global glob, other\n    glob += 1\n    other = glob * 2\nsetg()\nsetg()\nprint(glob, other)\ndel other\ntry:\n    other\nexcept NameError as e:\n    print('gone')",
    "x = 5\nclass C:\n    x = x + 1\n    y = [x for _ in range(2)]\n    def get(self): return x\n    @property\n    def p(self): return self.x\n    @staticmethod\n    def s(): return x\n    @classmethod\n    def c(cls): return cls.x\nc = C()\nprint(c.x, c.get(), c.p, C.s(), C.c())\nC.x = 100\nc.p",
    "import collections, functools\nPt = collections.namedtuple('Pt', 'x y')\np = Pt(1, [2])\np.y.append(3)\nx, y = p\nprint(p.x, y)\ndq = collections.deque([1, 2], maxlen=2)\ndq.append(3)\ndd = collections.defaultdict(list)\ndd['k'].append(1)\nprint(dq[0], dict(dd), functools.reduce(lambda a, b: a + b, [1, 2, 3]))\ncollections.Counter('aab').most_common(1)",
    "from dataclasses import dataclass, field\n@dataclass\nclass D:\n    a: int\n    b: list = field(default_factory=list)\nd = D(1)\nd.b.append(2)\nd2 = D(1, [2])\nprint(d == d2, d)\nd.a += 1\nd != d2",
    "def f(a, b=[]):\n    b.append(a)\n    return b\nf(1)\nf(2)\nr = f(3)\nr.append(4)\nf(5)",
    "match [1, {'k': (2, 3)}]:\n    case [a, {'k': (b, *c)}] if a < b:\n        r = a, b, c\n    case _:\n        r = None\nprint(r)\nmatch r:\n    case (1, x, [y]) as whole: print(x, y, whole)\nr",
    "x = 1\nif x == 1:\n    def pick(): return 'one'\nelse:\n    def pick(): return 'two'\nprint(pick())\ny = 'a' if x else 'b'\nassert y == 'a', 'no'\nx = x or 5\nx and y",
    "def boom(n):\n    if n == 0:\n        raise RuntimeError('bottom')\n    return boom(n - 1)\nres = []\ntry:\n    boom(3)\nexcept RuntimeError as e:\n    res.append(str(e))\nres.append('x')\nboom(2)\nres.append('unreached')",
    "a = [1, 2]\nb = [a, a]\nb[0].append(3)\nb[1] = b[0][:]\na[0] = 'z'\nprint(b)\nimport copy\nc = copy.deepcopy(b)\nc[0][0] = 0\nb, c",
    "log2 = []\ndef tr(x):\n    log2.append(x)\n    return x\ntr(1) + tr(2) * tr(3)\n{tr('k'): tr('v')}\ntr(0) and tr(9) or tr(8)\n[tr(i) for i in (4, 5) if tr(i) > 4]\ntr(1) < tr(0) < tr(99)\nlog2",
    "class V:\n    def __init__(self, *a): self.a = a\n    def __add__(self, o): return V(*(x + y for x, y in zip(self.a, o.a)))\n    def __mul__(self, k): return V(*[x * k for x in self.a])\n    def __getattr__(self, n):\n        if n == 'first': return self.a[0]\n        raise AttributeError(n)\n    def __len__(self): return len(self.a)\n    def __iter__(self): return iter(self.a)\n    def __contains__(self, x): return x in self.a\n    def __repr__(self): return 'V%r' % (self.a,)\nv = V(1, 2) + V(3, 4) * 2\nv.first, len(v), 7 in v, [*v]\nv",
    "import math as m2, os.path\nfrom math import pi as PI, floor\nr2 = floor(PI * m2.sqrt(4))\nprint(r2, os.path.join('a', 'b'))\nos.path.basename('x/y')",
    "x = 10\ndel x\nx = 11\ny = [x, x + 1]\ndel y[0], x\nprint(y)\nx",
    "n = 0\nwhile True:\n    n += 1\n    try:\n        if n < 3: continue\n        break\n    finally:\n        print('fin', n)\nfor i in range(2):\n    for j in range(2):\n        if j: break\n        print(i, j)\nn",
    "import numpy as np\narr = np.arange(6).reshape(2, 3)\narr[0, 1] = 100\narr[1] += 1\nb = arr[:, ::2]\nb[0] = -1\nprint(arr.sum(), b.tolist(), (arr > 2).any())\narr.T.shape",
    "import pandas as pd\ndf = pd.DataFrame({'a': [1, 2], 'b': [3, 4]})\ndf['c'] = df.a + df['b']\ndf.loc[0, 'a'] = 50\ng = df[df.c > 4]\nprint(df.to_dict(), len(g))\ndf.groupby('b').a.sum().tolist()",
    "f1 = lambda x, *y, z=3, **w: (x, y, z, w)\nfs = [lambda i=i: i for i in range(3)]\nprint([q() for q in fs], f1(1, 2, k=4))\nfs2 = [lambda: j for j in range(3)]\n[q() for q in fs2]",
    "import functools\nfrom collections import defaultdict, deque\ncfg = 1\ndef mk():\n    return cfg\ndef dflt():\n    print('default')\n    return [cfg]\nd = defaultdict(lambda: mk() + cfg)\np = functools.partial(lambda v=dflt(), *, k=dflt(): (v, k, mk()))\nprint(d[0], p())\ncfg = 5\ndef mk():\n    return -cfg\np().__len__()\nprint(d[1], p())\ndef cl():\n    n = 1\n    q = functools.partial(lambda *a, m=dflt(): (n, a, m, (lambda: n)()), 7)\n    n += 1\n    return q\nprint(cl()())\nkeep = lambda: cfg\nkeep.tag = 'x'\ndq = deque()\ndq.append(keep)\nprint(keep in dq, dq[0].tag)\nfunctools.reduce(lambda a, b: a + b + cfg, [1, 2])\nclass Cb:\n    def __init__(self):\n        self.cb = functools.partial(lambda: self.__class__.__name__ + __class__.__name__)\nprint(Cb().cb())\nsorted([3, 1], key=functools.cmp_to_key(lambda a, b: a - b))",
    "import io\nbuf = io.StringIO()\nprint('a', 1, file=buf)\nbuf.write('z')\nwith io.StringIO('l1\\nl2') as fh:\n    lines = [ln.strip() for ln in fh]\nbuf.getvalue(), lines",
    "def rec(d, depth=0):\n    for k, v in sorted(d.items()):\n        print(' ' * depth + k)\n        if isinstance(v, dict): rec(v, depth + 1)\nrec({'a': {'b': {}}, 'c': {}})\nx: int = 3\ny: 'str'\nx",
    "print('no newline', end='')\n3;",
    "1\n2\nNone",
    "_z = 4\n_z + 1\nprint(_)" if False else "_z = 4\n_z + 1",
]


def split_stmts(src):
    import ast

    tree = ast.parse(src)
    lines = src.split("\n")
    out = []
    for i, n in enumerate(tree.body):
        start = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])]) - 1
        if i and start == prev_end - 1:  # same line (a; b)
            out[-1] += ""
            prev_end = n.end_lineno
            continue
        out.append("\n".join(lines[start : n.end_lineno]))
        prev_end = n.end_lineno
    return out


CONFIGS = [
    {},
    {"flow_direction": "in_order", "exec_schedule": "hybrid_dag_liveness_based"},
    {"exec_mode": "reactive", "exec_schedule": "dag_based"},
]


def program_cases(thorough):
    for src in PROGRAMS:
        parts = split_stmts(src)
        whole = [(1, src)]
        each = list(enumerate(parts, 1))
        yield (None, tuple(whole))
        yield (None, tuple(each))
        yield (None, tuple(each + each))
        for cfg in range(1, len(CONFIGS)):
            if thorough or cfg == 1:
                yield (cfg, tuple(whole + whole))
        if thorough:
            for cfg in range(1, len(CONFIGS)):
                yield (cfg, tuple(each + each))
            # every way of cutting the program into two cells, then each re-run
            for k in range(1, len(parts)):
                two = [(1, "\n".join(parts[:k])), (2, "\n".join(parts[k:]))]
                yield (None, tuple(two + two))
                yield (None, tuple(two + two[::-1]))


# objects all of whose special methods report that they ran
SPY_PRELUDE = """
class Desc:
    def __get__(self, o, c=None): print("desc get"); return 4
    def __set__(self, o, v): print("desc set", v)
    def __delete__(self, o): print("desc del")
class Spy:
    d = Desc()
    def __init__(self, n): self.__dict__["n"] = n; self.__dict__["l"] = [1, 2]
    def __getattr__(self, a):
        print("getattr", a)
        if a.startswith("_") or a == "missing": raise AttributeError(a)
        return 3
    def __setattr__(self, a, v): print("setattr", a); self.__dict__[a] = v
    def __delattr__(self, a): print("delattr", a)
    @property
    def prop(self): print("prop"); return 5
    @prop.setter
    def prop(self, v): print("setprop")
    def __getitem__(self, i):
        print("getitem", i)
        if i == 3: raise IndexError(i)
        return self.__dict__["n"]
    def __setitem__(self, i, v): print("setitem", i)
    def __delitem__(self, i): print("delitem", i)
    def __len__(self): print("len"); return 2
    def __iter__(self): print("iter"); return iter([1, 2])
    def __contains__(self, x): print("contains"); return True
    def __bool__(self): print("bool"); return True
    def __eq__(self, o): print("eq", self.__dict__["n"]); return self is o
    def __ne__(self, o): print("ne"); return self is not o
    def __hash__(self): return 7
    def __call__(self, *a, **k): print("call", len(a), sorted(k)); return 8
    def __repr__(self): return "Spy"
    def __str__(self): print("str"); return "spy"
    def __format__(self, f): print("format", f); return "fmt"
    def __add__(self, o): print("add"); return 9
    def __radd__(self, o): print("radd"); return 9
    def __iadd__(self, o): print("iadd"); return self
    def __lt__(self, o): print("lt"); return False
    def __index__(self): print("index"); return 1
    def __enter__(self): print("enter"); return self
    def __exit__(self, *a): print("exit"); return False
    def __dir__(self): print("dir"); return ["n"]
    def __copy__(self): print("copy"); return self
    def __deepcopy__(self, m): print("deepcopy"); return self
    def __reduce__(self): print("reduce"); return (int, ())
    def __sizeof__(self): print("sizeof"); return 1
    def meth(self, *a): print("meth", len(a)); return self
class SpyAll(Spy):
    def __getattribute__(self, a):
        if not a.startswith("__"): print("getattribute", a)
        return super().__getattribute__(a)
class SpyIter:
    def __init__(self): self.k = 0
    def __iter__(self): print("iter"); return self
    def __next__(self):
        print("next"); self.k += 1
        if self.k > 2: raise StopIteration
        return self.k
    def __len__(self): print("len"); return 2
    def __length_hint__(self): print("hint"); return 2
class SpyList(list):
    def __getitem__(self, i): print("getitem", i); return super().__getitem__(i)
    def __setitem__(self, i, v): print("setitem", i); super().__setitem__(i, v)
    def __delitem__(self, i): print("delitem", i); super().__delitem__(i)
    def __len__(self): print("len"); return super().__len__()
    def __iter__(self): print("iter"); return super().__iter__()
    def __contains__(self, x): print("contains"); return super().__contains__(x)
    def __eq__(self, o): print("eq"); return super().__eq__(o)
    def __iadd__(self, o): print("iadd"); return super().__iadd__(o)
    def append(self, v): print("append"); super().append(v)
    def extend(self, v): print("extend"); super().extend(v)
    def insert(self, i, v): print("insert"); super().insert(i, v)
    def pop(self, *a): print("pop"); return super().pop(*a)
    def remove(self, v): print("remove"); super().remove(v)
    def copy(self): print("copy"); return super().copy()
    def index(self, v): print("index"); return super().index(v)
    __hash__ = None
class SpyDict(dict):
    def __getitem__(self, i): print("getitem", i); return super().__getitem__(i)
    def __setitem__(self, i, v): print("setitem", i); super().__setitem__(i, v)
    def __delitem__(self, i): print("delitem", i); super().__delitem__(i)
    def __missing__(self, i): print("missing", i); return 6
    def __len__(self): print("len"); return super().__len__()
    def __iter__(self): print("iter"); return super().__iter__()
    def __contains__(self, x): print("contains", x); return super().__contains__(x)
    def __eq__(self, o): print("eq"); return super().__eq__(o)
    def keys(self): print("keys"); return super().keys()
    def items(self): print("items"); return super().items()
    def values(self): print("values"); return super().values()
    def get(self, *a): print("get"); return super().get(*a)
    def pop(self, *a): print("pop"); return super().pop(*a)
    def update(self, *a, **k): print("update"); super().update(*a, **k)
    def setdefault(self, *a): print("setdefault"); return super().setdefault(*a)
    def copy(self): print("copy"); return super().copy()
    __hash__ = None
class SpySet(set):
    def __contains__(self, x): print("contains", x); return super().__contains__(x)
    def __iter__(self): print("iter"); return super().__iter__()
    def __len__(self): print("len"); return super().__len__()
    def add(self, x): print("add", x); super().add(x)
    def remove(self, x): print("remove", x); super().remove(x)
class SpyStr(str):
    def __getitem__(self, i): print("getitem", i); return super().__getitem__(i)
    def __len__(self): print("len"); return super().__len__()
    def __eq__(self, o): return super().__eq__(o)
    def __hash__(self): return super().__hash__()
    def upper(self): print("upper"); return super().upper()
class SpyMeta(type):
    def __getattr__(cls, a):
        print("metagetattr", a)
        if a.startswith("_"): raise AttributeError(a)
        return 3
    def __setattr__(cls, a, v): print("metasetattr", a); super().__setattr__(a, v)
    def __call__(cls, *a): print("metacall"); return super().__call__(*a)
    def __instancecheck__(cls, o): print("instancecheck"); return False
    def __len__(cls): print("metalen"); return 1
    def __getitem__(cls, i): print("metagetitem"); return 5
    def __iter__(cls): print("metaiter"); return iter([1])
    def __eq__(cls, o): return cls is o
    def __hash__(cls): return 3
    def __repr__(cls): return "SpyCls"
class SpyCls(metaclass=SpyMeta):
    def __init__(self): print("init")
    def __new__(cls): print("new"); return super().__new__(cls)
    def __class_getitem__(cls, i): print("cgi"); return cls
    n = 2
""".strip()

SPIES = {
    "obj": ("Spy(0)", "Spy(1)"),
    "getattribute": ("SpyAll(0)", "SpyAll(1)"),
    "iterator": ("SpyIter()", "SpyIter()"),
    "list": ("SpyList([1, [2], 3])", "SpyList([4])"),
    "dict": ("SpyDict(a=1, b=[2])", "SpyDict(c=3)"),
    "set": ("SpySet([1, 2])", "SpySet([3])"),
    "str": ("SpyStr('ab')", "SpyStr('c')"),
    "class": ("SpyCls", "SpyCls()"),
    "in list": ("[Spy(0), Spy(1)]", "Spy(2)"),
    "in dict": ("{'a': Spy(0), 0: Spy(1)}", "Spy(2)"),
}

SPY_STMTS = [
    "p", "p; 1", "x = p", "x = y = p", "x: object = p", "p.n", "p.zz", "x = p.zz", "p.missing", "x = p.d", "x = p.prop", "p.zz = 1", "p.zz = q", "p.d = 1", "p.prop = 1", "p.prop = q", "del p.d", "del p.zz", "p.zz += 1", "p.prop += 1",
    "p[0]", "x = p[0]", "x = p['a']", "p['zz']", "p[3]", "p[0] = 1", "p['a'] = q", "p[0] = q", "p[0] += 1", "del p[0]", "del p['a']", "p[0:2]", "x = p[0:2]", "p[0][0]", "p[0].zz = 1", "p.l[0] = q", "p.l.append(q)", "x = p.l", "p[-1]", "p[i] = i",
    "x, y = p", "x, *y = p", "p[0], x = 1, 2", "p.n, p.zz = q, 1", "(p[0], [p.zz]) = 1, [q]", "for p.a in [1, 2]: pass", "for p[0] in [1, 2]: pass", "for x in p: print(x)", "for x, y in [(p, q)]: pass", "for x in [p, q]: x.n", "with p as x: pass", "with q as p.zz: pass",
    "x = [p, q]", "x = (p, q)", "x = {'a': p, 'b': q}", "x = {p, q}", "x = {p: q}", "x = [*p]", "x = {**p}", "x = f(*p)", "x = f(**p)", "x = [[p], {'k': (q,)}]", "x = [p]\nx[0] = q", "x = {'k': p}\nx['k'] = q", "x = [p, q]\nx.remove(q)", "x = [p, q]\nx.insert(0, q)", "x = [p]\nx.append(q)", "x = [p]\nx.extend([q])", "x = [p, q]\nx.pop()", "x = [p, q]\ndel x[0]", "x = [p, q]\nx.index(q)", "x = [p, q]\nx.count(q)", "x = [q, p]\nx.sort(key=id)", "x = [p]\nx += [q]", "x = [p]\nx = x + [q]", "x = [p]\nx.reverse()", "x = [p]\nx.clear()", "x = [p][0]", "x = {'k': p}\nx.pop('k')", "x = {'k': p}\nx.update(k=q)", "x = {'k': p}\nx.setdefault('m', q)", "x = {'k': p}\nx.get('k')", "x = {p}\nx.add(q)", "x = {}\nx[p] = q\nx[p]", "x = {p: 1}\ndel x[p]", "x = {p: 1}\nx.pop(p)", "x = [1, 2]\nx[p]", "x = [p]\ny = x[:]", "x = [p]\ny = x.copy()", "x = (p, [q])\nx[1].append(p)",
    "p.append(1)", "p.append(q)", "p.extend([q])", "p.insert(0, q)", "p.pop()", "p.pop('a')", "p.remove(1)", "p.copy()", "p.add(5)", "p.update(k=1)", "p.setdefault('k', [])", "p.get('a')", "p.keys()", "p.items()", "p.upper()", "p.index(1)", "p.meth()", "x = p.meth(q)", "p.meth().meth()", "p.clear()",
    "p()", "x = p(1)", "p(q, k=p)", "f(p)", "x = f(p, q)", "f(k=p)", "print(p.n) if True else 0", "print(p)", "str(p)", "repr(p)", "len(p)", "bool(p)", "list(p)", "tuple(p)", "sorted([p], key=id)", "hash(p)", "id(p) and 1", "isinstance(p, int)", "type(p)", "f'{p}'", "f'{p!r}'", "'%s' % p if not isinstance(p, tuple) else 0", "getattr(p, 'n', 0)", "hasattr(p, 'zz')", "setattr(p, 'zz', 1)", "vars(p) and 1", "iter(p) and 1", "next(iter(p), 0)", "enumerate(p) and 1", "list(zip(p, [1]))", "list(map(f, p))", "list(filter(None, [p]))", "any([p])", "max([p, q], key=id)", "sum([1], 0)", "dict(a=p)", "list([p, q])", "set() and p", "import copy\nx = copy.copy(p)", "import copy\nx = copy.deepcopy([p])", "import functools\nfunctools.reduce(lambda a, b: a, [p, q])", "import json\nx = [p]\ntry:\n    json.dumps(x)\nexcept TypeError: print('te')",
    "p == q", "p != q", "p is q", "p < q", "p in [p, q]", "q in p", "q in [p, q]", "p and q", "p or q", "not p", "x = p if q else 1", "p + 1", "1 + p", "p += 1", "p += [1]", "x = p\nx += q", "if p: x = 1", "while p:\n    break", "assert p", "assert p, q", "x = [z for z in p]", "x = [p for _ in range(2)]", "x = {z: p for z in range(2)}", "x = [z for z in [p, q] if z is p]", "x = list(z for z in [p])", "x = (lambda: p)()", "x = (lambda z: z)(p)", "(x := p)", "x = [p, q][0].n", "x = {'k': p}['k'].n", "del p", "global zz\nzz = p", "def g(): return p\nx = g()", "def g(a=p): return a\nx = g()", "def g(a, *b, **c): return a\nx = g(p, q, k=p)", "def g():\n    y = p\n    return y\nx = g()", "def g():\n    yield p\nx = list(g())", "class K:\n    a = p\nx = K().a", "class K:\n    def __init__(self): self.a = p\nx = K()\nx.a", "@p\ndef g(): pass", "match p:\n    case [a, b]: pass\n    case {'a': a}: pass\n    case _: x = 1", "match p:\n    case 5: pass\n    case _: pass", "try:\n    p.missing\nexcept AttributeError: x = p", "async def g(): return p\nx = await g()", "x = p\np = q", "p, q = q, p", "p = p", "p = [p]", "p = f(p)", "x = p.n\nx = p.n", "x = p._private",
]

SPY_CONTEXTS = {
    "top": "{}",
    "loop": "for _it in range(2):\n{1}",
    "func": "def _fn(p, q):\n{1}\n_fn(p, q)",
}


def spy_cases(thorough):
    for kind, (pv, qv) in SPIES.items():
        for ctx, tpl in SPY_CONTEXTS.items():
            if not thorough and ctx != "top" and kind not in ("obj", "list"):
                continue
            for stmt in SPY_STMTS:
                if ctx == "func" and stmt.startswith("global"):
                    continue
                body = tpl.replace("{1}", textwrap.indent(stmt, "    ")).replace("{}", stmt)
                if kind == "set" and stmt in ("p.pop('a')", "p.update(k=1)"):
                    continue  # CPython words these TypeErrors differently when the call is not inlined
                if ok_syntax(body):
                    # None: what displaying the value calls is not our concern
                    yield (kind, ctx, "p = %s\nq = %s\ni = 0\ndef f(*a, **k): return a" % (pv, qv), body + "\nNone")


def spy_part(rep):
    base = prepare(prelude=False)
    s, ref = base
    assert s.run(SPY_PRELUDE, cell_id="prelude", pos=-1).error is None
    ref.run(SPY_PRELUDE)

    def cells(cases, rerun):
        out = []
        for i, (kind, ctx, setup, body) in enumerate(cases):
            out += [(1, setup), (10 + i, body)]
            if rerun:
                out += [(10 + i, body), (2, "y = [p.zz, p.n, p[0], p['a']] if 0 else 1"), (10 + i, body)]
        return out + [(3, "7")]

    def one(cases, st, key):
        global BASE
        BASE = base
        run_both(cells(cases, rep.thorough), st, key, compare_ns=False, frames=False)

    def case(part, st):
        def whole():
            st2 = Stats()
            one(part, st2, "spy batch:" + part[0][3])
            return st2

        st2 = fork_call(whole)
        st.transitions += st2.transitions
        st.outcomes |= st2.outcomes
        st.states += len(part)
        if st2.violations:
            n = len(st.violations)
            for x in part:

                def alone(x=x):
                    st3 = Stats()
                    one([x], st3, "spy:%s:%s:%s" % (x[0], x[1], x[3][:-5]))
                    return st3

                st.merge(fork_call(alone))
            if len(st.violations) == n:
                for v in st2.violations:
                    st.add_violation(v)

    cases = list(spy_cases(rep.thorough))
    st = pmap(batch(cases, 15), case, chunk=2)
    st.samples = [repr(c) for c in cases[40:42]]
    rep.add("objects that report every special method call", st)


CYCLIC = ["l[0] = l", "l.append(l)", "d['a'] = d", "d['l'] = l", "l[0] = d", "o.v = o", "o.l = l", "l.append(o)", "l[0][0] = 5", "l[1] = [l]", "l[0] = 7", "del l[0]", "t = (l, d)", "l.append(t)", "m = l", "l = [l]", "d = {'z': d}", "l = [1, [2]]", "d.pop('a', None)", "o.v = 3", "l.clear()", "x = str(l) + str(d)", "l2 = l[:]", "l.extend([l])", "d.update(e=d)", "l[0], l[1] = l[1], l[0]", "l += l", "l.insert(0, l)", "l.pop()", "for z in l: pass", "y = l[0]", "c = [l for l in [l]]", "def f(q): q.append(q)\nf(l)"]
CYCLIC_SETUP = ["l = [1, [2]]", "d = {'a': 1}", "class O:\n    def __repr__(self): return 'O'\no = O()", "u = l[1][0] + d['a']"]


def cycle_part(rep, depth):
    """containers that come to contain themselves; also asks for verdicts and slices after each step"""
    from explore import tree

    def make():
        s, r = Session(), RefSession()
        for k, c in enumerate(CYCLIC_SETUP):
            s.run(c, 100 + k)
            r.run(c)
        return s, r

    def step(state, hist, op, st):
        s, r = state
        h = [CYCLIC[i] for i in hist + (op,)]
        res = s.run(CYCLIC[op], op + 1)
        out, shown, exc = r.run(CYCLIC[op])

        def fail(what):
            st.violation("cyclic:%r" % (h,), "after %r: %s" % (h, what), {"cells": CYCLIC_SETUP + h})
            return False

        if res.internal is not None:
            return fail("internal error %r" % (res.internal,))
        if (res.error is None) != (exc is None):
            return fail("raised %r, plain Python %r" % (res.error, exc))
        got, want = snapshot(s.ns), snapshot(r.ns)
        if got != want:
            return fail("variables %r, plain Python %r" % (got, want))
        s.check(last_executed_cell_id=op + 1)
        if res.error is None:
            s.cells().at_timestamp(s.cells().exec_counter()).slice(stmts=True, format_type=str)
            for n in ("l", "d", "o"):
                s.sym(n).code(format_type=str)
        st.outcomes.add(repr(want))
        return True

    rep.add("self-containing values depth %d" % depth, tree(make, lambda h: range(len(CYCLIC)), step, depth))


def run(rep):
    global BASE
    boot()
    BASE = prepare()
    if rep.part_enabled("e1"):
        expr_part(rep, "expressions depth 1", exprs1())
    if rep.part_enabled("e2"):
        if rep.thorough:
            expr_part(rep, "expressions depth 2", exprs2(every_hole=True))
        else:
            expr_part(rep, "expressions depth 2 (core forms)", exprs2(every_hole=False, forms=CORE))
    es = ["t(1)", "boom(1)"] if not rep.thorough else ["t(1)", "boom(1)", "tl(1)[2][0]", "o(1).meth(t(2), a=t(3))", "(lambda q: q)(t(2))", "[z for z in tl(1)]", "td(1)", "o(t(1))", "undefined_name"]

    def stmt(case, st):
        c, s, src = case
        run_both([(1, src)], st, "stmt:%s:%s" % (c, s))
        st.states += 1

    if rep.part_enabled("s"):
        cases = list(stmt_cases(es))
        st = pmap(cases, stmt, chunk=16, fork=True)
        st.samples = [c[2] for c in cases[5:7]]
        rep.add("statements x contexts", st)
    if rep.part_enabled("p"):
        pairs = [("pair", a + " ;; " + b, a.replace("#", "t(1)") + "\n" + b.replace("#", "t(2)")) for a in STMTS for b in STMTS]
        if not rep.thorough:
            pairs = [p for i, p in enumerate(pairs) if i % 5 == 0]
        st = pmap([p for p in pairs if ok_syntax(p[2])], stmt, chunk=16, fork=True)
        st.samples = [pairs[1][2]]
        rep.add("statement pairs", st)

    def prog(case, st):
        cfg, cells = case
        run_both(list(cells), st, "prog:%s:%s" % (cfg, cells[0][1][:200]), config=CONFIGS[cfg] if cfg else None, prelude=False)
        st.states += len(cells)

    if rep.part_enabled("g"):
        cases = list(program_cases(rep.thorough))
        st = pmap(cases, prog, chunk=2)
        st.samples = [repr(cases[1])]
        rep.add("programs x cell splits x re-runs", st)
    if rep.part_enabled("n"):
        # a NameError that does not say which name leaves a function
        def nameless(case, st):
            run_both([(1, case)], st, "nameless:" + case, prelude=False)
            st.states += 1

        st = pmap(["def g():\n    print(zq)\n    zq = 1\ng()", "def g():\n    raise NameError('zz')\ng()", "def g():\n    raise NameError('zz')\ntry:\n    g()\nexcept NameError:\n    print('caught')", "def g():\n    zq\ng()"], nameless, chunk=1)
        rep.add("name errors leaving functions", st)
    if rep.part_enabled("y"):
        spy_part(rep)
    if rep.part_enabled("k"):
        cycle_part(rep, 3 if rep.thorough else 2)
    rep.finish("every expression form nested in every hole of every form; every statement form in every context with a normal and a raising operand; every pair of statement forms; programs under every listed split into cells, re-run, and configuration; outcome = (stdout, displayed value, exception, namespace)", exhaustive=True)
