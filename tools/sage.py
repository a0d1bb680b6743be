"""Abstract interpretation of the repository's Sage reference script.

The script is parsed, never run.  Its statements are interpreted over the domain of engine A: integers and
tables are constants, a field element is a value number - a polynomial over F_p whose indeterminates are the
words of the state and the results that are not expanded (a power or product of multi-term elements).  Equal
normal forms are equal functions of the state."""
import ast, io, math, re, tokenize
from fractions import Fraction


class Unknown(Exception):
    pass


class Refuted(Exception):
    """an assertion of the script that does not hold"""


# ------------------------------------------------------------------ field elements
class Forms:
    def __init__(self, p):
        self.p, self.atoms, self.ids = p, [], {}

    def atom(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.atoms)
            self.atoms.append(key)
        return self.ids[key]

    def const(self, c):
        c = int(c) % self.p
        return Fe(self, {(): c} if c else {})

    def var(self, n):
        return Fe(self, {((self.atom(("var", n)), 1),): 1})


class Fe:
    """sum of coefficient * product of atom^exponent"""

    __slots__ = ("f", "m")

    def __init__(self, f, m):
        self.f, self.m = f, m

    def key(self):
        return tuple(sorted(self.m.items()))

    def __eq__(self, o):
        return isinstance(o, Fe) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def value(self):
        """the residue, if it is a constant"""
        if not self.m:
            return 0
        if set(self.m) == {()}:
            return self.m[()]
        return None

    def add(self, o, s=1):
        p, r = self.f.p, dict(self.m)
        for k, c in o.m.items():
            c = (r.get(k, 0) + s * c) % p
            if c:
                r[k] = c
            else:
                r.pop(k, None)
        return Fe(self.f, r)

    def scale(self, c):
        p = self.f.p
        return Fe(self.f, {k: v * c % p for k, v in self.m.items()}) if c % p else Fe(self.f, {})

    def mono(self):
        """(coefficient, monomial): a multi-term element becomes an atom"""
        if len(self.m) == 1:
            ((k, c),) = self.m.items()
            return c, k
        return 1, ((self.f.atom(("sum", self.key())), 1),)

    def mul(self, o):
        for a, b in ((self, o), (o, self)):
            if a.value() is not None:
                return b.scale(a.value())
        (a, x), (b, y) = self.mono(), o.mono()
        e = dict(x)
        for k, n in y:
            e[k] = e.get(k, 0) + n
        return Fe(self.f, {tuple(sorted(e.items())): a * b % self.f.p})

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        if n == 0:
            return self.f.const(1)
        if n == 1:
            return self
        c, x = self.mono()
        return Fe(self.f, {tuple((k, e * n) for k, e in x): pow(c, n, self.f.p)})

    def inv(self):
        v = self.value()
        if v is None:
            raise Unknown("inverse of a state-dependent element")
        if v == 0:
            raise Unknown("inverse of zero")
        return self.f.const(pow(v, -1, self.f.p))


# ------------------------------------------------------------------ Sage's vectors and matrices
class Vec:
    def __init__(self, x):
        self.x = list(x)


class Mat:
    def __init__(self, rows):
        self.rows = [list(r) for r in rows]

    def shape(self):
        return len(self.rows), len(self.rows[0]) if self.rows else 0


class FieldTy:
    pass


class Func:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Class:
    def __init__(self, name, d):
        self.name, self.d = name, d


class Inst:
    def __init__(self, c):
        self.c, self.d = c, {}


class It:
    """an iterator: what is left of a sequence"""

    def __init__(self, l):
        self.l, self.k = l, 0


class Opaque:
    """a value that carries nothing the state could depend on (a clock reading, a printed line)"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def preparse(src):
    """Sage's ^ is a power, [a..b] a list of integers"""
    src = re.sub(r"\[([^][,\"']+?)\.\.([^][,.\"']+?)\]", r"list(range(\1, (\2) + 1))", src)
    out = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.OP and t.string in ("^", "^="):
            out.append((tokenize.OP, t.string.replace("^", "**")))
        else:
            out.append((t.type, t.string))
    return tokenize.untokenize(out)


class Script:
    def __init__(self, src, p):
        self.f = Forms(p)
        self.globals = {}
        self.claims = []  # (line, text, value) of printed truth values
        self.steps = 0
        self.prime = None
        # keep line numbers: parse the original where it has no ^
        self.tree = ast.parse(preparse(src))
        self.lines = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.lines[n.name] = n.lineno

    def run(self):
        for s in self.tree.body:
            self.stmt(s, self.globals, None)

    # -------------------------------------------------------------- statements
    def stmt(self, s, env, gl):
        self.steps += 1
        if self.steps > 4_000_000:
            raise Unknown("more statements than a permutation takes")
        try:
            self.stmt_(s, env, gl)
        except Unknown as e:
            if " (statement " in str(e):
                raise
            raise Unknown(f"{e} (statement `{ast.unparse(s)[:80]}`)")
        except (TypeError, ValueError, LookupError, AttributeError, RecursionError, ArithmeticError) as e:
            raise Unknown(f"{type(e).__name__}: {e} (statement `{ast.unparse(s)[:80]}`)")

    def stmt_(self, s, env, gl):
        T = type(s)
        if T in (ast.Import, ast.ImportFrom):
            for a in s.names:
                self.bind((a.asname or a.name).split(".")[0], ("module", a.name), env, gl)
        elif T is ast.FunctionDef:
            if s.decorator_list:
                raise Unknown("a decorated function")
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
                raise Unknown("a generator")
            self.bind(s.name, Func(s, env), env, gl)
        elif T is ast.Assign:
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, gl)
        elif T is ast.AnnAssign and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, gl)
        elif T is ast.AugAssign:
            v = self.ev(ast.copy_location(self.load(s.target), s), env)
            r = self.ev(s.value, env)
            if isinstance(v, list) and isinstance(s.op, ast.Add):
                v.extend(self.iter(r))
            else:
                v = self.bin(s.op, v, r)
            self.assign(s.target, v, env, gl)
        elif T is ast.For:
            for x in self.each(self.ev(s.iter, env)):
                self.assign(s.target, x, env, gl)
                try:
                    self.block(s.body, env, gl)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, gl)
        elif T is ast.While:
            while self.truth(self.ev(s.test, env)):
                self.steps += 1
                if self.steps > 4_000_000:
                    raise Unknown("a loop that does not end")
                try:
                    self.block(s.body, env, gl)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, gl)
        elif T is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env, gl)
        elif T is ast.Return:
            raise Ret(self.ev(s.value, env) if s.value else None)
        elif T is ast.Expr:
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "print":
                for a in c.args:
                    v = self.ev(a, env)
                    if isinstance(v, bool):
                        self.claims.append((s.lineno, ast.unparse(a), v))
            else:
                self.ev(c, env)
        elif T is ast.ClassDef:
            if s.bases or s.keywords or s.decorator_list:
                raise Unknown("a class with bases")
            d = {"$outer": None if env is self.globals else env}
            self.block(s.body, d, set())
            d.pop("$outer")
            for f in d.values():
                if isinstance(f, Func):
                    f.env = env
            self.bind(s.name, Class(s.name, d), env, gl)
        elif T is ast.Global:
            for n in s.names:
                gl.add(n)
        elif T is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise Refuted(f"`{ast.unparse(s.test)}` does not hold")
        elif T is ast.Pass:
            pass
        elif T is ast.Break:
            raise Brk()
        elif T is ast.Continue:
            raise Cont()
        else:
            raise Unknown(f"statement {T.__name__}")

    def block(self, b, env, gl):
        for s in b:
            self.stmt(s, env, gl)

    def load(self, t):
        t = ast.parse(ast.unparse(t), mode="eval").body
        return t

    def bind(self, n, v, env, gl):
        (self.globals if gl is not None and n in gl else env)[n] = v

    def assign(self, t, v, env, gl):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env, gl)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown("starred assignment")
            if len(vs) != len(t.elts):
                raise Unknown("unpacking of another length")
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env, gl)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            if isinstance(o, list):
                if isinstance(i, slice):
                    o[i] = list(self.iter(v))
                else:
                    o[self.int(i)] = v
            elif isinstance(o, dict):
                o[i] = v
            elif isinstance(o, Vec):
                o.x[self.int(i)] = v
            elif isinstance(o, Mat) and isinstance(i, tuple) and len(i) == 2:
                r, c = (self.index(a, n) for a, n in zip(i, o.shape()))
                src = v.rows if isinstance(v, Mat) else [[v]]
                if isinstance(v, Mat) and v.shape() != (len(r[0]), len(c[0])) or not isinstance(v, Mat) and (r[1] or c[1]):
                    raise Unknown("assignment to a submatrix of another shape")
                for a, ri in enumerate(r[0]):
                    for b, ci in enumerate(c[0]):
                        o.rows[ri][ci] = src[a][b]
            else:
                raise Unknown(f"assignment to an element of {type(o).__name__}")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Inst):
                raise Unknown("assignment to an attribute")
            o.d[t.attr] = v
        else:
            raise Unknown("assignment target")

    # -------------------------------------------------------------- expressions
    def int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        raise Unknown(f"{type(v).__name__} used as a number of something")

    def index(self, i, n):
        """-> (positions, is it a list of them)"""
        if isinstance(i, slice):
            return list(range(n))[i], True
        if isinstance(i, (list, range, tuple)):
            return [self.at(self.int(k), n) for k in i], True
        return [self.at(self.int(i), n)], False

    def at(self, k, n):
        if not -n <= k < n:
            raise Unknown("index out of range")
        return k % n

    def each(self, v):
        """one element after the other, as a loop takes them"""
        if not isinstance(v, It):
            yield from list(self.iter(v))
            return
        while v.k < len(v.l):
            v.k += 1
            yield v.l[v.k - 1]

    def iter(self, v):
        if isinstance(v, Vec):
            return v.x
        if isinstance(v, Mat):
            return [Vec(r) for r in v.rows]
        if isinstance(v, (list, tuple, range, str)):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, It):
            l, v.k = v.l[v.k:], len(v.l)
            return l
        raise Unknown(f"iteration over {type(v).__name__}")

    def truth(self, v):
        if isinstance(v, Opaque):
            raise Unknown("a decision on a value outside the domain")
        if isinstance(v, Fe):
            if v.value() is None:
                raise Unknown("a decision on a state-dependent element")
            return v.value() != 0
        return bool(v)

    def fe(self, v):
        if isinstance(v, Fe):
            return v
        if isinstance(v, Fraction) and v.denominator != 1:
            return self.f.const(v.numerator * pow(v.denominator, -1, self.f.p))
        return self.f.const(self.int(v))

    def scalar(self, v):
        return isinstance(v, (int, Fraction, Fe)) and not isinstance(v, bool)

    def dot(self, a, b):
        if len(a) != len(b):
            raise Unknown("product of vectors of different lengths")
        r = None
        for x, y in zip(a, b):
            t = self.bin(ast.Mult(), x, y)
            r = t if r is None else self.bin(ast.Add(), r, t)
        return 0 if r is None else r

    def bin(self, op, a, b):
        O = type(op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if isinstance(a, (Fe, Vec, Mat)) or isinstance(b, (Fe, Vec, Mat)):
            if isinstance(a, Fe) or isinstance(b, Fe):
                o = b if isinstance(a, Fe) else a
                if self.scalar(a) and self.scalar(b):
                    if O is ast.Pow:
                        if isinstance(b, Fe):
                            raise Unknown("a field element as exponent")
                        return self.fe(a).pow(self.int(b))
                    x, y = self.fe(a), self.fe(b)
                    if O is ast.Add:
                        return x.add(y)
                    if O is ast.Sub:
                        return x.add(y, -1)
                    if O is ast.Mult:
                        return x.mul(y)
                    if O is ast.Div:
                        return x.mul(y.inv())
                    raise Unknown(f"operator {O.__name__} on field elements")
                if not isinstance(o, (Vec, Mat)):
                    raise Unknown(f"operator {O.__name__} on a field element and {type(o).__name__}")
            if O in (ast.Add, ast.Sub) and type(a) is type(b):
                if isinstance(a, Vec) and len(a.x) == len(b.x):
                    return Vec([self.bin(op, x, y) for x, y in zip(a.x, b.x)])
                if isinstance(a, Mat) and a.shape() == b.shape():
                    return Mat([[self.bin(op, x, y) for x, y in zip(r, s)] for r, s in zip(a.rows, b.rows)])
            if O is ast.Mult:
                if isinstance(a, Mat) and isinstance(b, Mat) and a.shape()[1] == b.shape()[0]:
                    t = list(zip(*b.rows))
                    return Mat([[self.dot(r, c) for c in t] for r in a.rows])
                if isinstance(a, Mat) and isinstance(b, Vec) and a.shape()[1] == len(b.x):
                    return Vec([self.dot(r, b.x) for r in a.rows])
                if isinstance(a, Vec) and isinstance(b, Mat) and len(a.x) == b.shape()[0]:
                    return Vec([self.dot(a.x, c) for c in zip(*b.rows)])
                if isinstance(a, Vec) and isinstance(b, Vec):
                    return self.dot(a.x, b.x)
                for x, y in ((a, b), (b, a)):
                    if self.scalar(x) and isinstance(y, Vec):
                        return Vec([self.bin(op, x, e) for e in y.x])
                    if self.scalar(x) and isinstance(y, Mat):
                        return Mat([[self.bin(op, x, e) for e in r] for r in y.rows])
            if O is ast.Pow and isinstance(a, Mat) and self.scalar(b) and not isinstance(b, Fe):
                n, r = self.int(b), None
                if n < 0:
                    a, n = self.inverse(a), -n
                if 1 <= n <= 1000:
                    for _ in range(n):
                        r = a if r is None else self.bin(ast.Mult(), r, a)
                    return r
            raise Unknown(f"operator {O.__name__} on {type(a).__name__} and {type(b).__name__}")
        if O is ast.Add and isinstance(a, (list, tuple, str)) and type(a) is type(b):
            return a + b
        if O is ast.Mult and isinstance(a, (list, tuple, str)):
            return a * self.int(b)
        if O is ast.Mult and isinstance(b, (list, tuple, str)):
            return b * self.int(a)
        if O is ast.Mod and isinstance(a, str):
            return Opaque()
        num = (int, Fraction, float)
        if isinstance(a, num) and isinstance(b, num):
            fl = isinstance(a, float) or isinstance(b, float)
            if O is ast.Add:
                return a + b
            if O is ast.Sub:
                return a - b
            if O is ast.Mult:
                if fl and not isinstance(a, float):
                    a = float(a)
                if fl and not isinstance(b, float):
                    b = float(b)
                return a * b
            if O is ast.Div:
                if b == 0:
                    raise Unknown("division by zero")
                return a / b if fl else Fraction(a) / Fraction(b)
            if O is ast.FloorDiv:
                return a // b
            if O is ast.Mod:
                return a % b
            if O is ast.Pow:
                if fl:
                    return float(a) ** float(b)
                n = self.int(b)
                if abs(n) > 100_000:
                    raise Unknown("a huge power")
                return Fraction(a) ** n if n < 0 else a ** n
            if not fl:
                a, b = self.int(a), self.int(b)
                if O is ast.LShift and b < 10_000:
                    return a << b
                if O is ast.RShift:
                    return a >> b
                if O is ast.BitAnd:
                    return a & b
                if O is ast.BitOr:
                    return a | b
        raise Unknown(f"operator {O.__name__} on {type(a).__name__} and {type(b).__name__}")

    def inverse(self, m):
        n, c = m.shape()
        if n != c or not all(isinstance(x, Fe) for r in m.rows for x in r):
            raise Unknown("inverse of something that is not a square matrix over the field")
        p = self.f.p
        a = [[x.value() for x in r] + [int(i == j) for j in range(n)] for i, r in enumerate(m.rows)]
        if any(x is None for r in a for x in r):
            raise Unknown("inverse of a state-dependent matrix")
        for i in range(n):
            k = next((k for k in range(i, n) if a[k][i] % p), None)
            if k is None:
                raise Unknown("inverse of a singular matrix")
            a[i], a[k] = a[k], a[i]
            v = pow(a[i][i], -1, p)
            a[i] = [x * v % p for x in a[i]]
            for r in range(n):
                if r != i and a[r][i]:
                    a[r] = [(x - a[r][i] * y) % p for x, y in zip(a[r], a[i])]
        return Mat([[self.f.const(x) for x in r[n:]] for r in a])

    def same(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unknown("comparison of values outside the domain")
        if isinstance(a, Fe) or isinstance(b, Fe):
            if not (self.scalar(a) and self.scalar(b)):
                return False
            x, y = self.fe(a), self.fe(b)
            if x == y:
                return True
            if x.value() is None or y.value() is None:
                raise Unknown("a decision on a state-dependent element")
            return False
        if isinstance(a, Vec) and isinstance(b, Vec):
            a, b = a.x, b.x
        if isinstance(a, Mat) and isinstance(b, Mat):
            a, b = a.rows, b.rows
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def ev(self, e, env):
        self.steps += 1
        if self.steps > 4_000_000:
            raise Unknown("more operations than a permutation takes")
        T = type(e)
        if T is ast.Constant:
            return Fraction(str(e.value)) if False else e.value
        if T is ast.Name:
            o = env
            while o is not None:
                if e.id in o:
                    return o[e.id]
                o = o.get("$outer")
            if e.id in self.globals:
                return self.globals[e.id]
            return ("builtin", e.id)
        if T is ast.BinOp:
            return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if T is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                return self.bin(ast.Mult(), -1, v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and isinstance(v, Mat):
                return self.inverse(v)
        if T is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if T is ast.Compare:
            a = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, env)
                O = type(op)
                if O is ast.Eq:
                    t = self.same(a, b)
                elif O is ast.NotEq:
                    t = not self.same(a, b)
                elif O in (ast.In, ast.NotIn):
                    t = any(self.same(a, x) for x in self.iter(b)) == (O is ast.In)
                elif O in (ast.Is, ast.IsNot):
                    t = (a is b) == (O is ast.Is)
                else:
                    if not (isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float))):
                        raise Unknown(f"comparison of {type(a).__name__} and {type(b).__name__}")
                    t = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[O]
                if not t:
                    return False
                a = b
            return True
        if T is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if T is ast.List:
            return self.elts(e.elts, env)
        if T is ast.Tuple:
            return tuple(self.elts(e.elts, env))
        if T is ast.Dict and all(k is not None for k in e.keys):
            return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}
        if T in (ast.ListComp, ast.GeneratorExp):
            out = []
            self.comp(e.generators, e.elt, {"$outer": env}, out)
            return It(out) if T is ast.GeneratorExp else out
        if T is ast.Subscript:
            return self.sub(self.ev(e.value, env), self.ev(e.slice, env))
        if T is ast.Slice:
            return slice(*[None if x is None else self.int(self.ev(x, env)) for x in (e.lower, e.upper, e.step)])
        if T is ast.Attribute:
            o = self.ev(e.value, env)
            if isinstance(o, Mat) and e.attr == "T":
                return Mat(zip(*o.rows))
            if isinstance(o, (Inst, Class)):
                if isinstance(o, Inst) and e.attr in o.d:
                    return o.d[e.attr]
                v = (o.c if isinstance(o, Inst) else o).d.get(e.attr)
                if v is None:
                    raise Unknown(f"attribute {e.attr}")
                return ("bound", v, o) if isinstance(v, Func) and isinstance(o, Inst) else v
            return ("attr", o, e.attr)
        if T is ast.JoinedStr:
            return Opaque()
        if T is ast.Lambda:
            return Func(e, env)
        if T is ast.Call:
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args.extend(self.iter(self.ev(a.value, env)))
                else:
                    args.append(self.ev(a, env))
            return self.call(self.ev(e.func, env), args, {k.arg: self.ev(k.value, env) for k in e.keywords})
        raise Unknown(f"expression {T.__name__}")

    def elts(self, l, env):
        out = []
        for x in l:
            if isinstance(x, ast.Starred):
                out.extend(self.iter(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def comp(self, gens, elt, env, out):
        if not gens:
            out.append(self.ev(elt, env))
            return
        g = gens[0]
        for x in self.each(self.ev(g.iter, env)):
            self.assign(g.target, x, env, None)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                self.comp(gens[1:], elt, env, out)

    def sub(self, o, i):
        if isinstance(o, (list, tuple, range, str)):
            if isinstance(i, slice):
                return o[i]
            return o[self.at(self.int(i), len(o))]
        if isinstance(o, dict):
            if i in o:
                return o[i]
        if isinstance(o, Vec):
            k, many = self.index(i, len(o.x))
            return Vec([o.x[a] for a in k]) if many else o.x[k[0]]
        if isinstance(o, Mat):
            if isinstance(i, tuple) and len(i) == 2:
                (r, a), (c, b) = (self.index(x, n) for x, n in zip(i, o.shape()))
                if not a and not b:
                    return o.rows[r[0]][c[0]]
                return Mat([[o.rows[x][y] for y in c] for x in r])
            k, many = self.index(i, len(o.rows))
            return Mat([o.rows[a] for a in k]) if many else Vec(o.rows[k[0]])
        raise Unknown(f"element of {type(o).__name__}")

    # -------------------------------------------------------------- calls
    def call(self, f, a, kw):
        if isinstance(f, Func):
            n = f.node
            ps = [x.arg for x in n.args.args]
            if n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.args.posonlyargs:
                raise Unknown("a variable number of arguments")
            env = {"$outer": None if f.env is self.globals else f.env}
            for x, d in zip(ps[::-1], n.args.defaults[::-1]):
                env[x] = self.ev(d, f.env)
            env.update(zip(ps, a))
            env.update(kw)
            if len(a) > len(ps) or any(x not in env for x in ps):
                raise Unknown("wrong number of arguments")
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            try:
                self.block(n.body, env, set())
            except Ret as r:
                return r.v
            return None
        if isinstance(f, FieldTy):
            return self.fe(a[0])
        if isinstance(f, Class):
            o = Inst(f)
            if "__init__" in f.d:
                self.call(f.d["__init__"], [o, *a], kw)
            return o
        if isinstance(f, Inst) and "__call__" in f.c.d:
            return self.call(f.c.d["__call__"], [f, *a], kw)
        if isinstance(f, tuple) and f[0] == "bound":
            return self.call(f[1], [f[2], *a], kw)
        if isinstance(f, tuple) and f[0] == "attr":
            return self.method(f[1], f[2], a, kw)
        if isinstance(f, tuple) and f[0] == "builtin":
            return self.builtin(f[1], a, kw)
        raise Unknown("call of something that is not a function")

    def method(self, o, n, a, kw):
        if isinstance(o, tuple) and o and o[0] == "module":
            if o[1] == "time":
                return Opaque()
            if o[1] == "math" and n in ("log", "log2", "ceil", "floor"):
                return self.builtin(n, a, kw)
            if o[1] == "copy":
                return self.builtin("copy", a, kw)
            raise Unknown(f"function {n} of module {o[1]}")
        if isinstance(o, tuple) and o and o[0] == "builtin" and o[1] in ("matrix", "Matrix"):
            if n in ("identity", "zero"):
                k = self.int(a[-1])
                mk = self.fe if isinstance(a[0], FieldTy) else int
                return Mat([[mk(int(i == j and n == "identity")) for j in range(k)] for i in range(k)])
        if isinstance(o, str) and n in ("format", "join"):
            return Opaque()
        if isinstance(o, list):
            if n == "append":
                return o.append(a[0])
            if n == "extend":
                return o.extend(self.iter(a[0]))
            if n == "insert":
                return o.insert(self.int(a[0]), a[1])
            if n == "pop":
                return o.pop(*[self.int(x) for x in a])
            if n == "reverse":
                return o.reverse()
            if n == "copy":
                return list(o)
            if n == "clear":
                return o.clear()
        if isinstance(o, Mat):
            if n == "transpose":
                return Mat(zip(*o.rows))
            if n == "inverse":
                return self.inverse(o)
            if n == "list":
                return [x for r in o.rows for x in r]
            if n == "rows":
                return [Vec(r) for r in o.rows]
            if n == "columns":
                return [Vec(r) for r in zip(*o.rows)]
            if n in ("row", "column"):
                t = o.rows if n == "row" else list(zip(*o.rows))
                return Vec(t[self.at(self.int(a[0]), len(t))])
            if n in ("solve_right", "solve_left") and isinstance(a[0], (Mat, Vec)):
                i = self.inverse(o)
                return self.bin(ast.Mult(), i, a[0]) if n == "solve_right" else self.bin(ast.Mult(), a[0], i)
            if n == "apply_map":
                return Mat([[self.call(a[0], [x], {}) for x in r] for r in o.rows])
            if n == "nrows":
                return o.shape()[0]
            if n == "ncols":
                return o.shape()[1]
            if n in ("__copy__", "change_ring"):
                return Mat([[self.fe(x) if n == "change_ring" else x for x in r] for r in o.rows])
            if n == "submatrix" and not kw:
                r, c, h, w = [self.int(x) for x in a] + [0, 0, *o.shape()][len(a):] if len(a) in (0, 4) else [self.int(x) for x in a] + [o.shape()[k] - (self.int(a[k]) if k < len(a) else 0) for k in range(2)] if len(a) == 2 else [None] * 4
                if r is None or min(r, c, h, w) < 0 or r + h > o.shape()[0] or c + w > o.shape()[1]:
                    raise Unknown("a submatrix given in another way")
                return Mat([x[c:c + w] for x in o.rows[r:r + h]])
        if isinstance(o, Vec):
            if n == "list":
                return list(o.x)
            if n in ("dot_product", "inner_product"):
                return self.dot(o.x, a[0].x)
            if n == "apply_map":
                return Vec([self.call(a[0], [x], {}) for x in o.x])
            if n == "change_ring":
                return Vec([self.fe(x) for x in o.x])
            if n == "pairwise_product" and len(o.x) == len(a[0].x):
                return Vec([self.bin(ast.Mult(), x, y) for x, y in zip(o.x, a[0].x)])
            if n in ("row", "column") and not a:
                return Mat([o.x]) if n == "row" else Mat([[x] for x in o.x])
            if n in ("__copy__",):
                return Vec(o.x)
        if isinstance(o, (int, float, Fraction)) and n in ("n", "numerical_approx"):
            return float(o) if not (isinstance(o, int) and o.bit_length() > 1000) else o
        if isinstance(o, Fe):
            if n == "inverse" and not a:
                return o.inv()
            if n == "parent" and not a:
                return FieldTy()
            if n == "is_zero" and not a:
                return self.same(o, 0)
            if n == "is_one" and not a:
                return self.same(o, 1)
        raise Unknown(f"method {n} of {type(o).__name__}")

    def builtin(self, n, a, kw):
        if n == "range":
            return range(*[self.int(x) for x in a])
        if n == "len":
            return len(a[0].x if isinstance(a[0], Vec) else a[0])
        if n in ("list", "tuple"):
            l = list(self.iter(a[0])) if a else []
            return l if n == "list" else tuple(l)
        if n == "sum":
            r = a[1] if len(a) > 1 else 0
            for x in self.iter(a[0]):
                r = self.bin(ast.Add(), r, x)
            return r
        if n in ("int", "ZZ", "Integer"):
            if isinstance(a[0], float):
                return int(a[0])
            if isinstance(a[0], Fraction):
                return int(a[0])
            if isinstance(a[0], Fe):
                if a[0].value() is None:
                    raise Unknown("the integer value of a state-dependent element")
                return a[0].value()
            return self.int(a[0])
        if n in ("float", "RR"):
            return Opaque() if isinstance(a[0], Opaque) else float(a[0])
        if n == "enumerate":
            return It([(i, x) for i, x in enumerate(self.iter(a[0]), self.int(a[1] if len(a) > 1 else kw.get("start", 0)))])
        if n == "pow" and len(a) == 2:
            return self.bin(ast.Pow(), a[0], a[1])
        if n == "divmod":
            return (self.bin(ast.FloorDiv(), *a), self.bin(ast.Mod(), *a))
        if n == "iter":
            return a[0] if isinstance(a[0], It) else It(list(self.iter(a[0])))
        if n == "next" and len(a) == 1 and isinstance(a[0], It):
            if a[0].k >= len(a[0].l):
                raise Unknown("an iterator at its end")
            a[0].k += 1
            return a[0].l[a[0].k - 1]
        if n == "prod":
            r = 1
            for x in self.iter(a[0]):
                r = self.bin(ast.Mult(), r, x)
            return r
        if n in ("str", "repr", "format"):
            return Opaque()
        if n == "sorted" and not kw:
            l = list(self.iter(a[0]))
            if all(isinstance(x, (int, Fraction, float)) for x in l):
                return sorted(l)
        if n == "isinstance":
            raise Unknown("a decision on the type of a value")
        if n in ("srange", "xsrange"):
            return list(range(*[self.int(x) for x in a]))
        if n == "zero_matrix":
            a = [x for x in a if not isinstance(x, FieldTy)]
            h, w = self.int(a[0]), self.int(a[-1])
            return Mat([[self.fe(0)] * w for _ in range(h)])
        if n == "zero_vector":
            a = [x for x in a if not isinstance(x, FieldTy)]
            return Vec([self.fe(0)] * self.int(a[0]))
        if n == "zip":
            return It(list(zip(*[self.iter(x) for x in a])))
        if n == "reversed":
            return It(list(self.iter(a[0]))[::-1])
        if n == "map":
            return It([self.call(a[0], list(x), {}) for x in zip(*[self.iter(y) for y in a[1:]])])
        if n in ("min", "max"):
            l = list(self.iter(a[0])) if len(a) == 1 else a
            if all(isinstance(x, (int, Fraction, float)) for x in l):
                return (min if n == "min" else max)(l)
        if n in ("all", "any"):
            return (all if n == "all" else any)(self.truth(x) for x in self.iter(a[0]))
        if n in ("abs",) and isinstance(a[0], (int, Fraction, float)):
            return abs(a[0])
        if n in ("log", "log2") and all(isinstance(x, (int, Fraction, float)) and x > 0 for x in a):
            b = 2 if n == "log2" else a[1] if len(a) > 1 else None
            x = a[0]
            return math.log(x) if b is None else math.log(x) / math.log(b)
        if n in ("ceil", "floor") and isinstance(a[0], (int, Fraction, float)):
            return math.ceil(a[0]) if n == "ceil" else math.floor(a[0])
        if n in ("GF", "FiniteField"):
            self.prime = self.int(a[0])
            return FieldTy()
        if n in ("vector",):
            if len(a) == 2 and isinstance(a[0], FieldTy):
                l = [0] * self.int(a[1]) if isinstance(a[1], int) else self.iter(a[1])
                return Vec([self.fe(x) for x in l])
            l = list(self.iter(a[0]))
            # one field element makes the vector one over the field
            return Vec([self.fe(x) for x in l] if any(isinstance(x, Fe) for x in l) else l)
        if n in ("matrix", "Matrix"):
            mk = lambda x: x
            if a and isinstance(a[0], FieldTy):
                mk, a = self.fe, a[1:]
            if len(a) == 1:
                return Mat([[mk(x) for x in self.iter(r)] for r in self.iter(a[0])])
            if len(a) >= 2 and all(isinstance(x, (int, Fraction)) for x in a[:2]):
                h, w = map(self.int, a[:2])
                if len(a) == 2:
                    return Mat([[mk(0)] * w for _ in range(h)])
                l = list(self.iter(a[2]))
                if len(l) == h * w and not isinstance(l[0] if l else 0, (list, Vec)):
                    return Mat([[mk(x) for x in l[i * w:(i + 1) * w]] for i in range(h)])
                return Mat([[mk(x) for x in self.iter(r)] for r in l])
        if n in ("identity_matrix",):
            k = self.int(a[-1])
            mk = self.fe if isinstance(a[0], FieldTy) else int
            return Mat([[mk(int(i == j)) for j in range(k)] for i in range(k)])
        if n in ("copy", "deepcopy"):
            v = a[0]
            deep = n == "deepcopy"
            if isinstance(v, list):
                return [self.builtin(n, [x], {}) if deep else x for x in v]
            if isinstance(v, Mat):
                return Mat(v.rows)
            if isinstance(v, Vec):
                return Vec(v.x)
            if isinstance(v, (dict, Inst, It)):
                raise Unknown("a copy of an object")
            return v
        if n == "print":
            return None
        raise Unknown(f"function {n}")


# ------------------------------------------------------------------ the reference
def textbook(f, t, alpha, rf, rp, mds, arc, x):
    k = 0
    for r in range(rf + rp):
        x = [a.add(f.const(arc[k + i])) for i, a in enumerate(x)]
        k += t
        full = r < rf // 2 or r >= rf // 2 + rp
        x = [a.pow(alpha) if full or i == 0 else a for i, a in enumerate(x)]
        y = []
        for i in range(t):
            s = f.const(0)
            for j in range(t):
                s = s.add(x[j].scale(mds[i * t + j]))
            y.append(s)
        x = y
    return x


def decide(path, prime, head, mds, arc, put):
    """head, mds, arc: the tables shipped for the script's rate, as the compiler evaluated them.
    put(id, ok, why, at, unknown)"""
    name = path.rsplit("/", 1)[-1]
    try:
        src = open(path).read()
        s = Script(src, prime)
    except (OSError, SyntaxError, tokenize.TokenError) as e:
        put("script read", False, f"{name} cannot be read: {e}", name, True)
        return {}
    n = 0
    try:
        s.run()
        put("script: what it asserts holds", True, "", name, False)
    except Refuted as e:
        put("script: what it asserts holds", False, str(e), name, False)
    except Unknown as e:
        put("script interpreted", False, f"outside the modelled language: {e}", name, True)
    put("script: field", s.prime == prime, f"the script computes in a field of {s.prime} elements", name, False)
    for i, text, v in s.claims:
        put(f"script: {text}", v, f"the script prints False for `{text}`", name, False)
    t = round(len(mds) ** 0.5)
    M, alpha, rf, rp = head
    want = textbook(s.f, t, alpha, rf, rp, mds, arc, [s.f.var(i) for i in range(t)])
    perms = []
    defs = {k: f for k, f in sorted(s.globals.items()) if isinstance(f, Func) and isinstance(f.node, ast.FunctionDef) and len(f.node.args.args) - len(f.node.args.defaults) == 1}
    if {"perm", "perm_original"} <= set(defs):
        defs = {k: defs[k] for k in ("perm", "perm_original")}
    else:
        # under other names: what no other function of the script uses
        used = {n.id for k, f in s.globals.items() if isinstance(f, Func) for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id != k}
        defs = {k: f for k, f in defs.items() if k not in used}
    for fn, f in defs.items():
        # a permutation takes a state to a state
        at = f"function {fn} in {name}"
        x = [s.f.var(i) for i in range(t)]
        s.steps = 0
        try:
            arg = list(x)
            r = s.call(f, [arg], {})
            r = list(s.iter(r)) if isinstance(r, (list, tuple, Vec)) else None
            state = r is not None and len(r) == t and all(s.scalar(w) for w in r)
            # the same list once more: neither it nor anything else the function reads may have changed
            again = s.call(f, [arg], {}) if state else None
        except (Unknown, Refuted) as e:
            if fn.startswith("perm") or f.node.args.args[0].arg.startswith(("input", "state")):
                put(f"script: {fn}", False, f"could not be decided: {e}", at, True)
            continue
        if not state:
            if fn.startswith("perm"):
                put(f"script: {fn}", False, f"{fn} does not return a state of {t} words", at, False)
            continue
        perms.append(fn)
        for which, got in (("", r), (" again", list(s.iter(again)))):
            got = [s.fe(w) for w in got]
            for i in range(t):
                put(f"script: {fn}{which}, word {i} = the shipped tables' permutation", got[i] == want[i], f"word {i} of {fn} is another function of the state than the one the library computes", at, False)
        n += 1
    put("script: permutations found", len(perms) >= 2, f"the script defines {len(perms)} permutations of {t} words, not a plain and an optimized one", name, False)
    # where the tables differ, say so
    flat = lambda v: [y for x in v for y in flat(x)] if isinstance(v, (list, tuple)) else flat([r for r in v.rows]) if isinstance(v, Mat) else [v.value() if isinstance(v, Fe) else v]
    for gn, v in s.globals.items():
        if not isinstance(v, (list, Mat)):
            continue
        v = flat(v)
        for tn, tab in (("round constants", arc), ("mixing matrix", mds)):
            if len(v) == len(tab) and all(isinstance(x, int) for x in v) and sum(a == b for a, b in zip(v, tab)) * 2 > len(tab):
                k = next((k for k, (a, b) in enumerate(zip(v, tab)) if a != b), None)
                put(f"script: {gn} = shipped {tn}", k is None, f"entry {k} of {gn} differs from the shipped {tn}", f"{gn} in {name}", False)
    return {"script_statements_interpreted": s.steps, "script_functions": sorted(s.lines), "script_permutations": perms}
