"""Hash-consed first-order terms with a light simplifier.  Terms are immutable; equality is identity."""

class T:
    __slots__ = ("op", "args", "sort", "_h", "fv", "_s")
    def __repr__(self): return tostr(self)

_tab = {}

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t._h = len(_tab); t._s = None
        _tab[key] = t
    return t

BOOL, INT, REF, VAL, SEQ, BSEQ, RSEQ, SL = "Bool", "Int", "Ref", "Val", "SeqI", "SeqB", "SeqR", "SlI"

def Arr(k, v): return "(Array %s %s)" % (k, v)

def arr_parts(s):
    assert s.startswith("(Array "), s
    body = s[7:-1]
    depth = 0
    for i, ch in enumerate(body):
        if ch == "(": depth += 1
        elif ch == ")": depth -= 1
        elif ch == " " and depth == 0:
            return body[:i], body[i+1:]
    raise ValueError(s)

TRUE = mk("true", (), BOOL)
FALSE = mk("false", (), BOOL)

def I(n): return mk("int", (int(n),), INT)
def B(b): return TRUE if b else FALSE
def var(name, sort): return mk("var", (name,), sort)

_ctr = [0]
_pre = [""]
def fresh(hint, sort):
    _ctr[0] += 1
    h = "".join(c if c.isalnum() or c in "_" else "_" for c in hint)
    return var("%s%s!%d" % (_pre[0], h, _ctr[0]), sort)

# declared functions: name -> (argsorts, sort)
FUNCS = {}
def declare(name, argsorts, sort):
    FUNCS[name] = (tuple(argsorts), sort)
    def f(*a):
        assert len(a) == len(argsorts), (name, a)
        return app(name, *a)
    return f

def app(name, *args):
    asorts, sort = FUNCS[name]
    assert len(args) == len(asorts), (name, args)
    for a, s in zip(args, asorts):
        assert isinstance(a, T), (name, a)
        assert a.sort == s, "sort mismatch in %s: %r has %s, expected %s" % (name, a, a.sort, s)
    return mk(name, tuple(args), sort)

def is_int(t): return t.op == "int"

# ---- booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), BOOL)

def And(*xs):
    out = []; seen = set()
    st = list(xs)
    flat = []
    for x in xs:
        if isinstance(x, (list, tuple)): flat.extend(x)
        else: flat.append(x)
    stack = flat[::-1]
    while stack:
        x = stack.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == "and":
            stack.extend(x.args[::-1]); continue
        if x in seen: continue
        seen.add(x); out.append(x)
    for x in out:
        if x.op == "not" and x.args[0] in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), BOOL)

def Or(*xs):
    flat = []
    for x in xs:
        if isinstance(x, (list, tuple)): flat.extend(x)
        else: flat.append(x)
    out = []; seen = set()
    stack = flat[::-1]
    while stack:
        x = stack.pop()
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == "or":
            stack.extend(x.args[::-1]); continue
        if x in seen: continue
        seen.add(x); out.append(x)
    for x in out:
        if x.op == "not" and x.args[0] in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), BOOL)

def Implies(a, b):
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    return mk("=>", (a, b), BOOL)

def Iff(a, b): return Eq(a, b)

def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    assert a.sort == b.sort, (a, b)
    if a.sort == BOOL:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        if a is TRUE: return Or(c, b)
        if b is FALSE: return And(c, a)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
    return mk("ite", (c, a, b), a.sort)

def Eq(a, b):
    assert a.sort == b.sort, "Eq sorts: %r:%s %r:%s" % (a, a.sort, b, b.sort)
    if a is b: return TRUE
    if a.op == "int" and b.op == "int": return FALSE
    if a.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
    if a.op == "int" and b.op == "ite": a, b = b, a
    if a.op == "ite" and b.op == "int" and (a.args[1].op == "int" or a.args[2].op == "int"):
        return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
    if a.op in _DISTINCT and b.op in _DISTINCT: return FALSE
    if b._h < a._h: a, b = b, a
    return mk("=", (a, b), BOOL)

_DISTINCT = set()   # names of nullary constants known distinct (refs of globals, null)
def Ne(a, b): return Not(Eq(a, b))

# ---- integers
def _lin(t):
    """linear view: (const, {atom: coeff})"""
    if t.op == "int": return t.args[0], {}
    if t.op == "+":
        c = 0; d = {}
        for x in t.args:
            c2, d2 = _lin(x); c += c2
            for k, v in d2.items(): d[k] = d.get(k, 0) + v
        return c, d
    if t.op == "*" and t.args[0].op == "int":
        c2, d2 = _lin(t.args[1]); n = t.args[0].args[0]
        return c2 * n, {k: v * n for k, v in d2.items()}
    return 0, {t: 1}

def _unlin(c, d):
    parts = []
    for k in sorted([k for k, v in d.items() if v != 0], key=lambda k: k._h):
        v = d[k]
        parts.append(k if v == 1 else mk("*", (I(v), k), INT))
    if c != 0 or not parts: parts.append(I(c))
    if len(parts) == 1: return parts[0]
    return mk("+", tuple(parts), INT)

def Add(*xs):
    c = 0; d = {}
    for x in xs:
        if isinstance(x, int): c += x; continue
        c2, d2 = _lin(x); c += c2
        for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return _unlin(c, d)

def Sub(a, b):
    if isinstance(b, int): b = I(b)
    if isinstance(a, int): a = I(a)
    c, d = _lin(a); c2, d2 = _lin(b)
    d = dict(d)
    for k, v in d2.items(): d[k] = d.get(k, 0) - v
    return _unlin(c - c2, d)

def Mul(a, b):
    if isinstance(a, int): a = I(a)
    if isinstance(b, int): b = I(b)
    if b.op == "int": a, b = b, a
    if a.op == "int":
        c, d = _lin(b); n = a.args[0]
        return _unlin(c * n, {k: v * n for k, v in d.items()})
    return mk("*", (a, b), INT)

def Div(a, n):   # floor division by positive constant
    if isinstance(n, T): n = n.args[0]
    if n == 1: return a
    if a.op == "int": return I(a.args[0] // n)
    return mk("div", (a, I(n)), INT)

def Mod(a, n):
    if isinstance(n, T): n = n.args[0]
    if a.op == "int": return I(a.args[0] % n)
    if a.op == "mod" and a.args[1].args[0] % n == 0: a = a.args[0]
    lo, hi = rng(a)
    if lo is not None and hi is not None and lo >= 0 and hi < n: return a
    return mk("mod", (a, I(n)), INT)

def rng(t):
    """cheap interval of an int term"""
    if t.op == "int": return t.args[0], t.args[0]
    if t.op == "mod":
        lo, hi = rng(t.args[0])
        return 0, t.args[1].args[0] - 1
    if t.op == "div":
        lo, hi = rng(t.args[0]); n = t.args[1].args[0]
        return (None if lo is None else lo // n), (None if hi is None else hi // n)
    if t.op == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0])), (None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if t.op in RANGES: return RANGES[t.op]
    if t.op == "var" and t in VRANGES: return VRANGES[t]
    if t.op == "+":
        lo = hi = 0
        for x in t.args:
            a, b = rng(x)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi
    if t.op == "*" and t.args[0].op == "int":
        n = t.args[0].args[0]; a, b = rng(t.args[1])
        if n < 0: a, b = b, a
        return (None if a is None else a * n), (None if b is None else b * n)
    return None, None

RANGES = {}     # function op -> (lo,hi)
VRANGES = {}    # var term -> (lo,hi)

def Le(a, b):
    if isinstance(a, int): a = I(a)
    if isinstance(b, int): b = I(b)
    if a is b: return TRUE
    d = Sub(b, a)
    lo, hi = rng(d)
    if lo is not None and lo >= 0: return TRUE
    if hi is not None and hi < 0: return FALSE
    return mk("<=", (a, b), BOOL)
def Lt(a, b):
    if isinstance(a, int): a = I(a)
    if isinstance(b, int): b = I(b)
    return Le(Add(a, 1), b) if (a.op == "int") else Le(a, Sub(b, 1)) if b.op == "int" else _lt(a, b)
def _lt(a, b):
    if a is b: return FALSE
    d = Sub(b, a)
    lo, hi = rng(d)
    if lo is not None and lo > 0: return TRUE
    if hi is not None and hi <= 0: return FALSE
    return mk("<", (a, b), BOOL)
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
def Between(lo, x, hi): return And(Le(lo, x), Lt(x, hi))

# ---- arrays
def Select(a, i):
    k, v = arr_parts(a.sort)
    assert i.sort == k, "select index: %r : %s in %s" % (i, i.sort, a.sort)
    while a.op == "store":
        j = a.args[1]
        if j is i: return a.args[2]
        e = Eq(j, i)
        if e is FALSE or known_ne(i, j): a = a.args[0]
        else: break
    if a.op == "constarr": return a.args[0]
    return mk("select", (a, i), v)

_NE = set()
def known_ne(a, b):
    return (a, b) in _NE or (b, a) in _NE

def Store(a, i, v):
    k, s = arr_parts(a.sort)
    assert i.sort == k and v.sort == s, "store: %s [%s] := %s" % (a.sort, i.sort, v.sort)
    if a.op == "store" and a.args[1] is i: a = a.args[0]
    if v.op == "select" and v.args[0] is a and v.args[1] is i: return a
    return mk("store", (a, i, v), a.sort)

def ConstArr(sort, v): return mk("constarr", (v,), sort)

# ---- quantifiers
def Forall(vs, body, pats=None, qid=None):
    if body is TRUE: return TRUE
    if not vs: return body
    return mk("forall", (tuple(vs), body, tuple(tuple(p) if isinstance(p, (list, tuple)) else (p,) for p in (pats or ()))), BOOL)
def Exists(vs, body, pats=None):
    if body is FALSE: return FALSE
    return mk("exists", (tuple(vs), body, tuple(tuple(p) if isinstance(p, (list, tuple)) else (p,) for p in (pats or ()))), BOOL)

_bv = [0]
def bvar(name, sort):
    _bv[0] += 1
    return var("%s?%d" % (name, _bv[0]), sort)

def children(t):
    if t.op in ("int", "var", "true", "false"): return ()
    if t.op in ("forall", "exists"):
        r = [t.args[1]]
        for p in t.args[2]: r.extend(p)
        return tuple(r)
    return t.args

def subst(t, m, memo=None):
    if memo is None: memo = {}
    if t in m: return m[t]
    if t in memo: return memo[t]
    if t.op in ("int", "var", "true", "false"): r = t
    elif t.op in ("forall", "exists"):
        b = subst(t.args[1], m, memo)
        ps = tuple(tuple(subst(x, m, memo) for x in p) for p in t.args[2])
        r = mk(t.op, (t.args[0], b, ps), BOOL)
    else:
        na = tuple(subst(a, m, memo) for a in t.args)
        if na == t.args: r = t
        else: r = rebuild(t.op, na, t.sort)
    memo[t] = r
    return r

def rebuild(op, a, sort):
    if op == "not": return Not(*a)
    if op == "and": return And(*a)
    if op == "or": return Or(*a)
    if op == "=>": return Implies(*a)
    if op == "=": return Eq(*a)
    if op == "ite": return Ite(*a)
    if op == "+": return Add(*a)
    if op == "*": return Mul(*a)
    if op == "<=": return Le(*a)
    if op == "<": return Lt(*a)
    if op == "div": return Div(a[0], a[1])
    if op == "mod": return Mod(a[0], a[1])
    if op == "select": return Select(*a)
    if op == "store": return Store(*a)
    if op in SIMP: return SIMP[op](*a)
    return mk(op, a, sort)

SIMP = {}

def q(n):
    return "|%s|" % n

def tostr(t, depth=0):
    if t.op == "int": return str(t.args[0]) if t.args[0] >= 0 else "(- %d)" % -t.args[0]
    if t.op == "var": return q(t.args[0])
    if t.op in ("true", "false"): return t.op
    if t.op in ("forall", "exists"):
        vs = " ".join("(%s %s)" % (q(v.args[0]), v.sort) for v in t.args[0])
        b = tostr(t.args[1])
        if t.args[2]:
            b = "(! %s %s)" % (b, " ".join(":pattern (%s)" % " ".join(tostr(x) for x in p) for p in t.args[2]))
        return "(%s (%s) %s)" % (t.op, vs, b)
    if t.op == "constarr": return "((as const %s) %s)" % (t.sort, tostr(t.args[0]))
    if not t.args: return t.op
    return "(%s %s)" % (t.op, " ".join(tostr(a) for a in t.args))
