"""C15 (store partition) and the hive side of C16 (batched updater).
The underlying store is a ghost map: KD (present keys) and KC (their contents).  Its operations may fail; a failure is an error
that is not ErrKeyNotFound, and the specified outcome of the adaptor is then a panic, never a normal return."""
from driver import *
from extern import *
H = M + "hive_adaptor."
KVS = "github.com/iotaledger/hive.go/core/kvstore."
AD = "*" + H + "HiveKVStoreAdaptor"
NF = KVS + "ErrKeyNotFound"
DOM, VALS = Arr(SEQ, BOOL), Arr(SEQ, SEQ)
def kd(ex, st, r): return Select(ex.comp(st, "KD", DOM), r)
def kc(ex, st, r): return Select(ex.comp(st, "KC", VALS), r)
def set_kd(ex, st, r, v): st.heap["KD"] = Store(ex.comp(st, "KD", DOM), r, v)
def set_kc(ex, st, r, v): st.heap["KC"] = Store(ex.comp(st, "KC", VALS), r, v)

def fault(ex, st):
    e = new_error(ex, st, "fault", leaf=False)
    nf = gref(ex, st, NF)
    ex.assume(st, And(Ne(e, nf), Not(app("wraps", e, nf))))
    st.ghost["fault"] = True
    return e
def kv_get(ex, st, args, pos):
    r = rref(ex, st, args[0]); k = ex.content(st, args[1])
    D = kd(ex, st, r); out = []
    s1 = st.fork(); ex.assume(s1, Select(D, k))
    out.append((s1, [borrowed(Select(kc(ex, st, r), k)), NULL]))
    s2 = st.fork(); ex.assume(s2, Not(Select(D, k)))
    nf = gref(ex, s2, NF); e = fresh("nf", REF)
    ex.assume(s2, And(Ne(e, NULL), Or(Eq(e, nf), And(Not(app("leaf", e)), app("wraps", e, nf)))))
    out.append((s2, [fresh_sl("nfv"), e]))
    e = fault(ex, st)
    out.append((st, [fresh_sl("fv"), e]))
    return out
def kv_has(ex, st, args, pos):
    r = rref(ex, st, args[0]); k = ex.content(st, args[1])
    s1 = st.fork()
    e = fault(ex, st)
    return [(s1, [Select(kd(ex, s1, r), k), NULL]), (st, [fresh("fb", BOOL), e])]
def kv_set(ex, st, args, pos):
    r = rref(ex, st, args[0]); k = ex.content(st, args[1]); v = ex.content(st, args[2])
    s1 = st.fork()
    set_kd(ex, s1, r, Store(kd(ex, s1, r), k, TRUE)); set_kc(ex, s1, r, Store(kc(ex, s1, r), k, v))
    e = fault(ex, st)
    return [(s1, [NULL]), (st, [e])]
def kv_delete(ex, st, args, pos):
    r = rref(ex, st, args[0]); k = ex.content(st, args[1])
    s1 = st.fork()
    set_kd(ex, s1, r, Store(kd(ex, s1, r), k, FALSE))
    e = fault(ex, st)
    return [(s1, [NULL]), (st, [e])]
def borrowed(seq): return Sl("I", seq=seq, len=Len(seq), nil=FALSE, owner="heap", et="byte")
def fresh_sl(h):
    s = fresh(h, SEQ); n = fresh(h + "_nil", BOOL)
    return Sl("I", seq=s, len=Len(s), nil=n, owner="heap", et="byte")
def has_pfx(p, k): return And(Le(Len(p), Len(k)), Eq(Take(k, Len(p)), p))
def kv_iterate(ex, st, args, pos):
    """every present key that starts with the prefix is delivered once, in any order, until the consumer returns false"""
    r = rref(ex, st, args[0]); p = ex.content(st, args[1]); f = args[2]
    D, C = kd(ex, st, r), kc(ex, st, r)
    cell = ex.new_cell(st, "visited"); st.cells[cell] = ConstArr(DOM, FALSE); ex.cell_types[cell] = None
    lk = "kviterate:" + ex.cur
    ex.modsets.setdefault(lk, set()).add(("cell", cell, None))
    ctx = ex.loop_common_enter(lk, st, [], {}, None, None, (), None)
    vis = st.cells[cell]
    out = []
    failed = st.fork(); out.append((failed, [fault(ex, failed)]))
    done = st.fork(); b = bvar("k", SEQ)
    ex.assume(done, Forall([b], Implies(And(Select(D, b), Le(Len(p), Len(b)), Eq(app("takeI", b, Len(p)), p)), Select(vis, b)), [Select(D, b)]))
    out.append((done, [NULL]))
    k = fresh("ikey", SEQ)
    ex.assume(st, And(Select(D, k), Not(Select(vis, k)), has_pfx(p, k)))
    for s, go in ex.call_value(st, f, [borrowed(k), borrowed(Select(C, k))], {"sig": ""}, pos, "/iter"):
        for b, s2 in ((TRUE, s.fork()), (FALSE, s)):
            if go.op in ("true", "false"):
                if go is not b: continue
            else: ex.assume(s2, Eq(go, b))
            if ex.infeasible(s2): continue
            if b is TRUE:
                s2.cells[cell] = Store(vis, k, TRUE)
                ex.loop_common_back(ctx, s2, {})
            else: out.append((s2, [NULL]))
    return out

class HSpec(Spec):
    """a panic is the specified outcome of a store failure, and only of that"""
    def configure(s, ex):
        I_ = KVS + "KVStore"
        for n, f in (("Get", kv_get), ("Has", kv_has), ("Set", kv_set), ("Delete", kv_delete), ("Iterate", kv_iterate)): ex.iface[(I_, n)] = f
        ex.opts["globals"] = ex.opts.get("globals", {})
        of = ex.fail
        def fail(st, kind, desc, pos=""):
            if kind == "panic" and st.ghost.get("fault"): return
            of(st, kind, desc, pos)
        ex.fail = fail
    def adaptor(s, ex, st):
        s.a = ref_param(ex, st, "a"); s.k = ref_param(ex, st, "kvs")
        s.p = sl_param(ex, st, "prefix", owner="heap")
        ex.setf(st, s.a, H + "HiveKVStoreAdaptor", "kvs", s.k); ex.setf(st, s.a, H + "HiveKVStoreAdaptor", "prefix", s.p)
        s.D, s.C = kd(ex, st, s.k), kc(ex, st, s.k)
        return s.a
    def common(s, ex, st):
        ex.oblige(st, "post", B(not st.ghost.get("fault")), "a failure of the store is never a normal return", "")
        ex.oblige(st, "frame", Eq(ex.content(st, ex.getf(st, s.a, H + "HiveKVStoreAdaptor", "prefix")), s.p.seq), "the prefix stays", "")

class Ad(HSpec):
    def __init__(s, m): s.m = m; s.fn = "(%s).%s" % (AD, m); s.label = "HiveKVStoreAdaptor." + m
    def setup(s, ex, st):
        a = s.adaptor(ex, st)
        b = bvar("k", SEQ)
        # values of the partition are stored non-empty (preserved by Set, below)
        P = s.p.seq
        s.inv = lambda D, C: Forall([b], Implies(And(Select(D, b), Le(Len(P), Len(b)), Eq(app("takeI", b, Len(P)), P)), Lt(I(0), Len(Select(C, b)))), [Select(D, b)])
        ex.hints.append(s.hint)
        if s.m == "Iterate":
            ex.assume(st, s.inv(s.D, s.C))
            st.cells["called"] = ConstArr(DOM, FALSE); ex.cell_types["called"] = None
            st.cells["stopped"] = FALSE; ex.cell_types["stopped"] = None
            def f(ex, st, args, pos):
                k = ex.content(st, args[0]); v = ex.content(st, args[1]); full = Cat(P, k)
                ex.oblige(st, "post", Not(st.cells["stopped"]), "nothing is delivered after a stop", pos)
                ex.oblige(st, "post", Select(s.D, full), "only present keys are delivered, without the prefix", pos)
                ex.oblige(st, "post", Not(Select(st.cells["called"], full)), "no key is delivered twice", pos)
                ex.oblige(st, "post", Eq(v, Select(s.C, full)), "with their values", pos)
                ex.oblige(st, "post", Lt(I(0), Len(v)), "which are not empty", pos)
                st.cells["called"] = Store(st.cells["called"], full, TRUE)
                go = fresh("go", BOOL); st.cells["stopped"] = Not(go)
                return [(st, go)]
            return [a, HookV("f", f)]
        s.key = sl_param(ex, st, "key"); s.full = Cat(P, s.key.seq)
        if s.m == "Set":
            s.v = sl_param(ex, st, "value"); return [a, s.key, s.v]
        return [a, s.key]
    def hint(s, ctx, st, cur, ints):
        out = []
        if "called" in st.cells:
            out.append(("not stopped", Not(st.cells["stopped"])))
            for c, v in st.cells.items():
                if c.startswith("visited") and isinstance(v, T) and v.sort == DOM: out.append(("%s=called" % c, Eq(v, st.cells["called"])))
        return out
    def check(s, ex, st, r):
        s.common(ex, st)
        D1, C1 = kd(ex, st, s.k), kc(ex, st, s.k); x = fresh("x", SEQ)
        if s.m == "Set":
            v = s.v.seq; full = s.full
            ex.oblige(st, "post", Eq(Select(D1, x), Ite(Eq(x, full), Lt(I(0), Len(v)), Select(s.D, x))), "presence changes for this key only", "")
            ex.oblige(st, "post", Implies(And(Eq(x, full), Select(D1, x)), Eq(Select(C1, x), v)), "the value is the one set", "")
            ex.oblige(st, "post", Implies(And(Ne(x, full), Select(s.D, x)), Eq(Select(C1, x), Select(s.C, x))), "other values stay", "")
            ex.oblige(st, "post", Implies(And(Select(D1, x), Implies(And(Ne(x, full), Select(s.D, x)), Lt(I(0), Len(Select(s.C, x))))), Lt(I(0), Len(Select(C1, x)))), "stored values are not empty", "")
            ex.oblige(st, "post", has_pfx(s.p.seq, full), "the key touched starts with the prefix", "")
            return
        ex.oblige(st, "post", Eq(D1, s.D), "nothing is added or removed", ""); ex.oblige(st, "post", Eq(C1, s.C), "no value changes", "")
        if s.m == "Get":
            c = ex.content(st, r[0]); v = Select(s.C, s.full); has = And(Select(s.D, s.full), Lt(I(0), Len(v)))
            ex.oblige(st, "post", Implies(has, And(Eq(c, v), Not(r[0].nil))), "a present key gives its value", "")
            ex.oblige(st, "post", Implies(Not(has), And(r[0].nil, Eq(Len(c), I(0)))), "an absent or empty key gives nil", "")
        if s.m == "Has":
            v = Select(s.C, s.full)
            ex.oblige(st, "post", Eq(r[0], And(Select(s.D, s.full), Lt(I(0), Len(v)))), "presence agrees with Get", "")
        if s.m == "Iterate":
            ex.oblige(st, "post", Implies(And(Not(st.cells["stopped"]), Select(s.D, x), has_pfx(s.p.seq, x)), Select(st.cells["called"], x)), "every key of the partition is delivered unless stopped", "")
class NewAd(HSpec):
    fn = H + "NewHiveKVStoreAdaptor"; label = "NewHiveKVStoreAdaptor"
    def setup(s, ex, st):
        s.k = ref_param(ex, st, "kvs"); s.p = sl_param(ex, st, "prefix", owner="heap")
        return [s.k, s.p]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.getf(st, r[0], H + "HiveKVStoreAdaptor", "kvs"), s.k), "the adaptor is for the store", "")
        ex.oblige(st, "post", Eq(ex.content(st, ex.getf(st, r[0], H + "HiveKVStoreAdaptor", "prefix")), s.p.seq), "with the prefix", "")

def specs():
    return [NewAd(), Ad("Get"), Ad("Has"), Ad("Set"), Ad("Iterate")]

# ---------------------------------------------------------------- C16
# A batch of the store: BT (keys it touches), BD (touched and set, not deleted), BC (contents).  Committing it applies it as a whole or fails.
BTC = {"BT": DOM, "BD": DOM, "BC": VALS}
def bt(ex, st, b, c): return Select(ex.comp(st, c, BTC[c]), b)
def bset(ex, st, b, c, v): st.heap[c] = Store(ex.comp(st, c, BTC[c]), b, v)
def new_batch(ex, st, kvs):
    b = ex.alloc_ref(st, "batch", "*batch")
    bset(ex, st, b, "BT", ConstArr(DOM, FALSE)); bset(ex, st, b, "BD", ConstArr(DOM, FALSE))
    return b
def kv_batched(ex, st, args, pos):
    s2 = st.fork(); e = fault(ex, s2)
    b = new_batch(ex, st, args[0])
    return [(st, [b, NULL]), (s2, [NULL, e])]
def batch_set(ex, st, args, pos):
    b = rref(ex, st, args[0]); k = ex.content(st, args[1]); v = ex.content(st, args[2])
    s2 = st.fork(); e = fault(ex, s2)
    bset(ex, st, b, "BT", Store(bt(ex, st, b, "BT"), k, TRUE)); bset(ex, st, b, "BD", Store(bt(ex, st, b, "BD"), k, TRUE)); bset(ex, st, b, "BC", Store(bt(ex, st, b, "BC"), k, v))
    return [(st, [NULL]), (s2, [e])]
def batch_delete(ex, st, args, pos):
    b = rref(ex, st, args[0]); k = ex.content(st, args[1])
    s2 = st.fork(); e = fault(ex, s2)
    bset(ex, st, b, "BT", Store(bt(ex, st, b, "BT"), k, TRUE)); bset(ex, st, b, "BD", Store(bt(ex, st, b, "BD"), k, FALSE))
    return [(st, [NULL]), (s2, [e])]
def batch_commit(ex, st, args, pos):
    b = rref(ex, st, args[0]); kv = st.ghost["kvs"]
    s2 = st.fork(); e2 = new_error(ex, s2, "cerr", leaf=False); s2.ghost["commit_failed"] = True
    st.ghost["committed"] = st.ghost.get("committed", 0) + 1
    D, C = kd(ex, st, kv), kc(ex, st, kv)
    D1, C1 = fresh("D1", DOM), fresh("C1", VALS); x = bvar("x", SEQ)
    T_, BD, BC = (bt(ex, st, b, c) for c in ("BT", "BD", "BC"))
    ex.assume(st, Forall([x], Eq(Select(D1, x), Ite(Select(T_, x), Select(BD, x), Select(D, x))), [Select(D1, x)]))
    ex.assume(st, Forall([x], Eq(Select(C1, x), Ite(Select(T_, x), Select(BC, x), Select(C, x))), [Select(C1, x)]))
    set_kd(ex, st, kv, D1); set_kc(ex, st, kv, C1)
    return [(st, [NULL]), (s2, [e2])]
def kv_flush(ex, st, args, pos):
    s2 = st.fork(); e2 = new_error(ex, s2, "ferr", leaf=False); s2.ghost["flush_failed"] = True
    return [(st, [NULL]), (s2, [e2])]
HB = H + "HiveBatchedUpdater"
# The trie seen from here: its operations are logged in order; persisting writes its pending node changes, a sequence of
# (key, bytes) pairs -- the same at every persist until the cache is cleared.
declare("pmn", (REF,), INT); declare("pmk", (REF, INT), SEQ); declare("pmv", (REF, INT), SEQ)
terms.RANGES["pmn"] = (0, None)
axiom("pmn", "(forall ((r Ref)) (! (<= 0 (pmn r)) :pattern ((pmn r))))", "pmn")
# two pending changes are of different nodes
declare("pmfull", (REF, SEQ, INT), SEQ); declare("pmidx", (REF, SEQ, SEQ), INT)
axiom("pmfull", "(forall ((r Ref) (p SeqI) (i Int)) (! (and (= (pmfull r p i) (catI p (pmk r i))) (=> (and (<= 0 i) (< i (pmn r))) (= (pmidx r p (pmfull r p i)) i))) :pattern ((pmfull r p i))))", "pmfull")
def log(ex, st, *e): st.ghost["log"] = st.ghost.get("log", ()) + (e,)
class Batch(HSpec):
    def configure(s, ex):
        HSpec.configure(s, ex)
        I_, B_ = KVS + "KVStore", KVS + "BatchedMutations"
        ex.iface[(I_, "Batched")] = kv_batched; ex.iface[(I_, "Flush")] = kv_flush
        for n, f in (("Set", batch_set), ("Delete", batch_delete), ("Commit", batch_commit)): ex.iface[(B_, n)] = f
        T_ = "(*" + M + "trie.Trie)."
        def upd(ex, st, args, pos):
            log(ex, st, "update", args[0], ex.content(st, args[1]), ex.content(st, args[2])); return [(st, [])]
        ex.contracts[T_ + "Update"] = upd; ex.contracts[T_ + "UpdateStr"] = upd
        ex.contracts[T_ + "Commit"] = lambda ex, st, args, pos: (log(ex, st, "commit", args[0]), [(st, [])])[1]
        ex.contracts[T_ + "ClearCache"] = lambda ex, st, args, pos: (log(ex, st, "clear", args[0]), [(st, [])])[1]
        ex.contracts[T_ + "PersistMutations"] = s.persist
        ex.hints.append(s.hint)
    def persist(s, ex, st, args, pos):
        tr, w = args[0], args[1]
        log(ex, st, "persist", tr)
        cell = ex.new_cell(st, "pm_i"); st.cells[cell] = I(0); ex.cell_types[cell] = "int"
        st.ghost["pre"] = tuple(bt(ex, st, s.b, c) for c in ("BT", "BD", "BC"))
        lk = "persist:" + ex.cur
        ex.modsets.setdefault(lk, set()).add(("cell", cell, "int"))
        ctx = ex.loop_common_enter(lk, st, [], {}, None, None, (), None)
        i = st.cells[cell]; n = app("pmn", tr)
        ex.assume(st, And(Le(I(0), i), Le(i, n)))
        done = st.fork(); ex.assume(done, Eq(i, n))
        ex.assume(st, Lt(i, n)); ex.assume(st, Mention(app("pmfull", tr, s.tp.seq, i)))
        if isinstance(w, IfaceV): m = ex.p.methods[w.t]["Set"]; rs = ex.static_call(st, m, [w.v, borrowed(app("pmk", tr, i)), borrowed(app("pmv", tr, i))], (), {"sig": ""}, pos, "/pm")
        else: raise Unsupported("writer of PersistMutations")
        for s2, _ in rs:
            if ex.infeasible(s2): continue
            s2.cells[cell] = Add(i, 1)
            ex.loop_common_back(ctx, s2, {})
        return [(done, [fresh("count", INT)])]
    def pm_state(s, ex, st, i):
        """the batch is what it was, with the first i pending node changes"""
        T0, D0, C0 = st.ghost["pre"]; T1, D1, C1 = (bt(ex, st, s.b, c) for c in ("BT", "BD", "BC"))
        j = bvar("j", INT); x = bvar("x", SEQ)
        p = lambda x: app("pmidx", s.tr, s.tp.seq, x)
        mine = lambda x: And(Le(I(0), p(x)), Lt(p(x), i), Eq(x, app("pmfull", s.tr, s.tp.seq, p(x))))
        v = lambda x: app("pmv", s.tr, p(x))
        return [("touched by persist", Forall([x], Eq(Select(T1, x), Or(Select(T0, x), mine(x))), [Select(T1, x)])),
                ("set by persist", Forall([x], Eq(Select(D1, x), Ite(mine(x), Lt(I(0), Len(v(x))), Select(D0, x))), [Select(D1, x)])),
                ("bytes by persist", Forall([x], Implies(Select(D1, x), Eq(Select(C1, x), Ite(mine(x), v(x), Select(C0, x)))), [Select(C1, x)]))]
    def hint(s, ctx, st, cur, ints):
        if "pre" not in st.ghost: return []
        for c, i in st.cells.items():
            if c.startswith("pm_i"): return s.pm_state(ctx.ex, st, i)
        return []
    def updater(s, ex, st, open_):
        s.u = ref_param(ex, st, "u"); s.kv = ref_param(ex, st, "kvs"); s.tr = ref_param(ex, st, "trie")
        s.tp = sl_param(ex, st, "triePrefix", owner="heap"); s.vp = sl_param(ex, st, "valuePrefix", owner="heap")
        x, y = bvar("x", SEQ), bvar("y", SEQ)
        st.ghost["kvs"] = s.kv
        g = lambda n, v: ex.setf(st, s.u, HB, n, v)
        g("kvs", s.kv); g("trie", s.tr); g("triePrefix", s.tp); g("valueStorePrefix", s.vp)
        if open_:
            s.b = ref_param(ex, st, "batch")
            for nm, p in (("wTrie", s.tp), ("wValue", s.vp)):
                g(nm, StructV(H + "batchWriter", {"prefix": p, "batch": s.b}))
        else: s.b = NULL
        g("batch", s.b)
        s.D, s.C = kd(ex, st, s.kv), kc(ex, st, s.kv)
        if open_: s.B0 = tuple(bt(ex, st, s.b, c) for c in ("BT", "BD", "BC"))
    def unchanged(s, ex, st, why):
        ex.oblige(st, "post", Eq(kd(ex, st, s.kv), s.D), "the store is unchanged " + why, ""); ex.oblige(st, "post", Eq(kc(ex, st, s.kv), s.C), "no stored value changes " + why, "")
    def invariant(s, ex, st, b, why):
        """an open updater writes values and trie nodes to its batch, each under its prefix"""
        g = lambda n: ex.getf(st, s.u, HB, n)
        for nm, p in (("wTrie", s.tp), ("wValue", s.vp)):
            w = g(nm)
            ex.oblige(st, "inv", And(Eq(w.f["batch"], b), Eq(ex.content(st, w.f["prefix"]), p.seq)), "%s writes to the batch under its prefix %s" % (nm, why), "")
        ex.oblige(st, "inv", And(Eq(g("kvs"), s.kv), Eq(g("trie"), s.tr), Eq(ex.content(st, g("triePrefix")), s.tp.seq), Eq(ex.content(st, g("valueStorePrefix")), s.vp.seq)), "the updater stays bound to store, trie and prefixes " + why, "")

class BUpdate(Batch):
    fn = "(*" + HB + ").Update"
    def __init__(s, open_): s.open = open_; s.label = "HiveBatchedUpdater.Update[%s]" % ("batch open" if open_ else "no batch")
    def setup(s, ex, st):
        s.updater(ex, st, s.open)
        s.k = sl_param(ex, st, "key"); s.v = sl_param(ex, st, "value")
        return [s.u, s.k, s.v]
    def check(s, ex, st, r):
        ex.oblige(st, "post", B(not st.ghost.get("fault")), "a failure of the store is never a normal return", "")
        s.unchanged(ex, st, "by an update")
        b = ex.getf(st, s.u, HB, "batch")
        ex.oblige(st, "post", Ne(b, NULL), "a batch is open", "")
        if s.open: ex.oblige(st, "post", Eq(b, s.b), "the batch stays", "")
        s.invariant(ex, st, b, "after an update")
        ex.oblige(st, "post", B("committed" not in st.ghost), "nothing is committed", "")
        T0, D0, C0 = s.B0 if s.open else (ConstArr(DOM, FALSE), ConstArr(DOM, FALSE), fresh("c", VALS))
        T1, D1, C1 = (bt(ex, st, b, c) for c in ("BT", "BD", "BC"))
        x = fresh("x", SEQ); full = Cat(s.vp.seq, s.k.seq); here = Eq(x, full)
        ex.oblige(st, "post", Eq(Select(T1, x), Or(here, Select(T0, x))), "the batch touches the value key", "")
        ex.oblige(st, "post", Eq(Select(D1, x), Ite(here, Lt(I(0), Len(s.v.seq)), Select(D0, x))), "the batch sets or deletes it", "")
        ex.oblige(st, "post", Implies(And(Select(D1, x), here), Eq(Select(C1, x), s.v.seq)), "to the value", "")
        if s.open: ex.oblige(st, "post", Implies(And(Select(T1, x), Not(here)), Eq(Select(C1, x), Select(C0, x))), "other buffered changes stay", "")
        lg = st.ghost.get("log", ())
        ex.oblige(st, "post", B(len(lg) == 1 and lg[0][0] == "update" and lg[0][1] is s.tr), "the trie is updated once", "")
        if len(lg) == 1 and lg[0][0] == "update": ex.oblige(st, "post", And(Eq(lg[0][2], s.k.seq), Eq(lg[0][3], s.v.seq)), "with the same key and value", "")
class BCommit(Batch):
    soft_port = ("z3", "z3b")
    fn = "(*" + HB + ").Commit"
    def __init__(s, open_): s.open = open_; s.label = "HiveBatchedUpdater.Commit[%s]" % ("batch open" if open_ else "no batch")
    def setup(s, ex, st):
        s.updater(ex, st, s.open)
        if s.open:
            # what was buffered is under the value prefix, or the trie part of an earlier attempt; prefixes do not overlap
            pass
        return [s.u]
    def check(s, ex, st, r):
        e = ex.as_ref(st, r[0]); ok = Eq(e, NULL); lg = [x[0] for x in st.ghost.get("log", ())]
        b = ex.getf(st, s.u, HB, "batch")
        ex.oblige(st, "post", B(not st.ghost.get("fault")), "a failure of the store is never a normal return", "")
        if not s.open:
            ex.oblige(st, "post", ok, "committing nothing succeeds", ""); s.unchanged(ex, st, "by committing nothing")
            ex.oblige(st, "post", B(not lg), "the trie is not touched", ""); return
        ex.oblige(st, "post", B("commit" in lg and "persist" in lg and lg.index("commit") < lg.index("persist") and lg.count("persist") == 1 and all(x[1] is s.tr for x in st.ghost["log"])), "the trie is committed, then its changes are written, once", "")
        T1, D1, C1 = (bt(ex, st, s.b, c) for c in ("BT", "BD", "BC"))
        x = fresh("x", SEQ); st.ghost["pre"] = s.B0
        for nm, f in s.pm_state(ex, st, app("pmn", s.tr)): ex.oblige(st, "post", f, "the batch holds the buffered values and all trie node changes: " + nm, "")
        if st.ghost.get("commit_failed"):
            ex.oblige(st, "post", Not(ok), "a failed commit is an error", ""); s.unchanged(ex, st, "when the commit fails")
            ex.oblige(st, "post", Eq(b, s.b), "the batch is kept for another attempt", ""); s.invariant(ex, st, s.b, "after a failed commit")
            ex.oblige(st, "post", B("clear" not in lg), "the pending trie changes are kept for another attempt", "")
        elif st.ghost.get("flush_failed"):
            ex.oblige(st, "post", Not(ok), "a failed flush is an error", "")
            ex.oblige(st, "post", Eq(b, s.b), "the batch is kept for another attempt", ""); s.invariant(ex, st, s.b, "after a failed flush")
            ex.oblige(st, "post", B("clear" not in lg), "the pending trie changes are kept for another attempt", "")
        else:
            ex.oblige(st, "post", ok, "a commit without failure succeeds", "")
            ex.oblige(st, "post", B(st.ghost.get("committed") == 1), "the batch is committed once", "")
            ex.oblige(st, "post", Eq(b, NULL), "no batch is open", "")
        if st.ghost.get("committed"):
            ex.oblige(st, "post", Eq(Select(kd(ex, st, s.kv), x), Ite(Select(T1, x), Select(D1, x), Select(s.D, x))), "the store is what it was with exactly the batch applied", "")
            ex.oblige(st, "post", Eq(Select(kc(ex, st, s.kv), x), Ite(Select(T1, x), Select(C1, x), Select(s.C, x))), "with the values of the batch", "")
class BNew(Batch):
    fn = H + "NewHiveBatchedUpdater"; label = "NewHiveBatchedUpdater"
    def configure(s, ex):
        Batch.configure(s, ex)
        def mk(ex, st, args, pos):
            t = ex.alloc_ref(st, "trie", "*" + M + "trie.Trie")
            st.ghost["new"] = args + [t]
            return [(st, [t])]
        ex.contracts[M + "trie.New"] = mk
    def setup(s, ex, st):
        s.kv = ref_param(ex, st, "kvs"); s.m = ref_param(ex, st, "model"); s.o = fresh("opt", BOOL); st.ghost["kvs"] = s.kv
        s.tp = sl_param(ex, st, "triePrefix", owner="heap"); s.vp = sl_param(ex, st, "valuePrefix", owner="heap")
        return [s.kv, s.m, s.tp, s.vp, s.o]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.as_ref(st, r[1]), NULL), "no error", "")
        g = lambda n: ex.getf(st, r[0], HB, n)
        m, t, v, o, tr = st.ghost["new"]
        if isinstance(o, PList): o = o.vals[0] if o.vals else FALSE
        elif isinstance(o, Sl): o = FALSE
        ex.oblige(st, "post", And(Eq(g("kvs"), s.kv), Eq(g("batch"), NULL), Eq(ex.content(st, g("triePrefix")), s.tp.seq), Eq(ex.content(st, g("valueStorePrefix")), s.vp.seq), Eq(g("trie"), tr)), "the updater is bound to store, trie and prefixes", "")
        ex.oblige(st, "post", And(Eq(m, s.m), Eq(o, s.o)), "the trie has the model and options given", "")
        for a, p in ((t, s.tp), (v, s.vp)):
            a = a.v if isinstance(a, IfaceV) else a
            ex.oblige(st, "post", And(Eq(ex.getf(st, a, H + "HiveKVStoreAdaptor", "kvs"), s.kv), Eq(ex.content(st, ex.getf(st, a, H + "HiveKVStoreAdaptor", "prefix")), p.seq)), "the trie reads through the adaptor with the right prefix", "")
def specs():
    return [NewAd(), Ad("Get"), Ad("Has"), Ad("Set"), Ad("Iterate"), BNew(), BUpdate(False), BUpdate(True), BCommit(False), BCommit(True)]
