"""C07: the proof the blake2b model produces for a key of a committed trie."""
from core import *
import core, prf, ver, b2b
from prf import PR, PE, RSEQ, AIS, hsel
from ver import chk, last_ok, step_ok, phash, verdict, NILSL
from b2b import A2V
from b2b import TC, VC, CM
def box(ex, st): return ex.comp(st, "box", SL)
def kids(ex, st, v, K):
    """(present, bytes) of the child commitments of the node at K"""
    return v.cc(K), lambda c: Select(box(ex, st), Select(v.ccv(K), c))
def nslice(x): return Ite(SlNil(x), NILSL, x)
class MProof(Spec):
    """element by element the path the trie gives"""
    fn = "(*" + CM + ").Proof"; raw_first = 1.0; soft_tmo = 0.6; soft_port = ("z3", "z3o")
    def __init__(s, a, ro): s.a = a; s.ro = ro; s.label = "CommitmentModel.Proof[arity %d, %s]" % (a + 1, "reader" if ro else "trie")
    def configure(s, ex):
        util.use(ex); use_store(ex, s.ro); node.use_codecs(ex) if hasattr(node, "use_codecs") else prf.use_codecs(ex); ex.opts["retain"] = False; ex.hints.append(s.hint)
        ex.contracts[TR + "proofPath"] = s.path; ex.iface[(TR + "Node", "ChildCommitments")] = ex.contracts["(%s).ChildCommitments" % (RT if s.ro else BT)] = s.kidmap
    def kidmap(s, ex, st, args, pos):
        out = ex.run("(%s).ChildCommitments" % (RT if s.ro else BT), args, st)
        for s2, r in out: s2.ghost["kids"] = r[0]
        return out
    def path(s, ex, st, args, pos):
        out = proofpath_c(s.ro, True)(ex, st, args, pos); s2, r = out[0]
        s.U = ex.content(st, args[1]); s.q = ex.content(s2, r[0]); s.end = r[2]
        return out
    def elem(s, ex, st, v, e, j):
        """the element e is the one for the j-th node of the path (a list of named facts)"""
        K = qk(s.q, j); pf, ci, t, D, V = hsel(ex, st, e); c = bvar("c", INT); cc, cb = kids(ex, st, v, K); T_ = v.nt(K)
        return [("born", And(Ne(e, NULL), Lt(s.now0, app("birth", e)), Le(app("birth", e), st.now), Lt(s.now0, app("birth", s.child(ex, st, e))), Le(app("birth", s.child(ex, st, e)), st.now))),
                ("fragment", Eq(pf, v.pf(K))),
                ("index", Eq(ci, Ite(Lt(j, Sub(Len(s.q), I(1))), At(s.U, Add(Len(K), Len(v.pf(K)))), Ite(Eq(s.end, I(0)), I(s.a + 1), I(s.a + 2))))),
                ("terminal", Eq(t, Ite(Eq(T_, NULL), NILSL, Select(hf(ex, st, TC, "bytes"), T_)))),
                ("children", Forall([c], And(Eq(Select(D, c), And(Select(cc, c), Ne(c, ci))), Implies(Select(D, c), Eq(Select(V, c), cb(c)))), [Select(D, c), Select(V, c)] ))]
    child = prf.PRead.child
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != s.fn or not hasattr(s, "q"): return out
        v = View(ex, st, s.sc, s.ro); j = bvar("j", INT)
        m = st.ghost.get("kids"); its = [(c, x) for c, x in st.cells.items() if c.startswith("iter:") and x.sort == A2B]
        if m is not None and its and any(x[0] == "cell" and x[1] == its[-1][0] for x in ctx.mod) and not ctx.phis:
            vis = its[-1][1]; c = bvar("c", INT); V0 = ex.mval(ctx.st0, m, MT); refs = node2.ctx_refs(st)
            out.append(("visited<=children", Forall([c], Implies(Select(vis, c), Select(ex.mdom(ctx.st0, m, MT), c)), [Select(vis, c)])))
            for d in [x for x in refs if x.args[0].startswith("map!")]:
                for cn in (ex.mdcomp(st, prf.MS), ex.mvcomp(st, prf.MS)):
                    r = bvar("r", REF); out.append(("others %s %s" % (cn, d.args[0]), Forall([r], Implies(And(Le(app("birth", r), ctx.st0.now), Ne(r, d)), Eq(Select(st.heap[cn], r), Select(ctx.st0.heap.get(cn, ex.heap0.get(cn)), r))), [Select(st.heap[cn], r)])))
                D2, V2 = ex.mdom(st, d, prf.MS), ex.mval(st, d, prf.MS)
                out.append(("values %s" % d.args[0], Forall([c], Implies(Select(D2, c), Eq(Select(V2, c), Select(box(ex, st), Select(V0, c)))), [Select(D2, c)])))
                for o in [x for x in refs if x.args[0].startswith("obj!")]:
                    out.append(("copied %s %s" % (d.args[0], o.args[0]), Forall([c], Eq(Select(D2, c), And(Select(vis, c), Ne(c, hsel(ex, st, o)[1]))), [Select(D2, c)])))
        for id, l in st.loc.items():
            if not id.startswith("mk:") or l.seq.sort != RSEQ: continue
            for r, i, e in ints:
                for d in (0, 1):
                    k = Add(i, d)
                    for nm, f in s.elem(ex, st, v, At(l.seq, j), j):
                        out.append(("elem %s %s %s+%d" % (nm, id, r, d), Forall([j], Implies(And(Le(I(0), j), Lt(j, k)), f), [At(l.seq, j)])))
            for r, i, e in ints:
                for r2, i2, e2 in ints:
                    if r != r2:
                        for d in (0, 1): out.append(("position %s %s+%d" % (r, r2, d), Implies(Lt(Add(i2, d), Len(s.q)), Eq(i, Len(qk(s.q, Add(i2, d)))))))
        return out
    def setup(s, ex, st):
        s.__dict__.pop("q", None)
        m = ref_param(ex, st, "m"); s.z = fresh("z", INT); ex.setf(st, m, CM, "hashSize", s.z); ex.setf(st, m, CM, "arity", I(s.a))
        s.tr, s.sc, _ = store_param(ex, st, s.ro, s.a); s.key = sl_param(ex, st, "key"); v = View(ex, st, s.sc, s.ro); K, c = bvar("K", SEQ), bvar("c", INT)
        typ = lambda r, t: Eq(app("typ", r), I(ex.tag(t)))
        ex.assume(st, Forall([K], Implies(v.has(K), Or(Eq(v.nt(K), NULL), typ(v.nt(K), "*" + TC))), [v.has(K)]))
        ex.assume(st, Forall([K, c], Implies(And(v.has(K), Select(v.cc(K), c)), And(Le(I(0), c), Le(c, I(s.a)), Ne(Select(v.ccv(K), c), NULL), typ(Select(v.ccv(K), c), VC))), [(v.has(K), Select(v.cc(K), c))]))
        s.now0 = st.now
        return [m, s.key, s.tr]
    def check(s, ex, st, r):
        O = lambda f, d: ex.oblige(st, "post", f, d, ""); p = r[0]; v = View(ex, st, s.sc, s.ro); j = bvar("j", INT)
        O(Ne(p, NULL), "a proof is given"); g = lambda f: ex.getf(st, p, PR, f)
        O(And(Eq(g("PathArity"), I(s.a)), Eq(g("HashSize"), s.z)), "arity and hash size")
        O(Eq(ex.content(st, g("Key")), s.U), "the unpacked key"); q = ex.content(st, g("Path"))
        O(Eq(Len(q), Len(s.q)), "one element for every node of the path")
        for nm, f in s.elem(ex, st, v, At(q, j), j): O(Forall([j], Implies(And(Le(I(0), j), Lt(j, Len(q))), f), [At(q, j)]), "every element is the one of its node: " + nm)
        node2.frame_old(ex, st, s, ("tC",))
def specs(): return [MProof(a, ro) for a in (255, 15, 1) for ro in (False, True)]
# ---------------------------------------------------------------- completeness: the verifier accepts what Proof assembles
# A node of a committed trie: path fragment pf, terminal bytes T, children cc with commitments cb, and its commitment, the hash of its
# content (C09: nodec over A, the child values: nothing where there is no child, otherwise what is written for the commitment).
def committed(a, z, pf, T, cc, cb, A):
    c = bvar("c", INT)
    return And(Le(Len(SlSeq(T)), I(z)), Implies(SlNil(T), Eq(Len(SlSeq(T)), I(0))), Eq(app("venc", VNIL), Empty()), Le(Len(app("rawc", I(z), pf)), I(z)),
               Forall([c], Implies(Select(cc, c), And(Le(I(0), c), Le(c, I(a)), Eq(Len(SlSeq(Select(cb, c))), I(z)), Not(SlNil(Select(cb, c))))), [Select(cc, c)]),
               Forall([c], And(Eq(Select(cc, c), Ne(Select(A, c), VNIL)), Implies(Select(cc, c), Eq(app("venc", Select(A, c)), SlSeq(Select(cb, c))))), [Select(A, c)]))
def element(a, v, pf, T, cc, cb, ci):
    """what MProof shows of an element: the node's fragment, terminal and children but the one at ci"""
    c = bvar("c", INT); p, i, t, D, V = v
    return And(Eq(p, pf), Eq(i, ci), Eq(t, T), Forall([c], And(Eq(Select(D, c), And(Select(cc, c), Ne(c, ci))), Implies(Select(D, c), Eq(Select(V, c), Select(cb, c)))), [Select(D, c)]))
def same_slots(H1, H2, m, n):
    k = bvar("k", INT)
    return Forall([k], Implies(And(Le(I(0), k), Lt(k, m)), And(Eq(SlSeq(At(H1, k)), SlSeq(At(H2, k))), Le(Len(SlSeq(At(H1, k))), n))), [At(H1, k)])
def lemmas():
    out = []; H1, H2 = fresh("H1", BSEQ), fresh("H2", BSEQ); n, m, i = fresh("n", INT), fresh("m", INT), fresh("i", INT); hv = lambda H, i: app("hv", H, n, i)
    out.append(Lemma("hash input: slots with the same bytes give the same hash input (base)", Eq(hv(H1, I(0)), hv(H2, I(0)))))
    out.append(Lemma("hash input: slots with the same bytes give the same hash input (step)", Implies(And(Le(I(0), i), Lt(i, m), Le(I(0), n), same_slots(H1, H2, m, n), Mention(At(H1, i), At(H2, i)), Eq(hv(H1, i), hv(H2, i))), Eq(hv(H1, Add(i, 1)), hv(H2, Add(i, 1))))))
    for a in (255, 15, 1):
        for z in (20, 32):
            nm = " [arity %d, %d]" % (a + 1, z)
            pf = fresh("pf", SEQ); T = fresh("T", SL); cc = fresh("cc", A2B); cb = fresh("cb", AIS); A = fresh("A", A2V); ci = fresh("ci", INT); D = fresh("D", A2B); V = fresh("V", AIS); t = fresh("t", SL); v = (pf, ci, t, D, V)
            base = And(committed(a, z, pf, T, cc, cb, A), element(a, v, pf, T, cc, cb, ci)); k = fresh("k", INT)
            ms = Ite(And(Le(I(0), ci), Le(ci, I(a)), Select(cc, ci)), Select(cb, ci), NILSL)
            p, q = app("pmhv", I(a), I(z), *v, ms), app("mhv", I(a), I(z), A, T, pf)
            out.append(Lemma("an honest element hashes to the commitment of its node" + nm, Implies(And(base, Le(I(0), k), Lt(k, I(a + 3)), Mention(At(p, k), At(q, k), Select(A, k), Select(D, k), Select(cc, k))), And(Eq(SlSeq(At(p, k)), SlSeq(At(q, k))), Le(Len(SlSeq(At(p, k))), I(z + 1))))))
            out.append(Lemma("an honest element is in range" + nm, Implies(base, chk(a, z, v))))
            K, U = fresh("K", SEQ), fresh("U", SEQ); tail = Drop(U, Len(K)); end = fresh("end", INT); cp = fresh("cp", SEQ); nx = At(tail, Len(pf)); hasnext = fresh("hasnext", BOOL)
            kp = And(Le(Len(K), Len(U)), Eq(Take(U, Len(K)), K)); nk = Add(Len(K), Len(pf), 1)

            endings = And(Or(*[Eq(end, I(e)) for e in range(3)]), Implies(Eq(end, I(0)), Eq(tail, pf)), Implies(Eq(end, I(1)), And(is_common(tail, pf, Len(cp)), Eq(cp, Take(pf, Len(cp))), Lt(Len(cp), Len(pf)), Ne(tail, pf))),
                          Implies(Eq(end, I(2)), And(Eq(cp, pf), Lt(Add(Len(K), Len(pf)), Len(U)), Eq(Take(tail, Len(pf)), pf), Not(hasnext))))
            # J4: the node for the next key is there exactly if the node has a child for it
            out.append(Lemma("an honest last element tells what is at the key" + nm, Implies(And(base, kp, endings, Eq(ci, Ite(Eq(end, I(0)), I(a + 1), I(a + 2))), Mention(Select(D, nx)), Implies(Lt(Add(Len(K), Len(pf)), Len(U)), Eq(Select(cc, nx), hasnext))), last_ok(a, v, tail))))
            inn = And(Le(Add(Len(K), Len(pf)), Len(U)), Eq(Take(Drop(U, Len(K)), Len(pf)), pf), Lt(Add(Len(K), Len(pf)), Len(U)))
            out.append(Lemma("an honest inner element follows the key" + nm, Implies(And(base, kp, inn, Eq(ci, At(U, Add(Len(K), Len(pf)))), Select(cc, ci), Mention(Select(D, ci))), step_ok(a, v, U, Len(K)))))
            out.append(Lemma("an honest last element carries the terminal of the key, or none" + nm, Implies(And(base, Eq(ci, Ite(Eq(end, I(0)), I(a + 1), I(a + 2)))), Eq(verdict(a, v), Ite(Eq(end, I(0)), SlSeq(T), Empty())))))
    # absence: a node for the key would be on the path
    K, K2, U, cp = fresh("K", SEQ), fresh("K2", SEQ), fresh("U", SEQ), fresh("cp", SEQ); pf, pf2 = fresh("pf", SEQ), fresh("pf2", SEQ); end = fresh("end", INT); nextnode = fresh("nextnode", BOOL)
    tail = Drop(U, Len(K)); nk = Add(Len(K), Len(pf), 1)
    isp = lambda x, y: And(Le(Len(x), Len(y)), Eq(Take(y, Len(x)), x))
    proper = lambda x, y: And(Lt(Len(x), Len(y)), Eq(Take(y, Len(x)), x))
    hyp = And(isp(K, U), Eq(Cat(K2, pf2), U),                      # K2 would be a node at which U ends
              Implies(proper(K2, K), proper(Cat(K2, pf2), K)),     # J1, for both orders
              Implies(proper(K, K2), And(proper(Cat(K, pf), K2), nextnode)),   # J1 and J2: the child of K towards K2 is a node
              Implies(Eq(K, K2), Eq(pf, pf2)),
              Or(Eq(end, I(1)), Eq(end, I(2))), Implies(Eq(end, I(1)), And(is_common(tail, pf, Len(cp)), Lt(Len(cp), Len(pf)), Ne(tail, pf))),
              Implies(Eq(end, I(2)), And(Lt(Add(Len(K), Len(pf)), Len(U)), Not(nextnode))))
    order = And(Mention(Take(K, Len(K2)), Take(K2, Len(K)), Take(U, Len(K2)), Take(K2, Len(Cat(K, pf))), Drop(U, Len(K2))), Or(Eq(K, K2), proper(K, K2), proper(K2, K)))
    out.append(Lemma("prefixes of one key are prefixes of each other", Implies(And(isp(K, U), isp(K2, U), Mention(Take(K, Len(K2)), Take(K2, Len(K)), Take(U, Len(K2)), Take(U, Len(K)))), Or(Eq(K, K2), proper(K, K2), proper(K2, K)))))
    out.append(Lemma("a key at which no path ends has no node", Implies(And(hyp, order), FALSE)))
    out.append(Lemma("a proof of absence is given only for an absent key: the next key is the child's", Implies(And(isp(K, U), isp(K2, U), proper(Cat(K, pf), K2), Mention(Take(U, nk), Take(K2, nk))), Eq(Take(U, nk), Take(K2, nk)))))
    return out
