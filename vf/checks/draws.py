"""C03 / C23: where randomness comes from, and what the progress flag reaches."""
from .. import suites as S
from .. import query as q
from ..terms import T, walk, show, is_const, cval, NONE, assume, mk, const, strip_conv, add_fact

NONDET = ("time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.times", "threading.get_ident", "tempfile.")
NONDET_EXACT = {"id", "hash", "input"}
SEEDED = {"sklearn.utils.shuffle", "sklearn.utils.resample", "sklearn.model_selection.train_test_split", "sklearn.utils._random.sample_without_replacement",
          "sklearn.inspection.permutation_importance", "sklearn.utils.random.sample_without_replacement"}


def offers_seed(eng, key):
    from ..harness import public_class
    init, _ = public_class(eng, key).lookup("__init__")
    return init is not None and "random_state" in init.x.pos


def seed_of(rng):
    """seed terms a generator is built from; None when not resolved"""
    if rng.op == "phi":
        a, b = seed_of(rng.a[1]), seed_of(rng.a[2])
        return None if a is None or b is None else a + b
    if rng.op == "ext":
        return [rng]
    if rng.op == "call" and rng.a[0] in ("numpy.random.default_rng", "numpy.random.RandomState", "random.Random", "numpy.random.Generator",
                                         "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937",
                                         "sklearn.utils.check_random_state", "numpy.random.Philox"):
        args = list(rng.a[1]) + [v for _, v in rng.a[2]]
        if not args:
            return [NONE]
        if args[0].op == "call":
            r = seed_of(args[0])
            if r is not None:
                return r
        return [args[0]]
    if rng.op == "const":
        return [rng]
    if rng.op == "param":
        return [rng]
    if rng.op in ("draw", "idx", "m", "attr", "proj"):       # a number drawn from a generator used as seed, spawned generators, ...
        for x in walk(rng):
            if x.op == "call" and str(x.a[0]).startswith(("numpy.random.", "random.")):
                return seed_of(x)
    return None


def unseeded(sd, rs):
    """can the seed be None although a random state was given?"""
    f = {}
    for c, v in ((mk("isnone", rs), False),):
        f = add_fact(f, c, v)
    for cs, leaf in q.phi_leaves(assume(sd, f), 20):
        if leaf is NONE:
            return True
    return False


def in_set_loop(run, e):
    """the draw happens inside an iteration over an unordered set that is unrolled element by element"""
    depth = 0
    for x in run.log:
        if x.seq >= e.seq:
            break
        if x.kind == "setiter" and x.d.get("what") == "loop":
            depth += 1
        elif x.kind == "setend":
            depth -= 1
    return depth > 0


def set_order(t):
    """an iteration over an unordered set whose order can reach the value"""
    def setish(x):
        x = strip_conv(x)
        if x.op in ("setof",) or (x.op == "set" and len(x.a) > 1):
            return True
        if x.op == "m" and x.a[0] in ("union", "intersection", "difference", "symmetric_difference"):
            return setish(x.a[1])
        if x.op == "bin" and x.a[0] in ("-", "&", "|", "^"):
            return setish(x.a[1])
        return False
    seen = set()
    stack = [(t, False)]
    while stack:
        x, free = stack.pop()            # free: order of the elements of x does not matter here
        if (x, free) in seen:
            continue
        seen.add((x, free))
        if x.op in ("map", "combinations", "storemap") and not free and setish(x.a[0]):
            return x
        if x.op == "call" and x.a[0] in ("sorted", "set", "len", "frozenset") or x.op in ("red", "sum", "len", "in", "isin", "setof"):
            kids = [y for y in _kids(x)]
            stack.extend((y, True) for y in kids)
            continue
        stack.extend((y, False) for y in _kids(x))
    return None


def _kids(x):
    from ..terms import children
    return list(children(x))


def check_C03(chk):
    """Provenance of randomness: in every fit / importance / additivity computation each random draw takes its numbers from a
    generator built from the random_state constructor argument; no draw from a global, unseeded, constant-seeded or
    process-wide generator, no clock / identity / hash value and no iteration order of a string set reaches a result."""
    eng = chk.eng
    ndraw = 0
    for it in S.fit_suite(chk):
        run = it.run
        seeded = offers_seed(eng, it.key)
        bad = False
        for e in run.effects():
            if e.kind == "draw":
                ndraw += 1
                subj = "%s: %s in %s" % (it.name, e.how, e.func)
                rng = e.rng
                if rng is None or rng is NONE or rng.op == "ext":
                    if seeded or it.key == "sejong":
                        chk.bad("seeded source", subj, "random draw from %s instead of the method's generator" % (
                            "an unseeded source" if rng is None or rng is NONE else rng.a[0]), e.where())
                        bad = True
                    else:
                        (chk.bad if rng is not None and rng.op == "ext" else chk.bad)("seeded source", subj, "random draw outside the object's generator", e.where())
                    continue
                ss = seed_of(rng)
                if ss is None:
                    chk.und("seeded source", subj, "generator not resolved: %s" % show(rng, 4), e.where())
                    continue
                rs = next((x for sd in ss for x in walk(sd) if x.op == "param" and x.a[0] == "random_state"), None)
                for sd in ss:
                    if seeded and rs is not None and unseeded(sd, rs):
                        chk.bad("seeded source", subj, "for some random_state values the generator is unseeded: %s" % show(sd, 5), e.where())
                    elif sd.op == "ext":
                        chk.bad("seeded source", subj, "random draw from global state %s" % sd.a[0], e.where())
                    elif seeded and not q.mentions_param(sd, "random_state"):
                        chk.bad("seeded source", subj, "the generator is not built from random_state but from %s" % show(sd, 4), e.where(), rng=rng)
                    elif any(is_nondet_term(x) for x in walk(sd)):
                        chk.bad("seeded source", subj, "the seed depends on %s" % show(sd, 4), e.where())
                    else:
                        chk.good("seeded source", subj)
                if shared_rng(eng, e):
                    chk.bad("seeded source", subj, "the generator is shared between objects", e.where())
            elif e.kind == "cachedcall":
                if e.callee and rng_result(run, e):
                    chk.bad("seeded source", "%s: %s" % (it.name, e.callee), "the generator comes from a cached function, so objects share it", e.where())
            elif e.kind == "ext" and e.name in SEEDED:
                kw = dict(e.kw) if not isinstance(e.kw, dict) else e.kw
                rs = kw.get("random_state")
                if rs is None or not q.mentions_param(rs, "random_state"):
                    chk.bad("seeded source", it.name, "%s without the method's generator" % e.name, e.where())
        for n, t in q.results(it).items():
            subj = "%s: %s" % (it.name, n)
            x = next((x for x in walk(t) if is_nondet_term(x)), None)
            if x is not None:
                chk.bad("no hidden source", subj, "result depends on %s" % show(x, 3), "")
                continue
            so = set_order(t)
            if so is not None:
                chk.bad("no hidden source", subj, "the order of an unordered set (%s) reaches the result" % show(so.a[0], 4), "")
                continue
            chk.good("no hidden source", subj)
        for e in run.effects("draw"):
            for l in e.loops:
                x = strip_conv(l[0])
                if set_order(mk("map", x, const(0), const(True))) is not None:
                    chk.bad("no hidden source", it.name, "random draws happen in the order of an unordered set", e.where())
                    break
            else:
                if in_set_loop(run, e):
                    chk.bad("no hidden source", it.name, "random draws happen in the order of an unordered set", e.where())
    chk.count("draws", ndraw)


def is_nondet_term(x):
    if x.op == "call":
        n = x.a[0]
        if isinstance(n, str):
            return n.startswith(NONDET) or n in NONDET_EXACT
    return False


def shared_rng(eng, e):
    v = e.d.get("recvv")
    if v is None or e.how == "sample":
        return False
    l = eng.labels.get(v.cell) if getattr(v, "cell", None) is not None else None
    return bool(l and l.startswith("shared:"))


def rng_result(run, e):
    fn = e.callee.split(".")[-1].lower()
    return "rng" in fn or "random" in fn or "generator" in fn


# ------------------------------------------------------------------ C23
def check_C23(chk):
    """Flag independence: the operation analysed with show_progress true and with show_progress false has the same result
    terms, the same errors under the same conditions, the same random draws and the same prediction calls (identities of
    objects erased); the flag reaches only progress-bar calls."""
    sp = mk("param", "show_progress", "bool")
    ft = [q.facts_of((mk("truth", sp), True), (sp, True)), q.facts_of((mk("truth", sp), False), (sp, False))]
    for it in S.fit_suite(chk):
        if it.key == "imp_depth":
            continue
        run = it.run
        ok = True
        memo = [{}, {}]
        for n, t in list(q.results(it).items()):
            subj = "%s: %s" % (it.name, n)
            if not q.mentions_param(t, "show_progress"):
                chk.good("same results", subj)
                continue
            a, b = [q.erase_ids(assume(t, f), m) for f, m in zip(ft, memo)]
            if a is b:
                chk.good("same results", subj)
            elif a.op == "opaque" or b.op == "opaque":
                chk.und("same results", subj, "not resolved")
            else:
                chk.bad("same results", subj, "the result depends on show_progress", first_place(run, "show_progress"), with_bar=a, without=b)
        seqs = []
        for f, m in zip(ft, memo):
            seq = []
            for e in run.effects():
                if e.kind not in ("raise", "draw", "ext", "keyerror", "attrerror", "nameerror", "binderror", "mutate"):
                    continue
                if e.kind == "ext" and not is_predict(e):
                    continue
                if e.kind == "mutate" and not e.labels:
                    continue
                g = q.guard_under(e.guards, f)
                if g is None:
                    continue
                lo = tuple(q.erase_ids(assume(l[0], f), m) for l in e.loops)
                d = detail(e, f, m)
                seq.append((e.kind, d, frozenset(q.erase_ids(x, m) for x in g if not q.mentions_param(x, "show_progress")), lo, e))
            seqs.append(seq)
        a, b = seqs
        ka = [x[:4] for x in a]
        kb = [x[:4] for x in b]
        subj = "%s: effects" % it.name
        if ka == kb:
            chk.good("same effects", subj)
        else:
            sa, sb = list(ka), list(kb)
            for x in ka:
                if x in sb:
                    sb.remove(x)
            for x in kb:
                if x in sa:
                    sa.remove(x)
            e = None
            for src, left in ((a, sa), (b, sb)):
                for x in src:
                    if x[:4] in left:
                        e = x
                        break
                if e:
                    break
            if e is None:
                chk.und("same effects", subj, "same effects in another order")
            else:
                chk.bad("same effects", subj, "%s happens only %s show_progress" % (e[0], "with" if sa else "without"), e[4].where())
        # progress_apply needs tqdm.pandas()
        for e in run.effects("ext"):
            if e.name in (".progress_apply", ".progress_map", ".progress_aggregate"):
                prior = [x for x in run.log if x.kind == "ext" and x.seq < e.seq and x.name.endswith("tqdm.pandas")]
                if not prior:
                    chk.bad("same errors", it.name, "progress_apply without tqdm.pandas()", e.where())
                elif all(any(g not in e.guards for g in p.guards) for p in prior):
                    chk.bad("same errors", it.name, "tqdm.pandas() is called only under a condition", prior[0].where())
                else:
                    chk.good("same errors", "%s: progress_apply registered" % it.name)


def is_predict(e):
    n = e.name.split(".")[-1]
    return n.startswith("predict") or e.name == "<value>" or n == "trees_to_dataframe"


def detail(e, f, m):
    t = lambda x: q.erase_ids(assume(x, f), m) if isinstance(x, T) else None
    if e.kind == "raise":
        return str(e.exc)
    if e.kind == "draw":
        return (e.how, t(e.rng), tuple(t(x) for x in e.args), t(e.recv))
    if e.kind == "ext":
        return (e.name, tuple(t(x) for x in e.args), t(e.recv))
    if e.kind == "mutate":
        return (e.how, t(e.path) if e.path is not None else None, t(e.key) if e.key is not None else None, t(e.value) if e.value is not None else None)
    return str(sorted((k, str(v)[:60]) for k, v in e.d.items()))


def first_place(run, name):
    for e in run.effects():
        if any(q.mentions_param(g, name) for g in e.guards):
            return e.where()
    for e in run.effects():
        for v in e.d.values():
            if isinstance(v, T) and q.mentions_param(v, name):
                return e.where()
    return ""
