"""C07: nothing of an earlier call survives."""
from .. import harness as H
from .. import query as q
from .. import suites as S
from ..harness import INTER, OPNAME, execute, fitted, abstract, run_fit, new_method
from ..terms import T, walk, show, NONE, is_const

ALL = ("friedman", "greenwell", "sejong", "split", "cmd", "imp_pdp", "imp_perm", "imp_split", "imp_depth", "additivity")
OLD_OPTS = {"friedman": dict(n="1", features="1", pf="1"), "greenwell": dict(n="1", features="1", pf="1"),
            "imp_pdp": dict(n="1", features="1", pf="1"), "additivity": dict(n="1", pf="1"),
            "sejong": dict(n="1", features="1"), "imp_perm": dict(features="1"), "imp_split": dict(features="1")}


def old_base(chk, key):
    k = ("old", key)
    if k not in chk.eng.cache:
        def sc(s):
            obj = new_method(s, key)
            s.pref = "old."
            run_fit(s, key, obj, **OLD_OPTS.get(key, {}))
            abstract(s, obj, "old.self")
            s.pref = ""
            s.obj = obj
        chk.eng.cache[k] = execute(chk.eng, "first fit of " + key, sc)
    return chk.eng.cache[k]


def refit_item(chk, key, opts, **more):
    nm = "%s.%s again(%s%s)" % (key, OPNAME[key], S.opt_name(opts), "".join(";%s=%s" % kv for kv in sorted(more.items())))

    def go():
        b = old_base(chk, key)

        def sc(s):
            s.m = b.s.obj
            run_fit(s, key, s.m, **more, **opts)
        return S.Item(nm, execute(chk.eng, nm, sc, b), key=key, opts=opts, kind="refit", old=b)
    return S.cached(chk, nm, go)


def old_objects(run):
    """names of objects created while the earlier call ran (not by the constructor)"""
    a, b = run.marks.get("fit", 0), None
    out = set()
    for e in run.log[a:b]:
        if e.kind == "new" and e.val is not None:
            o = run.s.st.heap.get(e.val.cell)
            if o is not None and getattr(o, "name", None) is not None:
                out.add(o.name)
    return out


def stale(t, olds):
    """a sub-term that stems from the earlier call"""
    for x in walk(t):
        if x.op == "param" and x.a[0].startswith("old."):
            return x
        if x.op == "new" and x in olds:
            return x
    return None


def opts_for(chk, key):
    if key in ("friedman", "greenwell", "imp_pdp", "additivity"):
        o = [{}, {"n": "1", "features": "1", "pf": "1"}, {"calc": "1"}] + (S.PD_OPTS[3:] + S.PD_MORE if chk.thorough else [])
        return [({k: v for k, v in x.items() if not (key == "additivity" and k == "features")}, {}) for x in o]
    if key == "sejong":
        return [({}, {}), ({"n": "1", "features": "1"}, {})] + ([(o, {}) for o in S.ROW_MORE] if chk.thorough else [])
    if key == "imp_perm":
        return [({}, {}), ({"features": "1"}, {})]
    if key == "imp_split":
        return [({}, {}), ({"features": "1"}, {"pkg": "lightgbm"})]
    if key == "split":
        return [({}, {}), ({}, {"pkg": "xgboost"}), ({}, {"pkg": "lightgbm"}), ({}, {"handler": False})]
    return [({}, {})]


RECORDS = {   # attribute -> (arguments it has to stem from, classes that record it)
    "model": (("model", "trees_df", "package"), INTER + ("additivity",)),
    "X_sampled": (("X",), ("friedman", "greenwell", "sejong", "additivity")),
    "y_sampled": (("y_true",), ("sejong",)),
    "features_included": (("features", "X", "model"), ("friedman", "greenwell", "sejong", "cmd")),
    "pairs": (("features", "X", "model"), ("friedman", "greenwell", "sejong", "cmd")),
    "pd_calculator": (("X", "model", "calc_X", "calc_model"), ("friedman", "greenwell", "additivity")),
    "metric": (("interaction_metric",), ("split",)),
    "selected_metric": (("importance_metric",), ("imp_split",)),
}


def closure(s, v):
    """terms of a value: itself and, for package objects, their attributes recursively"""
    out, todo, seen = [], [v], set()
    while todo:
        v = todo.pop()
        out.append(s.snap(v))
        if v.kind == "obj" and v.cell not in seen:
            seen.add(v.cell)
            todo.extend(s.st.heap[v.cell].fields.values())
    return out


def check_C07(chk):
    """Stale-state taint: each fit/importance is analysed on an object that carries a complete earlier fit whose arguments
    and results are tagged; after the second call no attribute, return value or raised error may depend on a tagged value or
    on an object created by the earlier call, and the attributes that record the call have to stem from its arguments.
    The same for a comparator used before on other methods, and for reads before and after a refit (memoised reads)."""
    for key in ALL:
        for opts, more in opts_for(chk, key):
            it = refit_item(chk, key, opts, **more)
            if it is None:
                continue
            chk.guard("refit", it.name, refit_rules, chk, it)
    for a, b in (S.CMP_QUICK if not chk.thorough else [(x, y) for x in INTER for y in INTER]):
        it = cmp_again(chk, a, b)
        if it is not None:
            chk.guard("comparison", it.name, read_rules, chk, it, "comparison")
    for key in INTER:
        it = life(chk, key)
        if it is not None:
            chk.guard("reads after refit", it.name, read_rules, chk, it, "reads after refit")
    # results keyed by object identity survive a refit of that object
    n = 0
    for it in S.fit_suite(chk, light=True) + S.value_suite(chk) + S.cmp_suite(chk):
        for e in it.run.effects():
            if e.kind == "cachedcall":
                n += 1
                v = [k for k, v in e.env.items() if v is not None and v.kind == "obj"]
                chk.ob("no memo", "%s: %s" % (it.name, e.callee), not v, "the result of %s is remembered per object (%s), not per fit" % (e.callee, ", ".join(v)), e.where())
            elif e.kind == "cachedprop":
                n += 1
                chk.bad("no memo", "%s: %s" % (it.name, e.callee), "%s is computed once per object and survives a refit" % e.callee, e.where())
    chk.good("no memo", "memoised functions examined: %d" % n)


def refit_rules(chk, it):
    run, s = it.run, it.run.s
    olds = old_objects(it.old)
    after = {n: closure(s, v) for n, v in s.fields(s.m).items()}
    chk.count("attributes examined", len(after))
    if s.ended:
        chk.und("refit", it.name, "the second fit never succeeds")
        return
    for n, ts in sorted(after.items()):
        subj = "%s: attribute %s" % (it.name, n)
        x = next((x for t in ts for x in [stale(t, olds)] if x is not None), None)
        if x is not None:
            w = [e for e in run.effects("setattr") if e.field == n and e.obj is not None and e.obj.cell == s.m.cell]
            where = w[-1].where() if w else ""
            chk.bad("nothing kept", subj, "%s still depends on the earlier call (%s)%s" % (n, show(x, 3), "" if w else ": it is not assigned"), where)
        else:
            chk.good("nothing kept", subj)
        src, who = RECORDS.get(n, ((), ()))
        if it.key in who:
            ps = frozenset().union(*[q.params_in(t) for t in ts])
            if ts[0] is NONE:
                chk.bad("call recorded", subj, "%s is not set by %s" % (n, OPNAME[it.key]))
            elif not any(p in ps for p in src):
                if any(q.opaques(t) for t in ts):
                    chk.und("call recorded", subj, "not resolved")
                else:
                    chk.bad("call recorded", subj, "%s does not stem from the arguments of the call: %s" % (n, show(ts[0], 4)))
            else:
                chk.good("call recorded", subj)
    if s.ret is not None:
        t = s.snap(s.ret)
        x = stale(t, olds)
        chk.ob("nothing kept", "%s: return value" % it.name, x is None, "depends on the earlier call (%s)" % show(x, 3) if x is not None else "")
    for e in run.effects("raise"):
        x = next((y for g in e.guards for y in [stale(g, olds)] if y is not None), None)
        chk.ob("nothing consulted", "%s: raise %s" % (it.name, e.exc), x is None, "whether it is raised depends on the earlier call (%s)" % (show(x, 3) if x is not None else ""), e.where())


def cmp_again(chk, k1, k2):
    nm = "comparator reused(%s,%s)" % (k1, k2)

    def go():
        keys = (k1,) if k1 == k2 else (k1, k2)
        b = H.fitted_base(chk.eng, keys, ("m1", "m2", "old.a", "old.b"))

        def sc(s):
            o1, o2 = b.s.objs[k1, "old.a"], b.s.objs[k2, "old.b"]
            m1, m2 = b.s.objs[k1, "m1"], b.s.objs[k2, "m2"]
            s.cmp = s.new("comparator")
            s.call(s.cmp, "summary", (o1, o2))
            s.st.guards, s.st.facts = (), {}
            s.ended = False
            s.mark("op")
            s.rets = [s.call(s.cmp, "correlations", (m1, m2)),
                      s.call(s.cmp, "comparison_plot", (m1, m2), dict(add_correlation_box=s.boolp("add_box"))),
                      s.call(s.cmp, "summary", (m1, m2))]
            s.m = s.cmp
        return S.Item(nm, execute(chk.eng, nm, sc, b), kind="cmp2")
    return S.cached(chk, nm, go)


def life(chk, key):
    nm = "%s: fit, read, fit, read" % key

    def go():
        b = old_base(chk, key)

        def reads(s):
            s.rets = [s.call(s.m, "interaction_value", (s.strp("f1"), s.strp("f2")))]
            s.cmp = s.new("comparator")
            s.rets.append(s.call(s.cmp, "correlations", (s.m, s.m)))
            s.rets.append(s.call(s.m, "plot", (), dict(vis_type=s.c("heatmap"))))
            s.st.guards, s.st.facts = (), {}
            s.ended = False

        def sc(s):
            s.m = b.s.obj
            s.pref = "old."
            reads(s)
            s.pref = ""
            run_fit(s, key, s.m)
            s.fields_now = {n: s.snap(v) for n, v in s.fields(s.m).items()}
            abstract(s, s.m, "self")
            reads(s)
        return S.Item(nm, execute(chk.eng, nm, sc, b), kind="life")
    return S.cached(chk, nm, go)


def read_rules(chk, it, rule):
    run, s = it.run, it.run.s
    n = 0
    for v in s.rets:
        if v is not None:
            n += 1
            x = stale(s.snap(v), ())
            chk.ob(rule, "%s: returned value %d" % (it.name, n), x is None, "stems from an earlier call: %s" % (show(x, 3) if x is not None else ""))
    bad = False
    for e in run.effects("ext"):
        for t in list(e.args or ()) + list((e.kw or {}).values()):
            if not isinstance(t, T):
                continue
            x = stale(t, ())
            if x is not None:
                bad = True
                chk.bad(rule, "%s: %s" % (it.name, e.name), "is given %s of an earlier call" % show(x, 3), e.where())
                break
        chk.count("calls examined")
    for e in run.effects("raise"):
        x = next((y for g in e.guards for y in [stale(g, ())] if y is not None), None)
        if x is not None:
            bad = True
            chk.bad(rule, "%s: raise %s" % (it.name, e.exc), "depends on an earlier call (%s)" % show(x, 3), e.where())
    if not bad:
        chk.good(rule, it.name + ": all calls")
    if it.kind == "cmp2":
        for f, t in sorted(q.fields(it, private=True).items()):
            x = stale(t, ())
            chk.ob(rule, "%s: attribute %s" % (it.name, f), x is None, "still describes an earlier comparison (%s)" % (show(x, 3) if x is not None else ""))
