"""C21: objects stay valid as long as anything derived from them is in use."""
import copy
import gc
import itertools
import pickle
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C21"
NAN = float("nan")
T = [0.0, 1.0, 2.5, 3.0, 7.0, 7.5]
X = [[1.0, 3.0, -2.0, 0.5, 9.0, 4.0], [4.0, NAN, 1.0, 9.0, 2.0, 2.5]]
LAG = 0.75
KEEP = []


def collect():
    for _ in range(3):
        gc.collect()


def churn():
    """allocations of the sizes the package uses, so that freed memory is soon used again for something else"""
    for n in (6, 12, 2, 3):
        ds = sut.DataStructure([float(i) * 100 for i in range(n)], [[-1e9] * (n - 1) + [5.0]] * 2)
        c = sut.Correlator(ds)
        c.alpha = 1e-9
        del c, ds
    it = sut.CorrelationIterator(123.0, 50)
    del it


def reference():
    ds = sut.DataStructure(T, X)
    c = sut.Correlator(ds)
    c.calculateStandardCorrelation()
    it = sut.step(c, LAG, "fast", "gaussian")
    return {"lags": c.lag_timeseries(), "corr": c.correlations(), "values": c.values(), "nt": c.normalised_timeseries(), "step": list(it.correlation),
            "sel": list(it.selection_indices), "max": c.max_lag, "alpha": c.alpha, "mean": ds.mean_data, "nd": ds.normalised_data(), "t": ds.timeseries()}


REF = None


def use_ds(ds, what):
    check(ds.timeseries() == REF["t"] and same_rows(ds.normalised_data(), REF["nd"]) and same_list(ds.mean_data, REF["mean"]) and same_rows(ds.data(), X, 0.0),
          "%s: data set reports %r %r %r", what, ds.timeseries(), ds.normalised_data(), ds.mean_data)
    check(ds.N_datasets == 2 and ds.M_datapoints == 6 and ds.max_time == 7.5, "%s: data set reports %r %r %r", what, ds.N_datasets, ds.M_datapoints, ds.max_time)


def use_corr(c, what, compute=True):
    check(same_rows(c.values(), X, 0.0) and c.normalised_timeseries() == REF["nt"] and c.alpha == REF["alpha"] and c.max_lag == REF["max"],
          "%s: correlator reports %r %r %r", what, c.values(), c.normalised_timeseries(), c.alpha)
    if compute:
        c.calculateStandardCorrelation()
        check(c.lag_timeseries() == REF["lags"] and same_rows(c.correlations(), REF["corr"]), "%s: correlator computes %r, should be %r", what, c.correlations(), REF["corr"])
        sut.SACF.find_correlation(c)
        check(c.lag_timeseries() == REF["lags"] and same_rows(c.correlations(), REF["corr"]), "%s: correlator computes %r, should be %r", what, c.correlations(), REF["corr"])
    it = sut.step(c, LAG, "fast", "gaussian")
    check(same_list(list(it.correlation), REF["step"]), "%s: step gives %r, should be %r", what, list(it.correlation), REF["step"])


def use_results(lags, corr, what):
    check(lags == REF["lags"] and same_rows(corr, REF["corr"]), "%s: results are %r %r", what, lags, corr)


# operations on a small store of named references
OPS = ["ds", "sacf", "corr<ds", "corr<sacf", "auto", "copy", "iter", "finish", "use", "del ds", "del sacf", "del corr", "del inputs", "gc", "churn"]


def play(seq, ctx):
    global REF
    if REF is None:
        REF = reference()
    v = {"t": list(T), "x": [list(r) for r in X]}
    for i, op in enumerate(seq):
        what = "after %r" % (seq[:i + 1],)
        ctx.transitions += 1
        if op == "ds":
            v["ds"] = sut.DataStructure(v.get("t", T), v.get("x", X))
        elif op == "sacf":
            v["sacf"] = sut.SACF(v.get("t", T), v.get("x", X))
        elif op == "corr<ds" and "ds" in v:
            v["corr"] = sut.Correlator(v["ds"])
        elif op == "corr<sacf" and "sacf" in v:
            v["corr"] = sut.Correlator(v["sacf"].data)
        elif op == "auto" and "sacf" in v:
            v["lags"], v["res"], v["corr"] = v["sacf"].autocorrelation(return_correlator=True)
        elif op == "copy" and "corr" in v:
            v["corr"] = copy.copy(v["corr"])
        elif op == "iter" and "corr" in v:
            v["it"] = sut.CorrelationIterator(LAG, 2)
            v["corr"].fastSelectionFunctionIdx(v["it"])
        elif op == "finish" and "corr" in v and "it" in v:
            it = v.pop("it")
            v["corr"].deltaT(it)
            v["corr"].getGaussianWeights(it)
            v["corr"].findCorrelation(it)
            check(same_list(list(it.correlation), REF["step"]), "%s: step gives %r, should be %r", what, list(it.correlation), REF["step"])
            v["corr"].clearCorrelation()
            v["corr"].addCorrelationData(it, 0)
            check(same_list([r[0] for r in v["corr"].correlations()], REF["step"]), "%s: stored %r, should be %r", what, v["corr"].correlations(), REF["step"])
        elif op == "use":
            if "corr" in v:
                use_corr(v["corr"], what)
            if "it" in v:
                check(list(v["it"].selection_indices) == REF["sel"], "%s: selection %r", what, list(v["it"].selection_indices))
        elif op == "del inputs":
            for k in ("t", "x"):
                if k in v:
                    del v[k][:]
                    del v[k]
        elif op.startswith("del "):
            v.pop(op[4:], None)
        elif op == "gc":
            collect()
        elif op == "churn":
            collect()
            churn()
    # whatever is left is used once more, after collecting
    collect()
    churn()
    what = "in the end of %r" % (seq,)
    if "corr" in v:
        use_corr(v["corr"], what)
    if "ds" in v:
        use_ds(v["ds"], what)
    if "sacf" in v:
        use_ds(v["sacf"].data, what)
    if "lags" in v:
        use_results(v["lags"], v["res"], what)
    ctx.states += len(seq)
    ctx.traces += 1
    ctx.outcome(tuple(sorted(k for k in v)))


def enabled(seq):
    """sequences whose operations all have what they need (others equal shorter ones)"""
    have = {"t", "x"}
    for op in seq:
        if op == "ds":
            have.add("ds")
        elif op == "sacf":
            have.add("sacf")
        elif op == "corr<ds":
            if "ds" not in have:
                return False
            have.add("corr")
        elif op == "corr<sacf":
            if "sacf" not in have:
                return False
            have.add("corr")
        elif op == "auto":
            if "sacf" not in have:
                return False
            have.add("corr")
        elif op in ("iter", "copy"):
            if "corr" not in have:
                return False
            have.add("it" if op == "iter" else "corr")
        elif op == "finish":
            if "corr" not in have or "it" not in have:
                return False
            have.discard("it")
        elif op == "del inputs":
            if "t" not in have:
                return False
            have.discard("t")
        elif op.startswith("del "):
            if op[4:] not in have:
                return False
            have.discard(op[4:])
        elif op == "use" and "corr" not in have:
            return False
    return True


def histories(case, ctx):
    start, depth = case
    if not enabled(start):
        return
    for rest in itertools.product(OPS, repeat=depth - len(start)):
        seq = list(start) + list(rest)
        if enabled(seq):
            play(seq, ctx)
            ctx.tick()


def chains(case, ctx):
    """objects made and dropped in every order of dropping, several alive at a time"""
    kind, order = case
    global REF
    if REF is None:
        REF = reference()
    n = len(order)
    objs = {}
    for i in range(n):
        if kind == "shared":
            if i == 0:
                objs["ds"] = sut.DataStructure(list(T), [list(r) for r in X])
            objs[i] = sut.Correlator(objs["ds"])
        elif kind == "own":
            objs[i] = sut.Correlator(sut.DataStructure(list(T), [list(r) for r in X]))
        elif kind in ("copies", "pickles"):  # of the one before
            if i == 0:
                objs[i] = sut.Correlator(sut.DataStructure(list(T), [list(r) for r in X]))
            else:
                objs[i] = copy.copy(objs[i - 1]) if kind == "copies" else pickle.loads(pickle.dumps(objs[i - 1], i % 3))
        elif kind == "auto":
            objs[i] = sut.SACF(list(T), [list(r) for r in X]).autocorrelation(return_correlator=True)[2]
        elif kind == "file":
            if i == 0:
                with open("c21.txt", "w") as fh:
                    fh.write("".join("%r %r\n" % p for p in zip(T, X[0])))
            objs[i] = sut.Correlator(sut.DataStructure("c21.txt"))
    objs.pop("ds", None)
    collect()
    churn()
    for step, i in enumerate(order):
        for j in sorted(objs):
            what = "%s, dropped %r" % (kind, order[:step])
            if kind == "file":
                check(objs[j].values() == [X[0]] and objs[j].normalised_timeseries() == T, "%s: %r", what, objs[j].values())
                objs[j].calculateStandardCorrelation()
                check(same_list(objs[j].correlations()[0], REF["corr"][0]), "%s: %r", what, objs[j].correlations())
            else:
                use_corr(objs[j], what)
            ctx.transitions += 1
        del objs[i]
        collect()
        churn()
        ctx.states += 1
    ctx.traces += 1
    ctx.outcome(tuple(order))


def SPACES(tier):
    big = tier == "thorough"

    def hist():
        top = 6 if big else 5
        for d in range(1, top + 1):
            for start in itertools.product(OPS, repeat=min(d, 3)):
                if enabled(start):
                    yield [list(start), d]

    def chain():
        for kind in ("own", "shared", "auto", "copies", "pickles", "file"):
            for n in (1, 2, 3, 4) + ((5,) if big else ()):
                for order in itertools.permutations(range(n)):
                    yield [kind, list(order)]

    return [
        Space("chains", chain, chains, "1..4 (5) correlators on own, shared, file or analysis data, or copied one from the other, dropped in every order with collections in between; survivors used after each"),
        Space("histories", hist, histories, "all sequences of up to 5 (6) out of 15 operations creating, copying, using, dropping and collecting (those whose operands exist), then everything left is collected and used; freed memory is overwritten"),
    ]
