"""Child of C24: answers questions about the build it runs on; one JSON line each way."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sut  # noqa: E402


def guarded(f):
    try:
        return f()
    except Exception as e:
        return {"raised": type(e).__name__}


def describe(ds):
    return [ds.data(), ds.errors(), ds.timeseries(), ds.normalised_timeseries(), ds.normalised_data(), ds.mean_data, ds.median_time, ds.max_time,
            ds.N_datasets, ds.M_datapoints]


def analyse(ds, given, sel, wf):
    s = sut.SACF.__new__(sut.SACF)
    s.data = ds
    lags, corr, c = s.autocorrelation(return_correlator=True, selection_function=sel, weight_function=wf, **sut.kw(given))
    return [lags, corr, c.min_lag, c.max_lag, c.lag_resolution, c.alpha]


def steps(ds, k, sel, wf):
    c = sut.Correlator(ds)
    it = sut.CorrelationIterator(k, c.N_datasets)
    out = [list(it.correlation)]
    sut.select(c, it, sel)
    out += [list(it.selection_indices)]
    c.deltaT(it)
    out += [list(it.delta_t)]
    sut.weigh(c, it, wf)
    out += [list(it.weights)]
    c.findCorrelation(it)
    out += [list(it.correlation)]
    c.addCorrelationData(it, 1)  # the place before it was never computed
    out += [len(c.lag_timeseries()), c.lag_timeseries()[1], [r[1] for r in c.correlations()]]
    c.clearCorrelation()
    out += [c.lag_timeseries(), c.correlations()]
    return out


def main():
    for line in sys.stdin:
        q = json.loads(line)
        args = q["data"]
        if isinstance(args, str):
            args = "%d-%s" % (os.getpid(), args)  # the children share a directory
            with open(args, "w", newline="") as fh:
                fh.write(q["text"])
            made = guarded(lambda: sut.DataStructure(args))
        else:
            made = guarded(lambda: sut.DataStructure(*args))
        out = []
        if isinstance(made, dict):
            out.append(made)
        else:
            out.append(guarded(lambda: describe(made)))
            for given, sel, wf in q["runs"]:
                out.append(guarded(lambda: analyse(made, given, sel, wf)))
            for k, sel, wf in q["steps"]:
                out.append(guarded(lambda: steps(made, k, sel, wf)))
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


main()
