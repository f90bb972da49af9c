"""Access to the package under test."""
import sacf
from sacf import SACF
import sacf.datastructure as D
import sacf.correlator as C

DataStructure = D.DataStructure
Correlator = C.Correlator
CorrelationIterator = C.CorrelationIterator

SEL = ("natural", "fast")
WF = ("fractional", "fractional_squared", "gaussian")
COMBOS = [(s, w) for s in SEL for w in WF]


def kw(given):
    return {k: v for k, v in given.items() if v is not None}


def run(t, values, given=None, selection=None, weight=None, errors=None, **more):
    """(lags, correlations) of a fresh analysis."""
    a = dict(kw(given or {}), **more)
    if selection is not None:
        a["selection_function"] = selection
    if weight is not None:
        a["weight_function"] = weight
    s = SACF(t, values) if errors is None else SACF(t, values, errors)
    return s.autocorrelation(**a)


def rows(corr, nseries):
    """correlations as a list of rows whatever the number of series"""
    return [corr] if nseries == 1 else corr


def set_params(corr, given):
    for k, v in given.items():
        if v is not None:
            setattr(corr, k, v)


def step(corr, k, selection="natural", weight="fractional", nseries=None):
    """One lag through the step functions; returns the iterator."""
    it = CorrelationIterator(k, corr.N_datasets if nseries is None else nseries)
    select(corr, it, selection)
    corr.deltaT(it)
    weigh(corr, it, weight)
    corr.findCorrelation(it)
    return it


def select(corr, it, selection):
    (corr.naturalSelectionFunctionIdx if selection == "natural" else corr.fastSelectionFunctionIdx)(it)


def weigh(corr, it, weight):
    {"fractional": corr.getFractionWeights, "fractional_squared": corr.getFractionSquaredWeights,
     "gaussian": corr.getGaussianWeights}[weight](it)
