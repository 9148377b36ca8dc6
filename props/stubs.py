"""Recording estimators.  They stand for an arbitrary base estimator: under the
verifier their methods receive symbolic arrays, at run time real ones."""
import numpy as np
from sklearn.base import BaseEstimator

LOG = []


class Base(BaseEstimator):
    _dv_native = True

    def __init__(self, tag=0):
        self.tag = tag

    def _rec(self, what, X, y, kw):
        LOG.append((what, self, X, y, dict(kw)))


class Plain(Base):
    """classifier/regressor that knows nothing of domains"""

    def fit(self, X, y=None, sample_weight=None):
        self._rec("fit", X, y, {} if sample_weight is None else {"sample_weight": sample_weight})
        self.fitted_ = True
        return self


class Weighted(Plain):
    __metadata_request__fit = {"sample_weight": True}


class Domain(Base):
    """asks for the domain labels"""

    __metadata_request__fit = {"sample_domain": True}

    def fit(self, X, y=None, sample_domain=None):
        self._rec("fit", X, y, {"sample_domain": sample_domain})
        self.fitted_ = True
        return self


class Transf(Base):
    __metadata_request__fit = {"sample_domain": True}

    def fit(self, X, y=None, sample_domain=None):
        self._rec("fit", X, y, {"sample_domain": sample_domain})
        self.fitted_ = True
        return self

    def transform(self, X):
        return X


# ------------------------------------------------------------ symbolic side
class SPred:
    """fitted estimator number `did`: its output for a row is an unknown
    function of the estimator and of the row (so any mix-up is visible)"""

    _dv_native = True

    def __init__(self, did, matrix=False, width=None):
        self.did = did
        self.matrix = matrix
        self.width = width

    def _dv_subst(self, f):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.did = f(self.did)
        return r

    def __sklearn_is_fitted__(self):
        return True


def out_fun(name="F"):
    from dv.core import ctx, I, R, RowSort, z3

    return z3.Function(f"est_{name}", I, RowSort, R)


def row_fun(name="T"):
    from dv.core import I, R, RowSort, z3

    return z3.Function(f"est_{name}", I, RowSort, RowSort)


def sym_predict(name):
    def predict(self, X, **kw):
        from dv.core import S, SArr, _toz
        from dv import npmodel

        X = npmodel.lit(X)
        F = out_fun(name)
        d = _toz(self.did)[0]
        xf = X.fn
        LOG.append((name, self, X, None, dict(kw)))
        return SArr((X.shape[0],), "f", lambda i: S(F(d, xf(i).e)))
    return predict


def sym_transform(self, X, **kw):
    from dv.core import S, SArr, _toz
    from dv import npmodel

    X = npmodel.lit(X)
    F = row_fun("T")
    d = _toz(self.did)[0]
    xf = X.fn
    LOG.append(("transform", self, X, None, dict(kw)))
    return SArr(X.shape, "row", lambda i: S(F(d, xf(i).e)))


class PredEst(SPred, BaseEstimator):
    predict = sym_predict("predict")
    predict_proba = sym_predict("proba")
    decision_function = sym_predict("decision")

    def fit(self, X, y=None):
        return self


class PredEstW(SPred, BaseEstimator):
    """predictions depend on a routed parameter of the sample"""

    __metadata_request__predict = {"sample_weight": True}

    def fit(self, X, y=None):
        return self

    def predict(self, X, sample_weight=None):
        from dv.core import I, R, RowSort, S, SArr, _toz, z3
        from dv import npmodel

        X = npmodel.lit(X)
        d, xf, wf = _toz(self.did)[0], X.fn, npmodel.lit(sample_weight).fn
        return SArr((X.shape[0],), "f", lambda i: S(predw()(d, xf(i).e, wf(i).e)))


def predw():
    from dv.core import I, R, RowSort, z3

    return z3.Function("est_predw", I, RowSort, R, R)


class TransEst(SPred, BaseEstimator):
    transform = sym_transform

    def fit(self, X, y=None):
        return self


class SymPlain(BaseEstimator):
    """keeps its training set (symbolic loops: substituted per domain)"""

    _dv_native = True

    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y=None, **kw):
        self.X_, self.y_, self.kw_ = X, y, kw
        return self

    def _dv_subst(self, f):
        r = type(self)(self.tag)
        for a in ("X_", "y_", "kw_"):
            if hasattr(self, a):
                setattr(r, a, f(getattr(self, a)))
        return r


class SymWeighted(SymPlain):
    """asks for weights and domain labels"""

    __metadata_request__fit = {"sample_weight": True, "sample_domain": True}


class SymTransf(SymPlain):
    def transform(self, X):
        return X


class FT(BaseEstimator):
    """transformer with fit_transform; `container`: also emits weights"""

    _dv_native = True

    def __init__(self, tag=0, container=False):
        self.tag, self.container = tag, container

    def fit_transform(self, X, y=None, **kw):
        from dv.core import S, SArr
        from dv import npmodel

        LOG.append(("fit_transform", self, X, y, dict(kw)))
        X = npmodel.lit(X)
        xf = X.fn
        T, W = row_fun("FT"), out_fun("W")
        tg = self.tag
        out = SArr(X.shape, "row", lambda i: S(T(tg, xf(i).e)))
        if not self.container:
            return out
        return out, {"sample_weight": SArr((X.shape[0],), "f", lambda i: S(W(tg, xf(i).e)))}

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X

    def _dv_subst(self, f):
        return self
