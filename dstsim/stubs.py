"""Stub scikit-learn components: what they do (time, failure, memory, quality) is scripted.

Data handed to the stubs: column 0 is the row number, column 1 the encoded target, the rest noise.
A stub classifier predicts row r correctly iff a hash of (row, model, training rows) is below the
quality of its hyperparameters, so scores are controllable and every fitted model is recognisable.
Class names follow GAMA's default search space so that logged pipelines parse in GamaReport.
"""
import zlib

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin

WORLD = None  # set per run


def rows_of(X):
    a = np.asarray(X, dtype=float)
    return a[:, 0].astype(np.int64)


def labels_of(X):
    return np.asarray(X, dtype=float)[:, 1]


def key_of(est):
    ps = est.get_params(deep=False)
    return type(est).__name__ + "(" + ",".join(f"{k}={ps[k]!r}" for k in sorted(ps)) + ")"


def unit(rows, *parts):
    """Deterministic uniform numbers per row."""
    salt = zlib.crc32(repr(parts).encode())
    x = (rows.astype(np.uint64) + np.uint64(salt)) * np.uint64(0x9E3779B97F4A7C15)
    x ^= x >> np.uint64(29)
    x *= np.uint64(0xBF58476D1CE4E5B9)
    x ^= x >> np.uint64(32)
    return (x >> np.uint64(11)).astype(float) / float(1 << 53)


class _Model(BaseEstimator):
    def __new__(cls, *args, **params):
        if params and WORLD is not None:
            WORLD.on_create(cls, params)
        return super().__new__(cls)

    def fit(self, X, y):
        rows = rows_of(X)
        self.train_rows_ = rows
        self.train_hash_ = int(zlib.crc32(np.sort(rows).tobytes()))
        self.fit_pid_ = WORLD.pid()
        WORLD.nfits += 1
        self.fit_id_ = WORLD.nfits
        self.n_predict_ = 0
        yy = np.asarray(y)
        self.y_ok_ = yy.shape == rows.shape and yy.dtype.kind in "if" and bool(np.all(yy == self._targets(X)))
        self.k_ = WORLD.n_classes
        self._setup(yy)
        WORLD.on_fit(self, rows, X)
        return self

    def quality(self):
        return WORLD.quality(key_of(self))

    def _noise(self):
        """Models that draw from the global generators predict differently with each draw."""
        return (self.noise_,) if hasattr(self, "noise_") else ()


class _Clf(ClassifierMixin, _Model):
    def _setup(self, y):
        self.classes_ = np.unique(y)

    def _codes(self, X):
        rows, lab = rows_of(X), labels_of(X).astype(int)
        k = self.k_
        ok = unit(rows, key_of(self), self.train_hash_, *self._noise()) < self.quality()
        return np.where(ok, lab, (lab + 1) % k), ok, lab

    def predict(self, X):
        WORLD.on_predict(self, X)
        codes, _, _ = self._codes(X)
        return self._decode(codes)

    @staticmethod
    def _targets(X):
        return WORLD.targets(labels_of(X))

    def _decode(self, codes):
        # targets are the codes themselves (GAMA encodes string targets before evaluation)
        return self.classes_[np.clip(codes, 0, len(self.classes_) - 1)]

    def predict_proba(self, X):
        WORLD.on_predict(self, X)
        codes, ok, lab = self._codes(X)
        k = max(len(self.classes_), 2)
        p = np.full((len(codes), k), 0.1 / (k - 1))
        p[np.arange(len(codes)), np.clip(codes, 0, k - 1)] = 0.9
        return p


class _Reg(RegressorMixin, _Model):
    def _setup(self, y):
        pass

    _targets = staticmethod(labels_of)

    def predict(self, X):
        WORLD.on_predict(self, X)
        rows, lab = rows_of(X), labels_of(X)
        return lab + (1.0 - self.quality()) * (unit(rows, key_of(self), self.train_hash_, *self._noise()) - 0.5)


class _Tr(TransformerMixin, BaseEstimator):
    def fit(self, X, y=None):
        WORLD.on_transformer(self, X)
        self.fitted_ = True
        return self

    def transform(self, X):
        return X


# --- classifiers
class GaussianNB(_Clf):
    pass


class BernoulliNB(_Clf):
    def __init__(self, alpha=1.0, fit_prior=True):
        self.alpha, self.fit_prior = alpha, fit_prior


class MultinomialNB(_Clf):
    def __init__(self, alpha=1.0, fit_prior=True):
        self.alpha, self.fit_prior = alpha, fit_prior


class DecisionTreeClassifier(_Clf):
    def __init__(self, criterion="gini", max_depth=1, min_samples_split=2, min_samples_leaf=1):
        self.criterion, self.max_depth = criterion, max_depth
        self.min_samples_split, self.min_samples_leaf = min_samples_split, min_samples_leaf


class KNeighborsClassifier(_Clf):
    def __init__(self, n_neighbors=1, weights="uniform", p=1):
        self.n_neighbors, self.weights, self.p = n_neighbors, weights, p


# --- regressors
class DecisionTreeRegressor(_Reg):
    def __init__(self, max_depth=1, min_samples_split=2, min_samples_leaf=1):
        self.max_depth, self.min_samples_split, self.min_samples_leaf = max_depth, min_samples_split, min_samples_leaf


class KNeighborsRegressor(_Reg):
    def __init__(self, n_neighbors=1, weights="uniform", p=1):
        self.n_neighbors, self.weights, self.p = n_neighbors, weights, p


class LassoLarsCV(_Reg):
    def __init__(self, normalize=True):
        self.normalize = normalize


# --- transformers
class Binarizer(_Tr):
    def __init__(self, threshold=0.0):
        self.threshold = threshold


class PCA(_Tr):
    def __init__(self, svd_solver="randomized", iterated_power=1):
        self.svd_solver, self.iterated_power = svd_solver, iterated_power


class MaxAbsScaler(_Tr):
    pass


class StandardScaler(_Tr):
    pass


ALPHA = [1e-3, 1e-2, 1e-1, 1.0, 10.0, 100.0]


def space(name):
    """Search spaces for the simulated searches."""
    data = {
        Binarizer: {"threshold": [0.0, 0.05, 0.5, 1.0]},
        PCA: {"svd_solver": ["randomized"], "iterated_power": list(range(1, 6))},
        MaxAbsScaler: {},
        StandardScaler: {},
    }
    shared = {"alpha": ALPHA, "fit_prior": [True, False], "min_samples_split": list(range(2, 9)),
              "min_samples_leaf": list(range(1, 9))}
    clf = {
        GaussianNB: {},
        BernoulliNB: {"alpha": [], "fit_prior": []},
        MultinomialNB: {"alpha": [], "fit_prior": []},
        DecisionTreeClassifier: {"criterion": ["gini", "entropy"], "max_depth": list(range(1, 11)),
                                 "min_samples_split": [], "min_samples_leaf": []},
        KNeighborsClassifier: {"n_neighbors": list(range(1, 21)), "weights": ["uniform", "distance"], "p": [1, 2]},
    }
    reg = {
        DecisionTreeRegressor: {"max_depth": list(range(1, 11)), "min_samples_split": [], "min_samples_leaf": []},
        KNeighborsRegressor: {"n_neighbors": list(range(1, 21)), "weights": ["uniform", "distance"], "p": [1, 2]},
        LassoLarsCV: {"normalize": [True, False]},
    }
    if name == "clf":
        return {**shared, **clf, **data}
    if name == "clf_nodata":
        return {**shared, **clf}
    if name == "clf_plain":  # estimators and transformers without any hyperparameter
        return {GaussianNB: {}, **{MultinomialNB: {}, BernoulliNB: {}}, MaxAbsScaler: {}, StandardScaler: {}}
    if name == "clf_small":
        return {"alpha": ALPHA[:3], GaussianNB: {}, BernoulliNB: {"alpha": []}, Binarizer: {"threshold": [0.0, 0.5]},
                MaxAbsScaler: {}}
    if name == "reg":
        return {"min_samples_split": shared["min_samples_split"], "min_samples_leaf": shared["min_samples_leaf"],
                **reg, **data}
    if name == "reg_private":  # as in the default search space, which reports are read with
        reg[DecisionTreeRegressor] = {"max_depth": list(range(1, 11)), "min_samples_split": list(range(2, 9)),
                                      "min_samples_leaf": list(range(1, 9))}
        return {**reg, **data}
    if name == "clf_mixed":  # one name, shared by one component and private to another
        return {"alpha": ALPHA[:3], MultinomialNB: {"alpha": []}, BernoulliNB: {"alpha": [5.0, 7.0], "fit_prior": [True]},
                PCA: {"iterated_power": [1, 2]}}
    if name == "clf_one":  # a single estimator without parameters and a single transformer
        return {GaussianNB: {}, MaxAbsScaler: {}}
    if name == "clf_terminal":  # a single estimator with a single hyperparameter
        return {KNeighborsClassifier: {"n_neighbors": [1, 2]}}
    raise KeyError(name)
