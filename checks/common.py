""" Test doubles and small helpers used by several checks. """
import numpy as np

from aideme import ActiveLearner


class RowClassifier:
    """ Scikit-learn-like classifier whose predictions are a fixed function of the rows. """
    def __init__(self, seed=0):
        self.seed, self.fits = seed, []

    def fit(self, X, y):
        self.fits.append((np.array(X), np.array(y)))

    def predict_proba(self, X):
        p = self.proba(X)
        return np.c_[1 - p, p]

    def predict(self, X):
        return (self.proba(X) > 0.5).astype(int)

    def proba(self, X):
        X = np.asarray(X, dtype=float)
        w = np.cos(np.arange(X.shape[1]) + self.seed + 1)
        return 1 / (1 + np.exp(-np.sin(3 * X.dot(w) + self.seed)))


class RecordingLearner(ActiveLearner):
    """ Ranks points by a fixed function of their row, and records what it is given. """
    def __init__(self, batch=1, seed=0):
        self.batch, self.seed = batch, seed
        self.cleared, self.fits, self.partial_fits, self.offered = 0, [], [], []

    def clear(self):
        self.cleared += 1
        self.fits, self.partial_fits, self.offered = [], [], []

    def fit_data(self, data):
        super().fit_data(data)
        X, partial = data.training_set(get_partial=True)
        self.partial_fits.append((np.array(X), np.array(partial)))

    def fit(self, X, y):
        self.fits.append((np.array(X), np.array(y)))

    def predict(self, X):
        return RowClassifier(self.seed).predict(X)

    def predict_proba(self, X):
        return RowClassifier(self.seed).proba(X)

    def rank(self, X):
        return np.abs(self.predict_proba(X) - 0.5)

    def _select_next(self, dataset):
        self.offered.append(np.array(dataset.data))
        return dataset[np.argsort(self.rank(dataset.data), kind='stable')[:self.batch]]


def rows_dataset(n, d, seed):
    """ n distinct rows; the first column tells which row it is. """
    X = np.random.RandomState(seed).randn(n, d).round(3)
    X[:, 0] = np.arange(n)
    return X
