"""Stand-in for scipy.sparse (not installed for this interpreter): receives what pybind11 hands over and checks it."""
import numpy as np


class csc_matrix:
    def __init__(self, parts, shape=None):
        self.data, self.indices, self.indptr = [np.array(x) for x in parts]
        self.shape = tuple(shape)

    def toarray(self):
        m = np.zeros(self.shape)
        assert len(self.indptr) == self.shape[1] + 1
        for j in range(self.shape[1]):
            for k in range(self.indptr[j], self.indptr[j + 1]):
                m[self.indices[k], j] += self.data[k]
        return m


class csr_matrix(csc_matrix):
    def toarray(self):
        m = np.zeros(self.shape)
        assert len(self.indptr) == self.shape[0] + 1
        for i in range(self.shape[0]):
            for k in range(self.indptr[i], self.indptr[i + 1]):
                m[i, self.indices[k]] += self.data[k]
        return m
