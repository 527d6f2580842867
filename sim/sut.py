"""Access to the code under test, imported from the repository's working tree after the seams are in place."""
import importlib
import os

from sim import seams
from sim.core import REPO_SRC, HarnessError

PKG = "cognitivefactory.interactive_clustering."


def _mod(name):
    seams.install()
    module = importlib.import_module(PKG + name)
    if not os.path.realpath(module.__file__).startswith(os.path.realpath(REPO_SRC)):
        raise HarnessError("imported %s from %s instead of %s" % (name, module.__file__, REPO_SRC))
    return module


def binary():
    return _mod("constraints.binary")


def new_manager(ids):
    return _mod("constraints.factory").managing_factory(list_of_data_IDs=list(ids), manager="binary")


def load(path):
    return _mod("constraints.binary").load_constraints_manager_from_json(path)


def clustering(algorithm, **params):
    return _mod("clustering.factory").clustering_factory(algorithm=algorithm, **params)


def sampling(algorithm, **params):
    return _mod("sampling.factory").sampling_factory(algorithm=algorithm, **params)


def sampler(**params):
    return _mod("sampling.clusters_based").ClustersBasedConstraintsSampling(**params)


def warm(level):
    """Import everything a world needs before forking, so that each forked run starts from the same pristine state."""
    seams.install()
    if level == "constraints":
        _mod("constraints.factory"), _mod("constraints.binary")
        import networkx as nx

        nx.coloring.greedy_color(nx.path_graph(3))
        import numpy

        seams.install_numpy()
        return
    seams.install_locks()
    import numpy as np
    from scipy.sparse import csr_matrix
    from sklearn.cluster import SpectralClustering
    from sklearn.metrics import pairwise_distances, pairwise_kernels

    seams.install_numpy()
    x = csr_matrix(np.array([[0.0, 1.0], [2.0, 0.0], [5.0, 5.0]]))
    pairwise_distances(x)
    pairwise_kernels(x, metric="rbf")
    SpectralClustering(n_clusters=2, affinity="precomputed", random_state=0).fit_predict(
        np.array([[1, 0.9, 0.1], [0.9, 1, 0.1], [0.1, 0.1, 1]])
    )
    _mod("constraints.factory"), _mod("constraints.binary")
    if level == "text":
        from sim import text

        text.install()
        _mod("utils.preprocessing"), _mod("utils.vectorization")
    if level in ("clustering", "text"):
        _mod("clustering.factory"), _mod("sampling.factory"), _mod("sampling.clusters_based")
    seams.patch_datetime()
