""" Setup: nothing to compile; checks that what the machinery needs exists. """
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import bootstrap  # noqa
import clarabel  # noqa
import cvxpy  # noqa
import highspy  # noqa
import scipy  # noqa
import torch  # noqa
os.makedirs(os.path.join(bootstrap.VERIF, "evidence"), exist_ok=True)
print("ok", torch.__version__, bootstrap.REPO)
