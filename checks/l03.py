"""L03: a matrix on ideal analog hardware is the matrix."""
import itertools
import warnings

import numpy as np
import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.linalg import AnalogMatrix

RULE = ("case = tile implementation x matrix shape x array type x weight scaling; all words over {multiply from either side by vectors, batches "
        "and matrices, through every LinearOperator entry point, transposed, combined; rank update; read} are executed in lock step "
        "with a NumPy matrix; a state is (case, weights)")
BOUNDS = {"quick": "4 shapes, 4 tiles, 2 scalings, words of length 2 over 21 operations",
          "thorough": "8 shapes, 4 tiles, 2 scalings, words of length 3 over 21 operations"}
ASSUMPTIONS = ["ideal hardware", "with @ a two-dimensional operand is a batch of row vectors, as in the example; the LinearOperator methods "
               "take columns", "float32"]
TILES = {"fp": L.cfg_fp, "single": L.cfg_single, "inference": L.cfg_inference, "custom": L.cfg_custom}
OPS = ("mv", "mvn", "mv1", "mb", "mm", "rv", "rvn", "rv1", "rb", "rm", "T", "H", "Tm", "sum", "scaled", "product", "dot", "ger1", "gerb", "gern", "read")


def cases(tier):
    shapes = [(3, 4), (4, 3), (1, 3), (3, 1)] + ([(1, 1), (2, 2), (5, 2), (4, 4)] if tier == "thorough" else [])
    for tile in TILES:
        for shape in shapes:
            for omega in (0.0, 0.6):
                for numpy in (False, True):
                    for first in OPS:
                        yield dict(tile=tile, shape=shape, omega=omega, numpy=numpy, first=first, depth=3 if tier == "thorough" else 2)
    for op in ("@", "r@", "ger"):
        yield dict(split=op)


def config(case):
    c = L.plain_mapping(TILES[case["tile"]]())
    c.mapping.weight_scaling_omega = case["omega"]
    return c


def run(case, rec):
    if "split" in case:
        return split(case, rec)
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        if not walk(case, (case["first"],) + rest, rec):
            return


def split(case, rec):
    c = L.plain_mapping(L.cfg_fp())
    c.mapping.max_input_size = 2
    W = L.grid(3, 4, k=2)
    x, d = np.ones(4, dtype="float32"), np.ones(3, dtype="float32")
    A = AnalogMatrix(W, c)
    op = case["split"]
    rec.step()
    rec.state("split", op)
    try:
        if op == "ger":
            A.ger(x, d, 0.1)
            ok = mcrt.close(A._tile.get_weights()[0], W + 0.1)  # pylint: disable=protected-access
        else:
            ok = np.allclose(A @ x, W.numpy() @ x, atol=1e-5) if op == "@" else np.allclose(d @ A, d @ W.numpy(), atol=1e-5)
    except Exception as e:  # pylint: disable=broad-except
        rec.fail("split:" + op, "a matrix larger than one tile: %r" % e)
        return
    rec.check(ok, "split:" + op, "wrong result for a matrix larger than one tile")


def walk(case, word, rec):
    mcrng.reset(2)
    o, i = case["shape"]
    m = L.grid(o, i, k=3)
    M = m.numpy().astype(np.float64).copy()
    A = AnalogMatrix(m.numpy() if case["numpy"] else m, config(case))
    key = "%s:%s" % (case["tile"], "numpy" if case["numpy"] else "torch")
    conv = (lambda a: np.asarray(a, dtype="float32")) if case["numpy"] else (lambda a: torch.tensor(np.asarray(a, dtype="float32")))
    for n, op in enumerate(word):
        x, X, Xb = (L.grid(*s, k=n + 5, lo=-1, hi=1).numpy() for s in ((i,), (i, 2), (3, i)))
        d, D, Db = (L.grid(*s, k=n + 9, lo=-1, hi=1).numpy() for s in ((o,), (o, 2), (3, o)))
        where = lambda: "%s of %s, %dx%d" % (op, word[:n + 1], o, i)
        args = {k: conv(v) for k, v in dict(x=x, X=X, Xb=Xb, d=d, D=D, Db=Db).items()}
        a = type("args", (), args)
        ref = out = None
        sci = isinstance(a.x, np.ndarray)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "mv":
                out, ref = A @ a.x, M @ x
            elif op == "mb":
                out, ref = A @ a.Xb, Xb @ M.T
            elif op == "rv":
                out, ref = a.d @ A, d @ M
            elif op == "rb":
                out, ref = a.Db @ A, Db @ M
            elif op == "ger1":
                A.ger(a.x, a.d, 0.25)
                M = M + 0.25 * np.outer(d, x)
            elif op == "gerb":
                A.ger(a.Xb, a.Db, 0.5)
                M = M + 0.5 * Db.T @ Xb
            elif op == "gern":
                A.ger(a.Xb, a.Db)
                M = M + Db.T @ Xb
            elif op == "read":
                out, ref = A._tile.get_weights()[0], M  # pylint: disable=protected-access
            elif not sci:
                continue
            elif op == "mvn":
                out, ref = A.matvec(a.x), M @ x
            elif op == "mv1":
                out, ref = A.matvec(a.x[:, None]), (M @ x)[:, None]
            elif op == "mm":
                out, ref = A.matmat(a.X), M @ X
            elif op == "rvn":
                out, ref = A.rmatvec(a.d), M.T @ d
            elif op == "rv1":
                out, ref = A.rmatvec(a.d[:, None]), (M.T @ d)[:, None]
            elif op == "rm":
                out, ref = A.rmatmat(a.D), M.T @ D
            elif op == "T":
                out, ref = A.T @ a.d, M.T @ d
            elif op == "H":
                out, ref = A.H.matvec(a.d), M.T @ d
            elif op == "Tm":
                out, ref = A.T.matmat(a.D), M.T @ D
            elif op == "sum":
                out, ref = (A + A) @ a.x, 2 * M @ x
            elif op == "scaled":
                out, ref = (-3 * A).matmat(a.X), -3 * M @ X
            elif op == "product":
                out, ref = (A.T * A).matvec(a.x), M.T @ (M @ x)
            elif op == "dot":
                out, ref = A.dot(a.X), M @ X
        rec.step()
        if ref is not None:
            if op != "read":
                rec.check(isinstance(out, type(a.x)), key + ":type", lambda: "%s: returns %s" % (where(), type(out)))
            v = np.asarray(out)
            rec.check(v.shape == ref.shape and np.allclose(v, ref, 1e-4, 1e-5), key + ":" + op, lambda: "%s: %s instead of %s" % (
                where(), v.tolist(), ref.tolist()))
        for k, v in dict(x=x, X=X, Xb=Xb, d=d, D=D, Db=Db).items():
            rec.check(np.array_equal(np.asarray(args[k]), v), key + ":argument", lambda: "%s: changes its argument %s" % (where(), k))
        w = A._tile.get_weights()[0].numpy()  # pylint: disable=protected-access
        rec.check(A.shape == (o, i), key + ":shape", where)
        rec.check(np.allclose(w, M, 1e-4, 1e-5), key + ":matrix", lambda: "%s: the matrix is %s instead of %s" % (where(), w.tolist(), M.tolist()))
        rec.check(np.array_equal(m.numpy(), L.grid(o, i, k=3).numpy()), key + ":source", where)
        rec.state(key, case["shape"], case["omega"], torch.tensor(w))
        if rec.fails:
            return False
    rec.trace()
    return True
