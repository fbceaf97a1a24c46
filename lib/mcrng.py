"""Ownership of every random draw: the C++ core's (through the preloaded shim) and torch's."""
import ctypes
import os
import random

import numpy as np
import torch

_lib = ctypes.CDLL(os.environ["MC_SHIM"])
_lib.mc_stream.argtypes = [ctypes.c_uint64]
_lib.mc_script.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_int]
_lib.mc_const.argtypes = [ctypes.c_int]
_lib.mc_draws.restype = ctypes.c_long
_lib.mc_clock.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
_lib.mc_gauss_list.argtypes = [ctypes.c_uint, ctypes.c_void_p, ctypes.c_int]
_lib.mc_get_clock.restype = ctypes.c_uint64
RAND_MAX = 2 ** 31 - 1


def stream(seed):
    _lib.mc_stream(seed & (2 ** 64 - 1))


def script(values, dflt=0):
    a = np.asarray(list(values), dtype=np.int32)
    _lib.mc_script(a.ctypes.data, len(a), int(dflt))


def const(v):
    _lib.mc_const(int(v))


def uni(u):
    """The rand() value whose uniform is (about) u."""
    return max(0, min(RAND_MAX, int(round(u * RAND_MAX))))


def draws():
    return _lib.mc_draws()


def clock(start, step=7919):
    _lib.mc_clock(start, step)


def gauss_list(seed, n=32768):
    out = np.empty(n, dtype=np.float32)
    _lib.mc_gauss_list(int(seed), out.ctypes.data, n)
    return out


def reset(seed=1):
    """Put every source of randomness into the state `seed`."""
    stream(seed * 1000003 + 17)
    clock(1000003 + 104729 * seed)
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed)


def self_test():
    """The shim really is the one the process resolves `rand` to."""
    libc = ctypes.CDLL(None)
    const(12345)
    ok = libc.rand() == 12345 and draws() == 1
    reset(1)
    return ok


class normals(torch.utils._python_dispatch.TorchDispatchMode):
    """Inside the context, every normal draw of torch is taken from `source(call number, shape)`
    (mean and standard deviation are applied to it)."""

    def __init__(self, source):
        super().__init__()
        self.source, self.calls = source, 0

    def _z(self, like):
        z = self.source(self.calls, tuple(like.shape))
        self.calls += 1
        return torch.as_tensor(z, dtype=like.dtype).expand(like.shape).clone()

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func.overloadpacket.__name__
        if name not in ("randn", "randn_like", "normal_", "normal"):
            return func(*args, **kwargs)
        out = func(*args, **kwargs)
        z = self._z(out)
        if name == "normal_":
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            return args[0].copy_(mean + std * z)
        if name == "normal":
            mean = args[0] if args else kwargs.get("mean", 0.0)
            std = args[1] if len(args) > 1 else kwargs.get("std", 1.0)
            if isinstance(mean, torch.Tensor) or isinstance(std, (float, int, torch.Tensor)):
                return (mean + std * z).to(out.dtype)
        return z
