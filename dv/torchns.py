"""module namespaces presented to the subject: torch, numpy, math, ..."""
import math as _math
import types
from fractions import Fraction

import torch as _t

from . import core, funcs, shim
from .core import Sym, SymReal, SymInt, Unsupported, raw, wrap, vreal, vmul, vadd
from .tensor import Size, SymTensor, is_tensor


class NS(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name)
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self.__name__}.{n}")


class Missing:
    """an operation without a contract: using it makes the function undecided"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self._name}.{n}")

    def __mro_entries__(self, bases):
        return (MissingBase,)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


class MissingBase:
    def __init__(self, *a, **k):
        raise Unsupported("class with an unsupported base")


# ------------------------------------------------------------------ nn.Module
class Module:
    _dv_subject = True
    training = True

    def __init__(self, *a, **k):
        self.__dict__["_buffers"] = {}
        self.__dict__["_modules"] = {}
        self.__dict__["_parameters"] = {}

    def __setattr__(self, n, v):
        if isinstance(v, Module):
            if "_modules" not in self.__dict__:
                raise AttributeError("cannot assign module before Module.__init__() call")
            self._modules[n] = v
        if isinstance(v, Parameter):
            self._parameters[n] = v
        if n in self.__dict__.get("_buffers", {}) :
            self._buffers[n] = v
        object.__setattr__(self, n, v)

    def register_buffer(self, n, v, persistent=True):
        self._buffers[n] = v
        if not persistent:
            self.__dict__.setdefault("_nonpersistent", set()).add(n)
        object.__setattr__(self, n, v)

    def register_parameter(self, n, v):
        self._parameters[n] = v
        object.__setattr__(self, n, v)

    def add_module(self, n, m):
        setattr(self, n, m)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def buffers(self):
        for m in self.modules():
            yield from m._buffers.values()

    def parameters(self, recurse=True):
        for m in self.modules():
            yield from m._parameters.values()

    def modules(self):
        yield self
        for m in self._modules.values():
            yield from m.modules()

    def children(self):
        yield from self._modules.values()

    def to(self, *a, **k):
        return self

    def eval(self):
        return self.train(False)

    def state_dict(self, prefix=""):
        d = {}
        for src in (self._parameters, self._buffers):
            for k, v in src.items():
                if v is not None and not (src is self._buffers and k in self._transient()):
                    d[prefix + k] = v
        for k, m in self._modules.items():
            d.update(m.state_dict(prefix + k + "."))
        return d

    def _transient(self):
        return self.__dict__.get("_nonpersistent", set())

    def load_state_dict(self, sd, strict=True):
        missing, bad = [], []
        for m, prefix in self._named():
            errs = []
            m._load_from_state_dict(sd, prefix, {}, strict, missing, [], errs)
            bad += errs
        have = set(self.state_dict())
        if bad or (strict and (missing or set(sd) - have)):
            raise RuntimeError("Error(s) in loading state_dict")

    def _named(self, prefix=""):
        yield self, prefix
        for k, m in self._modules.items():
            yield from m._named(prefix + k + ".")

    def _load_from_state_dict(self, sd, prefix, meta, strict, missing, unexpected, errs):
        for src in (self._parameters, self._buffers):
            for k, v in src.items():
                if v is None or (src is self._buffers and k in self._transient()):
                    continue
                if prefix + k not in sd:
                    if strict:
                        missing.append(prefix + k)
                    continue
                n = sd[prefix + k]
                if tuple(n.shape) != tuple(v.shape):
                    errs.append(f"size mismatch for {prefix + k}")
                else:
                    v.copy_(n)

    def train(self, mode=True):
        for m in self.modules():
            object.__setattr__(m, "training", mode)
        return self

    def _apply(self, fn, *a, **k):
        for m in self.modules():
            for d in (m._buffers, m._parameters):
                for k2, v in list(d.items()):
                    if v is not None:
                        nv = fn(v)
                        d[k2] = nv
                        object.__setattr__(m, k2, nv)
        return self

    def extra_repr(self):
        return ""


class Parameter(SymTensor):
    def __new__(cls, data=None, requires_grad=True):
        t = object.__new__(cls)
        t.shape, t.dtype, t.storage, t.axes = data.shape, data.dtype, data.storage, data.axes
        return t

    def __init__(self, *a, **k):
        pass


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], dict):
            ms = ms[0].values()
        self.__dict__["_list"] = []
        for m in ms:
            self.append(m)

    def append(self, m):
        setattr(self, str(len(self._list)), m)
        self._list.append(m)
        return self

    def forward(self, x):
        for m in self._list:
            x = m(x)
        return x

    def __iter__(self):
        return iter(self._list)

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]


class ModuleList(Sequential):
    def __init__(self, modules=()):
        super().__init__(*(modules or ()))

    def forward(self, *a):
        raise NotImplementedError

    def __getitem__(self, i):
        if isinstance(i, SymTensor) and i.ndim == 0:
            i = i.item()
        if isinstance(i, SymInt):
            # one path for every member
            for k in range(len(self._list)):
                if i == k:
                    return self._list[k]
            raise IndexError("index out of range")
        return super().__getitem__(i)


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, x):
        if self.inplace:
            return x._inplace(None, lambda a, b: shim.F_relu(a))
        return shim.F_relu(x)


def _param(name, shape):
    return Parameter(shim.fresh_tensor(name, shape, _t.float32))


class Linear(Module):
    def __init__(self, i, o, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = i, o
        self.weight = _param("lin_w", (o, i))
        self.bias = _param("lin_b", (o,)) if bias else None

    def forward(self, x):
        return shim.F_linear(x, self.weight, self.bias)


class Unfold(Module):
    def __init__(self, kernel_size, dilation=1, padding=0, stride=1):
        super().__init__()
        self.a = (kernel_size, dilation, padding, stride)

    def forward(self, x):
        return shim.F_unfold(x, *self.a)


class Flatten(Module):
    def __init__(self, s=1, e=-1):
        super().__init__()
        self.s, self.e = s, e

    def forward(self, x):
        return shim.flatten(x, self.s, self.e)


def _tup(v, n):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * n


class _Conv(Module):
    nd = 1

    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1,
                 groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        nd = self.nd
        if not bool(wrap(core.vcmp("==", core.vmod(raw(in_channels), raw(groups)), 0))):
            raise ValueError("in_channels must be divisible by groups")
        if not bool(wrap(core.vcmp("==", core.vmod(raw(out_channels), raw(groups)), 0))):
            raise ValueError("out_channels must be divisible by groups")
        self.in_channels, self.out_channels = in_channels, out_channels
        self.kernel_size, self.stride = _tup(kernel_size, nd), _tup(stride, nd)
        self.padding = padding if isinstance(padding, str) else _tup(padding, nd)
        self.dilation, self.groups = _tup(dilation, nd), groups
        if padding_mode != "zeros":
            raise Unsupported("conv padding mode")
        self.weight = _param("conv_w", (out_channels, in_channels // groups) + self.kernel_size)
        self.bias = _param("conv_b", (out_channels,)) if bias else None

    def forward(self, x):
        return shim.F_convnd(self.nd)(x, self.weight, self.bias, self.stride, self.padding,
                                      self.dilation, self.groups)


class Conv1d(_Conv):
    nd = 1


class Conv2d(_Conv):
    nd = 2


class ConvTranspose1d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0,
                 output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros",
                 device=None, dtype=None):
        super().__init__()
        for v, n in ((in_channels, "in_channels"), (out_channels, "out_channels")):
            if not bool(wrap(core.vcmp("==", core.vmod(raw(v), raw(groups)), 0))):
                raise ValueError(f"{n} must be divisible by groups")
        self.in_channels, self.out_channels = in_channels, out_channels
        self.a = (_tup(stride, 1), _tup(padding, 1), _tup(output_padding, 1), groups,
                  _tup(dilation, 1))
        self.kernel_size, self.stride = _tup(kernel_size, 1), _tup(stride, 1)
        self.padding, self.groups = _tup(padding, 1), groups
        self.weight = _param("convT_w", (in_channels, out_channels // groups) + self.kernel_size)
        self.bias = _param("convT_b", (out_channels,)) if bias else None

    def forward(self, x):
        return shim.F_convtranspose1d(x, self.weight, self.bias, *self.a)


class GroupNorm(Module):
    def __init__(self, num_groups, num_channels, eps=1e-5, affine=True, device=None, dtype=None):
        super().__init__()
        if not bool(wrap(core.vcmp("==", core.vmod(raw(num_channels), raw(num_groups)), 0))):
            raise ValueError("num_channels must be divisible by num_groups")
        self.num_groups, self.num_channels, self.eps = num_groups, num_channels, eps
        self.weight = _param("gn_w", (num_channels,)) if affine else None
        self.bias = _param("gn_b", (num_channels,)) if affine else None

    def forward(self, x):
        return shim.F_group_norm(x, self.num_groups, self.weight, self.bias, self.eps)


class _BatchNorm(Module):
    """evaluation mode only"""

    def __init__(self, num_features, eps=1e-5, **k):
        super().__init__()
        self.num_features, self.eps = num_features, eps
        self.weight, self.bias = _param("bn_w", (num_features,)), _param("bn_b", (num_features,))
        self.register_buffer("running_mean", shim.FN["zeros"]((num_features,)))
        self.register_buffer("running_var", shim.FN["ones"]((num_features,)))

    def forward(self, x):
        if self.training:
            raise Unsupported("batch norm in training mode")
        sh = (1, -1) + (1,) * (x.ndim - 2)
        v = lambda t: t.reshape(sh)
        return (x - v(self.running_mean)) / (v(self.running_var) + self.eps) ** 0.5 \
            * v(self.weight) + v(self.bias)


class BatchNorm1d(_BatchNorm):
    pass


class BatchNorm2d(_BatchNorm):
    pass


def _pool(F, **dflt):
    class P(Module):
        def __init__(self, *a, **k):
            super().__init__()
            self.a, self.k = a, k

        def forward(self, x):
            return F(x, *self.a, **self.k)

    return P


MaxPool1d, MaxPool2d = _pool(shim.F_maxpool(1)), _pool(shim.F_maxpool(2))
AdaptiveAvgPool1d, AdaptiveAvgPool2d = _pool(shim.F_avg_to_one(1)), _pool(shim.F_avg_to_one(2))


class IterableDataset:
    _dv_subject = True


class Dataset:
    _dv_subject = True


def identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class _NoGrad:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class CallableModule(NS):
    pass


def dist_ns():
    from . import dists

    return dists.ns()


PI = SymReal(funcs.PI)


def _filled(t, v):
    t.write(lambda *i: shim.conv(raw(v), t.dtype))
    return t


def modules():
    F = NS("torch.nn.functional", {
        "pad": shim.pad, "unfold": shim.F_unfold, "interpolate": shim.F_interpolate,
        "conv1d": shim.F_convnd(1), "conv2d": shim.F_convnd(2), "linear": shim.F_linear,
        "relu": shim.F_relu, "conv_transpose1d": shim.F_convtranspose1d,
        "group_norm": shim.F_group_norm, "max_pool1d": shim.F_maxpool(1),
        "max_pool2d": shim.F_maxpool(2), "adaptive_avg_pool1d": shim.F_avg_to_one(1),
        "adaptive_avg_pool2d": shim.F_avg_to_one(2),
    })
    init = NS("torch.nn.init", {
        "constant_": lambda t, v: _filled(t, v),
        "kaiming_normal_": lambda t, **k: t,
        "zeros_": lambda t: _filled(t, 0),
        "ones_": lambda t: _filled(t, 1),
    })
    nn = NS("torch.nn", {
        "Module": Module, "Parameter": Parameter, "Sequential": Sequential,
        "ModuleList": ModuleList, "Identity": Identity, "ReLU": ReLU, "Linear": Linear,
        "Unfold": Unfold, "Flatten": Flatten, "Conv1d": Conv1d, "Conv2d": Conv2d,
        "ConvTranspose1d": ConvTranspose1d, "GroupNorm": GroupNorm, "BatchNorm1d": BatchNorm1d,
        "BatchNorm2d": BatchNorm2d, "MaxPool1d": MaxPool1d, "MaxPool2d": MaxPool2d,
        "AdaptiveAvgPool1d": AdaptiveAvgPool1d, "AdaptiveAvgPool2d": AdaptiveAvgPool2d,
        "functional": F, "init": init,
    })
    fft = NS("torch.fft", {
        "rfft": shim.rfft, "irfft": shim.irfft, "fft": shim.cfft("fft"),
        "ifft": shim.cfft("ifft"), "rfftfreq": shim.rfftfreq, "fftfreq": shim.fftfreq,
        "fftshift": shim._shift(1), "ifftshift": shim._shift(-1),
    })
    linalg = NS("torch.linalg", {"solve": shim.linalg_solve, "inv": shim.linalg_inv, "norm": shim.norm})
    data = NS("torch.utils.data", {
        "IterableDataset": IterableDataset, "Dataset": Dataset,
        "get_worker_info": lambda: getattr(core.ctx(), "worker_info", None),
    })
    utils = NS("torch.utils", {"data": data})
    d = dict(shim.FN)
    for n in ("float16", "float32", "float64", "int8", "int16", "int32", "int64", "bool",
              "complex64", "complex128", "uint8"):
        d[n] = getattr(_t, n)
    d.update(float=_t.float32, double=_t.float64, long=_t.int64, int=_t.int32,
             cfloat=_t.complex64, cdouble=_t.complex128, half=_t.float16, short=_t.int16)
    d.update(
        Tensor=SymTensor, Size=Size, dtype=_t.dtype, device=_t.device, pi=PI, inf=float("inf"),
        nn=nn, fft=fft, linalg=linalg, utils=utils, no_grad=_NoGrad, compile=identity_decorator,
        jit=NS("torch.jit", {"script": identity_decorator, "ignore": identity_decorator,
                             "unused": identity_decorator, "export": identity_decorator}),
        inference_mode=_NoGrad, is_grad_enabled=lambda: False,
        get_default_dtype=lambda: _t.float32, manual_seed=lambda s: None,
        finfo=_t.finfo, iinfo=_t.iinfo, e=SymReal(core.uf("const_e", core.R)()) if False else _math.e,
        special=NS("torch.special", {}), Generator=object, float_=_t.float32,
        LongTensor=SymTensor, FloatTensor=SymTensor,
        autograd=NS("torch.autograd", {}), cuda=NS("torch.cuda", {
            "is_available": lambda: False}),
    )
    d["from_numpy"] = shim.lift
    d["promote_types"] = _t.promote_types
    torch = NS("torch", d)
    try:
        torch.__dict__["distributions"] = dist_ns()
    except ImportError:
        pass

    def m1(f):
        return lambda x: f(x) if not isinstance(x, Sym) else None

    def num(fn, native):
        def g(*xs):
            if any(is_tensor(x) for x in xs):
                return shim.elementwise(lambda *v: fn(*[vreal(i) for i in v]), *xs)
            if all(isinstance(x, (int, Fraction)) or isinstance(x, Sym) or isinstance(x, float)
                   for x in xs):
                return wrap(fn(*[vreal(raw(x)) for x in xs]))
            return native(*xs)

        return g

    mathns = NS("math", {
        "pi": PI, "inf": float("inf"), "e": _math.e,
        "sqrt": num(funcs.vsqrt, _math.sqrt), "exp": num(funcs.vexp, _math.exp),
        "log": num(funcs.vlog, _math.log), "sin": num(funcs.vsin, _math.sin),
        "cos": num(funcs.vcos, _math.cos), "tan": num(funcs.vtan, _math.tan),
        "log2": num(funcs.vuf1("log2"), _math.log2), "log10": num(funcs.vuf1("log10"), _math.log10),
        "floor": lambda x: wrap(core.vfloor(raw(x))), "ceil": lambda x: wrap(core.vceil(raw(x))),
        "factorial": _math.factorial, "isclose": _math.isclose, "comb": _math.comb,
        "prod": lambda xs: _prod(xs), "isfinite": lambda x: True, "isnan": lambda x: False,
    })

    import numpy as _np

    def _prod(xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    npd = {
        "pi": PI, "sqrt": mathns.sqrt, "exp": mathns.exp, "log": mathns.log, "sin": mathns.sin,
        "cos": mathns.cos, "tan": mathns.tan, "arctan": num(funcs.vuf1("atan"), _np.arctan),
        "ndarray": _np.ndarray, "prod": lambda xs: _prod(xs), "inf": float("inf"),
        "floor": mathns.floor, "ceil": mathns.ceil, "e": _math.e,
        "abs": abs, "float64": _np.float64, "float32": _np.float32, "newaxis": None,
        "log2": mathns.log2, "log10": mathns.log10,
    }
    numpy = NS("numpy", npd)
    numpy.__dict__["random"] = NS("numpy.random", {})
    from .pyshim import Permissive, PermissiveModule

    typing_like = PermissiveModule("jaxtyping")
    import itertools as _it

    from .pyshim import itertools_product

    itmod = types.ModuleType("itertools")
    itmod.__dict__.update(vars(_it))
    itmod.product = itertools_product
    return {
        "itertools": itmod,
        "torch": torch, "torch.nn": nn, "torch.nn.functional": F, "torch.fft": fft,
        "torch.utils": utils, "torch.utils.data": data, "torch.distributions":
        torch.__dict__.get("distributions") or NS("torch.distributions", {}),
        "torch.linalg": linalg, "math": mathns, "numpy": numpy, "jaxtyping": typing_like,
        "torchtyping": typing_like,
        "torchaudio": NS("torchaudio", {}), "scipy": NS("scipy", {}),
        "h5py": NS("h5py", {}), "warnings": NS("warnings", {"warn": lambda *a, **k: None,
                                                             "catch_warnings": _NoGrad}),
    }
