"""Trusted contracts of the torch.distributions building blocks the library derives its
distributions from: uniform and normal base laws, the invertible transforms, and the change
of variables. log(0) stands for minus infinity. Argument validation is not modelled."""
import torch as _t

from . import shim
from .core import Unsupported
from .tensor import Size, is_tensor

_log, _abs = shim.FN["log"], shim.FN["abs"]


def T(v):
    return v if is_tensor(v) else shim.FN["as_tensor"](v)


def _f(v):
    v = T(v)
    return v if v.dtype.is_floating_point else shim.to(v, _t.float32)


class Distribution:
    _dv_subject = True
    arg_constraints = {}
    has_rsample = False

    def __init__(self, batch_shape=Size(()), event_shape=Size(()), validate_args=None):
        if len(batch_shape) or len(event_shape):
            raise Unsupported("batched distribution")
        self._batch_shape, self._event_shape = batch_shape, event_shape

    batch_shape = property(lambda s: s._batch_shape)
    event_shape = property(lambda s: s._event_shape)

    def _extended_shape(self, sample_shape=Size(())):
        return Size(sample_shape)

    def _validate_sample(self, value):
        pass

    def rsample(self, sample_shape=Size(())):
        raise NotImplementedError

    def sample(self, sample_shape=Size(())):
        return self.rsample(sample_shape)

    def log_prob(self, value):
        raise NotImplementedError


class Uniform(Distribution):
    def __init__(self, low, high, validate_args=None):
        self.low, self.high = _f(low), _f(high)
        super().__init__()

    def rsample(self, sample_shape=Size(())):
        u = shim.rand(tuple(sample_shape), dtype=self.low.dtype)
        return self.low + u * (self.high - self.low)

    def log_prob(self, value):
        lb = shim.to(self.low <= value, self.low.dtype)
        ub = shim.to(self.high > value, self.low.dtype)
        return _log(lb * ub) - _log(self.high - self.low)


class Normal(Distribution):
    def __init__(self, loc, scale, validate_args=None):
        self.loc, self.scale = _f(loc), _f(scale)
        super().__init__()

    def rsample(self, sample_shape=Size(())):
        return self.loc + shim.randn(tuple(sample_shape), dtype=self.loc.dtype) * self.scale

    def log_prob(self, value):
        from .torchns import PI

        z = (value - self.loc) / self.scale
        return -(z * z) / 2 - _log(self.scale) - _log((2 * PI) ** 0.5 * T(1.0))


class Transform:
    _dv_subject = True

    def __call__(self, x):
        return self._call(x)


class ExpTransform(Transform):
    def _call(self, x):
        return x.exp()

    def inv(self, y):
        return y.log()

    def log_abs_det_jacobian(self, x, y):
        return x


class AffineTransform(Transform):
    def __init__(self, loc, scale, event_dim=0, cache_size=0):
        self.loc, self.scale = loc, scale

    def _call(self, x):
        return self.loc + self.scale * x

    def inv(self, y):
        return (y - self.loc) / self.scale

    def log_abs_det_jacobian(self, x, y):
        return _log(_abs(_f(self.scale))) + x * 0


class PowerTransform(Transform):
    def __init__(self, exponent, cache_size=0):
        self.exponent = exponent

    def _call(self, x):
        return x ** self.exponent

    def inv(self, y):
        return y ** (1 / self.exponent)

    def log_abs_det_jacobian(self, x, y):
        return _log(_abs(self.exponent * y / x))


class TransformedDistribution(Distribution):
    def __init__(self, base_distribution, transforms, validate_args=None):
        self.base_dist = base_distribution
        self.transforms = [transforms] if isinstance(transforms, Transform) else list(transforms)
        super().__init__()

    def rsample(self, sample_shape=Size(())):
        x = self.base_dist.rsample(sample_shape)
        for t in self.transforms:
            x = t(x)
        return x

    def log_prob(self, value):
        lp, y = 0.0, T(value)
        for t in reversed(self.transforms):
            x = t.inv(y)
            lp = lp - t.log_abs_det_jacobian(x, y)
            y = x
        return lp + self.base_dist.log_prob(y)


class LogNormal(TransformedDistribution):
    def __init__(self, loc, scale, validate_args=None):
        super().__init__(Normal(loc, scale), ExpTransform())

    loc = property(lambda s: s.base_dist.loc)
    scale = property(lambda s: s.base_dist.scale)


class constraints:
    nonnegative = "nonnegative"
    positive = "positive"
    real = "real"

    @staticmethod
    def greater_than(v):
        return ("greater_than", v)


def ns():
    from .torchns import NS

    return NS("torch.distributions", {n: globals()[n] for n in (
        "Distribution", "Uniform", "Normal", "Transform", "ExpTransform", "AffineTransform",
        "PowerTransform", "TransformedDistribution", "LogNormal", "constraints")})
