"""Recording stand-ins used as fields: they only observe."""
import numpy as np
import scipy.constants as ct
from wake_t import ParticleBunch
from wake_t.fields.base import Field
from wake_t.fields.numerical_field import NumericalField

TICK = 1e-12          # seconds per model tick


def make_bunch(i, pz=2., n=1, **kw):
    """Slow bunch identified by its (constant) y position."""
    x = np.zeros(n)
    y = np.full(n, 1e-3*(i+1))
    xi = np.zeros(n)
    return ParticleBunch(
        w=np.full(n, 1e6), x=x, y=y, xi=xi, px=np.zeros(n), py=np.zeros(n),
        pz=np.full(n, float(pz)), name=kw.pop('name', 'b%d' % i), **kw)


def slip(pz=2.):
    """d(xi)/dt of a bunch made by make_bunch."""
    return ct.c * (pz/np.sqrt(1 + pz**2) - 1)


class TooLong(RuntimeError):
    pass


class Recorder(Field):
    """Records when, for which bunch and where the fields are requested."""

    def __init__(self, log, limit=20000):
        super().__init__()
        self.log = log
        self.limit = limit

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        if len(self.log) > self.limit:
            raise TooLong('tracking does not end')
        self.log.append(('gather', int(round(float(y[0])/1e-3)) - 1,
                         float(t), float(z[0])))


class RecordingNumerical(NumericalField):
    """A numerical field that records its refreshes and uses."""

    def __init__(self, log, idx, period, force_even=False, limit=20000):
        # (not forcing anything is the default)
        super().__init__(period, **(
            {'force_even_updates': True} if force_even else {}))
        self.log = log
        self.idx = idx
        self.limit = limit
        self.version = None
        self.n_init = 0

    def _note(self, *e):
        if len(self.log) > self.limit:
            raise TooLong('tracking does not end')
        self.log.append(e)

    def _initialize_properties(self, bunches):
        self.n_init += 1
        self.version = 0
        self._note('init', self.idx)

    def _evolve_properties(self, bunches):
        self.version += 1
        self._note('evolve', self.idx)

    def _calculate_field(self, bunches):
        self._note('refresh', self.idx, float(self.t),
                   tuple((b.name, float(b.xi[0]), float(b.prop_distance))
                         for b in bunches))

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        self._note('use', self.idx, int(round(float(y[0])/1e-3)) - 1,
                   float(t), self.version)
