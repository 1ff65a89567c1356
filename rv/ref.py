"""Independent reference physics.  Shares no code with the package: band models are evaluated by Python
itself on numpy arrays, gradients by complex steps (exact to rounding for analytic models), surfaces by
marching tetrahedra / own contour stepping, orbits by fixed-step RK4."""
import numpy as np
from scipy.constants import hbar, e as QE, k as KB, m_e as ME

meV = QE * 1e-3
ANG = 1e-10
PS = 1e-12
KB_MEV = KB / meV
NS = {k: getattr(np, k) for k in ("cos", "sin", "tan", "exp", "sqrt", "log", "cosh", "sinh", "tanh")}
NS["pi"] = np.pi


class Model:
    """E(k) in meV, k in 1/Angstrom; v in m/s."""

    def __init__(self, expr, params, scale, a, b, c):
        self.expr, self.a, self.b, self.c, self.scale = expr, a, b, c, scale
        self.params = dict(params)
        self.code = compile(expr.strip(), "<band>", "eval")

    def E(self, kx, ky, kz):
        ns = dict(NS)
        ns.update(a=self.a, b=self.b, c=self.c, kx=kx, ky=ky, kz=kz)
        ns.update({k: v * self.scale for k, v in self.params.items()})
        r = eval(self.code, {"__builtins__": {}}, ns)
        return r + np.zeros_like(kx)

    def gradE(self, kx, ky, kz):
        h = 1e-30
        kx, ky, kz = (np.asarray(x, dtype=float) for x in (kx, ky, kz))
        out = []
        for i in range(3):
            k = [kx.astype(complex), ky.astype(complex), kz.astype(complex)]
            k[i] = k[i] + 1j * h
            out.append(np.imag(self.E(*k)) / h)
        return out

    def v(self, kx, ky, kz):
        f = meV * ANG / hbar
        return [g * f for g in self.gradE(kx, ky, kz)]


def model_of(p, **over):
    """reference model of a constructor dictionary"""
    q = dict(p)
    q.update(over)
    return Model(q.get("band_model", CUPRATE), q["band_params"], q["energy_scale"], q["a"], q["b"], q["c"])


CUPRATE = ("- mu - 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky)"
           " - 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
           " - 2*tz*(cos(a*kx) - cos(b*ky))**2*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)")


# ------------------------------------------------------------------ scattering
def fold(k, a):
    return k - 2 * np.pi / a * np.floor((k + np.pi / a) * a / (2 * np.pi))


def gamma(models, sp, lat, kx, ky, kz, v=None, dos_max=None):
    """total rate in 1/ps.  v (m/s, 3 arrays) and dos_max are needed by gamma_dos_func."""
    a, b, c = lat
    phi = np.arctan2(fold(ky, b), fold(kx, a))
    g = np.zeros(np.broadcast(kx, ky, kz).shape)
    for m in models:
        if m == "isotropic":
            g = g + sp["gamma_0"]
        elif m == "cos2phi":
            g = g + sp["gamma_k"] * np.abs(np.cos(2 * phi)) ** sp["power"]
        elif m == "cos2phi_coskz":
            g = g + sp["gamma_k"] * np.abs(np.cos(2 * phi)) ** sp["power"] * np.abs(np.cos(kz * c / 2)) ** sp["power_z"]
        elif m == "sin2phi":
            g = g + sp["gamma_k_sin"] * np.abs(np.sin(2 * phi)) ** sp["power_sin"]
        elif m == "gamma_dos_func":
            vn = np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
            g = g + sp["gamma_dos_max"] * (1 / (hbar * vn)) / dos_max
        else:
            raise KeyError(m)
    return g


def bvec(B, theta, phi):
    t, f = np.deg2rad(theta), np.deg2rad(phi)
    return B * np.array([np.sin(t) * np.cos(f), np.sin(t) * np.sin(f), np.cos(t)])


# ------------------------------------------------------------------ transport
def sigma_B0(v, dk, g, nbz=1.0):
    """v (3,n) m/s, dk (n) 1/A^2, g (n) 1/ps"""
    vn = np.sqrt((v ** 2).sum(0))
    w = dk / ANG ** 2 / (hbar * vn) * (PS / g)
    return 2 * QE ** 2 / (2 * np.pi) ** 3 / nbz * np.einsum("n,in,jn->ij", w, v, v)


def orbit_rhs(model, bv):
    f = QE * PS * ANG / hbar

    def rhs(k):
        v = np.array(model.v(k[0], k[1], k[2]))
        # backward in time, electron: hbar dk/dt = +e v x B
        return f * np.array([v[1] * bv[2] - v[2] * bv[1], v[2] * bv[0] - v[0] * bv[2], v[0] * bv[1] - v[1] * bv[0]])
    return rhs


def orbits(model, k0, bv, times, maxstep=0.02):
    """RK4 along `times` (ps), sub-stepped so that no step moves further than `maxstep`/a"""
    rhs = orbit_rhs(model, bv)
    amin = 1.0 / max(model.a, model.b, model.c)
    k = np.array(k0, dtype=float)
    out = np.empty(k.shape + (len(times),))
    out[..., 0] = k
    for i in range(1, len(times)):
        dt = times[i] - times[i - 1]
        k1 = rhs(k)
        n = max(1, int(np.ceil(np.max(np.abs(k1)) * dt / (maxstep * amin))))
        h = dt / n
        for s in range(n):
            if s:
                k1 = rhs(k)
            k2 = rhs(k + h / 2 * k1)
            k3 = rhs(k + h / 2 * k2)
            k4 = rhs(k + h * k3)
            k = k + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out[..., i] = k
    return out


def chambers(model, k0, dk, bv, gfun, tmax, N, nbz=1.0, scheme="grid", kt=None):
    """scheme 'grid': left sums on the N-step grid over tmax with the exposure accumulated at the end of
    each step (the package's documented discretization); 'exact': trapezoids (converged for large N)."""
    dt = tmax / N
    times = np.arange(N) * dt
    if kt is None:
        kt = orbits(model, k0, bv, times)
    v = np.array(model.v(kt[0], kt[1], kt[2]))
    g = gfun(kt, v)
    v0 = v[:, :, 0]
    if scheme == "grid":
        S = np.cumsum(np.where(np.arange(N) == 0, 0.0, dt) * g, axis=1)
        vj = np.sum(v * np.exp(-S), axis=2) * dt
    else:
        S = np.concatenate([np.zeros((g.shape[0], 1)), np.cumsum((g[:, 1:] + g[:, :-1]) / 2 * dt, axis=1)], axis=1)
        f = v * np.exp(-S)
        vj = (f.sum(2) - (f[:, :, 0] + f[:, :, -1]) / 2) * dt
    w = dk / ANG ** 2 / (hbar * np.sqrt((v0 ** 2).sum(0)))
    return 2 * QE ** 2 / (2 * np.pi) ** 3 / nbz * PS * np.einsum("n,in,jn->ij", w, v0, vj)


# ------------------------------------------------------------------ surfaces
_TET = np.array([[0, 5, 1, 6], [0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6]])
_CORN = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]])


def tetra_surface(E, axes, level=0.0):
    """triangles (m,3,3) of the iso-surface of E sampled on a rectilinear grid"""
    d = E - level
    lo = d.min(), d.max()
    if lo[0] > 0 or lo[1] < 0:
        return np.zeros((0, 3, 3))
    nx, ny, nz = d.shape
    c = np.stack([d[x:nx - 1 + x, y:ny - 1 + y, z:nz - 1 + z] for x, y, z in _CORN])
    act = np.nonzero((c.min(0) < 0) & (c.max(0) >= 0))
    if len(act[0]) == 0:
        return np.zeros((0, 3, 3))
    val = c[:, act[0], act[1], act[2]]                                   # (8, m)
    pos = np.stack([np.stack([axes[i][act[i] + _CORN[q, i]] for i in range(3)], -1) for q in range(8)])  # (8,m,3)
    tris = []
    for t in _TET:
        f, p = val[t], pos[t]
        neg = f < 0
        nn = neg.sum(0)

        def cross(i, j, sel):
            fi, fj = f[i, sel], f[j, sel]
            w = (fi / (fi - fj))[:, None]
            return p[i, sel] * (1 - w) + p[j, sel] * w
        for i in range(4):
            o = [j for j in range(4) if j != i]
            sel = ((nn == 1) & neg[i]) | ((nn == 3) & ~neg[i])
            if sel.any():
                tris.append(np.stack([cross(i, j, sel) for j in o], 1))
        for i, j in ((0, 1), (0, 2), (0, 3)):
            k, l = [q for q in range(4) if q not in (i, j)]
            sel = (nn == 2) & (neg[i] == neg[j])
            if sel.any():
                A, B, C, D = cross(i, k, sel), cross(i, l, sel), cross(j, l, sel), cross(j, k, sel)
                tris.append(np.stack([A, B, C], 1))
                tris.append(np.stack([A, C, D], 1))
    return np.concatenate(tris)


def tri_area(tr):
    return np.linalg.norm(np.cross(tr[:, 1] - tr[:, 0], tr[:, 2] - tr[:, 0]), axis=1) / 2


def grid_axes(kmax, lat, n):
    return [np.linspace(-kmax[i] / lat[i], kmax[i] / lat[i], n[i]) for i in range(3)]


def surface_integral(model, kmax, n, f, level=0.0):
    """integrals of the functions f(kx,ky,kz) over the iso-surface in the box, at grid n"""
    ax = grid_axes(kmax, (model.a, model.b, model.c), n)
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    tr = tetra_surface(model.E(X, Y, Z), ax, level)
    ar = tri_area(tr)
    ce = tr.mean(1)
    return [float(np.sum(ar * g(ce[:, 0], ce[:, 1], ce[:, 2]))) for g in f], tr, ar


def contour_segments(E, ax, ay, level=0.0):
    """segments (m,2,2) of the 2-D iso-line by splitting every cell into two triangles"""
    d = E - level
    segs = []
    X, Y = np.meshgrid(ax, ay, indexing="ij")
    P = np.stack([X, Y], -1)
    for tri in (((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 1), (0, 1))):
        nx, ny = d.shape
        f = np.stack([d[i:nx - 1 + i, j:ny - 1 + j].ravel() for i, j in tri])
        p = np.stack([P[i:nx - 1 + i, j:ny - 1 + j].reshape(-1, 2) for i, j in tri])
        neg = f < 0
        nn = neg.sum(0)
        for i in range(3):
            j, k = [q for q in range(3) if q != i]
            sel = ((nn == 1) & neg[i]) | ((nn == 2) & ~neg[i])
            if sel.any():
                def cr(q):
                    w = (f[i, sel] / (f[i, sel] - f[q, sel]))[:, None]
                    return p[i, sel] * (1 - w) + p[q, sel] * w
                segs.append(np.stack([cr(j), cr(k)], 1))
    return np.concatenate(segs) if segs else np.zeros((0, 2, 2))


def seg_length(s):
    return np.linalg.norm(s[:, 1] - s[:, 0], axis=1)


def occupied_fraction(model, kmax, n, shift=0.0):
    ax = grid_axes(kmax, (model.a, model.b, model.c), n)
    E = model.E(*np.meshgrid(*ax, indexing="ij"))
    return E, ax
