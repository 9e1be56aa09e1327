#!/usr/bin/env python3
"""C25: random programs through the Python interface; oracle is the same C++ library called through harness/bridge.cpp."""
import contextlib, ctypes, gc, hashlib, io, os, random, re, signal, sys, traceback
import numpy as np
import mrob
geo, reg = mrob.geometry, mrob.registration
B = ctypes.CDLL(os.environ["VERIF_BRIDGE"])
DP = ctypes.POINTER(ctypes.c_double)
B.vb_graph.restype = B.vb_reg.restype = ctypes.c_void_p
B.vb_chi2.restype = ctypes.c_double
B.vb_solve.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_double]
B.vb_chi2.argtypes = [ctypes.c_void_p, ctypes.c_int]
B.vb_node.argtypes = [ctypes.c_void_p, ctypes.c_int, DP, ctypes.c_int]
B.vb_factor.argtypes = [ctypes.c_void_p, ctypes.c_int, DP, ctypes.c_int, ctypes.c_int, DP, ctypes.c_int]
B.vb_state.argtypes = [ctypes.c_void_p, ctypes.c_int, DP]
B.vb_matrix.argtypes = [ctypes.c_void_p, ctypes.c_int, DP, ctypes.POINTER(ctypes.c_int)]
B.vb_free.argtypes = B.vb_reg_free.argtypes = [ctypes.c_void_p]
B.vb_reg_op.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, DP, DP]


class Skip(Exception):
    pass


class Abandon(Exception):
    pass


def P(a):
    """keeps the array alive while the pointer is in use (attribute of the pointer object)"""
    if a is None:
        return None
    a = np.ascontiguousarray(a, dtype=float)
    p = a.ctypes.data_as(DP)
    p._keep = a
    return p


G = dict(evals=0, skipped=0, checks=0, viol=0)
C, R, S, D = {}, {}, [], set()


class Case:
    def __init__(self, seed, idx, name):
        self.r = random.Random(seed * 1000003 + idx)
        self.idx, self.name, self.note, self.nviol = idx, name, "", 0
        self.h = hashlib.blake2b(digest_size=8)
        self.inputs = []       # (label, base array, its bytes) of everything passed in

    def seen(self, k, n=1):
        C[k] = C.get(k, 0) + n

    def viol(self, key, msg):
        m = (msg + " | " + self.note).replace("\n", " ").replace("\t", " ")[:3000]
        OUT.write("V\t%d\t%s\t%s\t%s\n" % (self.idx, self.name, key, m)); OUT.flush()
        G["viol"] += 1
        self.nviol += 1
        if self.nviol >= 5:
            raise Abandon()

    def ok(self, c, key, msg=""):
        G["checks"] += 1
        if not c:
            self.viol(key, msg)

    def near(self, a, b, key, tol=1e-9):
        G["checks"] += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            if a.size != b.size or a.squeeze().shape != b.squeeze().shape:
                return self.viol(key, "shape %s expected %s" % (a.shape, b.shape))
            a, b = a.reshape(-1), b.reshape(-1)
        if a.size == 0:
            return
        both = np.isnan(a) & np.isnan(b)
        s = 1 + (np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0)
        d = np.where(both | (a == b), 0, np.abs(a - b))
        e = np.max(d) / (tol * s) if not np.isnan(d).any() else float("inf")
        R[key] = max(R.get(key, 0), e)
        if not e <= 1:
            self.viol(key, "got %s expected %s" % (a.tolist(), b.tolist()))

    # ------------------------------------------------ inputs
    def vals(self, *shape, s=1.0):
        n = int(np.prod(shape))
        k = self.r.random()
        if k < 0.25:
            v = [float(self.r.randint(-3, 3)) for _ in range(n)]
        elif k < 0.4:
            v = [float(np.float32(self.r.uniform(-1, 1) * s)) for _ in range(n)]
        elif k < 0.47:
            s *= 10 ** self.r.uniform(-5, 5)
            v = [self.r.uniform(-1, 1) * s for _ in range(n)]
        else:
            v = [self.r.uniform(-1, 1) * s for _ in range(n)]
        a = np.array(v).reshape(shape)
        self.h.update(a.tobytes())
        return a

    def lay(self, a, kinds=None):
        """the same values in some memory layout; the base buffer is watched"""
        a = np.array(a, dtype=float)
        r = self.r
        ks = ["c", "f", "strided", "transposed", "window", "readonly", "bigendian", "list"]
        if np.all(a == np.round(a)):
            ks += ["int64", "int32", "int8", "bool" if np.all((a == 0) | (a == 1)) else "int16"]
        if np.all(a == a.astype(np.float32)):
            ks += ["float32"]
        if a.ndim == 1:
            ks += ["column", "matcol"]
        k = r.choice(kinds or ks)
        if k == "f":
            base = np.asfortranarray(a); v = base
        elif k == "strided":
            st = [r.randint(1, 3) for _ in a.shape]
            base = np.full([n * s + 1 for n, s in zip(a.shape, st)], 777.0)
            v = base[tuple(slice(0, n * s, s) for n, s in zip(a.shape, st))]; v[...] = a
        elif k == "negative":
            base = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)]); v = base[tuple(slice(None, None, -1) for _ in a.shape)]
        elif k == "transposed":
            base = np.array(a.T, order="C"); v = base.T
        elif k == "window":
            base = np.full([n + 4 for n in a.shape], -888.0); v = base[tuple(slice(2, 2 + n) for n in a.shape)]; v[...] = a
        elif k == "readonly":
            base = np.array(a); base.flags.writeable = False; v = base
        elif k == "bigendian":
            base = a.astype(">f8"); v = base
        elif k == "list":
            base = np.array(a); v = a.tolist()
        elif k in ("int64", "int32", "int16", "int8", "bool", "float32"):
            base = a.astype(k); v = base
        elif k == "column":
            base = np.array(a).reshape(-1, 1); v = base
        elif k == "matcol":
            base = np.full((a.size, 3), 5.0); base[:, 1] = a; v = base[:, 1]
        else:
            base = np.array(a); v = base
        self.seen("layout:" + k)
        self.inputs.append((k, base, base.tobytes()))
        return v

    def untouched(self, what):
        for k, base, b in self.inputs:
            self.ok(base.tobytes() == b, "input-modified:" + what, "layout " + k)

    def scribble(self):
        """the caller reuses its buffers"""
        for k, base, _ in self.inputs:
            if base.flags.writeable:
                base[...] = 0 if base.dtype.kind in "ib" else np.nan
        self.inputs = []


def pose(c, ang=3.0, s=5.0):
    v = c.vals(6)
    v[:3] *= c.r.uniform(0, ang) / max(1e-9, np.linalg.norm(v[:3])); v[3:] *= s
    o = np.zeros(16); B.vb_geo(0, None, None, P(v), 0, P2(o)); return o.reshape(4, 4).copy()


def P2(o):
    p = o.ctypes.data_as(DP); p._keep = o; return p


def ref(op, shape, a=None, b=None, v=None, n=0):
    o = np.full(max(1, int(np.prod(shape))), np.nan)
    rc = B.vb_geo(op, P(a), P(b), P(v), n, P2(o))
    assert rc == 0
    return o.reshape(shape)


def se3(c, T):
    k = c.r.randint(0, 3)
    if k == 0:
        return geo.SE3(c.lay(T))
    if k == 1:
        return geo.SE3(geo.SE3(np.array(T)))
    return geo.SE3(np.array(T))


def spd(c, n):
    F = c.vals(n, n)
    W = F @ F.T / n + 0.3 * np.eye(n)
    if c.r.random() < 0.3:
        W = np.diag([float(c.r.randint(1, 4)) for _ in range(n)])
    return (W + W.T) / 2


def xtype(e):
    return type(e).__name__


# ---------------------------------------------------------------- scenarios
def geometry(c):
    T = pose(c); U = pose(c); c.note = "geometry T %s U %s" % (T.tolist(), U.tolist())
    for _ in range(c.r.randint(4, 12)):
        k = c.r.randint(0, 17); A = se3(c, T); Bq = se3(c, U); c.seen("call:geo%d" % k)
        c.near(A.T(), T, "SE3-constructor", 1e-15)
        if k == 0:
            v = c.vals(6, s=3); X = geo.SE3(c.lay(v)); c.near(X.T(), ref(0, (4, 4), v=v), "SE3-exp"); T = X.T()
        elif k == 1:
            X = A.mul(Bq) if c.r.random() < 0.5 else A * Bq; c.near(X.T(), ref(1, (4, 4), T, U), "SE3-mul"); c.near(A.T(), T, "operand-modified"); c.near(Bq.T(), U, "operand-modified"); T = X.T()
        elif k == 2:
            v = c.vals(6); n = c.r.choice(["update", "update_lhs"]); getattr(A, n)(c.lay(v)); c.near(A.T(), ref(2, (4, 4), T, v=v), "SE3-" + n); T = A.T()
        elif k == 3:
            v = c.vals(6); A.update_rhs(c.lay(v)); c.near(A.T(), ref(3, (4, 4), T, v=v), "SE3-update_rhs"); T = A.T()
        elif k == 4:
            c.near(A.Ln(), ref(4, (6,), T), "SE3-Ln")
        elif k == 5:
            v = c.vals(3); c.near(A.transform(c.lay(v)), ref(5, (3,), T, v=v), "SE3-transform")
        elif k == 6:
            n = c.r.randint(0, 9); v = c.vals(n, 3) if n else np.zeros((0, 3)); c.near(A.transform_array(c.lay(v, None if n else ["c"])), ref(6, (n, 3), T, v=v, n=n)[:n] if n else v, "SE3-transform_array")
        elif k == 7:
            X = A.inv(); c.near(X.T(), ref(7, (4, 4), T), "SE3-inv"); c.near(A.T(), T, "operand-modified")
        elif k == 8:
            c.near(A.adj(), ref(8, (6, 6), T), "SE3-adj")
        elif k == 9:
            for op, n in ((9, "distance"), (10, "distance_rotation"), (11, "distance_trans")):
                f = getattr(A, n)
                c.near(f(Bq) if c.r.random() < 0.5 else f(rhs=Bq), ref(op, (), T, U), "SE3-" + n); c.near(f(), ref(op, (), T, np.eye(4)), "SE3-%s-default" % n)
        elif k == 10:
            c.near(A.R(), T[:3, :3], "SE3-R", 1e-15); c.near(A.t(), T[:3, 3], "SE3-t", 1e-15)
            for n in "TRt":
                X = getattr(A, n)(); X[...] = 9; c.near(A.T(), T, "returned-array-aliases-object")
        elif k == 11:
            M = np.array(T); bad = c.r.random() < 0.5
            if bad:
                M[c.r.randint(0, 3), c.r.randint(0, 3)] += c.r.choice([-1, 1]) * 0.3
            c.ok(bool(geo.isSE3(c.lay(M))) == bool(ref(12, (), M)), "isSE3", str(M.tolist())); c.ok(bool(geo.isSO3(c.lay(M[:3, :3]))) == bool(ref(28, (), M[:3, :3])), "isSO3")
        elif k == 12:
            v = c.vals(3, s=2); O = geo.SO3(c.lay(v)); Q = T[:3, :3]; c.near(O.R(), ref(20, (3, 3), v=v), "SO3-exp"); W = geo.SO3(c.lay(Q)); c.near(W.R(), Q, "SO3-constructor", 1e-15); M = O.R()
            c.near(O.mul(W).R(), ref(21, (3, 3), M, Q), "SO3-mul"); c.near(O.Ln(), ref(24, (3,), M), "SO3-Ln"); c.near(O.inv().R(), ref(25, (3, 3), M), "SO3-inv"); c.near(O.adj(), ref(26, (3, 3), M), "SO3-adj"); c.near(O.distance(W), ref(27, (), M, Q), "SO3-distance")
            Z = geo.SO3(O); u = c.vals(3); getattr(Z, c.r.choice(["update", "update_lhs"]))(c.lay(u)); c.near(Z.R(), ref(22, (3, 3), M, v=u), "SO3-update"); Z2 = geo.SO3(O); Z2.update_rhs(c.lay(u)); c.near(Z2.R(), ref(23, (3, 3), M, v=u), "SO3-update_rhs"); c.near(O.R(), M, "copy-shares-state", 1e-15)
            X = O.R(); X[...] = 4; c.near(O.R(), M, "returned-array-aliases-object")
        elif k == 13:
            v = c.vals(3); c.near(geo.hat3(c.lay(v)), ref(30, (3, 3), v=v), "hat3"); w = c.vals(6); c.near(geo.hat6(c.lay(w)), ref(31, (4, 4), v=w), "hat6"); c.near(geo.curley_wedge(c.lay(w)), ref(35, (6, 6), v=w), "curley_wedge")
        elif k == 14:
            q = c.vals(4) + 0.01; c.near(geo.quat_to_so3(c.lay(q)), ref(32, (3, 3), v=q), "quat_to_so3"); c.near(geo.so3_to_quat(c.lay(T[:3, :3])), ref(33, (4,), T[:3, :3]), "so3_to_quat"); v = c.vals(3, s=3); c.near(geo.rpy_to_so3(c.lay(v)), ref(34, (3, 3), v=v), "rpy_to_so3")
        elif k == 15:
            v = c.vals(6); O = geo.SO3(v[:3]); X = geo.SE3(O, c.lay(v[3:])); c.near(X.T(), ref(36, (4, 4), v=v), "SE3-from-parts"); O.update(np.ones(3)); c.near(X.T(), ref(36, (4, 4), v=v), "parts-shared")
        elif k == 16:
            X = geo.SE3(A); v = c.vals(6); X.update(c.lay(v)); c.near(A.T(), T, "copy-shares-state", 1e-15); A.update(v); c.near(X.T(), A.T(), "copy-shares-state", 1e-15)
        else:
            X = geo.SE3(); c.near(X.T(), np.eye(4), "default-constructor", 1e-15); X.update(np.ones(6)); c.near(geo.SE3().T(), np.eye(4), "default-constructor", 1e-15); c.near(A.distance(), ref(9, (), T, np.eye(4)), "SE3-distance-default"); c.near(geo.SO3().R(), np.eye(3), "default-constructor", 1e-15)
        c.untouched("geometry"); c.scribble()


def covariance(c):
    Ta, Tb = pose(c), pose(c); Sa, Sb = spd(c, 6) * 0.1, spd(c, 6) * 0.1; c.note = "covariance"
    a = geo.SE3Cov(se3(c, Ta), c.lay(Sa)); b = geo.SE3Cov(se3(c, Tb), c.lay(Sb)); c.untouched("SE3Cov"); c.scribble()
    c.near(a.T(), Ta, "SE3Cov-pose", 1e-15); c.near(a.cov(), Sa, "SE3Cov-cov", 1e-15); z = geo.SE3Cov(); c.near(z.T(), np.eye(4), "SE3Cov-default"); cp = geo.SE3Cov(a)
    for how, f in ((0, lambda: a.compound_2nd_order(b)), (0, lambda: a.compound_2nd_order(se3(c, Tb), c.lay(Sb))), (1, lambda: a.compound_4th_order(b)), (1, lambda: a.compound_4th_order(se3(c, Tb), c.lay(Sb))), (2, lambda: a * b), (3, lambda: a.mul(b))):
        oT, oS = np.zeros(16), np.zeros(36); B.vb_cov(how, P(Ta), P(Sa), P(Tb), P(Sb), P2(oT), P2(oS)); x = f()
        c.near(x.T(), oT.reshape(4, 4), "compound-pose-%d" % how); c.near(x.cov(), oS.reshape(6, 6), "compound-cov-%d" % how); y = x.cov(); y[...] = 3; c.near(x.cov(), oS.reshape(6, 6), "returned-array-aliases-object")
    c.near(a.cov(), Sa, "operand-modified", 1e-15); c.near(b.T(), Tb, "operand-modified", 1e-15); cp.update(np.ones(6)); c.near(a.T(), Ta, "copy-shares-state", 1e-15); c.near(a.inv().T(), ref(7, (4, 4), Ta), "SE3Cov-inherits"); c.near(a.Ln(), ref(4, (6,), Ta), "SE3Cov-inherits"); c.untouched("compound"); c.scribble()


def registration(c):
    n = c.r.randint(4, 30) if c.r.random() < 0.97 else c.r.randint(100, 1500); X = c.vals(n, 3, s=2); X[0] = [1, 0, 0]; X[1] = [0, 1, 0]; X[2] = [0, 0, 1]; X[3] = [0, 0, 0]
    T = pose(c, 0.5, 1); Y = (T[:3, :3] @ X.T).T + T[:3, 3] + 0.01 * c.vals(n, 3); c.note = "registration n=%d X %s" % (n, X.tolist()); o = np.zeros(16)
    w = (np.abs(c.vals(n)) + 0.5) * (10 ** c.r.uniform(-6, 6) if c.r.random() < 0.3 else 1); cx = np.vstack([spd(c, 3) for _ in range(n)]); cy = np.vstack([spd(c, 3) for _ in range(n)])
    for k in c.r.sample(range(6), 4):
        c.seen("call:reg%d" % k)
        if k == 0:
            B.vb_arun(P(X), P(Y), n, P2(o)); c.near(reg.arun(c.lay(X), c.lay(Y)).T(), o.reshape(4, 4), "arun", 1e-7)
        elif k == 1:
            B.vb_gicp(P(X), P(Y), P(cx), P(cy), n, P2(o)); c.near(reg.gicp(c.lay(X), c.lay(Y), c.lay(cx), c.lay(cy)).T(), o.reshape(4, 4), "gicp", 1e-7)
        elif k == 2:
            B.vb_weighted(P(X), P(Y), P(w), n, P2(o)); c.near(reg.weighted(c.lay(X), c.lay(Y), c.lay(w)).T(), o.reshape(4, 4), "weighted", 1e-7)
        else:
            F = X.copy(); F[:, 2] *= 0.2; F = (T[:3, :3] @ F.T).T + T[:3, 3]; q = np.zeros(4); B.vb_plane(k - 3, P(F), n, P2(q)); f = (reg.estimate_plane, reg.estimate_normal, reg.estimate_centroid)[k - 3]; c.near(f(c.lay(F)), q if k == 3 else q[:3], f.__name__, 1e-6)
        c.untouched("registration"); c.scribble()


KER = ["QUADRATIC", "CAUCHY", "HUBER", "MCCLURE", "RANSAC"]
NK = [("add_node_pose_2d", 3), ("add_node_landmark_2d", 2), ("add_node_pose_3d", 0), ("add_node_landmark_3d", 3), ("add_node_plane_4d", 4)]


class Twin:
    """one graph through Python and the same through C++"""

    def __init__(self, c):
        self.c = c
        k = c.r.choice([0, 0, 1, 2, 3, 4])
        self.k = k
        how = c.r.randint(0, 2)
        self.g = (mrob.FGraph() if k == 0 and how == 0 else mrob.FGraph(robust_type=getattr(mrob, KER[k])) if how == 1 else mrob.FGraph(getattr(mrob, KER[k])))
        self.q = B.vb_graph(k)
        self.kind, self.nf, self.states = [], 0, []
        c.seen("kernel:" + KER[k])

    def close(self):
        B.vb_free(self.q)

    def call(self, f, names, args, optional):
        """positional, keyword or mixed"""
        c = self.c
        opt = {k: v for k, v in optional.items() if v is not None}
        how = c.r.randint(0, 2)
        if how == 0 or not names:
            return f(*args, *(opt.values()))
        cut = c.r.randint(0, len(args)) if how == 1 else len(args)
        while cut < len(args) and any(n is None for n in names[cut:]):
            cut += 1
        kw = {n: a for n, a in zip(names[cut:], args[cut:])}; kw.update(opt)
        return f(*args[:cut], **kw)

    def node(self, k):
        c = self.c
        x = pose(c) if k == 2 else c.vals(NK[k][1], s=4)
        if k == 4:
            x[:3] += 0.01; x[:3] /= np.linalg.norm(x[:3]); x[3] = 12 + x[3]
        m = c.r.choice([None, None, 0, 1]); mode = None if m is None else (mrob.NODE_ANCHOR if m else mrob.NODE_STANDARD)
        a = se3(c, x) if k == 2 else c.lay(x)
        i = self.call(getattr(self.g, NK[k][0]), ["x"], [a], {"mode": mode})
        if k == 2 and c.r.random() < 0.5:
            a.update(np.ones(6))
        j = B.vb_node(self.q, k, P(x), m or 0); c.untouched(NK[k][0]); c.scribble()
        c.ok(i == j == len(self.kind), "node-id", "python %s, C++ %d, expected %d" % (i, j, len(self.kind))); self.kind.append(k); c.seen("call:" + NK[k][0])

    def factor(self):
        c = self.c; two = [i for i, k in enumerate(self.kind) if k == 0]; three = [i for i, k in enumerate(self.kind) if k == 2]; l2 = [i for i, k in enumerate(self.kind) if k == 1]; l3 = [i for i, k in enumerate(self.kind) if k == 3]; pl = [i for i, k in enumerate(self.kind) if k == 4]
        opts = []
        if two: opts += [0]
        if len(two) > 1: opts += [1, 1, 2]
        if two and l2: opts += [3]
        if three: opts += [4, 8]
        if len(three) > 1: opts += [5, 5]
        if three and l3: opts += [6]
        if three and pl: opts += [7]
        if not opts:
            return
        k = c.r.choice(opts); g = self.g; init = c.r.choice([None, None, False, True]); b = -1
        if k in (0, 1, 2):
            z = c.vals(3); W = spd(c, 3); a = c.r.choice(two)
        if k == 0:
            f = g.add_factor_1pose_2d; i = f(c.lay(z), a, c.lay(W)); name = "1pose_2d"
        elif k == 1:
            b = c.r.choice([x for x in two if x != a]); i = self.call(g.add_factor_2poses_2d, ["obs", "nodeOriginId", "nodeTargetId", "obsInvCov"], [c.lay(z), a, b, c.lay(W)], {"updateNodeTarget": init}); name = "2poses_2d"
        elif k == 2:
            b = c.r.choice([x for x in two if x != a]); i = self.call(g.add_factor_2poses_2d_odom, ["obs", "nodeOriginId", "nodeTargetId", "obsInvCov"], [c.lay(z), a, b, c.lay(W)], {}); name = "2poses_2d_odom"
        elif k == 3:
            z = np.array([c.r.uniform(0.5, 4), c.r.uniform(-3, 3)]); W = spd(c, 2); a = c.r.choice(two); b = c.r.choice(l2); i = self.call(g.add_factor_1pose_1landmark_2d, ["obs", "nodePoseId", "nodeLandmarkId", "obsInvCov"], [c.lay(z), a, b, c.lay(W)], {"initializeLandmark": init}); name = "1pose_1landmark_2d"
        elif k == 4:
            z = pose(c); W = spd(c, 6); a = c.r.choice(three); i = g.add_factor_1pose_3d(se3(c, z), a, c.lay(W)); name = "1pose_3d"
        elif k == 5:
            z = pose(c); W = spd(c, 6); a = c.r.choice(three); b = c.r.choice([x for x in three if x != a]); i = self.call(g.add_factor_2poses_3d, ["obs", None, "nodeTargetId", "obsInvCov"], [se3(c, z), a, b, c.lay(W)], {"updateNodeTarget": init}); name = "2poses_3d"
        elif k == 6:
            z = c.vals(3); W = spd(c, 3); a = c.r.choice(three); b = c.r.choice(l3); i = self.call(g.add_factor_1pose_1landmark_3d, ["obs", "nodePoseId", "nodeLandmarkId", "obsInvCov"], [c.lay(z), a, b, c.lay(W)], {"initializeLandmark": init}); name = "1pose_1landmark_3d"
        elif k == 7:
            z = c.vals(4); z[:3] += 0.01; z[3] = 10 + z[3]; W = spd(c, 4); a = c.r.choice(three); b = c.r.choice(pl); i = self.call(g.add_factor_1pose_1plane_4d, ["obs", "nodePoseId", "nodeLandmarkId", "obsInvCov"], [c.lay(z), a, b, c.lay(W)], {}); name = "1pose_1plane_4d"
        else:
            z = c.vals(9); z[6:] += 0.01; z[6:] /= np.linalg.norm(z[6:]); W = np.array([[c.r.uniform(0.5, 2)]]); a = c.r.choice(three); i = self.call(g.add_factor_1pose_point2plane, ["z_point_x", "z_point_y", "z_normal_y", "nodePoseId", "obsInf"], [c.lay(z[:3]), c.lay(z[3:6]), c.lay(z[6:]), a, c.lay(W)], {}); name = "1pose_point2plane"
        c.untouched(name); c.scribble()
        j = B.vb_factor(self.q, k, P(z), a, b, P(W), 1 if init else 0)
        if i is not None:
            c.ok(i == j == self.nf, "factor-id", "python %s, C++ %d, expected %d (%s)" % (i, j, self.nf, name))
        self.nf += 1; c.seen("call:add_factor_" + name); self.compare("after add_factor_%s init=%s" % (name, init))

    def solve(self):
        c = self.c; m, it, lam, tol = c.r.choice([None, 0, 1, 1]), c.r.choice([None, 1, 3, 8]), c.r.choice([None, 1e-3, 1.0]), c.r.choice([None, 1e-6])
        opt = {}
        if m is not None: opt["method"] = mrob.LM if m else mrob.GN
        if it is not None: opt["maxIters"] = it
        if lam is not None: opt["lambda"] = lam
        if tol is not None: opt["solutionTolerance"] = tol
        if c.r.random() < 0.3 and list(opt) == ["method", "maxIters", "lambda", "solutionTolerance"][:len(opt)]:
            self.g.solve(*opt.values())
        else:
            self.g.solve(**opt)
        B.vb_solve(self.q, m or 0, 30 if it is None else it, 1e-6 if lam is None else lam, 1e-2 if tol is None else tol); c.seen("call:solve-%s" % (["GN", "LM"][m or 0])); self.solved = True; self.compare("after solve %s" % opt); self.matrices()

    def compare(self, when):
        c = self.c; s = self.g.get_estimated_state(); c.ok(len(s) == len(self.kind), "number-of-states", when); c.ok(self.g.number_nodes() == len(self.kind) and self.g.number_factors() == self.nf, "counts", when); o = np.full(64, np.nan)
        for i, x in enumerate(s):
            q = B.vb_state(self.q, i, P2(o)); c.near(x, o[:(q // 100) * (q % 100)].reshape(q // 100, q % 100), "state:" + when.split(" init")[0].split(" {")[0], 1e-10)
        c.seen("states-compared", len(s))
        return s

    def matrices(self):
        c = self.c
        for k, n in enumerate(("get_information_matrix", "get_adjacency_matrix", "get_W_matrix", "get_vector_b", "get_chi2_array")):
            if c.r.random() < 0.5:
                continue
            rc = (ctypes.c_int * 2)(); B.vb_matrix(self.q, k, None, rc); o = np.zeros(max(1, rc[0] * rc[1])); B.vb_matrix(self.q, k, P2(o), rc); m = getattr(self.g, n)(); m = m.toarray() if k < 3 else m; c.near(m, o[:rc[0] * rc[1]].reshape(rc[0], rc[1]), n, 1e-9); c.seen("call:" + n)
            if k >= 3:
                m[...] = 7; c.near(getattr(self.g, n)(), o[:rc[0] * rc[1]].reshape(rc[0], rc[1]), "returned-array-aliases-object", 1e-9)

    def chi2(self):
        c = self.c; f = c.r.choice([None, True, False]); f = None if f is False and not getattr(self, "solved", False) else f
        a = self.g.chi2() if f is None else self.g.chi2(f) if c.r.random() < 0.5 else self.g.chi2(evaluateResidualsFlag=f); b = B.vb_chi2(self.q, 1 if f is None else int(f)); c.near(a, b, "chi2:%s" % f, 1e-9)


def anchored(t, c):
    """a graph that can be solved: priors on every pose"""
    for i, k in enumerate(t.kind):
        if k == 0:
            z = c.vals(3, s=3); W = spd(c, 3); t.g.add_factor_1pose_2d(z, i, W); B.vb_factor(t.q, 0, P(z), i, -1, P(W), 0); t.nf += 1
        if k == 2:
            z = pose(c); W = spd(c, 6); t.g.add_factor_1pose_3d(geo.SE3(z), i, W); B.vb_factor(t.q, 4, P(z), i, -1, P(W), 0); t.nf += 1


def graph(c):
    t = Twin(c); c.note = "graph kernel " + KER[t.k]
    try:
        mode = c.r.randint(0, 2)
        for _ in range(c.r.randint(2, 7)):
            t.node(c.r.choice({0: [0, 0, 1], 1: [2, 2, 3, 4], 2: [0, 1, 2, 3, 4]}[mode])); c.r.random() < 0.5 and t.factor()
        for _ in range(c.r.randint(1, 6)):
            t.factor()
        anchored(t, c); t.compare("after building"); t.chi2()
        for _ in range(c.r.randint(1, 3)):
            t.solve(); t.chi2()
            if c.r.random() < 0.3:
                t.node(c.r.choice([0, 2])); t.factor(); anchored(t, c)
            if c.r.random() < 0.2:
                t.g.print(); t.g.print(True); t.g.print(completePrint=False); t.compare("after print")
        s = t.compare("before aliasing"); keep = [np.array(x) for x in s]
        for x in s:
            x[...] = 1e6
        t.compare("after writing into the returned states"); u = t.g.get_estimated_state(); b = t.g.get_vector_b(); bb = np.array(b)
        t.g = None; gc.collect(); junk = [np.full(x.size, 3.0) for x in u for _ in range(4)]
        for x, y in zip(u, keep):
            c.near(x, y, "returned-state-dies-with-graph", 1e-15)
        c.near(b, bb, "returned-vector-dies-with-graph", 1e-15); c.seen("lifetimes", len(u)); del junk
    finally:
        t.close()


def bad_arrays(c, shape):
    n = shape[0]; o = []
    if len(shape) == 1:
        o = [np.zeros(n + 1), np.zeros(n - 1), np.zeros((n, 2)), np.zeros((2, n)), np.zeros((1, n)), np.zeros(0), np.zeros((n, 1, 1)), "text", None, geo.SE3(), [[1.0] * n, [1.0]]]
    else:
        m = shape[1]; o = [np.eye(n + 1)[:, :m], np.eye(n, m + 1), np.zeros(n) if n > 1 else np.zeros(2), np.zeros((n - 1, m)) if n > 1 else np.zeros((2, 2)), np.zeros((n, m, 1)), np.zeros((0, m)), "text", None, geo.SO3()]
    return c.r.choice(o)


def wrong(c):
    t = Twin(c); c.note = "wrong arguments"
    try:
        for k in (0, 0, 1, 2, 2, 3, 4):
            t.node(k)
        anchored(t, c); g = t.g; before = g.get_estimated_state(); chi = g.chi2(); nn, nf = g.number_nodes(), g.number_factors(); E = geo.SE3(pose(c))
        good = {"z3": np.ones(3), "z2": np.array([1.0, 0.2]), "z4": np.array([0, 0, 1.0, 9]), "W1": np.eye(1), "W2": np.eye(2), "W3": np.eye(3), "W4": np.eye(4), "W6": np.eye(6), "E": E}
        sig = [("add_factor_1pose_2d", ["z3", 0, "W3"]), ("add_factor_2poses_2d", ["z3", 0, 1, "W3"]), ("add_factor_2poses_2d_odom", ["z3", 0, 1, "W3"]), ("add_factor_1pose_1landmark_2d", ["z2", 0, 2, "W2"]), ("add_factor_1pose_3d", ["E", 3, "W6"]), ("add_factor_2poses_3d", ["E", 3, 4, "W6"]),
               ("add_factor_1pose_1landmark_3d", ["z3", 3, 5, "W3"]), ("add_factor_1pose_1plane_4d", ["z4", 3, 6, "W4"]), ("add_factor_1pose_point2plane", ["z3", "z3", "z3", 3, "W1"]), ("add_node_pose_2d", ["z3"]), ("add_node_landmark_2d", ["z2"]), ("add_node_landmark_3d", ["z3"]), ("add_node_plane_4d", ["z4"]), ("add_node_pose_3d", ["E"])]
        for _ in range(c.r.randint(4, 10)):
            f, a = c.r.choice(sig); i = c.r.randrange(len(a)); args = [good[x] if isinstance(x, str) else x for x in a]; x = a[i]
            args[i] = c.r.choice([nn, nn + 1, nn + 10 ** 6, -1, 2 ** 40, 1.5, None, "x", 4294967295, 4294967296]) if not isinstance(x, str) else c.r.choice([np.zeros(3), 5, None, "x"]) if x == "E" else bad_arrays(c, (int(x[1]),) * (2 if x[0] == "W" else 1))
            d = "%s argument %d = %r" % (f, i, args[i])
            try:
                getattr(g, f)(*args)
            except Exception as e:
                c.seen("rejected:" + xtype(e)); c.ok(True, "x")
            else:
                c.ok(False, "wrong-argument-accepted:" + f, d)
                return
            c.ok(g.number_nodes() == nn and g.number_factors() == nf, "counts-after-rejection:" + f, d)
            for u, v in zip(g.get_estimated_state(), before):
                c.near(u, v, "state-after-rejection:" + f, 1e-15)
            c.near(g.chi2(), chi, "chi2-after-rejection:" + f, 1e-12)
        A = geo.SE3(pose(c)); T = A.T(); n = c.r.randint(4, 9); X = c.vals(n, 3); Y = c.vals(n, 3)
        calls = [("transform", lambda: A.transform(bad_arrays(c, (3,)))), ("transform_array", lambda: A.transform_array(c.r.choice([np.zeros((3, 2)), np.zeros((3, 4)), np.zeros((2, 2, 2)), np.zeros(5), "x", None]))), ("update", lambda: A.update(bad_arrays(c, (6,)))), ("update_rhs", lambda: A.update_rhs(bad_arrays(c, (6,)))), ("mul", lambda: A.mul(c.r.choice([np.eye(4), None, geo.SO3()]))),
                 ("SE3", lambda: geo.SE3(c.r.choice([np.eye(5), np.zeros(5), np.zeros((3, 4)), "x", np.zeros((4, 4, 1))]))), ("SO3", lambda: geo.SO3(c.r.choice([np.eye(4), np.zeros(4), np.zeros((3, 2)), "x"]))), ("isSE3", lambda: geo.isSE3(c.r.choice([np.eye(3), np.zeros(4), None]))), ("isSO3", lambda: geo.isSO3(c.r.choice([np.eye(4), np.zeros(3), None]))),
                 ("arun", lambda: reg.arun(*c.r.choice([(X, Y[:-1]), (X[:, :2], Y), (X, Y[:, :2]), (X.T if n != 3 else X[:, :2], Y), (X, None), (np.zeros((n, 4)), np.zeros((n, 4)))]))), ("weighted", lambda: reg.weighted(*c.r.choice([(X, Y, np.ones(n - 1)), (X, Y, np.ones(n + 1)), (X, Y[:-1], np.ones(n)), (X[:, :2], Y[:, :2], np.ones(n)), (X, Y, np.ones((n, 2)))]))),
                 ("gicp", lambda: reg.gicp(*c.r.choice([(X, Y, np.ones((3 * n - 3, 3)), np.ones((3 * n, 3))), (X, Y, np.ones((3 * n, 3)), np.ones((3 * n - 1, 3))), (X, Y, np.ones((n, 3)), np.ones((n, 3))), (X, Y[:-1], np.ones((3 * n, 3)), np.ones((3 * n - 3, 3))), (X, Y, np.ones((3 * n, 2)), np.ones((3 * n, 3)))]))),
                 ("estimate_plane", lambda: reg.estimate_plane(c.r.choice([X[:, :2], np.zeros((n, 4)), "x", np.zeros((2, 2, 2))]))), ("estimate_normal", lambda: reg.estimate_normal(c.r.choice([X[:, :2], np.zeros((n, 4)), None]))), ("estimate_centroid", lambda: reg.estimate_centroid(c.r.choice([X[:, :2], np.zeros((n, 4)), None]))), ("hat3", lambda: geo.hat3(bad_arrays(c, (3,)))), ("hat6", lambda: geo.hat6(bad_arrays(c, (6,)))), ("quat_to_so3", lambda: geo.quat_to_so3(bad_arrays(c, (4,)))), ("SE3Cov", lambda: geo.SE3Cov(A, bad_arrays(c, (6, 6))))]
        for n_, f in c.r.sample(calls, 6):
            try:
                v = f()
            except Exception as e:
                c.seen("rejected:" + xtype(e)); c.ok(True, "x")
            else:
                c.ok(False, "wrong-argument-accepted:" + n_, repr(v))
            c.near(A.T(), T, "object-after-rejection:" + n_, 1e-15)
    finally:
        t.close()


SM = ["INITIALIZE", "GRADIENT_BENGIOS_NAG", "GRADIENT_ALL_POSES", "GN_HESSIAN", "GN_CLAMPED_HESSIAN", "LM_SPHER", "LM_ELLIP"]


def planes(c):
    r = reg.PlaneRegistration(); q = B.vb_reg(); c.note = "plane registration"; o = np.full(4000, np.nan)

    def op(k, a=0, b=0, v=None):
        return B.vb_reg_op(q, k, a, b, P(v), P2(o))
    try:
        T, n = c.r.randint(2, 5), c.r.randint(3, 5); r.set_number_planes_and_poses(n, T); op(0, n, T); ids = c.r.sample(range(50), n); npts = c.r.randint(4, 8)
        for i in ids:
            r.add_plane(i); op(1, i); W = pose(c, 3, 3)
            for t in range(T):
                for _ in range(npts):
                    x = c.vals(3); x[2] *= 0.02; x = W[:3, :3] @ x + W[:3, 3]; r.plane_push_back_point(i, t, c.lay(x)); op(2, i, t, x)
        c.untouched("plane_push_back_point"); c.scribble()

        def compare(when):
            op(4); c.near(r.get_error(), o[0], "error:" + when, 1e-8); op(8); c.ok(r.get_number_poses() == int(o[0]) == T, "number-poses", when)
            for t in range(T):
                op(5, t); X = r.get_trajectory(t); c.near(X.T(), o[:16].reshape(4, 4), "trajectory:" + when, 1e-8); X.update(np.ones(6)); c.near(r.get_trajectory(t).T(), o[:16].reshape(4, 4), "returned-pose-aliases-registration", 1e-8)
            op(11); c.near(r.get_last_pose().T(), o[:16].reshape(4, 4), "last-pose:" + when, 1e-8)
        solved = False
        for _ in range(c.r.randint(2, 5)):
            k = c.r.randint(0, 5); c.seen("call:registration%d" % k)
            if k <= 2:
                m = c.r.choice([None, 0, 1, 2, 3, 5, 6]); s = c.r.choice([None, True, False]); opt = {}
                if m is not None: opt["mode"] = getattr(reg, SM[m])
                if s is not None: opt["singleIteration"] = s
                v = r.solve(*opt.values()) if m is not None and c.r.random() < 0.5 else r.solve(**opt); op(3, 1 if m is None else m, int(bool(s))); c.ok(v == int(o[0]), "iterations", "%s %s" % (v, o[0])); compare("after solve " + SM[1 if m is None else m]); solved = True
            elif k == 3:
                X = pose(c, 0.3, 0.3); A = geo.SE3(X); r.initialize_last_pose_solution(A); op(6, v=X); c.near(A.T(), X, "argument-modified", 1e-15); A.update(np.ones(6)); compare("after initialize")
            elif k == 4:
                r.reset_solution(); op(7); compare("after reset")
            else:
                t = c.r.randrange(T); op(9, t); cl = r.get_point_cloud(t); m = int(o[0]); c.ok(len(cl) == m, "cloud-size", "%d %d" % (len(cl), m)); c.near(np.array(cl).reshape(-1), o[1:1 + 3 * len(cl)], "cloud", 1e-12)
                if cl:
                    cl[0][...] = 99; cl2 = r.get_point_cloud(t); c.near(cl2[0], o[1:4], "returned-array-aliases-object", 1e-12)
                if solved:
                    e = r.print_evaluate(); op(10); w = np.array(o[:13]); w[4] = e[4]; c.near(e[:7], w[:7], "print_evaluate", 1e-8)
        for f in (lambda: r.get_trajectory(T + c.r.randint(0, 9)), lambda: r.get_point_cloud(T + c.r.randint(0, 9)), lambda: r.plane_push_back_point(ids[0], T, np.ones(3)), lambda: r.plane_push_back_point(777, 0, np.ones(3)), lambda: r.plane_push_back_point(ids[0], 0, bad_arrays(c, (3,))), lambda: r.get_trajectory(-1)):
            if c.r.random() < 0.5:
                continue
            try:
                f()
            except Exception as e:
                c.seen("rejected:" + xtype(e)); c.ok(True, "x")
            else:
                c.seen("ignored-invalid-call")
        compare("after invalid calls")
        X = r.get_last_pose(); Y = X.T(); cl = r.get_point_cloud(0); z = [np.array(x) for x in cl]; r = None; gc.collect(); c.near(X.T(), Y, "returned-pose-dies-with-registration", 1e-15)
        for a, b in zip(cl, z):
            c.near(a, b, "returned-array-dies-with-registration", 1e-15)
    finally:
        B.vb_reg_free(q)


def scene(c):
    N, n, T = c.r.randint(1, 40), c.r.randint(1, 6), c.r.randint(1, 5); c.vals(3); c.note = "scene %d %d %d" % (N, n, T); s = reg.CreatePoints(N, n, T, c.r.choice([0.0, 0.01]), c.r.choice([0.0, 0.1])); c.near(s.get_trajectory(T - 1).T(), s.get_ground_truth_last_pose().T(), "scene-last-pose", 1e-15)
    r = reg.PlaneRegistration(); s.create_plane_registration(r); c.ok(r.get_number_poses() == T, "scene-poses", ""); cl = []
    for t in range(T):
        a, i = s.get_point_cloud(t), s.get_point_plane_ids(t); c.ok(len(a) == N and len(i) == N and all(0 <= x < n for x in i), "scene-cloud", "%d %d %s" % (len(a), len(i), i)); b = r.get_point_cloud(t)
        key = lambda x: tuple(np.asarray(x).reshape(-1)); c.ok(sorted(map(key, a)) == sorted(map(key, b)), "scene-points-lost", "t=%d" % t); cl.append((a, [np.array(x) for x in a])); q = [np.array(x) for x in a]
        a[0][...] = 55; i.append(3); c.near(s.get_point_cloud(t)[0], q[0], "returned-array-aliases-object", 1e-15); c.ok(len(s.get_point_plane_ids(t)) == N, "returned-list-aliases-object", ""); a[0][...] = q[0]
    for f in (s.get_point_cloud, s.get_point_plane_ids):
        try:
            f(T)
        except Exception as e:
            c.seen("rejected:" + xtype(e)); c.ok(True, "x")
        else:
            c.ok(False, "wrong-argument-accepted:scene-time", str(f))
    e = r.get_error(); s = None; gc.collect(); junk = [np.full(64, 1.5) for _ in range(50)]
    for a, b in cl:
        for x, y in zip(a, b):
            c.near(x, y, "returned-array-dies-with-scene", 1e-15)
    c.near(r.get_error(), e, "registration-dies-with-scene", 1e-12); c.ok(len(r.get_point_cloud(0)) == N, "registration-dies-with-scene", ""); del junk


def printed(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b), mrob.ostream_redirect():
        f()
    return b.getvalue()


def numbers(t):
    return np.array([float(x) for x in re.findall(r"(?<![\w.])-?\d+\.?\d*(?:e[-+]?\d+)?", t)])


def shown(c, t, want, what):
    """printed text shows the values, to the six digits of the default format"""
    x = numbers(t); w = np.asarray(want).ravel(); c.ok(x.size >= w.size, "printed:" + what, t[:300])
    x = x[-w.size:]; c.ok(bool(np.all(np.abs(x - w) <= 2e-5 * np.abs(w) + 1e-12)), "printed:" + what, t[:600]); c.seen("printed:" + what)


def printing(c):
    """what is printed, through the redirection offered to Python, is the object's value; named constants are the library's"""
    T = pose(c, 3, 5); A = se3(c, T); c.note = "printing %s" % T.tolist(); c.h.update(T.tobytes())
    shown(c, printed(A.print), T, "SE3"); c.near(A.T(), T, "print-modifies", 1e-15)
    O = geo.SO3(T[:3, :3]); shown(c, printed(O.print), T[:3, :3], "SO3")
    S = spd(c, 6); C_ = geo.SE3Cov(se3(c, T), S); shown(c, printed(C_.print), np.concatenate([T.ravel(), S.ravel()]), "SE3Cov")
    r = reg.PlaneRegistration(); n = c.r.randint(2, 5); r.set_number_planes_and_poses(1, n); r.initialize_last_pose_solution(se3(c, T)); tr = np.array([r.get_trajectory(k).T() for k in range(n)]); shown(c, printed(lambda: r.print(False)), tr, "PlaneRegistration"); c.near(r.get_plane_error(), r.get_error(), "get_plane_error", 1e-15)
    g = mrob.FGraph(); x = c.vals(3); g.add_node_pose_2d(x); g.add_node_landmark_2d(c.vals(2)); W = spd(c, 3); g.add_factor_1pose_2d(c.vals(3), 0, W); t = printed(lambda: g.print(c.r.random() < 0.5)); c.ok(len(t) > 0 and 1 in numbers(t) and 2 in numbers(t), "printed:FGraph", t[:300])
    for k, names in (((mrob.GN, mrob.LM), (0, 1)), ((mrob.NODE_STANDARD, mrob.NODE_ANCHOR, mrob.NODE_SCHUR_MARGI), (0, 1, 2)), ((mrob.NEWTON_RAPHSON, mrob.LEVENBERG_MARQUARDT_SPHER, mrob.LEVENBERG_MARQUARDT_ELLIP), (0, 1, 2)), ((mrob.QUADRATIC, mrob.CAUCHY, mrob.HUBER, mrob.MCCLURE, mrob.RANSAC), (0, 1, 2, 3, 4))):
        c.ok(len(set(int(q) for q in k)) == len(k), "constants-distinct", str(k))


def backwards(c):
    """negative strides, which numpy hands out for a[::-1]: read correctly or rejected"""
    c.note = "negative strides"; n = c.r.randint(4, 12); X, Y = c.vals(n, 3, s=2), c.vals(n, 3, s=2); X[:4] = np.vstack([np.eye(3), np.zeros((1, 3))]); T = pose(c); A = geo.SE3(T); o = np.zeros(16); q = np.zeros(4); v = c.vals(6); w = np.abs(c.vals(n)) + 0.5
    F = X.copy(); F[:, 2] *= 0.1
    rev = lambda a, k=None: c.lay(a, ["negative"])
    def node(f, k, x):
        g = mrob.FGraph(); getattr(g, f)(rev(x)); return g.get_estimated_state()[0].reshape(-1)
    def fac():
        g = mrob.FGraph(); a = g.add_node_pose_2d(np.zeros(3)); g.add_factor_1pose_2d(rev(v[:3]), a, rev(np.diag([1.0, 2, 3]))); g.solve(); return g.get_estimated_state()[0].reshape(-1)
    B.vb_arun(P(X), P(Y), n, P2(o)); B.vb_plane(0, P(F), n, P2(q)); v[2] = min(3, max(-3, v[2]))
    calls = [("SE3", lambda: geo.SE3(rev(v)).T(), ref(0, (4, 4), v=v)), ("SE3-matrix", lambda: geo.SE3(rev(T)).T(), T), ("transform", lambda: A.transform(rev(v[:3])), ref(5, (3,), T, v=v[:3])), ("transform_array", lambda: A.transform_array(rev(X)), ref(6, (n, 3), T, v=X, n=n)), ("arun", lambda: reg.arun(rev(X), rev(Y)).T(), o.reshape(4, 4)), ("estimate_plane", lambda: reg.estimate_plane(rev(F)), q),
             ("add_node_pose_2d", lambda: node("add_node_pose_2d", 0, v[:3]), v[:3]), ("add_node_landmark_2d", lambda: node("add_node_landmark_2d", 1, v[:2]), v[:2]), ("add_node_landmark_3d", lambda: node("add_node_landmark_3d", 3, v[:3]), v[:3]), ("add_factor_1pose_2d", fac, v[:3]), ("hat3", lambda: geo.hat3(rev(v[:3])), ref(30, (3, 3), v=v[:3]))]
    for name, f, want in c.r.sample(calls, 6):
        try:
            x = f()
        except TypeError:
            c.seen("negative-rejected:" + name); continue
        c.seen("negative-read:" + name); c.near(x, want, "negative-stride:" + name, 1e-7)
    c.untouched("negative"); c.scribble()


SCEN = [("backwards", 1, backwards), ("geometry", 5, geometry), ("covariance", 2, covariance), ("registration", 3, registration), ("graph", 8, graph), ("wrong", 3, wrong), ("planes", 3, planes), ("scene", 1, scene), ("printing", 1, printing)]
TOTAL = sum(w for _, w, _ in SCEN)


def main():
    global OUT
    a = dict(seed=1, out="/dev/stdout", progress="", limit=20, only="", **{"from": 0, "to": 1, "stride": 1})
    it = iter(sys.argv[1:])
    for x in it:
        if x == "--thorough":
            continue
        a[x[2:]] = next(it)
    OUT = open(a["out"], "a")
    prog = open(a["progress"], "w") if a["progress"] else None
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1) if a["out"] != "/dev/stdout" else None
    for k in range(int(a["from"]), int(a["to"]), int(a["stride"])):
        w = k % TOTAL
        for n, wt, f in SCEN:
            if w < wt:
                break
            w -= wt
        if a["only"] and a["only"] != n:
            continue
        if prog:
            prog.seek(0); prog.write("%020d %-40s\n" % (k, n)); prog.flush()
        signal.setitimer(signal.ITIMER_PROF, float(a["limit"]))
        c = Case(int(a["seed"]), k, n)
        try:
            f(c); G["evals"] += 1; c.seen("scenario:" + n); D.add(c.h.hexdigest())
        except Skip:
            G["skipped"] += 1
        except Abandon:
            G["evals"] += 1
        except Exception:
            try:
                c.viol("unexpected-exception:" + n, traceback.format_exc()[-1500:])
            except Abandon:
                pass
            G["evals"] += 1
        signal.setitimer(signal.ITIMER_PROF, 0)
        if not c.nviol and c.note and len(S) < 3 and k % 5 == 3:
            S.append("case %d %s: %s" % (k, n, c.note[:400]))
        if G["viol"] >= 40:
            break
    OUT.write("E\t%d\t%d\t%d\n" % (G["evals"], G["skipped"], G["checks"]))
    for k, v in sorted(C.items()):
        OUT.write("C\t%s\t%d\n" % (k, v))
    for k, v in sorted(R.items()):
        OUT.write("R\t%s\t%.6g\n" % (k, v))
    for s in S:
        OUT.write("S\t%s\n" % s)
    OUT.write("D\t" + "\t".join(sorted(D)) + "\n" if D else "D\n")
    OUT.write("DONE\n"); OUT.close()


if __name__ == "__main__":
    main()
