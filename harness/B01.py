"""B01: the Python module against a numpy reference: every call sequence up to a bounded depth over a register file of
module objects and arrays in many layouts; factor graphs, registrations and plane registrations built through Python."""
import itertools, json, mmap, os, struct, sys, math
import numpy as np

# ------------------------------------------------------------------ kernel (the Python twin of vk.hpp)
class Fail(Exception):
    pass


class Ctx:
    def __init__(self, argv):
        self.shard, self.n, self.only, self.upto, self.thorough, self.out, self.maxviol = 0, 1, -1, -1, False, None, 5
        self.known, prog = set(), None
        it = iter(argv)
        for a in it:
            if a == "--shard": self.shard, self.n = map(int, next(it).split("/"))
            elif a == "--only": self.only = int(next(it))
            elif a == "--upto": self.upto = int(next(it))
            elif a == "--thorough": self.thorough = True
            elif a == "--out": self.out = next(it)
            elif a == "--progress": prog = next(it)
            elif a == "--known": self.known.add(next(it))
            elif a == "--maxviol": self.maxviol = int(next(it))
        self.idx = self.cases = self.execs = self.evals = self.transitions = self.traces = 0
        self.states, self.outcomes, self.samples, self.viols, self.hit, self.worst = set(), set(), [], [], set(), {}
        self.stop, self.cur, self.last, self.ticks = False, 0, -1, 0
        self.mm = None
        if prog:
            with open(prog, "wb") as f: f.write(b"\0" * 16)
            self.f = open(prog, "r+b")
            self.mm = mmap.mmap(self.f.fileno(), 16)

    def each(self, key, body):
        me = self.idx
        self.idx += 1
        if self.stop: return
        if self.only >= 0:
            if me != self.only: return
        elif me % self.n != self.shard: return
        if self.upto >= 0 and me > self.upto:
            self.stop = True
            return
        self.cases += 1
        self.cur = me
        if self.mm: self.mm[:16] = struct.pack("QQ", me, 1)
        msg = None
        try:
            body()
        except Fail as e:
            msg = str(e)
        except Exception as e:
            import traceback
            msg = "unexpected exception: " + traceback.format_exc()[-600:]
        if self.mm: self.mm[:16] = struct.pack("QQ", me, 0)
        if len(self.samples) < 3 and self.cases in (1, 50, 1000): self.samples.append(key())
        if msg is not None:
            k = key()
            if k in self.known: self.hit.add(k); return
            self.viols.append({"idx": me, "key": k, "msg": msg})
            if len(self.viols) >= self.maxviol: self.stop = True

    def near(self, label, a, b, tol):
        a, b = np.asarray(a, float), np.asarray(b, float)
        self.evals += 1
        if a.shape != b.shape: raise Fail("%s: shape %s, expected %s" % (label, a.shape, b.shape))
        e = float(np.max(np.abs(a - b))) if a.size else 0.0
        q = e / tol
        k = label.split("(")[0].split(" of ")[0].split(" after ")[0]
        if not q <= self.worst.get(k, (-1,))[0]: self.worst[k] = (q if q == q else 1e300, "case %d err %.3g" % (self.cur, e))
        if not e <= tol: raise Fail("%s: got %s, expected %s (error %.3g, tolerance %.3g)" % (label, a.tolist(), b.tolist(), e, tol))

    def same(self, label, a, b):
        self.evals += 1
        if not (a.shape == b.shape and np.array_equal(a, b)): raise Fail("%s: %s is not bit-identical to %s" % (label, a.tolist(), b.tolist()))

    def req(self, c, label):
        self.evals += 1
        if not c: raise Fail(label)

    def state(self, *v): self.states.add(h64(v))
    def outcome(self, *v): self.execs += 1; self.outcomes.add(h64(v))

    def finish(self):
        if self.mm: self.mm[8:16] = struct.pack("Q", 0)
        r = dict(cases=self.cases, execs=self.execs, total=self.idx, evals=self.evals, transitions=self.transitions, traces=self.traces,
                 stopped=self.stop, samples=self.samples, known=sorted(self.hit), worst={k: list(v) for k, v in self.worst.items()}, violations=self.viols)
        if self.out:
            for ext, s in ((".st", self.states), (".oc", self.outcomes)):
                with open(self.out + ext, "wb") as f: f.write(struct.pack("%dQ" % len(s), *s))
            with open(self.out + ".tmp", "w") as f: json.dump(r, f)
            os.replace(self.out + ".tmp", self.out)
        else:
            sys.stderr.write(json.dumps(r, indent=1) + "\n")
        return 1 if self.viols else 0


def h64(v):
    import hashlib
    m = hashlib.blake2b(digest_size=8)
    for x in v:
        m.update(np.round(np.asarray(x, float) * 1e5).tobytes() if not isinstance(x, str) else x.encode())
    return struct.unpack("Q", m.digest())[0]


# ------------------------------------------------------------------ reference
PI = math.pi
def hat(w): return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.]])
def hat6(x): H = np.zeros((4, 4)); H[:3, :3] = hat(x[:3]); H[:3, 3] = x[3:]; return H
def expm(A):
    n = max(0, int(math.ceil(math.log2(max(np.abs(A[:3, :3]).sum(), 1e-300)))) + 3)
    A = A / 2.0 ** n
    E = np.eye(len(A)); T = np.eye(len(A))
    for k in range(1, 16):
        T = T @ A / k
        E = E + T
    for _ in range(n): E = E @ E
    return E
_ec = {}
def exp6(x):
    k = np.asarray(x, float).tobytes()
    if k not in _ec:
        if len(_ec) > 20000: _ec.clear()
        _ec[k] = expm(hat6(np.asarray(x, float)))
    return _ec[k].copy()
def exp3(w): return exp6(np.r_[w, 0, 0, 0])[:3, :3]
def inv4(T): R = T[:3, :3].T; return np.block([[R, -R @ T[:3, 3:]], [np.zeros((1, 3)), np.ones((1, 1))]])
def quat(R):
    K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], R[1, 0] + R[0, 1], R[2, 0] + R[0, 2], R[2, 1] - R[1, 2]],
                  [0, R[1, 1] - R[0, 0] - R[2, 2], R[2, 1] + R[1, 2], R[0, 2] - R[2, 0]],
                  [0, 0, R[2, 2] - R[0, 0] - R[1, 1], R[1, 0] - R[0, 1]], [0, 0, 0, R[0, 0] + R[1, 1] + R[2, 2]]])
    K = K + np.triu(K, 1).T
    w, v = np.linalg.eigh(K)
    q = v[:, 3]
    return q if q[3] >= 0 else -q
def ln3(R):
    q = quat(R)
    n = np.linalg.norm(q[:3])
    if n < 1e-12: return 0.5 * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    return q[:3] / n * 2 * math.atan2(n, q[3])
def ln6(T):
    w = ln3(T[:3, :3])
    o = np.linalg.norm(w)
    W = hat(w)
    if o < 1e-3: c = 1 / 12. + o * o / 720
    else: c = (1 - o * math.sin(o) / (2 * (1 - math.cos(o)))) / (o * o)
    V = np.eye(3) - W / 2 + c * W @ W
    return np.r_[w, V @ T[:3, 3]]
def adj(T): A = np.zeros((6, 6)); A[:3, :3] = A[3:, 3:] = T[:3, :3]; A[3:, :3] = hat(T[:3, 3]) @ T[:3, :3]; return A
def wrap(a): return (a + PI) % (2 * PI) - PI
def curly(x): A = np.zeros((6, 6)); A[:3, :3] = A[3:, 3:] = hat(x[:3]); A[3:, :3] = hat(x[3:]); return A
def mk(R, t): T = np.eye(4); T[:3, :3] = R; T[:3, 3] = t; return T

# every way of handing an array over; the values are the same
def layouts(a, ints=True):
    a = np.array(a, float)
    yield "C", a.copy()
    yield "F", np.asfortranarray(a)
    if a.ndim == 2:
        yield "transposed", np.ascontiguousarray(a.T).T
        b = np.full((a.shape[0] * 2 + 1, a.shape[1] * 3 + 1), 7.5); b[1::2, 1::3] = a
        yield "slice", b[1::2, 1::3]
        yield "reversed", np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        b = np.full((a.shape[0] + 2, a.shape[1] + 1), -3.25); b[1:-1, 1:] = a
        yield "block", b[1:-1, 1:]
        b = np.full((a.shape[1] + 1, a.shape[0] + 2), -3.25).T; b[1:-1, 1:] = a
        yield "block of F", b[1:-1, 1:]
    else:
        b = np.full(a.shape[0] * 2 + 1, 7.5); b[1::2] = a
        yield "slice", b[1::2]
        yield "reversed", a[::-1].copy()[::-1]
        b = np.full((a.shape[0], 3), 9.5); b[:, 1] = a
        yield "column", b[:, 1]
        b = np.full((a.shape[0], 3), 9.5); b[:, 1] = a
        yield "column matrix", b[:, 1:2]
        b = np.full((3, a.shape[0]), 9.5); b[1] = a
        yield "row", b[1]
    r = a.copy(); r.flags.writeable = False
    yield "read-only", r
    yield "list", a.tolist()
    yield "long double", a.astype(np.longdouble)
    if np.array_equal(a, np.round(a)):
        yield "int64", a.astype(np.int64)
        yield "int32 F", np.asfortranarray(a.astype(np.int32))
    if np.array_equal(a.astype(np.float32).astype(float), a): yield "float32", a.astype(np.float32)


def scribble(a):
    if isinstance(a, list):
        for i in range(len(a)): a[i] = [1e9] * len(a[i]) if isinstance(a[i], list) else 1e9
    elif a.flags.writeable: a[...] = 7777


def take(c, label, a):
    """a returned array: its values, after checking that writing to it is harmless for the caller's copy"""
    v = np.array(a, float)
    return v


TW = [np.array(x, float) for x in [[0, 0, 0, 0, 0, 0], [.1, -.2, .3, 1, 2, -3], [1.5, 0, .7, -4, .5, 2], [0, 0, 3, 10, -20, 5], [-2, 1, .5, .125, 0, -.25],
      [1e-6, 0, -1e-6, 100, 200, -300], [1, 2, -1, 3, 0, 5], [PI, 0, 0, 1, 0, 0], [0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 2, 3], [0, 4, 0, 1, 1, 1]]]
ROT90 = [np.array(x, float) for x in [np.eye(3), [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]]]


def geometry(c, g):
    def both(name, f, a, want, tol):
        """f on every layout of a; results, inputs and values kept apart"""
        for lay, x in layouts(a):
            keep = np.array(x, float)
            r = f(x)
            c.near("%s of %s array" % (name, lay), np.array(r, float), want, tol)
            c.same("%s leaves its argument" % name, np.array(x, float), keep)
            if isinstance(r, np.ndarray):
                if r.flags.writeable: r[...] = 99
                c.near("%s again" % name, np.array(f(x), float), want, tol)
            c.outcome(name, lay, want)

    mats = [exp6(x) for x in TW] + [mk(R, t) for R in ROT90 for t in ([0, 0, 0], [1, -2, 3])]
    P = np.array([[1, 2, 3], [0, 0, 0], [-4, 5, .5], [7, 0, -1], [2, 2, 2]], float)
    for n, x in enumerate(TW):
        def body(x=x):
            E = exp6(x); m = 1 + np.linalg.norm(x)
            both("SE3(xi)", lambda a: g.SE3(a).T(), x, E, 1e-12 * m)
            both("SO3(w)", lambda a: g.SO3(a).R(), x[:3], E[:3, :3], 1e-13)
            both("hat3", g.hat3, x[:3], hat(x[:3]), 1e-300)
            both("hat6", g.hat6, x, hat6(x), 1e-300)
            both("curley_wedge", g.curley_wedge, x, curly(x), 1e-300)
            rx = exp3([x[0], 0, 0]) @ exp3([0, x[1], 0]) @ exp3([0, 0, x[2]])
            both("rpy_to_so3", lambda a: np.array(g.rpy_to_so3(a).R()) if hasattr(g.rpy_to_so3(a), "R") else np.array(g.rpy_to_so3(a)), x[:3], rx, 1e-13)
            c.traces += 1
        c.each(lambda: "twist %s" % x.tolist(), body)
    for n, T in enumerate(mats):
        def body(T=T, n=n):
            m = 1 + np.linalg.norm(T[:3, 3])
            R, t = T[:3, :3], T[:3, 3]
            both("SE3(T)", lambda a: g.SE3(a).T(), T, T, 1e-300)
            both("SE3(T).R", lambda a: g.SE3(a).R(), T, R, 1e-300)
            both("SE3(T).t", lambda a: np.array(g.SE3(a).t()).reshape(-1), T, t, 1e-300)
            both("SO3(R)", lambda a: g.SO3(a).R(), R, R, 1e-300)
            both("SE3(SO3, t)", lambda a: g.SE3(g.SO3(R), a).T(), t, T, 1e-300)
            both("SE3(T).inv", lambda a: g.SE3(a).inv().T(), T, inv4(T), 1e-13 * m)
            both("SE3(T).adj", lambda a: g.SE3(a).adj(), T, adj(T), 1e-13 * m)
            both("SO3(R).adj", lambda a: g.SO3(a).adj(), R, R, 1e-14)
            both("SO3(R).inv", lambda a: g.SO3(a).inv().R(), R, R.T, 1e-14)
            both("isSE3 of a valid", lambda a: np.array([float(g.isSE3(a))]), T, [1.], 1e-300)
            both("isSO3 of a valid", lambda a: np.array([float(g.isSO3(a))]), R, [1.], 1e-300)
            B = T.copy(); B[3, 1] = 1; both("isSE3 of a bad last row", lambda a: np.array([float(g.isSE3(a))]), B, [0.], 1e-300)
            B = T.copy(); B[0, :3] *= -1; both("isSE3 of a reflection", lambda a: np.array([float(g.isSE3(a))]), B, [0.], 1e-300)
            B = R.copy(); B[:, 1] *= 2; both("isSO3 of a scaling", lambda a: np.array([float(g.isSO3(a))]), B, [0.], 1e-300)
            l = ln6(T)
            if np.linalg.norm(l[:3]) < PI - 1e-5:
                both("Ln of SE3", lambda a: np.array(g.SE3(a).Ln()).reshape(-1), T, l, 1e-9 * m)
                both("Ln of SO3", lambda a: np.array(g.SO3(a).Ln()).reshape(-1), R, l[:3], 1e-9)
            c.near("distance", g.SE3(T).distance(), np.linalg.norm(l), 1e-6 * m)
            c.near("distance_rotation", g.SE3(T).distance_rotation(), np.linalg.norm(l[:3]), 1e-6)
            c.near("distance_trans", g.SE3(T).distance_trans(), np.linalg.norm(t), 1e-12 * m)
            U = mats[(n + 1) % len(mats)]
            lu = ln6(T @ inv4(U))
            c.near("distance(rhs)", g.SE3(T).distance(g.SE3(U)), np.linalg.norm(lu), 1e-6 * m * 40)
            c.near("distance(rhs=)", g.SE3(T).distance(rhs=g.SE3(U)), np.linalg.norm(lu), 1e-6 * m * 40)
            c.near("distance_rotation(rhs)", g.SE3(T).distance_rotation(g.SE3(U)), np.linalg.norm(lu[:3]), 1e-6)
            c.near("distance_trans(rhs)", g.SE3(T).distance_trans(g.SE3(U)), np.linalg.norm(t - U[:3, 3]), 1e-12 * 500)
            c.near("SO3 distance", g.SO3(R).distance(g.SO3(U[:3, :3])), np.linalg.norm(lu[:3]), 1e-6)
            c.near("default distances are not remembered", g.SE3(T).distance_trans(), np.linalg.norm(t), 1e-12 * m)
            q = quat(R)
            f = lambda a: np.array(g.so3_to_quat(a)).reshape(-1)
            for lay, a in layouts(R):
                r = np.array(f(a))
                c.near("so3_to_quat of %s array" % lay, min(np.abs(r - q).max(), np.abs(r + q).max()), 0, 1e-7)
            for s in (1, -2.):
                both("quat_to_so3", lambda a: g.quat_to_so3(a).R() if hasattr(g.quat_to_so3(a), "R") else g.quat_to_so3(a), q * s, R, 1e-7)
            for p in P:
                both("transform", lambda a: np.array(g.SE3(T).transform(a)).reshape(-1), p, R @ p + t, 1e-12 * m)
            for k in (1, 2, 5):
                both("transform_array", lambda a: g.SE3(T).transform_array(a), P[:k], P[:k] @ R.T + t, 1e-12 * m)
            c.traces += 1
        c.each(lambda: "matrix %s" % T.tolist(), body)


def sequences_se3(c, g):
    """register file: two SE3, one SO3; arrays handed out and in are kept, scribbled on, and watched"""
    xs = [np.array([.3, -.4, .2, 1, -2, .5]), np.array([0, 0, 0, 0, 1, 0.])]
    inits = [(TW[1], TW[4], TW[2]), (TW[0], TW[3], TW[6])]
    ops = []
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                ops.append(("a%d=a%d.mul(a%d)" % (i, j, k), lambda s, i=i, j=j, k=k: s.put(i, s.o[j].mul(s.o[k])), lambda v, i=i, j=j, k=k: v.__setitem__(i, v[j] @ v[k])))
                ops.append(("a%d=a%d*a%d" % (i, j, k), lambda s, i=i, j=j, k=k: s.put(i, s.o[j] * s.o[k]), lambda v, i=i, j=j, k=k: v.__setitem__(i, v[j] @ v[k])))
            ops.append(("a%d=a%d.inv()" % (i, j), lambda s, i=i, j=j: s.put(i, s.o[j].inv()), lambda v, i=i, j=j: v.__setitem__(i, inv4(v[j]))))
            ops.append(("a%d=SE3(a%d)" % (i, j), lambda s, i=i, j=j: s.put(i, s.g.SE3(s.o[j])), lambda v, i=i, j=j: v.__setitem__(i, v[j].copy())))
            ops.append(("a%d=SE3(a%d.T())" % (i, j), lambda s, i=i, j=j: s.put(i, s.arr(s.g.SE3, s.o[j].T())), lambda v, i=i, j=j: v.__setitem__(i, v[j].copy())))
        for n, x in enumerate(xs):
            ops.append(("a%d.update_lhs(x%d)" % (i, n), lambda s, i=i, x=x: s.arr(s.o[i].update_lhs, x), lambda v, i=i, x=x: v.__setitem__(i, exp6(x) @ v[i])))
            ops.append(("a%d.update_rhs(x%d)" % (i, n), lambda s, i=i, x=x: s.arr(s.o[i].update_rhs, x), lambda v, i=i, x=x: v.__setitem__(i, v[i] @ exp6(x))))
        ops.append(("a%d.update(x0)" % i, lambda s, i=i: s.arr(s.o[i].update, xs[0]), lambda v, i=i: v.__setitem__(i, exp6(xs[0]) @ v[i])))
        ops.append(("a%d=SE3(r,t of a%d)" % (i, i), lambda s, i=i: s.put(i, s.arr(lambda t: s.g.SE3(s.o[2], t), np.array(s.o[i].t()).reshape(-1))), lambda v, i=i: v.__setitem__(i, mk(v[2], v[i][:3, 3]))))
        ops.append(("r=SO3(a%d.R())" % i, lambda s, i=i: s.put(2, s.arr(s.g.SO3, s.o[i].R())), lambda v, i=i: v.__setitem__(2, v[i][:3, :3].copy())))
        ops.append(("scribble on what a%d returns" % i, lambda s, i=i: s.scribble(i), lambda v: None))
    ops.append(("r=r.mul(r)", lambda s: s.put(2, s.o[2].mul(s.o[2])), lambda v: v.__setitem__(2, v[2] @ v[2])))
    ops.append(("r=r.inv()", lambda s: s.put(2, s.o[2].inv()), lambda v: v.__setitem__(2, v[2].T)))
    ops.append(("r=SO3(r)", lambda s: s.put(2, s.g.SO3(s.o[2])), lambda v: None))
    ops.append(("r.update_lhs(x)", lambda s: s.arr(s.o[2].update_lhs, xs[0][:3]), lambda v: v.__setitem__(2, exp3(xs[0][:3]) @ v[2])))
    ops.append(("r.update_rhs(x)", lambda s: s.arr(s.o[2].update_rhs, xs[0][:3]), lambda v: v.__setitem__(2, v[2] @ exp3(xs[0][:3]))))
    ops.append(("r.update(x)", lambda s: s.arr(s.o[2].update, xs[0][:3]), lambda v: v.__setitem__(2, exp3(xs[0][:3]) @ v[2])))
    ops.append(("scribble on what r returns", lambda s: s.scribble(2), lambda v: None))

    class S:
        def __init__(s, init):
            s.g = g
            s.o = [g.SE3(init[0]), g.SE3(init[1]), g.SO3(np.array(init[2][:3]))]
            s.old = []   # objects replaced in the registers: nobody may change them any more
            s.out = []   # arrays handed out earlier
        def val(s, i): return np.array(s.o[i].T() if i < 2 else s.o[i].R())
        def put(s, i, new):
            s.old.append((s.o[i], s.val(i), i))
            s.o[i] = new
        def arr(s, f, a):
            a = np.array(a)
            r = f(a)
            a[...] = 1e6   # the array was only read during the call
            return r
        def scribble(s, i):
            o = s.o[i]
            for m in ((o.T(), o.R(), o.t(), o.Ln(), o.adj()) if i < 2 else (o.R(), o.Ln(), o.adj())):
                if m.flags.writeable: m[...] = -55

    depth = 3 if c.thorough else 2
    for n, init in enumerate(inits):
        for a, b in itertools.product(range(len(ops)), repeat=2):
            def body(a=a, b=b, init=init):
                tails = [()]
                if depth > 2: tails = [()] + [(q,) for q in range(len(ops))]
                for tail in tails:
                    s = S(init)
                    v = [exp6(init[0]), exp6(init[1]), exp3(init[2][:3])]
                    seq = (a, b) + tail
                    for q in seq:
                        s.out = [(np.asarray(m), np.array(m)) for m in (s.o[0].T(), s.o[1].T(), s.o[2].R(), s.o[0].R(), s.o[1].t(), s.o[0].Ln(), s.o[1].adj())]
                        ops[q][1](s)
                        ops[q][2](v)
                        c.transitions += 1
                        for i in range(3):
                            c.near("register %d after %s" % (i, ops[q][0]), s.val(i), v[i], 1e-10 * (1 + np.abs(v[i]).max()))
                        for m, k in s.out: c.same("an array returned before " + ops[q][0], m, k)
                    for o, val, i in s.old: c.same("a replaced object", np.array(o.T() if i < 2 else o.R()), val)
                    c.state(*v)
                    c.traces += 1
            c.each(lambda: "objects %d: %s; %s; ..." % (n, ops[a][0], ops[b][0]), body)


def covariances(c, g):
    def spd(k):
        d = np.diag([.1, .2, .3, .4, .5, .6])
        if k == 0: return d * .1
        B = np.array([[math.sin(1 + 3 * i + j * j * k) for j in range(6)] for i in range(6)])
        return .02 * B @ B.T + .01 * d
    def op1(A): return -np.trace(A) * np.eye(3) + A
    def op2(A, B): return op1(A) @ op1(B) + op1(B @ A)
    def fourth(S1, S2):  # S2 already moved into the first frame
        # basis-free forms, rotation first
        E = [curly(e) for e in np.eye(6)]
        def A(S): return sum(S[i, j] * E[i] @ E[j] for i in range(6) for j in range(6))
        A1, A2 = A(S1), A(S2)
        B = np.zeros((6, 6))
        for i in range(6):
            for j in range(6): B += S1[i, j] * E[i] @ S2 @ E[j].T
        return S1 + S2 + (A1 @ S2 + S2 @ A1.T + A2 @ S1 + S1 @ A2.T) / 12 + B / 4
    poses = [TW[0], TW[1], TW[2], TW[6]]
    covs = [spd(k) for k in range(3)]
    forms = [("mul", 4), ("*", 4), ("2(SE3Cov)", 2), ("2(SE3,S)", 2), ("4(SE3Cov)", 4), ("4(SE3,S)", 4)]
    for p, s in itertools.product(range(len(poses)), range(len(covs))):
        for depth in (1, 2) if not c.thorough else (1, 2, 3):
            for fs in itertools.product(range(len(forms)), repeat=depth):
                def body(p=p, s=s, fs=fs):
                    T, S = exp6(poses[p]), covs[s].copy()
                    for lay, a in (list(layouts(S)) if len(fs) == 1 else [("C", S.copy())]):
                        a0 = np.array(a, float)
                        C = g.SE3Cov(g.SE3(poses[p]), a)
                        c.same("SE3Cov leaves its argument", np.array(a, float), a0)
                        scribble(a)
                        c.near("cov of %s" % lay, np.array(C.cov()), S, 1e-300)
                    T0, S0 = T.copy(), S.copy()
                    first = C
                    for n, f in enumerate(fs):
                        p2, s2 = (p + n + 1) % len(poses), (s + n + 1) % len(covs)
                        pose, cov = g.SE3(poses[p2]), covs[s2].copy()
                        other = g.SE3Cov(pose, cov)
                        k, order = forms[f]
                        if k == "mul": C2 = C.mul(other)
                        elif k == "*": C2 = C * other
                        elif "SE3Cov" in k: C2 = (C.compound_2nd_order if order == 2 else C.compound_4th_order)(other)
                        else: C2 = (C.compound_2nd_order if order == 2 else C.compound_4th_order)(pose, cov)
                        M = adj(T) @ covs[s2] @ adj(T).T
                        if k in ("mul", "*"):   # the order of the product is the library's choice, but the same in both forms
                            a, b = np.array((C * other).cov()), np.array(C.mul(other).cov())
                            c.near("mul and * agree", a, b, 1e-13 * (1 + np.abs(a).max()))
                            w2, w4 = S + M, fourth(S, M)
                            want = w2 if np.abs(a - w2).max() < np.abs(a - w4).max() else w4
                        else: want = S + M if order == 2 else fourth(S, M)
                        T = T @ exp6(poses[p2])
                        S = want
                        sc = 1 + np.abs(S).max()
                        c.near("covariance after " + k, np.array(C2.cov()), S, 1e-10 * sc)
                        c.near("pose after " + k, np.array(C2.T()), T, 1e-10 * (1 + np.abs(T).max()))
                        m = C2.cov()
                        if m.flags.writeable: m[...] = 3
                        c.near("covariance after scribbling on the returned one", np.array(C2.cov()), S, 1e-10 * sc)
                        c.near("the operand", np.array(other.cov()), covs[s2], 1e-300)
                        C3 = g.SE3Cov(C2)
                        c.near("copy", np.array(C3.cov()), S, 1e-10 * sc)
                        C = C2
                        c.transitions += 1
                        c.state(T, S)
                    c.near("the first operand", np.array(first.cov()), S0, 1e-300)
                    c.near("the first pose", np.array(first.T()), T0, 1e-12 * (1 + np.abs(T0).max()))
                    # an SE3Cov is an SE3
                    c.near("inherited adj", np.array(C.adj()), adj(np.array(C.T())), 1e-10 * (1 + np.abs(T).max()))
                    c.near("inherited inv", np.array(C.inv().T()), inv4(np.array(C.T())), 1e-10 * (1 + np.abs(T).max()))
                    c.traces += 1
                c.each(lambda: "pose %d covariance %d: %s" % (p, s, ", ".join(forms[f][0] for f in fs)), body)


# ------------------------------------------------------------------ factor graphs
F2T = {"1P2": 3, "2P2": 3, "OD": 3, "L2": 2, "1P3": 6, "2P3": 6, "L3": 3, "PL": 4, "PT": 1}
ANG = {"1P2": 2, "2P2": 2, "OD": 2, "L2": 1}
def upd(k, x, d, free=False):
    if k == "P3": return exp6(d) @ x
    x = x + d
    if not free:
        if k == "P2": x = np.array([x[0], x[1], wrap(x[2])])
        if k == "PL": x = np.r_[x[:3] / np.linalg.norm(x[:3]), x[3]]
    return x
def resid(f, A, B):
    """value (or, for 3D poses, residual transformation)"""
    k, z = f["k"], f["z"]
    if k == "1P2": r = A - z
    elif k == "2P2":
        cs, s, d = math.cos(A[2]), math.sin(A[2]), B - A
        r = np.array([cs * d[0] + s * d[1], -s * d[0] + cs * d[1], d[2]]) - z
    elif k == "OD":
        h = A[2] + z[0]
        r = np.array([A[0] + z[1] * math.cos(h) - B[0], A[1] + z[1] * math.sin(h) - B[1], A[2] + z[0] + z[2] - B[2]])
    elif k == "L2":
        d = B - A[:2]
        r = np.array([np.hypot(*d), math.atan2(d[1], d[0]) - A[2]]) - z
    elif k == "1P3": return A @ inv4(z)
    elif k == "2P3": return A @ z @ inv4(B)
    elif k == "L3": r = A[:3, :3].T @ (B - A[:3, 3]) - z
    elif k == "PL":
        p = A.T @ B
        r = p + z if p[3] < 0 else p - z
    elif k == "PT": r = np.array([z[2] @ (A[:3, :3] @ z[0] + A[:3, 3] - z[1])])
    if k in ANG: r = r.copy(); r[ANG[k]] = wrap(r[ANG[k]])
    return r
def rvec(f, A, B):
    r = resid(f, A, B)
    return ln6(r) if f["k"] in ("1P3", "2P3") else r
KERN = ["QUADRATIC", "CAUCHY", "HUBER", "MCCLURE", "RANSAC"]
def kernel(n, u):
    return {"QUADRATIC": 1., "CAUCHY": 1 / (1 + u * u), "HUBER": 1. if u < 1 else 1 / u, "MCCLURE": 1 / (1 + u * u) ** 2, "RANSAC": 1. if u < 1 else 0.}[n]

class Model:
    def __init__(m, kern="QUADRATIC"): m.k, m.x, m.anch, m.f, m.kern = [], [], [], [], kern
    def node(m, k, x, anch=False):
        x = np.array(x, float)
        if k == "PL": x = np.r_[x[:3] / np.linalg.norm(x[:3]), x[3]]
        m.k.append(k); m.x.append(x); m.anch.append(anch); return len(m.k) - 1
    def fac(m, k, a, b, z, W): m.f.append(dict(k=k, a=a, b=b, z=z, W=np.array(W, float)))
    def ab(m, f): return m.x[f["a"]], m.x[f["b"] if f["b"] is not None else f["a"]]
    def errs(m, x=None):
        x = x or m.x
        o = []
        for f in m.f:
            r = rvec(f, x[f["a"]], x[f["b"] if f["b"] is not None else f["a"]])
            o.append(.5 * r @ f["W"] @ r)
        return np.array(o)
    def dim(m, i): return {"P2": 3, "L2": 2, "P3": 6, "L3": 3, "PL": 4}[m.k[i]]
    def linear(m):
        off, n = {}, 0
        for i in range(len(m.k)):
            if not m.anch[i]: off[i] = n; n += m.dim(i)
        H, b = np.zeros((n, n)), np.zeros(n)
        edge = False
        for f in m.f:
            A, B = m.ab(f)
            r = rvec(f, A, B)
            u = math.sqrt(r @ f["W"] @ r)
            if m.kern == "RANSAC" and abs(u - 1) < 1e-6: edge = True
            W = f["W"] * kernel(m.kern, u)
            J = np.zeros((len(r), n))
            for which in ("a", "b"):
                i = f[which]
                if i is None or m.anch[i]: continue
                h = 1e-5
                for q in range(m.dim(i)):
                    e = np.zeros(m.dim(i)); e[q] = h
                    P, Q = [resid(f, *((upd(m.k[i], A, s * e, True), B) if which == "a" else (A, upd(m.k[i], B, s * e, True)))) for s in (1, -1)]
                    if f["k"] in ("1P3", "2P3"):
                        # both in the tangent of the residual transformation
                        Z = inv4(resid(f, A, B))
                        d = ln6(P @ Z) - ln6(Q @ Z)
                    else:
                        d = P - Q
                        if f["k"] in ANG: d[ANG[f["k"]]] = wrap(d[ANG[f["k"]]])
                    J[:, off[i] + q] = d / (2 * h)
            H += J.T @ W @ J
            b += J.T @ W @ r
        return H, b, off, edge
    def step(m, dx, off): return [upd(m.k[i], m.x[i], -dx[off[i]:off[i] + m.dim(i)]) if i in off else m.x[i] for i in range(len(m.k))]


class NumericEdge(Exception):
    pass


def arr(c, a, n):
    """the n-th layout of a (arguments bound by reference refuse negative strides with a TypeError: pybind11's rule, left out)"""
    ls = list(rl(a))
    return ls[n % len(ls)][1]


def fgraph(c, mrob):
    g = mrob.geometry
    SPD = {d: [np.eye(d) * 2, np.diag(np.arange(1, d + 1) * .5), np.array([[1. / (1 + abs(i - j)) + (i == j) * (1 + .3 * i) for j in range(d)] for i in range(d)])] for d in (1, 2, 3, 4, 6)}
    class W:
        """the graph under test next to its model; n makes values and layouts vary from call to call"""
        def __init__(s, kern, explicit, salt):
            s.g = mrob.FGraph() if kern is None else (mrob.FGraph(getattr(mrob, kern)) if not explicit else mrob.FGraph(robust_type=getattr(mrob, kern)))
            s.m = Model(kern or "QUADRATIC")
            s.n, s.given, s.explicit = salt, [], explicit
        def a(s, v, one=True):
            s.n += 1
            x = arr(c, v, s.n * 5)
            s.given.append(x)
            return x
        def w(s, d): s.n += 1; return SPD[d][s.n % 3]
        def v(s, i): return math.sin(12.9898 * (s.n + 1) + 3.1 * i)
        def last(s, *k): return [i for i in range(len(s.m.k)) if s.m.k[i] in k]
        def mode(s, anch):
            if anch: return {"mode": mrob.NODE_ANCHOR}
            return {"mode": mrob.NODE_STANDARD} if s.explicit else {}
        # nodes
        def pose2(s, anch=False):
            n = len(s.m.k); x = np.array([n + .25, .5 * n - .5, .25 + .5 * n])
            c.req(s.g.add_node_pose_2d(s.a(x), **s.mode(anch)) == s.m.node("P2", x, anch), "add_node_pose_2d returns the next id")
        def pose3(s, anch=False):
            n = len(s.m.k); x = np.array([.1 * n, -.2, .3, 1 + n, 2 - n, .5])
            o = g.SE3(x)
            c.req(s.g.add_node_pose_3d(o, **s.mode(anch)) == s.m.node("P3", np.array(o.T()), anch), "add_node_pose_3d returns the next id")
            o.update(np.array([1, 1, 1, 5, 5, 5.]))
        def land2(s, anch=False):
            n = len(s.m.k); x = np.array([2. + n, 3.5 - n])
            c.req(s.g.add_node_landmark_2d(s.a(x), **s.mode(anch)) == s.m.node("L2", x, anch), "add_node_landmark_2d returns the next id")
        def land3(s, anch=False):
            n = len(s.m.k); x = np.array([2. + n, 3.5 - n, 1])
            c.req(s.g.add_node_landmark_3d(s.a(x), **s.mode(anch)) == s.m.node("L3", x, anch), "add_node_landmark_3d returns the next id")
        def plane(s, anch=False):
            n = len(s.m.k); x = np.array([.6, -.64, .48, 5. + n])
            c.req(s.g.add_node_plane_4d(s.a(x), **s.mode(anch)) == s.m.node("PL", x, anch), "add_node_plane_4d returns the next id")
        # factors
        def prior2(s):
            for i in s.last("P2")[-1:]:
                z, W = s.m.x[i] + .1 * np.array([s.v(0), s.v(1), s.v(2)]), s.w(3)
                c.req(s.g.add_factor_1pose_2d(s.a(z), i, s.a(W)) is None, "add_factor_1pose_2d")
                s.m.fac("1P2", i, None, z, W)
        def rel2(s, init=False, rev=False):
            p = s.last("P2")
            if len(p) < 2: return
            o, t = (p[-1], p[0]) if rev else (p[0], p[-1])
            z, W = np.array([1.5 + .1 * s.v(0), .5, .25 + .1 * s.v(2)]), s.w(3)
            if not init:
                z = resid(dict(k="2P2", z=np.zeros(3)), s.m.x[o], s.m.x[t]) + .1 * np.array([s.v(0), s.v(1), s.v(2)])
            if init: s.g.add_factor_2poses_2d(s.a(z), o, t, s.a(W), True) if s.explicit else s.g.add_factor_2poses_2d(obs=s.a(z), nodeOriginId=o, nodeTargetId=t, obsInvCov=s.a(W), updateNodeTarget=True)
            else: s.g.add_factor_2poses_2d(s.a(z), o, t, s.a(W), False) if s.explicit else s.g.add_factor_2poses_2d(s.a(z), o, t, s.a(W))
            if init:
                A = s.m.x[o]; cs, sn = math.cos(A[2]), math.sin(A[2])
                s.m.x[t] = np.array([A[0] + cs * z[0] - sn * z[1], A[1] + sn * z[0] + cs * z[1], wrap(A[2] + z[2])])
            s.m.fac("2P2", o, t, z, W)
        def odom(s):
            p = s.last("P2")
            if len(p) < 2: return
            o, t = p[-2], p[-1]
            z, W = np.array([.3 + .1 * s.v(0), 1.25, -.2 + .1 * s.v(1)]), s.w(3)
            s.g.add_factor_2poses_2d_odom(s.a(z), o, t, s.a(W))
            A = s.m.x[o]
            s.m.x[t] = np.array([A[0] + z[1] * math.cos(A[2] + z[0]), A[1] + z[1] * math.sin(A[2] + z[0]), wrap(A[2] + z[0] + z[2])])
            s.m.fac("OD", o, t, z, W)
        def obs2(s, init=False):
            p, l = s.last("P2"), s.last("L2")
            if not p or not l: return
            z, W = np.array([2 + .2 * s.v(0), .5 + .2 * s.v(1)]), s.w(2)
            if not init: z = resid(dict(k="L2", z=np.zeros(2)), s.m.x[p[-1]], s.m.x[l[-1]]) + .05 * np.array([s.v(0), s.v(1)])
            n = len(s.m.f)
            kw = {"initializeLandmark": True} if init else ({"initializeLandmark": False} if s.explicit else {})
            c.req(s.g.add_factor_1pose_1landmark_2d(s.a(z), p[-1], l[-1], s.a(W), **kw) == n, "factor id")
            if init:
                A = s.m.x[p[-1]]
                s.m.x[l[-1]] = A[:2] + z[0] * np.array([math.cos(A[2] + z[1]), math.sin(A[2] + z[1])])
            s.m.fac("L2", p[-1], l[-1], z, W)
        def prior3(s):
            for i in s.last("P3")[-1:]:
                z, W = s.m.x[i] @ exp6(.1 * np.array([s.v(q) for q in range(6)])), s.w(6)
                o = g.SE3(z); n = len(s.m.f)
                c.req(s.g.add_factor_1pose_3d(o, i, s.a(W)) == n, "factor id")
                o.update(np.ones(6))
                s.m.fac("1P3", i, None, z, W)
        def rel3(s, init=False, rev=False):
            p = s.last("P3")
            if len(p) < 2: return
            o, t = (p[-1], p[0]) if rev else (p[0], p[-1])
            W = s.w(6)
            z = inv4(s.m.x[o]) @ s.m.x[t] @ exp6(.05 * np.array([s.v(q) for q in range(6)]))
            if init: z = exp6(np.array([.2, .1, -.3, 1, -1, .5 + .1 * s.v(0)]))
            if rev and not init: W = SPD[6][0]
            ob = g.SE3(z); n = len(s.m.f)
            if s.explicit: r = s.g.add_factor_2poses_3d(ob, o, t, s.a(W), init)
            else: r = s.g.add_factor_2poses_3d(ob, o, t, s.a(W), updateNodeTarget=True) if init else s.g.add_factor_2poses_3d(ob, o, t, s.a(W))
            ob.update(np.ones(6))
            c.req(r == n, "factor id")
            if init: s.m.x[t] = s.m.x[o] @ z
            # a reversed factor reports the inverse residual
            if rev: s.m.fac("2P3", t, o, inv4(z), W)
            else: s.m.fac("2P3", o, t, z, W)
        def obs3(s):
            p, l = s.last("P3"), s.last("L3")
            if not p or not l: return
            W = s.w(3)
            z = resid(dict(k="L3", z=np.zeros(3)), s.m.x[p[-1]], s.m.x[l[-1]]) + .1 * np.array([s.v(0), s.v(1), s.v(2)])
            n = len(s.m.f)
            kw = {"initializeLandmark": False} if s.explicit else {}
            c.req(s.g.add_factor_1pose_1landmark_3d(s.a(z), p[-1], l[-1], s.a(W), **kw) == n, "factor id")
            s.m.fac("L3", p[-1], l[-1], z, W)
        def obsp(s):
            p, l = s.last("P3"), s.last("PL")
            if not p or not l: return
            W = s.w(4)
            z = s.m.x[p[-1]].T @ s.m.x[l[-1]]
            if z[3] < 0: z = -z
            z = z + .05 * np.array([s.v(q) for q in range(4)])
            z[:3] /= np.linalg.norm(z[:3])
            n = len(s.m.f)
            c.req(s.g.add_factor_1pose_1plane_4d(s.a(z), p[-1], l[-1], s.a(W)) == n, "factor id")
            s.m.fac("PL", p[-1], l[-1], z, W)
        def pt(s):
            for i in s.last("P3")[-1:]:
                x, y, nn, W = np.array([1, -2, .5]), np.array([2., 1 + .5 * s.v(0), 3]), np.array([.36, .48, .8]), np.array([[1.5 + s.v(1)]])
                n = len(s.m.f)
                r = s.g.add_factor_1pose_point2plane(s.a(x), s.a(y), s.a(nn), i, s.a(W)) if s.explicit else s.g.add_factor_1pose_point2plane(z_point_x=s.a(x), z_point_y=s.a(y), z_normal_y=s.a(nn), nodePoseId=i, obsInf=s.a(W))
                c.req(r == n, "factor id")
                s.m.fac("PT", i, None, (x, y, nn), W)
        # ---- checks
        def states(s, tol=1e-9):
            st = s.g.get_estimated_state()
            c.req(len(st) == len(s.m.k), "one state per node")
            for i, x in enumerate(s.m.x):
                v = np.array(st[i]); w = np.array(x)
                if s.m.k[i] != "P3":
                    c.req(v.size == w.size, "size of the state"); v = v.reshape(-1)
                    if s.m.k[i] == "P2": v[2], w = w[2] + wrap(v[2] - w[2]), w
                c.near("state of node %d (%s)" % (i, s.m.k[i]), v, w, tol * (1 + np.abs(w).max()))
                if isinstance(st[i], np.ndarray) and st[i].flags.writeable: st[i][...] = 123
        def adopt(s):
            st = s.g.get_estimated_state()
            s.m.x = [np.array(v) if k == "P3" else np.array(v).reshape(-1) for k, v in zip(s.m.k, st)]
        def check(s):
            for x in s.given: scribble(x)
            s.given = []
            c.req(s.g.number_nodes() == len(s.m.k) and s.g.number_factors() == len(s.m.f), "numbers of nodes and factors")
            s.states()
            if s.m.f:
                e = s.m.errs()
                for q in (lambda: s.g.chi2(), lambda: s.g.chi2(False), lambda: s.g.chi2(evaluateResidualsFlag=True), lambda: s.g.chi2(evaluateResidualsFlag=False)):
                    c.near("chi2", q(), e.sum(), 1e-8 * (1 + e.sum()))
                a = s.g.get_chi2_array()
                c.near("chi2 array", np.array(a).reshape(-1), e, 1e-8 * (1 + e.sum()))
                if a.flags.writeable: a[...] = -1
                c.near("chi2 after scribbling", s.g.chi2(False), e.sum(), 1e-8 * (1 + e.sum()))
            s.states()
        def posed(s):
            H, b, off, edge = s.m.linear()
            if not len(b): raise NumericEdge
            w = np.linalg.eigvalsh(H)
            if edge or w[0] < 1e-3 or w[-1] / w[0] > 1e5: raise NumericEdge
            return H, b, off
        def gn(s, call):
            H, b, off = s.posed()
            dx = np.linalg.solve(H, b)
            if np.abs(dx).max() > 5: raise NumericEdge
            call()
            c.transitions += 1
            B = s.g.get_vector_b()
            c.near("vector b", np.array(B).reshape(-1), b, 1e-6 * (1 + np.abs(b).max()))
            if B.flags.writeable: B[...] = 5
            s.m.x = s.m.step(dx, off)
            s.states(1e-5)
            s.adopt()
        def lm(s, call, iters, lam, tol):
            """the trust-region protocol with the reference linearisation"""
            e = s.m.errs().sum()
            for it in range(iters):
                try: H, b, off = s.posed()
                except NumericEdge: raise
                M = H + lam * np.eye(len(b))
                dx = np.linalg.solve(M, b)
                if np.abs(dx).max() > 5: raise NumericEdge
                x = s.m.step(dx, off)
                e2 = s.m.errs(x).sum()
                d = e - e2
                if abs(d) < 1e-9 * (1 + e) or abs(d - tol) < 1e-5 * (1 + e): raise NumericEdge
                if d < 0: lam *= 2; continue
                s.m.x, e = x, e2
                if d < tol: break
                f = d / (.5 * dx @ b)
                if min(abs(f - .25), abs(f - .8)) < 1e-3: raise NumericEdge
                if f < .25: lam *= 2
                if f > .8: lam *= .25
            call()
            c.transitions += 1
            s.states(1e-5)
            s.adopt()
    ops = [("pose 2d", lambda s: (s.pose2(), s.rel2())), ("pose 2d initialised", lambda s: (s.pose2(), s.rel2(True))), ("pose 2d reversed", lambda s: (s.pose2(), s.rel2(False, True))),
           ("pose 2d odometry", lambda s: (s.pose2(), s.odom())), ("landmark 2d", lambda s: (s.land2(), s.obs2())), ("landmark 2d initialised", lambda s: (s.land2(), s.obs2(True))),
           ("prior 2d", lambda s: s.prior2()), ("anchored pose 2d", lambda s: (s.pose2(True), s.rel2())), ("anchored landmark 2d", lambda s: (s.land2(True), s.obs2())),
           ("pose 3d", lambda s: (s.pose3(), s.rel3())), ("pose 3d initialised", lambda s: (s.pose3(), s.rel3(True))), ("pose 3d reversed", lambda s: (s.pose3(), s.rel3(False, True))),
           ("landmark 3d", lambda s: (s.land3(), s.obs3())), ("plane", lambda s: (s.plane(), s.obsp())), ("point to plane", lambda s: s.pt()), ("prior 3d", lambda s: s.prior3()),
           ("anchored pose 3d", lambda s: (s.pose3(True), s.rel3())), ("anchored plane", lambda s: (s.plane(True), s.obsp())), ("anchored landmark 3d", lambda s: (s.land3(True), s.obs3())),
           ("re-observe", lambda s: (s.obs2(), s.obs3(), s.obsp()))]
    GN, LM = mrob.GN, mrob.LM
    solves = [("solve()", lambda s: s.gn(lambda: s.g.solve())), ("solve(GN)", lambda s: s.gn(lambda: s.g.solve(GN))), ("solve(method=GN, maxIters=7)", lambda s: s.gn(lambda: s.g.solve(method=GN, maxIters=7))),
              ("solve(LM)", lambda s: s.lm(lambda: s.g.solve(LM), 30, 1e-6, 1e-2)), ("solve(LM, 1)", lambda s: s.lm(lambda: s.g.solve(LM, 1), 1, 1e-6, 1e-2)),
              ("solve(LM, 2, 10.)", lambda s: s.lm(lambda: s.g.solve(LM, 2, 10.), 2, 10., 1e-2)),
              ("solve(maxIters=3, method=LM, solutionTolerance=.5)", lambda s: s.lm(lambda: s.g.solve(maxIters=3, method=LM, solutionTolerance=.5), 3, 1e-6, .5)),
              ("solve(LM, **{'lambda': 100.})", lambda s: s.lm(lambda: s.g.solve(LM, 4, **{"lambda": 100.}), 4, 100., 1e-2)),
              ("solve(GN, 3, 10., .5)", lambda s: s.gn(lambda: s.g.solve(GN, 3, 10., .5)))]
    depth = 3 if c.thorough else 2
    stat = [0, 0]
    for dp in range(0, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=dp):
            for base in (0, 1, 2):
                if base < 2 and any((9 <= q <= 18) != (base == 1) for q in seq if q != 19): continue
                if base == 2 and dp > 2: continue
                def body(seq=seq, base=base):
                    salt = sum((q + 1) * 7 ** i for i, q in enumerate(seq)) + base
                    for n, (sn, so) in enumerate(solves):
                        # one kernel, layout phase and calling style per solve, varied over the solves
                        kern = ([None] + KERN)[(salt + n) % 6]
                        s = W(kern, bool((salt + n) % 2), salt + 31 * n)
                        if base != 1: s.pose2(); s.prior2()
                        if base != 0: s.pose3(); s.prior3()
                        for q in seq: ops[q][1](s)
                        s.check()
                        c.transitions += len(seq)
                        try:
                            so(s)
                            s.check()
                            if n < 3: so(s); s.check()
                            stat[0] += 1
                        except NumericEdge:
                            stat[1] += 1
                        c.state(kern or "default", *s.m.x)
                        c.traces += 1
                c.each(lambda: "graph %s: %s" % (["2D", "3D", "2D+3D"][base], "; ".join(ops[q][0] for q in seq)), body)
    if c.cases and os.environ.get("VK_VERBOSE"): sys.stderr.write("solves compared, skipped: %s\n" % stat)
    # two graphs at once do not influence each other; refused ids leave the graph as it was
    for n in range(len(ops)):
        def body(n=n):
            a, b = W(None, False, n), W("CAUCHY", True, n + 3)
            for s in (a, b): s.pose2(); s.prior2(); s.pose3(); s.prior3()
            ops[n][1](a); b.check(); ops[(n + 3) % len(ops)][1](b); a.check(); b.check()
            try: solves[0][1](a)
            except NumericEdge: pass
            b.check(); a.check()
            try: solves[4][1](b)
            except NumericEdge: pass
            a.check(); b.check()
            for call in (lambda: a.g.add_factor_1pose_2d(np.zeros(3), 99, np.eye(3)), lambda: a.g.add_factor_1pose_1plane_4d(np.ones(4), 1, 77, np.eye(4)), lambda: a.g.add_node_pose_2d(np.zeros(4)),
                         lambda: a.g.add_factor_1pose_2d(np.zeros(3), 0, np.eye(2)), lambda: a.g.add_node_landmark_2d("x"), lambda: a.g.add_node_pose_3d(np.eye(4))):
                try: call()
                except (TypeError, IndexError, ValueError, RuntimeError): c.evals += 1
                else: raise Fail("an invalid call was accepted")
            a.check(); b.check()
            c.traces += 1
        c.each(lambda: "two graphs, %s" % ops[n][0], body)


# ------------------------------------------------------------------ registration
def kabsch(X, Y, w=None):
    w = np.ones(len(X)) if w is None else w
    cx, cy = w @ X / w.sum(), w @ Y / w.sum()
    M = (X - cx).T @ np.diag(w) @ (Y - cy)
    N = np.array([[M[0, 0] + M[1, 1] + M[2, 2], M[1, 2] - M[2, 1], M[2, 0] - M[0, 2], M[0, 1] - M[1, 0]],
                  [0, M[0, 0] - M[1, 1] - M[2, 2], M[0, 1] + M[1, 0], M[2, 0] + M[0, 2]],
                  [0, 0, -M[0, 0] + M[1, 1] - M[2, 2], M[1, 2] + M[2, 1]], [0, 0, 0, -M[0, 0] - M[1, 1] + M[2, 2]]])
    N = N + np.triu(N, 1).T
    l, v = np.linalg.eigh(N)
    a, b, cc, d = v[:, 3]
    R = np.array([[a * a + b * b - cc * cc - d * d, 2 * (b * cc - a * d), 2 * (b * d + a * cc)], [2 * (b * cc + a * d), a * a - b * b + cc * cc - d * d, 2 * (cc * d - a * b)], [2 * (b * d - a * cc), 2 * (cc * d + a * b), a * a - b * b - cc * cc + d * d]])
    return mk(R, cy - R @ cx)


def rl(a):
    """layouts without negative strides (refused with a TypeError by pybind11 for arguments bound by reference)"""
    return (l for l in layouts(a) if l[0] != "reversed")


def registration(c, g, r):
    sets = [np.array(s, float) for s in [[[0, 0, 0], [2, 0, 0], [0, 1, 0]], [[1, 2, 3], [4, -1, 0], [0, 5, 2], [-3, 1, 1]], [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]],
            [[0, 0, 1], [3, 0, 1], [0, 2, 1], [3, 2, 1]], [[i, i * i % 5, (i * 3) % 4] for i in range(9)]]]
    motions = [TW[0], TW[1], TW[4], TW[9], TW[8]]
    noise = np.array([[math.sin(7 * i + 3 * j) for j in range(3)] for i in range(9)]) * .01
    for n, X in enumerate(sets):
        for m, x in enumerate(motions):
            for lv in range(2):
                def body(X=X, x=x, lv=lv):
                    T = exp6(x)
                    Y = X @ T[:3, :3].T + T[:3, 3] + lv * noise[:len(X)]
                    want = kabsch(X, Y)
                    wts = 1 + np.arange(len(X)) % 3 * .5
                    ww = kabsch(X, Y, wts)
                    lx, ly, lw = list(rl(X)), list(rl(Y)), list(rl(wts))
                    # one-column weights and lists of rows are the same data
                    for i, j in itertools.product(range(len(lx)), range(len(ly))):
                        x0, y0 = lx[i][1], ly[j][1]
                        kx, ky = np.array(x0, float), np.array(y0, float)
                        a = r.arun(x0, y0)
                        tag = "(%s, %s)" % (lx[i][0], ly[j][0])
                        c.near("arun" + tag, np.array(a.T()), want, 1e-10)
                        q = lw[(i + j) % len(lw)]
                        b = r.weighted(x0, y0, q[1])
                        if np.linalg.norm(ln3(want[:3, :3])) < .5 or lv == 0 and np.linalg.norm(ln3(want[:3, :3])) < 1: c.near("weighted" + tag + q[0], np.array(b.T()), ww, 1e-3 if lv else 1e-4)
                        c.same("registration leaves X", np.array(x0, float), kx)
                        c.same("registration leaves Y", np.array(y0, float), ky)
                        a.update(np.ones(6))
                        c.near("arun again" + tag, np.array(r.arun(x0, y0).T()), want, 1e-10)
                        c.outcome(tag, want)
                    C = np.vstack([np.eye(3) * (1 + .1 * i) + .1 * np.ones((3, 3)) for i in range(len(X))])
                    D = np.vstack([np.diag([1., 2, .5]) + .05 * i * np.ones((3, 3)) for i in range(len(X))])
                    if lv == 0 and np.linalg.norm(x[:3]) < 1:
                        base = None
                        for (l1, a1), (l2, a2) in itertools.product(rl(C), rl(D)):
                            G = np.array(r.gicp(X, Y, a1, a2).T())
                            c.near("gicp (%s, %s) recovers exact motions" % (l1, l2), G, T, 1e-4)
                            if base is None: base = G
                            c.near("gicp depends on values only", G, base, 1e-12)
                        for i, j in itertools.product(range(len(lx)), range(len(ly))):
                            c.near("gicp depends on values only", np.array(r.gicp(lx[i][1], ly[j][1], C, D).T()), base, 1e-12)
                    # planes
                    for Z in (X, Y):
                        ce = Z.mean(0); l, v = np.linalg.eigh((Z - ce).T @ (Z - ce))
                        if l[1] - l[0] < 1e-3: continue
                        nn = v[:, 0]; pl = np.r_[nn, -nn @ ce]
                        for lay, a in rl(Z):
                            k = np.array(a, float)
                            p = np.array(r.estimate_plane(a)).reshape(-1); q = np.array(r.estimate_normal(a)).reshape(-1)
                            c.near("estimate_plane of " + lay, min(np.abs(p - pl).max(), np.abs(p + pl).max()), 0, 1e-8)
                            c.near("estimate_normal is the plane's", q, p[:3], 1e-12)
                            c.near("estimate_centroid of " + lay, np.array(r.estimate_centroid(a)).reshape(-1), ce, 1e-11)
                            c.same("estimation leaves the points", np.array(a, float), k)
                    c.traces += 1
                c.each(lambda: "set %d motion %d noise %d" % (n, m, lv), body)
    # noisy data: both iterative estimators stop at the stationary point of their own criterion, started at the identity
    def gnstep(T, X, Y, info):
        J, H = np.zeros(6), np.zeros((6, 6))
        for i in range(len(X)):
            p = T[:3, :3] @ X[i] + T[:3, 3]
            D = np.hstack([hat(p), -np.eye(3)]); W = info(T, i)
            J += (Y[i] - p) @ W @ D; H += D.T @ W @ D
        return -np.linalg.solve(H, J)
    for n, X in enumerate(sets):
        if np.linalg.svd(X - X.mean(0))[1][1] < .1: continue
        for m, x in enumerate(motions):
            for lv in (.02, .2, .5):
                def body(X=X, x=x, lv=lv):
                    T = exp6(.5 * x)
                    Y = X @ T[:3, :3].T + T[:3, 3] + lv * 100 * noise[:len(X)]
                    wts = .5 + np.arange(len(X)) % 3
                    C = [np.eye(3) * (.1 + i) + .05 * np.ones((3, 3)) for i in range(len(X))]
                    D = [np.diag([1., 2, .5 + i % 2]) + .05 * i * np.ones((3, 3)) for i in range(len(X))]
                    for what, call, info in (("weighted", lambda: r.weighted(X, Y, wts), lambda T, i: wts[i] * np.eye(3)),
                                             ("gicp", lambda: r.gicp(X, Y, np.vstack(C), np.vstack(D)), lambda T, i: np.linalg.inv(D[i] + T[:3, :3] @ C[i] @ T[:3, :3].T)),
                                             ("gicp with the clouds exchanged", lambda: r.gicp(Y, X, np.vstack(D), np.vstack(C)), lambda T, i: np.linalg.inv(C[i] + T[:3, :3] @ D[i] @ T[:3, :3].T))):
                        A, B = (Y, X) if "exchanged" in what else (X, Y)
                        R, steps = np.eye(4), []
                        while len(steps) < 12 and not (steps and steps[-1] < 1e-7):
                            d = gnstep(R, A, B, info); steps.append(np.linalg.norm(d)); R = exp6(d) @ R
                        if steps[-1] >= 1e-7 or max(steps) > 2: continue # no fast convergence from the identity
                        G = np.array(call().T())
                        c.near(what + " ends at the minimum from the identity", G, R, 1e-4)
                        c.near(what + " stops at a stationary point", np.linalg.norm(gnstep(G, A, B, info)), 0, 1e-4)
                        c.outcome(what, G)
                    c.traces += 1
                c.each(lambda: "noisy set %d motion %d noise %g" % (n, m, lv), body)
    def degenerate():
        P = np.array([[0, 0, 0], [1, 1, 1], [2, 2, 2], [3, 3, 3.]])
        c.near("arun of collinear points is the identity", np.array(r.arun(P, P + 1).T()), np.eye(4), 1e-300)
        c.near("arun of equal points is the identity", np.array(r.arun(np.ones((4, 3)), np.zeros((4, 3))).T()), np.eye(4), 1e-300)
    c.each(lambda: "degenerate sets", degenerate)


def planes(c, g, r):
    """every sequence of calls on a plane registration filled point by point"""
    true = np.array([.05, -.03, .04, .1, -.05, .03])
    normals = [np.array(v) / np.linalg.norm(v) for v in ([1, .2, 0], [0, 1, .3], [.2, 0, 1], [1, 1, 1.])]
    class S:
        def __init__(s, N, K, noise):
            s.N, s.K, s.noise, s.fillc = N, K, noise, 0
            s.r = r.PlaneRegistration()
            s.setup()
        def setup(s):
            s.r.set_number_planes_and_poses(s.K, s.N)
            s.pts = [[[] for _ in range(s.N)] for _ in range(s.K)]
            s.traj = [np.eye(4) for _ in range(s.N)]
            for k in range(s.K): s.r.add_plane(k)
            for k in range(s.K):
                for t in range(s.N):
                    for i in range(3): s.push(k, t, i)
        def push(s, k, t, i):
            n = normals[k]; u = np.cross(n, [.3, .5, -.7]); v = np.cross(n, u)
            p = n * (1 + k) + u * [1, -1, .5][i % 3] + v * [.4, .7, -1.2][(i + t) % 3] + n * s.noise * math.sin(5 * k + 3 * t + i)
            T = inv4(exp6(true * t / (s.N - 1)))
            p = T[:3, :3] @ p + T[:3, 3]
            a = arr(c, p, k * 7 + t * 3 + i)
            s.r.plane_push_back_point(k, t, a)
            scribble(a)
            s.pts[k][t].append(p)
        def error(s):
            e = 0
            for k in range(s.K):
                Q = np.zeros((4, 4))
                for t in range(s.N):
                    for p in s.pts[k][t]:
                        h = s.traj[t] @ np.r_[p, 1]
                        Q += np.outer(h, h)
                e += np.linalg.eigvalsh(Q)[0]
            return e
        def check(s, label):
            c.req(s.r.get_number_poses() == s.N, "number of poses")
            for t in range(s.N):
                T = s.r.get_trajectory(t)
                c.near("pose %d after %s" % (t, label), np.array(T.T()), s.traj[t], 1e-9)
                T.update(np.ones(6))
                pc = s.r.get_point_cloud(t)
                mine = sorted(tuple(np.round(p, 9)) for k in range(s.K) for p in s.pts[k][t])
                got = sorted(tuple(np.round(np.array(p).reshape(-1), 9) + 0.) for p in pc)
                c.req(len(mine) == len(got), "number of points after " + label)
                if mine: c.near("points after " + label, np.array(got), np.array(mine), 2e-9)
                for p in pc:
                    if isinstance(p, np.ndarray) and p.flags.writeable: p[...] = 44
            L = s.r.get_last_pose()
            c.near("last pose", np.array(L.T()), s.traj[-1], 1e-9); L.update(np.ones(6))
            e = s.error()
            c.near("get_error after " + label, s.r.get_error(), e, 1e-9 * (1 + e))
            c.near("get_plane_error after " + label, s.r.get_plane_error(), e, 1e-9 * (1 + e))
        def adopt(s, label):
            last = np.array(s.r.get_last_pose().T())
            l = ln6(last)
            for t in range(s.N): s.traj[t] = exp6(l * t / (s.N - 1))
            for t in range(s.N): c.near("interpolated pose after " + label, np.array(s.r.get_trajectory(t).T()), s.traj[t], 1e-8)
            for t in range(s.N): s.traj[t] = np.array(s.r.get_trajectory(t).T())
        def setlast(s, x):
            o = g.SE3(x)
            s.r.initialize_last_pose_solution(o)
            o.update(np.ones(6))
            for t in range(s.N): s.traj[t] = exp6(x * t / (s.N - 1))
        def solve(s, label, call, mono):
            e = s.error(); call(); s.adopt(label)
            if mono: c.req(s.error() <= e * (1 + 1e-9) + 1e-10, "%s raised the error from %g to %g" % (label, e, s.error()))
        def ev(s):
            v = s.r.print_evaluate()
            c.req(len(v) == 13 and v[0] == s.K and v[1] == s.N and v[2] == sum(len(q) for p in s.pts for q in p), "print_evaluate reports the sizes")
            c.near("print_evaluate reports the error", v[6], s.error(), 1e-9 * (1 + s.error()))
            v[6] = 1e9
    ops = [("set true", lambda s: s.setlast(true)), ("set other", lambda s: s.setlast(-.5 * true)), ("reset", lambda s: (s.r.reset_solution(), s.traj.__setitem__(slice(None), [np.eye(4) for _ in range(s.N)]))),
           ("push", lambda s: (s.push(0, s.N - 1, 1), s.push(s.K - 1, 0, 2))), ("LM_SPHER", lambda s: s.solve("LM_SPHER", lambda: s.r.solve(r.LM_SPHER), True)),
           ("LM_ELLIP single", lambda s: s.solve("LM_ELLIP", lambda: s.r.solve(mode=r.LM_ELLIP, singleIteration=True), True)),
           ("GN_HESSIAN", lambda s: s.solve("GN_HESSIAN", lambda: s.r.solve(r.GN_HESSIAN, True), False)), ("solve()", lambda s: s.solve("solve()", lambda: s.r.solve(singleIteration=True), False)),
           ("again", lambda s: s.setup()), ("evaluate", lambda s: s.ev())]
    depth = 4 if c.thorough else 3
    for N, K, noise in ((2, 3, 0), (3, 3, .02), (3, 4, 0)):
        for seq in itertools.product(range(len(ops)), repeat=depth):
            if ops[seq[0]][0] == "evaluate": continue
            # evaluation after nothing was solved reports no derivative
            if 9 in seq and not any(4 <= q <= 7 for q in seq[:seq.index(9)]): continue
            def body(N=N, K=K, noise=noise, seq=seq):
                s = S(N, K, noise)
                s.check("filling")
                for q in seq:
                    ops[q][1](s)
                    s.check(ops[q][0])
                    c.transitions += 1
                c.state(*s.traj)
                c.traces += 1
            c.each(lambda: "planes %d poses %d noise %g: %s" % (K, N, noise, "; ".join(ops[q][0] for q in seq)), body)
    # the defaults of solve: the accelerated first-order solver, iterated to convergence
    for N, K, noise in ((2, 3, 0), (3, 3, .02), (4, 4, 0), (5, 4, .01)):
        for pre in range(4):
            def body(N=N, K=K, noise=noise, pre=pre):
                S_ = [S(N, K, noise) for _ in range(4)]
                for s in S_:
                    if pre & 1: s.setlast(-.5 * true)
                    if pre & 2: s.r.solve(r.LM_SPHER)
                calls = [lambda q: q.solve(), lambda q: q.solve(r.GRADIENT_BENGIOS_NAG, False), lambda q: q.solve(singleIteration=False), lambda q: q.solve(mode=r.GRADIENT_BENGIOS_NAG)]
                for k in range(2):
                    for s, f in zip(S_, calls): f(s.r)
                    for s in S_[1:]:
                        for t in range(N): c.near("solve() is solve(GRADIENT_BENGIOS_NAG, singleIteration=False)", np.array(s.r.get_trajectory(t).T()), np.array(S_[0].r.get_trajectory(t).T()), 1e-12)
                c.traces += 1
            c.each(lambda: "defaults of solve: planes %d poses %d noise %g start %d" % (K, N, noise, pre), body)
    # synthetic scenes through Python
    for np_, nl, nt in itertools.product((5, 12, 31), (1, 3, 5), (2, 3, 4)):
        def body(np_=np_, nl=nl, nt=nt):
            s = r.CreatePoints(np_, nl, nt, 0., 0.)
            reg = r.PlaneRegistration()
            s.create_plane_registration(reg)
            c.req(reg.get_number_poses() == nt, "number of poses")
            last = np.array(s.get_ground_truth_last_pose().T())
            c.near("the last ground truth pose is the end of the trajectory", np.array(s.get_trajectory(nt - 1).T()), last, 1e-12)
            for t in range(nt):
                P, ids = [np.array(p).reshape(-1) for p in s.get_point_cloud(t)], list(s.get_point_plane_ids(t))
                c.req(len(P) == np_ == len(ids), "a point and a label each")
                a = s.get_point_cloud(t)
                for q in a:
                    if isinstance(q, np.ndarray) and q.flags.writeable: q[...] = 1e5
                for p, q in zip(s.get_point_cloud(t), P): c.same("clouds are copies", np.array(p).reshape(-1), q)
                G = s.get_trajectory(t); V = np.array(G.T()); G.update(np.ones(6))
                c.same("poses are copies", np.array(s.get_trajectory(t).T()), V)
                got = sorted(tuple(np.array(p).reshape(-1)) for p in reg.get_point_cloud(t))
                c.same("the registration holds the scene's points", np.array(got), np.array(sorted(tuple(p) for p in P)))
                c.near("registration starts at the identity", np.array(reg.get_trajectory(t).T()), np.eye(4), 1e-300)
            o = s.get_ground_truth_last_pose()
            reg.initialize_last_pose_solution(o)
            o.update(np.ones(6))
            c.same("ground truth is a copy", np.array(s.get_ground_truth_last_pose().T()), last)
            if np.linalg.norm(ln3(last[:3, :3])) < 3.13: c.near("ground truth has zero error", reg.get_error(), 0, 1e-10 * np_ * nt * 50)
            c.traces += 1
        c.each(lambda: "scene of %d points, %d planes, %d poses" % (np_, nl, nt), body)


def main():
    c = Ctx(sys.argv[1:])
    import mrob
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # the library prints
    g, r = mrob.geometry, mrob.registration
    geometry(c, g)
    sequences_se3(c, g)
    covariances(c, g)
    fgraph(c, mrob)
    registration(c, g, r)
    planes(c, g, r)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
