#!/usr/bin/env python3-vt
"""C14: seeded histories of calls on the Python wrapper, with failures reported by the engine.

The wrapper is the one in /repo/python, the engine is the one built from /repo. Between them stands
shim.c in place of the shared library: the plan of a run says which engine calls fail. Every engine
call that succeeded is repeated by the harness itself on a reference context ("shadow").

c14.py run VERIF TIER SEED [RUNS] | replay VERIF FILE | one VERIF SEED I
"""
import ctypes, gc, hashlib, json, mmap, os, shutil, signal, struct, sys, time

REPO = os.environ.get("BB_REPO", "/repo")
FN = ["alloc", "dealloc", "refresh", "set", "conf", "train", "predict"]
ALLOC, DEALLOC, REFRESH, SET, CONF, TRAIN, PREDICT = range(7)
M64 = (1 << 64) - 1


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


class Rng:
    def __init__(self, s):
        self.s = s & M64

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M64
        return mix(self.s)

    def below(self, n):
        return self.next() % n

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, p):
        return (self.next() >> 11) * (1.0 / (1 << 53)) < p

    def pick(self, xs):
        return xs[self.below(len(xs))]


# ---- histories ------------------------------------------------------------------------------------

CONFS = [("niterations", [1, 2, 3]), ("max_tree_depth", [1, 2, 3]), ("learning_rate", [0.5, 1, 0.1, "0.25", 0.123456789, 1 / 3]),
         ("objective", ["L2", "l1", "huber", "binary", "hinge"]), ("metrics", [["l2"], "rmse,l2", [], ["binary_error", "l2"]]),
         ("metric_frequency", [1, 2]), ("max_nbins", [2, 4, 16]), ("discr_nbits", [1, 2, 4, 8]), ("sample_freq", [1, 2]),
         ("feature_fraction", [1.0, 0.5, 0.8333333]), ("example_fraction", [1.0, 0.8, 0.7654321]), ("random_seed", [1, 2, 99, 2 ** 31, 123456789, 2 ** 53 + 1, 2 ** 64 - 1]), ("min_examples_leaf", [1, 3]),
         ("reg_lambda", [0.0, 0.5, 1234.5678, 1e-7]), ("min_gain", [1e-6, 0.01, 1.2345678e-5, 1e-30]), ("huber_alpha", [0.9, 0.95]), ("compression_threshold", [0.1, 0.5, 1]),
         ("binary_gradient_bound", [1.25, 2.0]), ("categorical_features", [[], [0], "0", [0, 2], "1,0", [1], [10, 11]])]
DEFAULTS = {"objective": "L2", "metrics": [], "metric_frequency": 1, "learning_rate": 1, "reg_lambda": 0, "min_examples_leaf": 1, "huber_alpha": 0.95, "max_nbins": 16, "discr_nbits": 4,
            "max_tree_depth": 6, "compression_threshold": 0.5, "binary_gradient_bound": 1.25, "random_seed": 1, "feature_fraction": 1, "example_fraction": 1, "sample_freq": 1, "categorical_features": []}
BADCONFS = [("niterations", "x"), ("max_nbins", -1), ("learning_rate", "abc"), ("no_such_option", 1), ("discr_nbits", 2.5),
            ("categorical_features", ["a"]), ("objective", "nothing"), ("metrics", ["nothing"])]


def gen_col(r, target=False):
    if target:
        return {"k": r.pick(["reg", "class"]), "s": r.next() & 0xffff}
    k = r.pick(["cat", "cat", "num"])
    return {"k": k, "card": r.range(17, 40) if r.chance(0.15) else r.range(1, 9), "s": r.next() & 0xffff}


def almost(r, q):
    """the same table as in an earlier operation, but for a few values (or none)"""
    q = json.loads(json.dumps(q))
    for _ in range(r.range(0, 2)):
        c = r.pick(q["cols"]); c["tw"] = c.get("tw", []) + [r.next() & 0xffff]
    q["reuse"] = r.chance(0.5)      # in the same array
    return q


def gen_conf(r, valid=0.9):
    return list(r.pick([(n, r.pick(v)) for n, v in CONFS])) if r.chance(valid) else list(r.pick(BADCONFS))


def again(r, o, ops):
    """options given another time, some of them as they were to begin with"""
    names = [kv[0] for q in ops if q["op"] in ("config", "config1") for kv in (q["kv"] if q["op"] == "config" else [q["kv"]]) if kv[0] in DEFAULTS]
    kv = []
    for n in names[-4:]:
        if r.chance(0.6): kv.append([n, DEFAULTS[n]] if r.chance(0.7) else [n, r.pick(dict(CONFS)[n])])
    return {"op": "config", "o": o, "kv": kv + [["niterations", r.range(1, 3)]]}


def gen_n(r, lo=2):
    return r.range(lo, 40) if r.chance(0.99) else r.range(1000, 5000)


def gen_nf(r, most):
    return r.range(1, most) if r.chance(0.97) else r.range(5, 70)


def gen_data(r, o, nf):
    return {"op": "data", "o": o, "n": gen_n(r), "cols": [gen_col(r) for _ in range(nf)],
            "layout": r.pick(["C", "F", "strided"]), "cats": r.pick(["set", "list"])}


def gen_raw(r, o):
    nf = gen_nf(r, 4)
    ops = [{"op": "new", "o": o, "nf": nf, "n": 5}]
    if r.chance(0.95):
        ops.append({"op": "config", "o": o, "kv": [["niterations", r.range(1, 3)]] + [gen_conf(r, 1.0) for _ in range(r.range(0, 6))]})
    for _ in range(r.range(0, 3)):
        ops.append({"op": "config1", "o": o, "kv": gen_conf(r)})
    for _ in range(r.range(1, 3)):
        if r.chance(0.25): ops.append(again(r, o, ops))
        ops.append(gen_data(r, o, nf))
        ops.append({"op": "target", "o": o, "col": gen_col(r, True)})
        for _ in range(r.range(1, 5)):
            k = r.range(0, 6)
            if k <= 1: ops.append({"op": "train", "o": o})
            elif k <= 3: ops.append({"op": "predict", "o": o})
            elif k == 4: ops.append({"op": "setcol", "o": o, "f": r.range(0, nf), "col": gen_col(r)})
            elif k == 5: ops.append({"op": "target", "o": o, "col": gen_col(r, True)} if r.chance(0.5) else again(r, o, ops))
            elif r.chance(0.5): ops.append(almost(r, [q for q in ops if q["op"] == "data"][-1]))
            else: ops.append(gen_data(r, o, nf))
        ops.append({"op": "train", "o": o})
        ops.append({"op": "predict", "o": o})
    if r.chance(0.5): ops.append({"op": "dealloc", "o": o})
    if r.chance(0.5): ops.append({"op": "del", "o": o})
    return ops


def gen_type(r):
    """how an estimator is given numbers: it takes what can be converted"""
    return r.pick(["same", "same", "same", "float64", "fine", "int64", "int8", "list"])


def gen_est(r, o):
    ops = [{"op": "est", "o": o, "kv": [gen_conf(r, 0.97) for _ in range(r.range(1, 6))] + [["niterations", r.range(1, 3)]]}]
    for _ in range(r.range(1, 3)):
        nf = gen_nf(r, 3)
        cols = [gen_col(r) for _ in range(nf)]
        ops.append({"op": "fit", "o": o, "n": gen_n(r), "cols": cols, "y": gen_col(r, True), "xt": gen_type(r), "yt": gen_type(r)})
        for _ in range(r.range(1, 3)):
            ops.append({"op": "epredict", "o": o, "n": gen_n(r, 1), "cols": [gen_col(r) for _ in range(nf)], "xt": gen_type(r)})
            if r.chance(0.3):
                q = {"op": "epredict", "o": o, "n": ops[-2]["n"], "cols": ops[-2]["cols"]}
                ops.append(almost(r, q))
        if r.chance(0.2):
            ops.append(almost(r, [q for q in ops if q["op"] == "fit"][-1]))
            ops.append(almost(r, [q for q in ops if q["op"] == "epredict"][-1]))
    if r.chance(0.5): ops.append({"op": "del", "o": o})
    return ops


def gen(r):
    lives = [gen_raw(r, o) for o in range(r.range(1, 3))]
    if r.chance(0.4): lives.append(gen_est(r, 3))
    ops = []
    cur = 0
    while any(lives):
        if r.chance(0.2) or not lives[cur]: cur = r.below(len(lives))
        if lives[cur]: ops.append(lives[cur].pop(0))
    for _ in range(r.range(0, 6)):
        o = r.range(0, 2)
        q = r.pick([{"op": "predict", "o": o}, {"op": "train", "o": o}, {"op": "dealloc", "o": o}, {"op": "del", "o": o},
                    {"op": "config1", "o": o, "kv": gen_conf(r, 0.5)}, {"op": "badcol", "o": o, "f": r.range(0, 3), "how": r.pick(["short", "long", "dtype", "list", "fraction", "negative", "nan", "f-1", "f+1"]), "s": r.next() & 0xff},
                    {"op": "baddata", "o": o, "how": r.pick(["dtype", "cols", "rows0", "fraction"]), "n": r.range(1, 9)},
                    {"op": "new", "o": o, "nf": r.pick([0, -1, 2]), "n": r.pick([0, 5])}])
        ops.insert(r.below(len(ops) + 1), q)
    ncalls = 12 * len(ops)
    how = r.range(0, 4)
    if how == 0: fails = []
    elif how == 1: fails = [r.below(min(60, ncalls))]
    else:
        p = r.pick([0.01, 0.05, 0.15, 0.4])
        fails = [i for i in range(min(ncalls, 600)) if r.chance(p)]
    return {"ops": ops, "fails": fails}


# ---- one run --------------------------------------------------------------------------------------

class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, msg


class Rec(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in ("fn", "arg", "failed", "injected", "unknown", "cat")] + [("ctx", ctypes.c_void_p), ("name", ctypes.c_char * 64), ("value", ctypes.c_char * 64), ("hash", ctypes.c_uint64)]


class Shadow:
    """a context of the engine driven by the harness"""
    def __init__(self, eng, nf):
        self.e, self.nf, self.n = eng, nf, None
        self.p = eng.bb_alloc(nf)
        assert self.p

    def conf(self, k, v):
        return self.e.bb_set_config_field(self.p, str(k).encode(), (v if isinstance(v, str) else ",".join(map(str, v)) if isinstance(v, list) else str(v)).encode())

    def refresh(self, n):
        rc = self.e.bb_refresh_data(self.p, n)
        if rc == 0: self.n = n
        return rc

    def set(self, f, x, cat):
        if len(x) != self.n: return -1
        x = self.e.np.ascontiguousarray(x, dtype=self.e.numt)
        return self.e.bb_set_feature_data(self.p, f, x.ctypes.data_as(ctypes.c_void_p), 1 if cat else 0)

    def train(self):
        return self.e.bb_train(self.p)

    def predict(self):
        if self.n is None: return -1, None
        out = self.e.np.zeros(self.n, dtype=self.e.numt)
        rc = self.e.bb_predict(self.p, out.ctypes.data_as(ctypes.c_void_p))
        return rc, out

    def free(self):
        self.e.bb_dealloc(self.p)


class Run:
    def __init__(self, env, case):
        self.env, self.case = env, case
        self.np = env["np"]
        self.shim, self.eng = env["shim"], env["eng"]
        self.shadows = {}       # context of the wrapper -> Shadow
        self.leaked = set()     # contexts whose release was made to fail
        self.objs, self.ctx, self.nf, self.dead = {}, {}, {}, {}
        self.estctx, self.fitted = {}, {}
        self.optval = {}        # (context, option): last value the engine accepted
        self.unraisable = []
        self.earlier, self.arrays = [], {}
        self.cnt = {"calls": 0, "engine_calls": 0, "engine_failures_injected": 0, "engine_failures_real": 0, "raised": 0, "predictions_compared": 0, "releases": 0}
        self.inj = {f: 0 for f in FN}
        self.real = {f: 0 for f in FN}
        self.opp = {f: 0 for f in FN}
        self.h = hashlib.blake2b(digest_size=8)

    def column(self, c, n):
        np, out = self.np, []
        r = Rng(mix(c["s"]))
        for i in range(n):
            if c["k"] == "cat": out.append(float(r.below(c["card"])))
            elif c["k"] == "num": out.append((r.below(2 * c["card"]) - c["card"]) / 4.0)
            elif c["k"] == "class": out.append(float(r.below(2)))
            else: out.append(r.below(64) / 8.0 - 2.0)
        if c["k"] == "class" and n >= 2: out[0], out[n - 1] = 0.0, 1.0
        for t in c.get("tw", []):       # almost the same values again
            out[t % n if t % 3 else n // 2] = out[(t // 97) % n]
        return np.array(out, dtype=self.eng.numt)

    def same_array(self, q, o, X):
        """callers may hand in the array of an earlier call again, with other values in it"""
        last = self.arrays.get(o)
        if isinstance(X, list): return X
        if q.get("reuse") and last is not None and last.shape == X.shape and last.dtype == X.dtype:
            last[...] = X
            return last
        self.arrays[o] = X
        return X

    def typed(self, x, how):
        """the same numbers in another form"""
        np = self.np
        if how == "float64": return x.astype("float64")
        if how == "fine": return x.astype("float64") * (1 + 1e-9) # more digits than the engine's type has
        if how in ("int64", "int8") and (x == np.floor(x)).all(): return x.astype(how)
        if how == "list": return x.tolist()
        return x

    def content(self, x):
        """as in shim.c"""
        np = self.np
        x = np.ascontiguousarray(x, dtype=self.eng.numt) + self.eng.numt.type(0) # both zeros alike
        b = x.view("uint32" if x.dtype.itemsize == 4 else "uint64").astype("uint64")
        k = (np.arange(1, len(b) + 1, dtype="uint64") * np.uint64(0x9E3779B97F4A7C15)) | np.uint64(1)
        return int(((b + np.uint64(1)) * k).sum(dtype="uint64"))

    def canon(self, name, v):
        """the meaning of an option's value"""
        ty = self.env["types"].get(name, "")
        def item(x, ty):
            x = str(x).strip()
            if ty in ("String", ""): return x
            try: return float(self.np.float32(x)) if ty in ("NumT", "f32") else int(x)
            except (ValueError, OverflowError): return x
        if ty.startswith("Vec"):
            xs = v.split(",") if isinstance(v, str) else list(v)
            return [item(x, ty[ty.find("<") + 1:ty.rfind(">")].strip()) for x in xs if str(x).strip() != "" or len(xs) > 1]
        return item(v, ty)

    def records(self, dealloc_counts):
        """engine calls since the last look; successful ones are repeated on the shadows by `effect`"""
        n = self.shim.shim_nlog()
        p = self.shim.shim_log()
        rs = [(p[i].fn, p[i].arg, p[i].failed, p[i].injected, p[i].unknown, p[i].ctx, p[i].name.decode("utf8", "replace"),
               (p[i].value.decode("utf8", "replace") if p[i].fn == CONF else (p[i].hash, bool(p[i].cat)) if p[i].fn == SET else None)) for i in range(n)]
        self.shim.shim_clear()
        failed = None
        for fn, arg, bad, inj, unk, ctx, name, _ in rs:
            self.cnt["engine_calls"] += 1
            self.opp[FN[fn]] += 1
            self.h.update(bytes([fn, bad, inj]) + struct.pack("<i", arg) + name.encode())
            if unk:
                raise Violation("released-context", "the wrapper calls bb_%s with a context it does not have%s" % (FN[fn], " (released before)" if ctx else " (NULL)"))
            if inj: self.cnt["engine_failures_injected"] += 1; self.inj[FN[fn]] += 1
            elif bad: self.cnt["engine_failures_real"] += 1; self.real[FN[fn]] += 1
            if bad and (fn != DEALLOC or dealloc_counts): failed = failed or (FN[fn], inj)
            if fn == ALLOC and not bad:
                self.shadows[ctx] = Shadow(self.eng, arg)
                for k in [k for k in self.optval if k[0] == ctx]: del self.optval[k]
            if fn == DEALLOC:
                if bad: self.leaked.add(ctx)
                else:
                    self.cnt["releases"] += 1
                    self.leaked.discard(ctx)
                    self.shadows.pop(ctx).free()
        return rs, failed

    def step(self, k, q):
        np, env = self.np, self.env
        o, op = q["o"], q["op"]
        raw, est = env["raw"], env["est"]
        obj = self.objs.get(o)
        w = lambda m: "call %d (%s on object %d): %s" % (k, op, o, m)
        if op in ("new", "est"):
            if obj is not None: return
        elif obj is None or (o == 3) != (op in ("fit", "epredict", "del")) and op != "del":
            return
        dead = self.dead.get(o, "")
        nf = self.nf.get(o, 1)
        sh0 = self.shadows.get(self.ctx.get(o))
        rows = sh0.n if sh0 else None
        effects = []          # (key, function on a shadow): what the call is for
        expects = {}          # key: what the engine must be handed for it
        invalid = bool(dead)  # no engine call need fail, the call must still raise
        result = [None]
        if op == "new":
            def call(): result[0] = raw(q["nf"], q["n"])
            invalid = q["nf"] <= 0 or q["n"] <= 0
        elif op == "est":
            kv = {}
            for n, v in q["kv"]:
                if n != "no_such_option": kv[n] = v
            def call(): result[0] = est(**kv)
        elif op == "del":
            def call(): pass
            invalid = False
        elif op == "dealloc":
            def call(): obj.dealloc()
        elif op in ("config", "config1"):
            kv = [q["kv"]] if op == "config1" else q["kv"]
            d = {}
            for n, v in kv: d[n] = v
            if any(n not in env["options"] for n in d): invalid = True
            for n, v in d.items():
                effects.append((("conf", n), lambda s, n=n, v=v: s.conf(n, v)))
                expects["conf", n] = v
            if op == "config1":
                def call(): obj.set_config_field(kv[0][0], kv[0][1])
            else:
                def call(): obj.set_config(d)
        elif op in ("data", "baddata"):
            cats = set()
            n = q["n"]
            if op == "baddata":
                how = q["how"]
                cols = [self.column({"k": "num", "card": 5, "s": 3}, 0 if how == "rows0" else n) for _ in range(nf + (1 if how == "cols" else 0))]
                X = np.column_stack(cols)
                if how == "dtype": X = X.astype("float64"); invalid = True
                if how == "cols": invalid = True
                if how == "fraction": X[0, 0] = 0.5; cats = {0}
                n = X.shape[0]
            else:
                cols = [self.column(c, n) for c in (q["cols"] * nf)[:nf]]
                cats = {i for i, c in enumerate((q["cols"] * nf)[:nf]) if c["k"] == "cat"}
                X = np.column_stack(cols)
                if q["layout"] == "F": X = np.asfortranarray(X)
                elif q["layout"] == "strided":
                    big = np.full((2 * n, 2 * nf), 77, dtype=X.dtype); big[::2, ::2] = X; X = big[::2, ::2]
            X = self.same_array(q, o, X)
            X0 = X.copy()
            effects.append((("refresh", n), lambda s: s.refresh(n)))
            for f in range(min(nf, X.shape[1])):
                effects.append((("set", f), lambda s, f=f: s.set(f, X0[:, f], f in cats)))
                expects["set", f] = (X0[:, f], f in cats)
            cc = sorted(cats) if q.get("cats") == "list" else cats
            def call(): obj.set_data(X, cc)
        elif op in ("target", "setcol", "badcol"):
            f = nf if op == "target" else min(q["f"], nf)
            n = rows if rows is not None else 5
            if op == "badcol":
                how = q["how"]
                x = self.column({"k": "cat", "card": 5, "s": q["s"]}, n + {"short": -1, "long": 3}.get(how, 0))
                cat = True
                if how == "dtype": x = x.astype("float64")
                if how == "list": x = list(x)
                if how in ("fraction", "negative", "nan"): x[q["s"] % n] = {"fraction": 1.5, "negative": -2, "nan": float("nan")}[how]
                if how == "f-1": f = -1
                if how == "f+1": f = nf + 1
                invalid = invalid or how in ("short", "long", "dtype", "list", "f-1", "f+1")
            else:
                x = self.column(q["col"], n)
                cat = op == "setcol" and q["col"]["k"] == "cat"
            if rows is None: invalid = True
            x0 = x if isinstance(x, list) else x.copy()
            effects.append((("set", f), lambda s, f=f: s.set(f, x0, cat)))
            expects["set", f] = (x0, cat)
            if op == "target":
                def call(): obj.set_target(x)
            else:
                def call(): obj.set_feature_data(f, x, cat)
        elif op == "train":
            effects.append((("train", 0), lambda s: s.train()))
            def call(): obj.train()
        elif op == "predict":
            invalid = invalid or rows is None
            def call(): result[0] = obj.predict()
        elif op == "fit":
            cols = [self.column(c, q["n"]) for c in q["cols"]]
            X, y = self.same_array(q, o, self.typed(np.column_stack(cols), q.get("xt"))), self.column(q["y"], q["n"])
            y0 = self.typed(y, q.get("yt"))
            obj.categorical_features = [i for i, c in enumerate(q["cols"]) if c["k"] == "cat"]
            for n, v in obj.get_params().items():
                effects.append((("conf", n), lambda s, n=n, v=v: s.conf(n, v)))
                expects["conf", n] = v
            effects.append((("refresh", q["n"]), lambda s: s.refresh(q["n"])))
            for f in range(len(cols)):
                effects.append((("set", f), lambda s, f=f: s.set(f, cols[f], q["cols"][f]["k"] == "cat")))
                expects["set", f] = (cols[f], q["cols"][f]["k"] == "cat")
            effects.append((("set", len(cols)), lambda s: s.set(len(cols), y, False)))
            expects["set", len(cols)] = (y, False)
            effects.append((("train", 0), lambda s: s.train()))
            def call(): obj.fit(X, y0)
        elif op == "epredict":
            cols = [self.column(c, q["n"]) for c in q["cols"]]
            X = self.same_array(q, o, self.typed(np.column_stack(cols), q.get("xt")))
            if not self.fitted.get(o) or any(self.shadows[c].nf != len(cols) for c in self.estctx[o] if c in self.shadows): dead = "maybe"
            effects.append((("refresh", q["n"]), lambda s: s.refresh(q["n"])))
            for f in range(len(cols)):
                effects.append((("set", f), lambda s, f=f: s.set(f, cols[f], False)))
                expects["set", f] = (cols[f], None)
            def call(): result[0] = obj.predict(X)
        else:
            return
        self.cnt["calls"] += 1

        raised = None
        try:
            call()
        except BaseException as e:
            raised = "%s: %s" % (type(e).__name__, e)
        if op == "del":
            obj = None
            self.objs.pop(o); self.dead.pop(o, None)
            self.estctx.pop(o, None)
        gc.collect()
        before = dict(self.shadows)
        rs, failed = self.records(op == "dealloc")
        lost, self.unraisable[:] = self.unraisable[:1], []
        if lost and not any(r[0] == DEALLOC and r[2] for r in rs):
            raise Violation("broken-object", w("an object cannot be deleted: %s" % lost[0]))
        if op == "del":
            c = self.ctx.pop(o, None)
            return
        if raised: self.cnt["raised"] += 1
        if failed and not raised:
            raise Violation("hidden-failure", w("bb_%s reported failure%s, yet the call returned normally" % (failed[0] if failed[0] != "set" else "set_feature_data", " (injected)" if failed[1] else "")))
        if not failed and raised and not invalid and not dead:
            raise Violation("needless-exception", w("every engine call succeeded, yet the call raised %s" % raised))
        if invalid and not raised and dead != "maybe":
            raise Violation("accepted", w("the call cannot be carried out, yet it returned normally"))
        if op == "new":
            if not raised:
                self.objs[o], self.nf[o], self.dead[o] = result[0], q["nf"], ""
                result[0] = None
                a = [r for r in rs if r[0] == ALLOC]
                if len(a) != 1 or a[0][1] != q["nf"]: raise Violation("no-context", w("%d contexts allocated for one wrapper object" % len(a)))
                self.ctx[o] = a[0][5]
            return
        if op == "est":
            self.objs[o], self.dead[o], self.estctx[o] = result[0], "", []
            self.fitted[o] = False
            return
        if op == "dealloc":
            mine = [r for r in rs if r[0] == DEALLOC and r[5] == self.ctx.get(o)]
            if not raised and not mine: raise Violation("not-released", w("the call returned normally without releasing the context"))
            self.dead[o] = "maybe" if any(r[2] for r in mine) else "yes" if mine else dead
            return
        if op == "fit":
            a = [r[5] for r in rs if r[0] == ALLOC and not r[2]]
            if not raised and len(a) != 1: raise Violation("no-context", w("%d contexts for one fit" % len(a)))
            self.estctx[o] += a
            self.fitted[o] = not raised
            ctxs = a
        elif op == "epredict": ctxs = sorted({r[5] for r in rs if r[0] == PREDICT} or {r[5] for r in rs if r[0] in (REFRESH, SET)})
        else: ctxs = [self.ctx.get(o)]
        if any(r[0] != DEALLOC and r[5] not in ctxs for r in rs if r[5]) and not (op == "epredict"):
            raise Violation("other-context", w("an engine call went to another object's context"))
        # what the engine accepted is what was given
        for r in rs:
            if r[2] or r[0] not in (SET, CONF): continue
            key = ("set", r[1]) if r[0] == SET else ("conf", r[6])
            if key not in expects: continue
            want, got = expects[key], r[7]
            if r[0] == CONF:
                a, b = self.canon(r[6], want), self.canon(r[6], got)
                if a != b and len(got) < 63: raise Violation("other-value", w("option %s is set to %r instead of %r" % (r[6], got, want)))
                self.optval[r[5], r[6]] = a
            else:
                if not isinstance(want[0], list) and self.content(want[0]) != got[0]: raise Violation("other-value", w("column %d is set to other values than those given" % r[1]))
                if want[1] is not None and want[1] != got[1]: raise Violation("other-value", w("column %d is declared %s" % (r[1], "categorical" if got[1] else "numerical")))
            self.cnt["values_compared"] = self.cnt.get("values_compared", 0) + 1
        if not raised and ctxs:
            for key in expects:
                if key[0] == "conf" and self.optval.get((ctxs[0], key[1]), self.canon(key[1], str(env["defaults"].get(key[1], "")).strip("[]"))) != self.canon(key[1], expects[key]):
                    raise Violation("false-success", w("returned normally, but option %s was never set to %r" % (key[1], expects[key])))
        # what was carried out is carried out on the shadow, too
        s = self.shadows.get(ctxs[0]) if ctxs else None
        if not raised:
            if s is None: raise Violation("no-context", w("returned normally without a context"))
            for key, f in effects:
                if f(s) != 0: raise Violation("false-success", w("returned normally, but the engine cannot carry out %s %s" % key))
            if op in ("predict", "epredict"):
                rc, want = s.predict()
                if rc != 0: raise Violation("false-success", w("predictions are returned, but the engine cannot predict"))
                got = result[0]
                if not isinstance(got, np.ndarray) or got.shape != want.shape:
                    raise Violation("wrong-prediction", w("%s predictions instead of %d" % (getattr(got, "shape", None), len(want))))
                same = (got == want) | (np.isnan(got) & np.isnan(want))
                if not same.all():
                    i = int(np.argmin(same))
                    raise Violation("wrong-prediction", w("example %d of %d: %r instead of %r" % (i, len(want), float(got[i]), float(want[i]))))
                self.cnt["predictions_compared"] += len(want)
                self.h.update(got.tobytes())
                self.earlier.append((k, got, want))
        elif s is not None:
            by = {}
            for key, f in effects: by[key] = f
            for r in rs:
                if r[2] or r[0] in (ALLOC, DEALLOC, PREDICT): continue
                key = {REFRESH: ("refresh", r[1]), SET: ("set", r[1]), CONF: ("conf", r[6]), TRAIN: ("train", 0)}[r[0]]
                if key not in by: raise Violation("unasked", w("the wrapper made an engine call nobody asked for: %s %s" % key))
                if by[key](s) != 0: raise Violation("unasked", w("an engine call got other values than those given: %s %s" % key))

    def run(self):
        np = self.np
        for i in self.case["fails"]: self.shim.shim_fail(i)
        ops = self.case["ops"]
        for k, q in enumerate(ops): self.step(k, q)
        # whatever is left can still be released, exactly once
        k = len(ops)
        for o in list(self.objs):
            self.step(k, {"op": "del", "o": o}); k += 1
        gc.collect()
        self.records(False)
        left = set(self.shadows) - self.leaked
        if left: raise Violation("never-released", "%d contexts are still allocated after every wrapper object is gone" % len(left))
        # predictions that were returned belong to the caller: later calls do not change them
        for k, got, want in self.earlier:
            if not ((got == want) | (np.isnan(got) & np.isnan(want))).all():
                raise Violation("changed-later", "the predictions returned by operation %d were changed by later operations" % k)


def load(lib):
    """in the process of one run: the wrapper over the shim, and the engine for the harness"""
    import numpy as np
    d = lib
    sys.path.insert(0, d)
    sys.path.insert(1, d + "/stub")
    import importlib
    bb = importlib.import_module("bitboost")
    raw = importlib.import_module("bitboost.bitboost").RawBitBoost
    so = d + "/bitboost/libbitboost.so"
    shim = ctypes.CDLL(so)
    shim.shim_log.restype = ctypes.POINTER(Rec)
    eng = ctypes.CDLL(so + ".real")
    eng.np = np
    eng.numt = np.dtype("float32") if eng.bb_get_numt_nbytes() == 4 else np.dtype("float64")
    P = ctypes.c_void_p
    for n, a, r in (("bb_alloc", [ctypes.c_int], P), ("bb_dealloc", [P], ctypes.c_int), ("bb_refresh_data", [P, ctypes.c_int], ctypes.c_int),
                    ("bb_set_feature_data", [P, ctypes.c_int, P, ctypes.c_int], ctypes.c_int), ("bb_set_config_field", [P, ctypes.c_char_p, ctypes.c_char_p], ctypes.c_int),
                    ("bb_train", [P], ctypes.c_int), ("bb_predict", [P, P], ctypes.c_int)):
        f = getattr(eng, n); f.argtypes = a; f.restype = r
    gc.collect()
    gc.freeze()
    return {"np": np, "raw": raw, "est": bb.BitBoost, "shim": shim, "eng": eng, "options": set(raw.config_params), "types": {n: p.type_str for n, p in raw.config_params.items()},
            "defaults": {n: p.default for n, p in raw.config_params.items()}}


def child(env, case, wfd):
    res = {}
    r = Run(env, case)
    sys.unraisablehook = lambda a: r.unraisable.append("%s: %s" % (type(a.exc_value).__name__, a.exc_value))
    try:
        r.run()
    except Violation as e:
        res["v"] = [e.cls, e.msg]
    except BaseException as e:
        import traceback
        res["err"] = traceback.format_exc()
    res.update(cnt=r.cnt, inj=r.inj, real=r.real, opp=r.opp, digest=r.h.hexdigest())
    b = json.dumps(res).encode()
    while b:
        b = b[os.write(wfd, b):]
    os._exit(0)


def one(env, case, limit=60):
    """one run in a process of its own"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.alarm(limit)
        try: child(env, case, wfd)
        finally: os._exit(99)
    os.close(wfd)
    buf = b""
    while True:
        x = os.read(rfd, 1 << 16)
        if not x: break
        buf += x
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        return {"v": ["hang" if sg == signal.SIGALRM else "crash", "the process died of signal %d" % sg], "cnt": {}, "inj": {}, "real": {}, "opp": {}, "digest": "signal"}
    try: return json.loads(buf)
    except ValueError: return {"err": "no result (status %d)" % st}


# ---- search, minimisation, replay -------------------------------------------------------------------

def plan(seed, i):
    r = Rng(mix(seed ^ 0xC14) ^ mix(i + 1))
    return r.s, gen(r)


def scratch(verif):
    base = "%s/target/pyrun" % verif
    os.makedirs(base, exist_ok=True)
    for d in os.listdir(base):  # left behind by runs that were ended
        if d.isdigit() and not os.path.exists("/proc/" + d): shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    d = "%s/%d" % (base, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/bitboost")
    for f in os.listdir(REPO + "/python/bitboost"):
        if f.endswith(".py"): shutil.copyfile("%s/python/bitboost/%s" % (REPO, f), "%s/bitboost/%s" % (d, f))
    shutil.copyfile(REPO + "/python/bitboost_config.gen.csv", d + "/bitboost/bitboost_config.gen.csv")
    shutil.copyfile(verif + "/target/py/libshim.so", d + "/bitboost/libbitboost.so")
    shutil.copyfile(verif + "/target/py/release/libbitboost.so", d + "/bitboost/libbitboost.so.real")
    shutil.copytree(verif + "/py/stub", d + "/stub")
    return d


def quiet():
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("BBSIM_TRACE"): os.dup2(fd, 2)
    os.close(fd)


def in_child(f):
    """run f in a process of its own (own stdout, own import of the wrapper) and return its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        quiet()
        try:
            b = json.dumps(f()).encode()
        except BaseException:
            import traceback
            b = json.dumps({"fail": traceback.format_exc()}).encode()
        while b: b = b[os.write(w, b):]
        os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    buf = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x: break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {"fail": "worker died"}


def shrink(env, case, cls, cap):
    t0, tries = time.time(), 0
    def bad(c):
        nonlocal tries
        tries += 1
        o = one(env, c)
        return o.get("v") and o["v"][0] == cls
    changed = True
    while changed and time.time() - t0 < cap:
        changed = False
        for field in ("ops", "fails"):
            size = max(1, len(case[field]) // 2)
            while size >= 1 and time.time() - t0 < cap:
                i = 0
                while i < len(case[field]) and time.time() - t0 < cap:
                    c = dict(case); c[field] = case[field][:i] + case[field][i + size:]
                    if field == "ops":  # keep failures on the calls they were on, roughly: try both
                        pass
                    if bad(c): case, changed = c, True
                    else: i += size
                size //= 2
        # failures may sit on calls that have moved
        if case["fails"]:
            for j in range(len(case["fails"])):
                for to in range(0, min(case["fails"][j], 40)):
                    if time.time() - t0 > cap: break
                    c = dict(case); c["fails"] = sorted(set(case["fails"][:j] + [to] + case["fails"][j + 1:]))
                    if bad(c): case, changed = c, True; break
                if changed: break
    return case, {"tries": tries, "seconds": round(time.time() - t0, 2)}


def replay(verif, file, say=print):
    j = json.load(open(file))
    d = scratch(verif)
    try:
        o = collect(*in_child(lambda: one(load(d), j["case"])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "fail" in o or "err" in o:
        say("harness error: %s" % (o.get("fail") or o.get("err"))); return 2
    if o.get("v"):
        say("%s: %s" % tuple(o["v"]))
        say("expected: %s: %s" % (j["violation"]["class"], j["violation"]["message"]))
        say("VIOLATION property=C14 replay=%s" % file)
        return 1
    say("held")
    return 0


def known(verif):
    out = []
    try: lines = open(verif + "/known_findings.txt").read().splitlines()
    except OSError: lines = []
    for l in lines:
        if l.startswith("known: property=C14 class="):
            rest = l[len("known: property=C14 class="):]
            cls, _, rest = rest.partition(' contains="')
            txt, _, what = rest.partition('" ')
            out.append((cls, txt, what))
    return out


def run(verif, tier, seed, runs=None):
    t0 = time.time()
    budget, wall = (10000, 40.0) if tier == "quick" else (2000000, 900.0)
    if runs: budget = runs
    d = scratch(verif)
    nw = max(1, min(8, os.cpu_count() or 1))
    stop = mmap.mmap(-1, 8)
    kn = known(verif)

    def worker(w):
        env = load(d)
        tot = {"cnt": {}, "inj": {}, "real": {}, "opp": {}}
        digests, nontriv, samples, viol, hits = set(), set(), [], None, set()
        done = with_fault = rerun = rerun_diff = once = 0
        errs = []
        i = w
        while i < budget and time.time() - t0 < wall and not stop[0]:
            s, case = plan(seed, i)
            o = one(env, case)
            if "err" in o:
                errs.append("run %d: %s" % (i, o["err"]))
                if len(errs) >= 3: break
                i += nw; continue
            done += 1
            for k in tot:
                for n, c in o[k].items(): tot[k][n] = tot[k].get(n, 0) + c
            digests.add(o["digest"])
            if o["cnt"].get("engine_failures_injected") or o["cnt"].get("engine_failures_real"): with_fault += 1
            if o["cnt"].get("engine_failures_injected") or o["cnt"].get("predictions_compared"):
                nontriv.add(o["digest"])
                if w == 0 and len(samples) < 3: samples.append({"run": i, "seed": s, "case": case, "digest": o["digest"], "counts": o["cnt"]})
            if i % 25 == 3:
                rerun += 1
                if one(env, case).get("digest") != o["digest"]: rerun_diff += 1
            if o.get("v"):
                hit = [x for x in kn if x[0] == o["v"][0] and x[1] in o["v"][1]]
                if hit: hits.add(hit[0][2])
                elif not any(one(env, case).get("v") for _ in range(1 if o["v"][0] == "hang" else 4)) and once < 1:
                    once += 1       # failed once and not again: disturbed from outside
                else:
                    viol = [i, s, o["v"]]
                    stop[0] = 1
                    break
            i += nw
        return {"tot": tot, "digests": sorted(digests), "nontriv": sorted(nontriv), "samples": samples, "viol": viol, "hits": sorted(hits),
                "done": done, "with_fault": with_fault, "rerun": rerun, "rerun_diff": rerun_diff, "once": once, "errs": errs}

    rc = 0
    try:
        rs = [collect(p, r) for p, r in [in_child(lambda w=w: worker(w)) for w in range(nw)]]
        for r in rs:
            if "fail" in r or r["errs"]:
                print("harness error: %s" % (r.get("fail") or r["errs"][0]), file=sys.stderr)
                return 2
        search_s = time.time() - t0
        viol = min([r["viol"] for r in rs if r["viol"]], default=None)
        vj = None
        for h in sorted({h for r in rs for h in r["hits"]}): print("KNOWN-FINDING: property=C14 %s" % h)
        if viol:
            i, s, v = viol
            _, case = plan(seed, i)
            print("run %d violates: %s: %s" % (i, v[0], v[1]), file=sys.stderr)
            def mini():
                env = load(d)
                c, info = shrink(env, case, v[0], 20 if tier == "quick" else 90)
                return [c, info, one(env, c).get("v")]
            m = collect(*in_child(mini))
            if isinstance(m, dict) or not m[2]: m = [case, {}, v]
            os.makedirs(verif + "/replays", exist_ok=True)
            path = "%s/replays/C14-%d.json" % (verif, i)
            json.dump({"property": "C14", "seed": s, "case": m[0], "violation": {"class": m[2][0], "message": m[2][1]}, "minimised": m[1],
                       "replay_with": "bash /verif/replay.sh <this file>"}, open(path, "w"))
            ok = replay(verif, path, lambda *_: None) == 1
            if not ok:
                json.dump({"property": "C14", "seed": s, "case": case, "violation": {"class": v[0], "message": v[1]}}, open(path, "w"))
            print("%s: %s" % tuple(m[2]))
            print("case: %s" % json.dumps(m[0]))
            print("minimisation: %s; replay in a fresh process %s" % (json.dumps(m[1]), "fails the same way" if ok else "did not fail: file holds the original run"))
            print("VIOLATION property=C14 replay=%s" % path)
            vj = {"class": m[2][0], "message": m[2][1], "replay": path, "confirmed": ok}
            rc = 1
        tot = {k: {} for k in ("cnt", "inj", "real", "opp")}
        for r in rs:
            for k in tot:
                for n, c in r["tot"][k].items(): tot[k][n] = tot[k].get(n, 0) + c
        done = sum(r["done"] for r in rs)
        dig = {x for r in rs for x in r["digests"]}
        ev = {"property": "C14", "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.time() - t0, "violations": 1 if rc else 0,
              "assumptions": ["an engine call that fails has no effect (that is C07)", "the engine runs with one worker thread, outside the scheduler (that its results do not depend on the schedule is C01)", "scikit-learn is not installed: its base class and input checks are a stub"],
              "coverage": {"evaluations": done, "distinct_nontrivial": len({x for r in rs for x in r["nontriv"]}),
                           "rule": "a run is a history of wrapper calls over a plan of failing engine calls; it counts when a failure was injected or predictions were compared; distinct by the trace of engine calls, failures and predictions",
                           "samples": [x for r in rs for x in r["samples"]][:3], "seed_range": "VERIF_SEED=%d runs 0..%d" % (seed, done),
                           "runs_per_hour": round(done / max(search_s, 1e-9) * 3600), "simulated_time_s": 0.0,
                           "simulated_time_note": "the wrapper reads no clock",
                           "distinct_interleavings": len(dig), "interleaving_measure": "distinct traces of engine calls, failures and predictions",
                           "faults": {"engine_failure_" + f: {"opportunities": tot["opp"].get(f, 0), "fired": tot["inj"].get(f, 0), "reported_by_the_real_engine": tot["real"].get(f, 0)} for f in FN},
                           "runs_with_a_fault": sum(r["with_fault"] for r in rs), "reached": tot["cnt"],
                           "determinism_reruns": sum(r["rerun"] for r in rs), "determinism_mismatches": sum(r["rerun_diff"] for r in rs), "failed_once_and_not_again": sum(r["once"] for r in rs),
                           "real_components": ["python/bitboost/bitboost.py", "python/bitboost/sklearn.py", "the engine (release build) behind the C interface"],
                           "simulated_components": ["failure of engine calls", "scikit-learn (stub)"], "violation": vj}}
        os.makedirs(verif + "/evidence", exist_ok=True)
        json.dump(ev, open(verif + "/evidence/C14.json", "w"))
        print("C14 %s: %d runs, %d distinct traces, %d failures injected, %.1f s search, %d of %d re-runs differed" % ("VIOLATED" if rc else "held", done, len(dig),
              tot["cnt"].get("engine_failures_injected", 0), search_s, ev["coverage"]["determinism_mismatches"], ev["coverage"]["determinism_reruns"]))
        if done == 0: return 2
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    os.environ["RAYON_NUM_THREADS"] = "1"
    os.environ["RUST_BACKTRACE"] = os.environ["RUST_LIB_BACKTRACE"] = "0"
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    mode, verif = sys.argv[1], os.path.abspath(sys.argv[2])
    if mode == "run": sys.exit(run(verif, sys.argv[3], int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else None))
    if mode == "replay": sys.exit(replay(verif, sys.argv[3]))
    if mode == "one":
        d = scratch(verif)
        s, case = plan(int(sys.argv[3]), int(sys.argv[4]))
        print(json.dumps(case))
        print(collect(*in_child(lambda: one(load(d), case))))
        shutil.rmtree(d, ignore_errors=True)
