"""Failures, sharing and transport of models: C07, C08, C12."""

import copy
import pickle
import warnings

import numpy as np

import kernel
import models
import service as sv
from core import (ERRSTATES, IllPosed, Violation, clone, close, list_shrinker, plain, set_shrinker)
from kernel import chain_has
from models import LINEAR, UNSCENTED


def gen_model(rng, cls=None, T=None, nonlin=0.4, p_int=0.08):
    cls = cls or rng.choice(LINEAR + UNSCENTED)
    T = T or rng.choice([1, 2, 3, 4, 5, 6, 8])
    n = rng.choice([1, 2, 2, 3, 4])
    if cls in LINEAR:
        model = models.gen_linear(rng, cls, T, n=n, p_int=p_int)
    else:
        model = models.gen_unscented(rng, cls, T, rng.random() < nonlin, n=n)
    return models.quirk(rng, model) if rng.random() < 0.15 else model


def timed_sig(model):
    return "".join(k for k in "AbQCdR" if k in model and models.is_timed(model, k)) + "".join(
        k for k in "fg" if isinstance(model.get(k), list))


class ServiceProp:
    shrinkers = []
    stub = ["clients", "scheduler", "injected failures", "user callbacks"]
    real = ["every pykalman function under test", "numpy", "scipy", "pickle", "copy", "threading"]


# ------------------------------------------------------------------------------
class C07(ServiceProp):
    """Failed or interrupted read-only operations leave no trace."""

    runs = {"quick": 18000, "thorough": 900000}
    rule = ("one plan per seed: model, data, operations, and for each the kind and position of the "
            "failure; distinct when class, dimensions, operations, failure kind or failing call site "
            "differ")
    shrinkers = [list_shrinker("ops")]

    def gen(self, rng, i):
        model = gen_model(rng)
        data = sv.gen_data(rng, model)
        plan = {"model": model, "data": data, "ops": []}
        uns = model["cls"] in UNSCENTED
        for _ in range(rng.choice([1, 2, 3, 4])):
            c = sv.gen_call(rng, model, data)
            r = rng.random()
            if uns and r < 0.4:
                c["fault"] = ["callback", rng.choice(sorted(kernel.EXC)), round(rng.random(), 4)]
            elif r < 0.85:
                c["fault"] = ["call", rng.choice(["LinAlgError", "MemoryError", "KeyboardInterrupt",
                                                  "FloatingPointError", "ValueError"]),
                              round(rng.random(), 4)]
            elif r < 0.93:
                c["fault"] = ["line", "KeyboardInterrupt", round(rng.random(), 4)]
            else:
                c["fault"] = ["heavy", rng.choice(["LinAlgError", "MemoryError"]),
                              round(rng.random(), 4)]
            plan["ops"].append(c)
        return plan

    def run(self, plan, ctx):
        model, data = plan["model"], plan["data"]
        ctx.strict = True
        ctx.sig += [model["cls"], f"{model['n']}/{model['m']}", timed_sig(model)]
        hook = Hook()
        kf = ctx.call("construct", models.build, model, hook=hook if self.hooked(model) else None)
        exp = sv.Expect(model, data)
        for c in plan["ops"]:
            exp.prime(c)
            want = exp(c)
            self.one(plan, ctx, kf, hook, c, want)
        # nothing has happened, as far as anyone can tell
        for c in plan["ops"]:
            args, kw = sv.inputs(model, data, c)
            got = sv.arrays(model, c, ctx.call(c["op"], sv.call, kf, c, args, kw))
            sv.check(model, c, got, exp(c), "after all failures")

    @staticmethod
    def hooked(model):
        return model["cls"] in UNSCENTED

    def one(self, plan, ctx, kf, hook, c, want):
        model, data = plan["model"], plan["data"]
        level, exc, u = c["fault"]
        # how many chances to fail does the undisturbed call offer?
        twin_hook = Hook()
        twin = models.build(model, hook=twin_hook if self.hooked(model) else None)
        args, kw = sv.inputs(model, data, c)
        self.hook_args(kw, twin_hook)
        if level == "callback":
            ctx.call(c["op"], sv.call, twin, c, args, kw)
            total = twin_hook.count
        else:
            with kernel.Injector(level) as inj:
                ctx.call(c["op"], sv.call, twin, c, args, kw)
            total = inj.count
        at = 1 + int(u * max(total, 1))
        args, kw = sv.inputs(model, data, c)
        self.hook_args(kw, hook)
        before = sv.snapshot(kf)
        held = sv.freeze([args, {k: v for k, v in kw.items() if not callable(v)}])
        error = res = None
        hook.arm(at if level == "callback" else None, exc)
        inj = kernel.Injector(level if level != "callback" else "call",
                              at if level != "callback" else None, exc)
        with warnings.catch_warnings(), np.errstate(**ERRSTATES[at % 3]):
            warnings.simplefilter("ignore")
            world = sv.global_state()
            if level == "callback":
                try:
                    res = sv.call(kf, c, args, kw)
                except BaseException as e:  # noqa: BLE001
                    error = e
            else:
                with inj:
                    try:
                        res = sv.call(kf, c, args, kw)
                    except BaseException as e:  # noqa: BLE001
                        error = e
            now = sv.global_state()
        fired = hook.fired if level == "callback" else inj.fired
        injected = hook.error if level == "callback" else inj.error
        where = "callback" if level == "callback" else inj.where
        hook.arm(None, None)
        what = f"{c['op']} with {exc} injected at {where}"
        if error is not None and not fired:
            raise Violation("raised:" + c["op"], f"{what}: {type(error).__name__}: {error}")
        if error is not None and not chain_has(error, injected):
            raise Violation("other-error", f"{what} surfaced as {type(error).__name__}: {error}")
        if error is None:
            tol = 1e-4 if fired and exc in ("LinAlgError",) else None
            sv.check(model, c, sv.arrays(model, c, res), want, what + " returned a result", tol)
            if fired:
                ctx.probe("absorbed." + exc)
        if fired:
            ctx.fault(f"{level}.{exc}")
            ctx.sig += [c["op"], str(where)]
            ctx.event(c["op"], level, exc, "at", where, "->",
                      type(error).__name__ if error is not None else "result")
            error = None
        d = sv.diff(before, sv.snapshot(kf))
        if d:
            raise Violation("changed-model", f"{what} changed the model: {d}")
        if sv.freeze([args, {k: v for k, v in kw.items() if not callable(v)}]) != held:
            raise Violation("changed-input", f"{what} changed its arguments")
        d = [k for k in world if world[k] != now[k]]
        if d:
            raise Violation("changed-world", f"{what} changed {d}")
        # the same call again, with the same argument objects
        got = sv.arrays(model, c, ctx.call(c["op"], sv.call, kf, c, args, kw))
        sv.check(model, c, got, want, f"repeated after {what}")
        ctx.record(c["op"], got)

    @staticmethod
    def hook_args(kw, hook):
        for v in kw.values():
            if isinstance(v, models.Fn):
                v.hook = hook


class Hook:
    """Counts user-callback invocations and can make one of them fail."""

    def __init__(self):
        self.count = 0
        self.at = None
        self.exc = None
        self.fired = False
        self.error = None
        self.action = None

    def arm(self, at, exc):
        self.count, self.at, self.exc = 0, at, exc
        self.fired, self.error = False, None

    def __call__(self, fn):
        self.count += 1
        if self.at is not None and self.count == self.at:
            if self.action is not None:
                self.fired = True
                self.at = None
                self.action()
                return
            self.fired = True
            self.error = kernel.EXC[self.exc](f"injected in callback {self.at}")
            raise self.error


# ------------------------------------------------------------------------------
class C08(ServiceProp):
    """Concurrent, reentrant and earlier use leaves no trace in later results."""

    runs = {"quick": 18000, "thorough": 900000}
    rule = ("one plan per seed: models, client programs and the schedule; distinct when classes, "
            "programs, mode or the sequence of actual context switches differ")
    shrinkers = [
        list_shrinker("schedule"), list_shrinker("program"),
        list_shrinker("clients"),
        set_shrinker([(("share",), False), (("bystander",), False)]),
    ]

    def gen(self, rng, i):
        mode = rng.choice(["threads", "threads", "history", "history", "reenter"])
        plan = {"mode": mode}
        if mode == "reenter":
            cls = rng.choice(UNSCENTED)
            plan["models"] = [gen_model(rng, cls, rng.choice([2, 3, 4, 5, 6])), gen_model(rng)]
        elif mode == "threads":
            plan["models"] = [gen_model(rng) for _ in range(rng.choice([1, 1, 2]))]
        else:
            plan["models"] = [gen_model(rng) for _ in range(rng.choice([1, 1, 2]))]
            if plan["models"][0]["cls"] in LINEAR and rng.random() < 0.5:
                # a second model of another linear class built from the same arrays
                plan["share"] = True
                for k, how in plan["models"][0]["forms"].items():
                    if how == "swapped":
                        plan["models"][0]["forms"][k] = "f"
                twin = clone(plan["models"][0])
                if not any(models.is_timed(twin, k) for k in "QR"):
                    twin["cls"] = rng.choice(LINEAR)
                plan["models"] = [plan["models"][0], twin]
        plan["data"] = [sv.gen_data(rng, m) for m in plan["models"]]
        if plan.get("share"):
            plan["data"][1] = clone(plan["data"][0])
        if mode == "threads":
            plan["clients"] = []
            for _ in range(rng.choice([2, 2, 3, 4])):
                prog = []
                for _ in range(rng.choice([1, 2, 3])):
                    k = rng.randrange(len(plan["models"]))
                    c = sv.gen_call(rng, plan["models"][k], plan["data"][k])
                    c["model"] = k
                    prog.append(c)
                plan["clients"].append(prog)
            dense = rng.random() < 0.5
            plan["schedule"] = [
                [rng.choice([1, 1, 2, 3, 5, 8] if dense else [1, 5, 20, 60, 150]), rng.randrange(12)]
                for _ in range(rng.choice([10, 40, 120]))]
            # a bystander learns its own model while the others read theirs
            plan["bystander"] = rng.random() < 0.3
        elif mode == "reenter":
            plan["program"] = []
            for _ in range(rng.choice([1, 2, 3])):
                outer = sv.gen_call(rng, plan["models"][0], plan["data"][0])
                k = rng.choice([0, 0, 1])
                inner = sv.gen_call(rng, plan["models"][k], plan["data"][k])
                inner["model"] = k
                plan["program"].append({"outer": outer, "inner": inner,
                                        "u": round(rng.random(), 4)})
        else:
            plan["program"] = [self.gen_step(rng, plan) for _ in range(rng.choice([3, 5, 8, 12]))]
        return plan

    @staticmethod
    def gen_step(rng, plan):
        k = rng.randrange(len(plan["models"]))
        model = plan["models"][k]
        what = rng.choice(["call"] * 5 + ["again"] * 2 + ["set", "set", "poke", "scribble", "reuse_input",
                                                          "clone", "learn", "failing"])
        step = {"do": what, "model": k}
        if what in ("call", "failing"):
            step["call"] = sv.gen_call(rng, model, plan["data"][k])
        elif what in ("set", "poke"):
            keys = ["A", "C", "Q", "R", "b", "d", "mu0", "S0"] if model["cls"] in LINEAR else [
                "Q", "R", "mu0", "S0"]
            key = rng.choice(keys)
            n, m = model["n"], model["m"]
            step["key"] = key
            step["value"] = {
                "A": lambda: models.transition(rng, n), "C": lambda: models.mat(rng, m, n),
                "Q": lambda: models.spd(rng, n, 0.5), "R": lambda: models.spd(rng, m, 0.5),
                "b": lambda: models.vec(rng, n), "d": lambda: models.vec(rng, m),
                "mu0": lambda: models.vec(rng, n), "S0": lambda: models.spd(rng, n, 1.0),
            }[key]()
            if what == "set" and key in ("Q", "b", "d", "mu0") and rng.random() < 0.15:
                step["value"] = None
            step["scale"] = rng.choice([0.5, 2.0, 3.0])
        elif what == "scribble":
            step["v"] = rng.choice([0.0, 1e9, -3.0])
        elif what == "clone":
            step["how"] = rng.choice(["deepcopy", "pickle", "copy"])
        return step

    def run(self, plan, ctx):
        for m in plan["models"]:
            ctx.sig += [m["cls"], f"{m['n']}/{m['m']}", timed_sig(m)]
        ctx.sig.append(plan["mode"])
        ctx.strict = plan["mode"] != "threads"
        world = sv.global_state()
        {"threads": self.threads, "reenter": self.reenter, "history": self.history}[plan["mode"]](
            plan, ctx)
        now = sv.global_state()
        d = [k for k in world if world[k] != now[k]]
        if d:
            raise Violation("changed-world", f"library calls changed {d}")

    # -- really concurrent clients, deterministic interleaving
    def threads(self, plan, ctx):
        ms, ds = plan["models"], plan["data"]
        exps = [sv.Expect(m, d) for m, d in zip(ms, ds)]
        for prog in plan["clients"]:
            for c in prog:
                exps[c["model"]].prime(c)
        kfs = [ctx.call("construct", models.build, m) for m in ms]
        snaps = [sv.snapshot(k) for k in kfs]
        out, programs = [], []

        def client(i, prog):
            def go():
                with np.errstate(all="ignore"):
                    for j, c in enumerate(prog):
                        args, kw = sv.inputs(ms[c["model"]], ds[c["model"]], c)
                        held = sv.freeze(args)
                        res = sv.call(kfs[c["model"]], c, args, kw)
                        out.append((i, j, c, res, sv.freeze(args) == held))
            return go

        wants = [[exps[c["model"]](c) for c in prog] for prog in plan["clients"]]
        for i, prog in enumerate(plan["clients"]):
            programs.append(client(i, prog))
        learner = {}
        if plan.get("bystander"):
            lm = {"cls": "standard", "n": 2, "m": 1, "T": 4, "forms": {}, "int": False,
                  "A": [[1.0, 0.3], [0.0, 0.9]], "C": [[1.0, 0.5]], "Q": [[0.3, 0.1], [0.1, 0.4]],
                  "R": [[0.5]], "b": None, "d": None, "mu0": [0.5, -0.5], "S0": [[1.0, 0.0], [0.0, 2.0]]}
            ld = {"z": [[0.3], [-1.0], [0.7], [1.2]], "have": [1, 1, 0, 1], "garbage": [[0.0]] * 4,
                  "miss": ["full"] * 4, "batch_form": "ma"}
            learner["kf"] = models.build(lm)

            def learn():
                with np.errstate(all="ignore"):
                    learner["kf"].em(sv.batch(lm, ld, 4), n_iter=2)
            programs.append(learn)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                b = kernel.Baton(programs, plan["schedule"]).run()
            except kernel.Stuck as e:
                raise IllPosed(str(e)) from e
        ctx.fault("sched.switch", b.switches)
        ctx.sig.append(str(b.trace))
        ctx.event("switches", b.switches, "lines", b.lines)
        ctx.sim_time += b.lines
        for i, e in enumerate(b.errors):
            if e is not None:
                raise Violation("raised:thread", f"client {i}: {type(e).__name__}: {e}")
        for i, j, c, res, kept in out:
            model = ms[c["model"]]
            if not kept:
                raise Violation("changed-input", f"{c['op']} of client {i} changed its arguments")
            got = sv.arrays(model, c, res)
            sv.check(model, c, got, wants[i][j], f"client {i}, concurrent with others")
            ctx.record(f"client {i} {j} {c['op']}", got)
        for k, kf in enumerate(kfs):
            d = sv.diff(snaps[k], sv.snapshot(kf))
            if d:
                raise Violation("changed-model", f"concurrent reads changed the model: {d}")
        if learner:
            theta = sv.effective(learner["kf"], lm)
            want = self.learned(lm, ld, 2)
            for k in want:
                close("wrong:em", theta[k], want[k], 1e-7, f"em of a bystander: {k}", floor=1e-2)
            ctx.probe("bystander")

    @staticmethod
    def learned(lm, ld, count):
        from oracle import em_reference
        lin = sv.as_model({k: models.lin_value(lm, k) for k in models.LIN_PARAMS}, lm)
        for _ in range(count):
            theta, _ = em_reference(lin, ld["z"], ld["have"], ["Q", "R", "mu0", "S0"])
            lin = sv.as_model(theta, lm)
        return theta

    # -- a callback that itself uses the library
    def reenter(self, plan, ctx):
        ms, ds = plan["models"], plan["data"]
        exps = [sv.Expect(m, d) for m, d in zip(ms, ds)]
        hooks = [Hook(), Hook()]
        kfs = [ctx.call("construct", models.build, m,
                        hook=h if m["cls"] in UNSCENTED else None) for m, h in zip(ms, hooks)]
        for p in plan["program"]:
            outer, inner = p["outer"], p["inner"]
            exps[0].prime(outer)
            exps[inner["model"]].prime(inner)
            want, inner_want = exps[0](outer), exps[inner["model"]](inner)
            counter = Hook()
            twin = models.build(ms[0], hook=counter)
            args, kw = sv.inputs(ms[0], ds[0], outer)
            C07.hook_args(kw, counter)
            ctx.call(outer["op"], sv.call, twin, outer, args, kw)
            box = []

            def act(inner=inner, box=box):
                k = inner["model"]
                a, w = sv.inputs(ms[k], ds[k], inner)
                box.append(sv.arrays(ms[k], inner, sv.call(kfs[k], inner, a, w)))

            args, kw = sv.inputs(ms[0], ds[0], outer)
            C07.hook_args(kw, hooks[0])
            if counter.count:
                hooks[0].arm(1 + int(p["u"] * counter.count), None)
                hooks[0].action = act
            res = ctx.call(outer["op"], sv.call, kfs[0], outer, args, kw)
            hooks[0].action = None
            hooks[0].arm(None, None)
            got = sv.arrays(ms[0], outer, res)
            sv.check(ms[0], outer, got, want, f"interrupted by {inner['op']} in a callback")
            for b in box:
                sv.check(ms[inner["model"]], inner, b, inner_want, "inside a callback")
                ctx.fault("callback.reenter")
                ctx.sim_time += 1
            ctx.sig += [outer["op"], inner["op"], str(inner["model"]), str(p["u"])]
            ctx.record(outer["op"], got)

    # -- a long history of uses, misuses and parameter changes
    def history(self, plan, ctx):
        ms = [clone(m) for m in plan["models"]]
        ds = plan["data"]
        if plan.get("share"):
            kws = models.linear_kwargs(ms[0])
            kfs = [models.get_class(m["cls"])(**kws) for m in ms]
        else:
            kfs = [ctx.call("construct", models.build, m) for m in ms]
        primed = [sv.Expect(m, d) for m, d in zip(ms, ds)]
        for s in plan["program"]:
            if s["do"] in ("call", "failing") and s["call"]["op"] == "sample":
                primed[s["model"]].prime(s["call"])
        exps = list(primed)
        touched = [False] * len(ms)
        last = [None] * len(ms)      # (call, args, kw, result objects)
        kept = []                    # (what, object, frozen copy)
        old = []                     # (kf, exp, model, call): abandoned originals
        for step in plan["program"]:
            k, do = step["model"], step["do"]
            model, kf = ms[k], kfs[k]
            ctx.sig.append(f"{do}{k}")
            ctx.event(do, k)
            ctx.sim_time += 1
            if do in ("call", "again", "reuse_input"):
                if do == "call":
                    c = step["call"]
                    args, kw = sv.inputs(model, ds[k], c)
                elif last[k] is None or (do == "reuse_input" and last[k][0]["op"] not in (
                        "filter", "smooth", "loglikelihood")):
                    continue
                else:
                    c, args, kw, _ = last[k]
                    if do == "again":
                        args, kw = sv.inputs(model, ds[k], c)
                if c["op"] == "sample" and touched[k]:
                    continue
                if c["op"] == "filter_update" and do != "call":
                    args, kw = sv.inputs(model, ds[k], c)
                ctx.sig.append(c["op"])
                want = exps[k](c)
                held = sv.freeze(args)
                before = [sv.snapshot(x) for x in kfs]
                res = ctx.call(c["op"], sv.call, kf, c, args, kw)
                got = sv.arrays(model, c, res)
                sv.check(model, c, got, want, f"step {do} on model {k}")
                if sv.freeze(args) != held:
                    raise Violation("changed-input", f"{c['op']} changed its arguments")
                for x, b in zip(kfs, before):
                    d = sv.diff(b, sv.snapshot(x))
                    if d:
                        raise Violation("changed-model", f"{c['op']} changed a model: {d}")
                last[k] = (c, args, kw, res)
                objs = [o for o in (res if isinstance(res, tuple) else (res,))
                        if isinstance(o, np.ndarray)]
                kept += [(c["op"], o, sv.freeze(o)) for o in objs]
                ctx.record(c["op"], got)
            elif do == "failing":
                # a call that fails on the way, then life goes on
                c = step["call"]
                if c["op"] == "sample" and touched[k]:
                    continue
                args, kw = sv.inputs(model, ds[k], c)
                with kernel.Injector("call", 12, "MemoryError") as inj:
                    try:
                        with np.errstate(all="ignore"):
                            sv.call(kf, c, args, kw)
                    except BaseException as e:  # noqa: BLE001
                        if not inj.fired:
                            raise Violation("raised:" + c["op"], f"{type(e).__name__}: {e}") from e
                if inj.fired:
                    ctx.fault("call.MemoryError")
            elif do == "set":
                key, value = step["key"], step["value"]
                setattr(kf, models.LIN_PARAMS[key][0],
                        None if value is None else np.array(value, dtype=float))
                model[key] = value
                self.renew(exps, ms, ds, k)
                touched[k] = True
                ctx.fault("client.set")
            elif do == "poke":
                a = getattr(kf, models.LIN_PARAMS[step["key"]][0])
                if plan.get("share") or model[step["key"]] is None:
                    continue
                if isinstance(a, np.ndarray) and a.dtype.kind in "fi" and a.flags.writeable:
                    a *= step["scale"] if a.dtype.kind == "f" else 2
                elif isinstance(a, list):
                    self.scale(a, step["scale"])
                else:
                    continue
                model[step["key"]] = np.array(a).tolist()
                self.renew(exps, ms, ds, k)
                touched[k] = True
                ctx.fault("client.poke")
            elif do == "scribble":
                if last[k] is None:
                    continue
                res = last[k][3]
                for o in (res if isinstance(res, tuple) else (res,)):
                    if isinstance(o, np.ndarray) and o.flags.writeable:
                        o[...] = step["v"]
                        kept = [e for e in kept if e[1] is not o]
                        ctx.fault("client.scribble")
            elif do == "clone":
                c = last[k][0] if last[k] else None
                if c is not None and not (c["op"] == "sample" and touched[k]):
                    then = clone(model)
                    exp = sv.Expect(then, ds[k])
                    exp.samples = dict(exps[k].samples)
                    old.append((kf, exp, then, c, k))
                if step["how"] == "pickle":
                    kfs[k] = pickle.loads(ctx.call("pickle", pickle.dumps, kf))
                elif step["how"] == "deepcopy":
                    kfs[k] = ctx.call("deepcopy", copy.deepcopy, kf)
                else:
                    kfs[k] = ctx.call("copy", copy.copy, kf)
                    if old and old[-1][0] is kf:
                        # a shallow copy shares its arrays: in-place pokes reach both
                        old.pop()
                ctx.fault("client.clone")
            elif do == "learn":
                if model["cls"] not in LINEAR or model["T"] < 3 or sum(ds[k]["have"]) < 2:
                    continue
                if any(models.is_timed(model, x) for x in "QR"):
                    continue
                # learn on a private model built from the very same arrays
                priv = models.get_class(model["cls"])(**{
                    p: v for p, v in sv.params_of(kf).items() if v is not None})
                before = [sv.snapshot(x) for x in kfs]
                try:
                    with warnings.catch_warnings(), np.errstate(all="ignore"):
                        warnings.simplefilter("ignore")
                        priv.em(sv.batch(model, ds[k], model["T"]), n_iter=2)
                except np.linalg.LinAlgError:
                    continue
                for x, b in zip(kfs, before):
                    d = sv.diff(b, sv.snapshot(x))
                    if d:
                        raise Violation("changed-model", f"em of another model changed: {d}")
                ctx.fault("client.learn")
        for what, o, frozen in kept:
            if sv.freeze(o) != frozen:
                raise Violation("changed-result", f"a result of {what} changed after it was returned")
        for kf, exp, model, c, k in old:
            args, kw = sv.inputs(model, ds[k], c)
            got = sv.arrays(model, c, ctx.call(c["op"], sv.call, kf, c, args, kw))
            sv.check(model, c, got, exp(c), "original after its clone lived on")

    @classmethod
    def scale(cls, a, by):
        """Multiply the numbers in nested lists, in place."""
        for i, v in enumerate(a):
            if isinstance(v, list):
                cls.scale(v, by)
            else:
                a[i] = v * by

    @staticmethod
    def renew(exps, ms, ds, k):
        fresh = sv.Expect(ms[k], ds[k])
        fresh.samples = {}
        exps[k] = fresh


# ------------------------------------------------------------------------------
class C12(ServiceProp):
    """A model that is pickled, copied or moved is the same model."""

    runs = {"quick": 25000, "thorough": 900000}
    rule = ("one plan per seed: model, data, transports and calls before and after each; distinct "
            "when class, dimensions, transports or calls differ")
    shrinkers = [list_shrinker("program")]

    def gen(self, rng, i):
        model = gen_model(rng)
        data = sv.gen_data(rng, model)
        plan = {"model": model, "data": data, "program": [],
                "rng": rng.choice([None, "int", "state", "state"]), "seed0": rng.randrange(10**6),
                "em_vars": None}
        if model["cls"] in LINEAR and rng.random() < 0.4:
            plan["em_vars"] = rng.sample(sv.EM_VARS, rng.choice([0, 1, 2, 3]))
            plan["em_form"] = rng.choice(["list", "list", "tuple", "set", "all"])
        for _ in range(rng.choice([2, 3, 5, 7])):
            r = rng.random()
            if r < 0.45:
                plan["program"].append({"do": "move", "how": rng.choice(
                    ["p0", "p1", "p2", "p3", "p4", "p5", "deepcopy", "deepcopy", "copy"]),
                    "spoil": int(rng.random() < 0.35)})
            elif r < 0.6 and plan["rng"] == "state":
                plan["program"].append({"do": "draw", "n": rng.randint(1, min(4, model["T"]))})
            elif r < 0.7 and model["cls"] in LINEAR and model["T"] >= 3 and sum(data["have"]) >= 2 \
                    and not any(models.is_timed(model, x) for x in "QR"):
                plan["program"].append({"do": "learn"})
            else:
                plan["program"].append({"do": "call", "call": sv.gen_call(rng, model, data)})
        return plan

    def make(self, plan):
        extra = {}
        if plan["rng"] == "int":
            extra["random_state"] = plan["seed0"]
        elif plan["rng"] == "state":
            extra["random_state"] = np.random.RandomState(plan["seed0"])
        if plan["em_vars"] is not None:
            form = plan.get("em_form", "list")
            extra["em_vars"] = "all" if form == "all" else {
                "list": list, "tuple": tuple, "set": set}[form](plan["em_vars"])
        return models.build(plan["model"], **extra)

    def run(self, plan, ctx):
        model, data = plan["model"], plan["data"]
        ctx.sig += [model["cls"], f"{model['n']}/{model['m']}", timed_sig(model), str(plan["rng"])]
        moved = ctx.call("construct", self.make, plan)   # travels
        stay = ctx.call("construct", self.make, plan)    # never travels
        learned = False
        left = []
        for p in plan["program"]:
            do = p["do"]
            ctx.sig.append(do + p.get("how", p.get("call", {}).get("op", "")))
            ctx.event(do, p.get("how", ""), p.get("call", {}).get("op", ""))
            ctx.sim_time += 1
            if do == "move":
                before = self.state(moved)
                src = moved
                if p["how"] == "copy":
                    moved = ctx.call("copy", copy.copy, moved)
                elif p["how"] == "deepcopy":
                    moved = ctx.call("deepcopy", copy.deepcopy, moved)
                else:
                    blob = ctx.call("pickle", pickle.dumps, moved, int(p["how"][1]))
                    moved = ctx.call("unpickle", pickle.loads, blob)
                    ctx.probe("pickle")
                ctx.fault("transport." + p["how"])
                if type(moved) is not type(src):
                    raise Violation("other-type", f"{p['how']} changed the type")
                if self.state(moved) != before or self.state(src) != before:
                    raise Violation("changed-state", f"{p['how']} changed parameters: "
                                    f"{[k for k in before if self.state(moved).get(k) != before[k]]}")
                if p["how"] != "copy":
                    if p.get("spoil"):
                        # the original lives on in its own way
                        self.spoil(src)
                        ctx.fault("client.spoil")
                        if self.state(moved) != before:
                            raise Violation("shared-state", f"after {p['how']}, changes to the original "
                                            f"reach the copy: {sv.diff(before, self.state(moved))}")
                    else:
                        left.append((src, before))
            elif do == "draw":
                k = min(p["n"], model["T"])
                c = {"op": "sample", "n": k}
                a = sv.arrays(model, c, ctx.call("sample", moved.sample, k))
                b = sv.arrays(model, c, ctx.call("sample", stay.sample, k))
                for x, y in zip(a, b):
                    close("stream", x, y, 1e-9, "random stream after transport")
                left = [(s, self.state(s)) for s, _ in left]
            elif do == "learn":
                err = []
                for kf in (moved, stay):
                    try:
                        with warnings.catch_warnings(), np.errstate(all="ignore"):
                            warnings.simplefilter("ignore")
                            kf.em(sv.batch(model, data, model["T"]), n_iter=1)
                        err.append(None)
                    except Exception as e:  # noqa: BLE001
                        err.append(type(e))
                if err[0] is not err[1]:
                    raise Violation("learn", f"em: {err[0]} after transport, {err[1]} without")
                if err[0] is not None:
                    raise IllPosed("em fails on this data")
                learned = True
                a, b = sv.effective(moved, model), sv.effective(stay, model)
                for k in a:
                    close("learned", a[k], b[k], 1e-9, f"{k} learned after transport", floor=1e-2)
            else:
                c = p["call"]
                res = []
                for kf in (moved, stay):
                    args, kw = sv.inputs(model, data, c)
                    try:
                        res.append(sv.arrays(model, c, ctx.call(c["op"], sv.call, kf, c, args, kw)))
                    except Violation:
                        if learned and len(res) == 0:
                            raise IllPosed("learned parameters are unusable") from None
                        raise
                for x, y in zip(*res):
                    close("moved:" + c["op"], x, y, 1e-9, f"{c['op']} after transport", floor=1e-2)
                ctx.record(c["op"], res[0])
        for src, before in left:
            if self.state(src) != before:
                raise Violation("changed-original", "use of a copy changed the original: "
                                f"{sv.diff(before, self.state(src))}")

    @staticmethod
    def spoil(kf):
        for v in sv.params_of(kf).values():
            if isinstance(v, np.random.RandomState):
                v.standard_normal(3)
            elif isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.flags.writeable:
                v += 1

    @staticmethod
    def state(kf):
        s = sv.snapshot(kf)
        for k, v in sv.params_of(kf).items():
            if k.endswith("_functions") and v is not None:
                fns = v if isinstance(v, (list, tuple)) else (
                    list(v.ravel()) if isinstance(v, np.ndarray) else [v])
                s[k] = tuple(str(getattr(f, "spec", f)) for f in fns)
        return s
