"""Loading data sets from an unreliable disk: C13."""

import copy
import gc
import io as iolib
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np

import kernel
import service as sv
from core import Violation, list_shrinker
from disk import Disk
from kernel import chain_has

KEYS = {
    "n_timesteps": None, "observations": (501, 2), "states": (501, 5),
    "transition_matrix": (5, 5), "transition_offsets": (500, 5), "observation_matrix": (2, 5),
    "observation_offset": (2,), "initial_transition_covariance": (5, 5),
    "initial_observation_covariance": (2, 2), "transition_covariance": (5, 5),
    "observation_covariance": (2, 2), "initial_state_mean": (5,),
    "initial_state_covariance": (5, 5), "filtered_state_means": (501, 5),
    "filtered_state_covariances": (501, 5, 5), "loglikelihoods": (50,),
    "smoothed_state_means": (501, 5), "smoothed_state_covariances": (501, 5, 5), "DESCR": None,
}


DECOYS = [".", "data", "descr", "datasets", "pykalman",
          *(os.path.join(a, b) for a in ("datasets", os.path.join("pykalman", "datasets"))
            for b in ("data", "descr"))]


class Golden:
    """What the files on disk say, read without pykalman.

    `variant` 0 are the shipped files; the others are as valid, with other numbers.
    """

    value = {}
    bytes = {}

    @classmethod
    def get(cls, variant=0):
        if variant not in cls.value:
            cls.value[variant] = cls.read(variant)
        return cls.value[variant]

    @classmethod
    def content(cls, variant):
        """Bytes of the files of a variant, by name."""
        if variant not in cls.bytes:
            from scipy import io

            import pykalman
            base = os.path.join(os.path.dirname(pykalman.__file__), "datasets")
            with open(os.path.join(base, "data", "robot.mat"), "rb") as f:
                mat = f.read()
            with open(os.path.join(base, "descr", "robot.rst"), "rb") as f:
                rst = f.read()
            if variant:
                m = {k: v for k, v in io.loadmat(iolib.BytesIO(mat)).items() if k[0] != "_"}
                rng = np.random.RandomState(variant)
                for k in ("y", "x", "b", "d", "x0", "A", "C", "Q", "R", "P_0", "xfilt", "xsmooth", "ll"):
                    v = np.array(m[k], dtype=float)
                    if variant % 2:
                        # exact zeros and repeated values are measurements too
                        v[rng.random_sample(v.shape) < 0.2] = 0.0
                    v *= [1.0, -1.0, 2.0 ** 40, 2.0 ** -40][rng.randint(4)]
                    if variant % 3 == 0:
                        v = np.round(v) + rng.randint(2)
                    m[k] = v
                for k in ("Vfilt", "Vsmooth"):
                    v = m[k].copy()
                    for i in range(v.size):
                        v.ravel()[i] = v.ravel()[i] * (1.0 + rng.randint(3))
                    m[k] = v
                out = iolib.BytesIO()
                io.savemat(out, m)
                mat = out.getvalue()
                mat = (b"MATLAB 5.0 MAT-file, simulated").ljust(116) + mat[116:]
                rst = b"Variant %d\n\n" % variant + rst[:rng.randint(len(rst))]
            cls.bytes[variant] = {"robot.mat": mat, "robot.rst": rst}
        return cls.bytes[variant]

    @classmethod
    def read(cls, variant):
        from scipy import io

        files = cls.content(variant)
        m = io.loadmat(iolib.BytesIO(files["robot.mat"]))
        descr = files["robot.rst"].decode("utf-8").replace("\r\n", "\n")
        y = m["y"].T
        g = {
            "n_timesteps": 501, "observations": np.concatenate([np.zeros((1, 2)), y]),
            "states": m["x"].T, "transition_matrix": m["A"], "transition_offsets": m["b"].T,
            "observation_matrix": m["C"], "observation_offset": m["d"].ravel(),
            "initial_transition_covariance": np.diag([10.0] * 5),
            "initial_observation_covariance": np.diag([10.0] * 2),
            "transition_covariance": m["Q"], "observation_covariance": m["R"],
            "initial_state_mean": m["x0"].ravel(), "initial_state_covariance": m["P_0"],
            "filtered_state_means": m["xfilt"].T,
            "filtered_state_covariances": np.stack(list(m["Vfilt"].ravel())),
            "loglikelihoods": m["ll"].ravel(),
            "smoothed_state_means": m["xsmooth"].T,
            "smoothed_state_covariances": np.stack(list(m["Vsmooth"].ravel())),
            "DESCR": descr,
        }
        return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in g.items()}


def verify(d, what, variant=0):
    g = Golden.get(variant)
    missing = [k for k in KEYS if k not in d]
    if missing:
        raise Violation("incomplete", f"{what}: the data set lacks {missing}")
    for k, want in g.items():
        got = d[k]
        if getattr(d, k) is not got:
            raise Violation("attribute", f"{what}: attribute {k} is not the item {k}")
        if k == "DESCR":
            if not isinstance(got, str):
                raise Violation("wrong-data", f"{what}: DESCR is {type(got).__name__}, not text")
            if got != want:
                raise Violation("wrong-data", f"{what}: DESCR has {len(got)} characters, "
                                f"the file {len(want)}")
            continue
        a = np.ma.getdata(got) if isinstance(got, np.ndarray) else np.asarray(got)
        if a.shape != np.shape(want):
            raise Violation("wrong-data", f"{what}: {k} has shape {a.shape}, not {np.shape(want)}")
        if a.dtype == object or not np.array_equal(np.asarray(a, float), np.asarray(want, float)):
            raise Violation("wrong-data", f"{what}: {k} differs from the file")
        mask = np.ma.getmaskarray(got) if isinstance(got, np.ndarray) else np.zeros(())
        lost = np.zeros(a.shape, dtype=bool)
        if k == "observations":
            lost[0] = True
        if not np.array_equal(mask, lost):
            raise Violation("wrong-mask", f"{what}: {k} is masked in the wrong places")


class C13:
    """load_robot() delivers the whole data set or an error, every time."""

    runs = {"quick": 4500, "thorough": 200000}
    rule = ("one plan per seed: a history of loads with disk faults, failures, edits and transports; "
            "distinct when that history differs")
    shrinkers = [list_shrinker("program"), list_shrinker("clients")]
    stub = ["the disk under pykalman/datasets (real bytes, simulated faults)", "clients"]
    real = ["pykalman.datasets", "pykalman.utils.Bunch", "scipy.io", "numpy", "pickle"]
    assumptions = [
        "seeded sampling of plans: a clean batch is evidence, not proof",
        "the golden data are the values scipy.io.loadmat reads from an intact robot.mat",
        "files are opened through builtins.open or io.open"]

    def gen(self, rng, i):
        plan = {"program": [], "clients": [],
                "variant": rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])}
        if rng.random() < 0.1:
            plan["clients"] = [rng.randint(1, 2) for _ in range(rng.choice([2, 3]))]
            plan["schedule"] = [[rng.choice([1, 2, 5, 9]), rng.randrange(12)] for _ in range(30)]
            return plan
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.72:
                plan["program"].append({"do": "load", "faults": self.gen_faults(rng),
                                        "inject": self.gen_inject(rng),
                                        "chdir": rng.random() < 0.15,
                                        "decoy": rng.randrange(8)})
            elif r < 0.86:
                plan["program"].append({"do": "edit", "which": rng.randrange(3),
                                        "how": rng.choice(["scribble", "delete", "add", "set"]),
                                        "key": rng.choice(sorted(KEYS))})
            else:
                plan["program"].append({"do": "ship", "which": rng.randrange(3), "how": rng.choice(
                    ["p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy"])})
        return plan

    @staticmethod
    def gen_faults(rng):
        r = rng.random()
        if r < 0.25:
            return []
        out = [{} for _ in range(rng.choice([0, 0, 1]))]
        code = rng.choice(["ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ESTALE"])
        f = rng.choice([{"open": code}, {"read": code}, {"read": "EIO"}, {"torn": 1},
                        {"chunk": rng.choice([1, 7, 100, 511])}, {"close": "EIO"}])
        f = dict(f, u=round(rng.random(), 4))
        if rng.random() < 0.2:
            f["chunk"] = rng.choice([7, 100, 511])
        if f.get("chunk") == 1 and not out:
            f["chunk"] = 7
        return out + [f]

    @staticmethod
    def gen_inject(rng):
        if rng.random() < 0.75:
            return None
        return [rng.choice(["call", "line"]), rng.choice(
            ["MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError"]), round(rng.random(), 4)]

    def run(self, plan, ctx):
        from pykalman.datasets import load_robot
        self.variant = plan.get("variant", 0) if self.reads_each_time(load_robot) else 0
        Golden.get(self.variant)
        Disk.content = Golden.content(self.variant) if self.variant else {}
        if self.variant:
            ctx.probe("other_content")
        ctx.sig.append(str(self.variant))
        world = sv.global_state()
        cwd = os.getcwd()
        try:
            if plan["clients"]:
                self.threads(plan, ctx, load_robot)
            else:
                self.program(plan, ctx, load_robot)
        finally:
            Disk.content = {}
            os.chdir(cwd)
        now = sv.global_state()
        d = [k for k in world if world[k] != now[k]]
        if d:
            raise Violation("changed-world", f"load_robot changed {d}")

    serves = None

    @classmethod
    def reads_each_time(cls, load_robot):
        """Is the simulated disk asked for both files on every load?

        An implementation that remembers their content is allowed; it always gets
        the shipped files.
        """
        if cls.serves is None:
            cls.serves = False
            Disk.content = {}
            for _ in range(2):
                with Disk([], None) as disk:
                    try:
                        load_robot()
                    except Exception:  # noqa: BLE001 - reported by the run itself
                        return False
            cls.serves = {os.path.basename(f.name) for f in disk.files} >= set(Golden.content(0))
        return cls.serves

    def threads(self, plan, ctx, load_robot):
        out = []

        def client(n):
            def go():
                for _ in range(n):
                    out.append(load_robot())
            return go

        b = kernel.Baton([client(n) for n in plan["clients"]], plan["schedule"])
        try:
            with Disk([], None):
                b.run()
        except kernel.Stuck as e:
            from core import IllPosed
            raise IllPosed(str(e)) from e
        for e in b.errors:
            if e is not None:
                raise Violation("raised:load", f"concurrent load raised {type(e).__name__}: {e}")
        ctx.fault("sched.switch", b.switches)
        ctx.sig.append(str(b.trace))
        for i, d in enumerate(out):
            verify(d, "loaded concurrently", self.variant)
            self.scribble(d)
            for e in out[i + 1:]:
                verify(e, "after another client edited its own copy", self.variant)
        ctx.event("threads", len(out), b.switches)

    @staticmethod
    def scribble(d):
        for v in d.values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 123

    def program(self, plan, ctx, load_robot):
        held = []  # [bundle, intact?]
        for step in plan["program"]:
            ctx.sig.append(str(sorted(step.items(), key=str)))
            ctx.event(step["do"], step.get("how", ""), step.get("faults", ""))
            ctx.sim_time += 1
            if step["do"] == "load":
                d = self.load(step, ctx, load_robot)
                if d is not None:
                    held.append([d, True])
                # whatever happened, a healthy disk delivers everything
                with Disk([], None) as disk:
                    d = ctx.call("load", load_robot)
                verify(d, "loaded from a healthy disk after: " + str(step["faults"]), self.variant)
                self.closed(disk, "a normal load")
                held.append([d, True])
            elif not held:
                continue
            elif step["do"] == "edit":
                k = step["which"] % len(held)
                d, _ = held[k]
                key = step["key"]
                ctx.fault("client." + step["how"])
                held[k][1] = False
                if step["how"] == "scribble":
                    self.scribble(d)
                elif step["how"] == "delete":
                    d.pop(key, None)
                elif step["how"] == "add":
                    d.extra = 5
                    if d.get("extra") != 5:
                        raise Violation("attribute", "a new attribute is not a new item")
                    d["more"] = 6
                    if d.more != 6:
                        raise Violation("attribute", "a new item is not a new attribute")
                else:
                    d[key] = None
                    if getattr(d, key) is not None:
                        raise Violation("attribute", f"attribute {key} kept its old value")
            else:
                k = step["which"] % len(held)
                d, intact = held[k]
                how = step["how"]
                ctx.fault("transport." + how)
                if how == "copy":
                    e = ctx.call("copy", copy.copy, d)
                elif how == "deepcopy":
                    e = ctx.call("deepcopy", copy.deepcopy, d)
                else:
                    blob = ctx.call("pickle", pickle.dumps, d, int(how[1]))
                    e = ctx.call("unpickle", pickle.loads, blob)
                if type(e) is not type(d) or set(e) != set(d):
                    raise Violation("transport", f"{how} lost items")
                if intact:
                    verify(e, f"after {how}", self.variant)
                e["probe"] = 1
                e.probe2 = 2
                if getattr(e, "probe", None) != 1 or e.get("probe2") != 2:
                    raise Violation("attribute", f"after {how} items and attributes differ")
                if "probe" in d or "probe2" in d or hasattr(d, "probe2"):
                    raise Violation("aliased", f"{how} shares its items with the original")
                del e["probe"], e["probe2"]
                held.append([e, intact if how != "copy" else False])
                if how == "copy":
                    # a shallow copy shares arrays with its original
                    held[k][1] = False
            for d, intact in held:
                if intact:
                    verify(d, f"held while another was used ({step['do']})", self.variant)

    def load(self, step, ctx, load_robot):
        faults, inject = step["faults"], step["inject"]
        tmp = None
        if step["chdir"]:
            tmp = tempfile.mkdtemp(prefix="simdata")
            back = os.getcwd()
            os.chdir(tmp)
            ctx.fault("client.chdir")
            self.litter(step.get("decoy", 0), ctx)
        try:
            inj = None
            if inject:
                with Disk([], None), kernel.Injector(inject[0]) as count:
                    load_robot()
                inj = kernel.Injector(inject[0], 1 + int(inject[2] * count.count), inject[1])
            res = error = None
            # errors of close() in a destructor would be printed
            import sys
            hook, sys.unraisablehook = sys.unraisablehook, lambda *_: None
            try:
                with Disk(faults, ctx) as disk, warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        if inj is None:
                            res = load_robot()
                        else:
                            with inj:
                                res = load_robot()
                    except BaseException as e:  # noqa: BLE001
                        error = e
                    gc_error = error
            finally:
                sys.unraisablehook = hook
        finally:
            if tmp:
                os.chdir(back)
                shutil.rmtree(tmp)
        fired = inj is not None and inj.fired
        if fired:
            ctx.fault(f"{inject[0]}.{inject[1]}")
        torn = any(f.get("torn") for f in faults)
        what = f"load with disk faults {faults} and injected {inject}"
        if error is not None:
            mine = chain_has(error, inj.error) if fired else False
            mine = mine or any(chain_has(error, e) for e in disk.errors)
            mine = mine or any(f.get("close") for f in faults) and isinstance(error, OSError)
            mine = mine or (torn and disk.hits and not isinstance(error, KeyboardInterrupt))
            # scipy may translate the error of its own open() call
            mine = mine or (disk.errors and isinstance(error, OSError))
            if not mine:
                raise Violation("raised:load", f"{what}: {type(error).__name__}: {error}")
            ctx.probe("load.failed")
        else:
            if torn and disk.hits and self.text_torn(disk, faults):
                # a shorter text cannot be told from the whole one
                res["DESCR"] = Golden.get(self.variant)["DESCR"]
            verify(res, what, self.variant)
            ctx.probe("load.ok_despite_faults" if disk.hits or fired else "load.ok")
        if error is not None:
            # also while somebody keeps the exception (a log, a list of failures)
            open_data = [n for n in disk.leaked() if n.endswith(".mat")]
            if open_data:
                raise Violation("leaked-file", f"{what} failed and left {open_data} open")
        error = gc_error = None  # noqa: F841 - let go of the frames
        if inj is not None:
            inj.error = None
        disk.errors = []
        self.closed(disk, what)
        return res

    def litter(self, variant, ctx):
        """Files of the user's own that happen to have the same names."""
        if variant == self.variant:
            return
        ctx.fault("client.decoy")
        for where in DECOYS:
            os.makedirs(where, exist_ok=True)
            for name, data in Golden.content(variant).items():
                with open(os.path.join(where, name), "wb") as f:
                    f.write(data)

    @staticmethod
    def text_torn(disk, faults):
        return any(f.get("torn") and i < len(disk.files) and disk.files[i].name.endswith(".rst")
                   for i, f in enumerate(faults))

    @staticmethod
    def closed(disk, what):
        if disk.leaked():
            gc.collect()
        if disk.leaked():
            raise Violation("leaked-file", f"{what} left {disk.leaked()} open")
