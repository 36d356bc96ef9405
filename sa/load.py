"""Builds the dump driver, dumps the typed program of /repo's current tree, loads it.

Nothing of /repo is executed apart from the compiler front end (`cargo check`), which is
how the program is parsed and type checked.  (Procedural macros of the workspace are
expanded by the compiler as in any build.)
"""
import re, json, os, shutil, subprocess, sys, tempfile, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SJP_REPO", "/repo")
NIGHTLY = "+nightly"


class LoadError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.run(["rustc", NIGHTLY, "--print", "sysroot"], env=_env(), capture_output=True,
                          text=True, check=True).stdout.strip()


def build_dir():
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    return d


def driver_path():
    """Compile the driver if its source changed (about two seconds)."""
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(build_dir(), "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["rustc", NIGHTLY, "--edition", "2021", "-O", src, "-o", tmp], env=_env(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise LoadError("driver does not build:\n" + r.stderr[-4000:])
        os.rename(tmp, out)
    return out


def cargo_dump(manifest_dir, outdir, args, target, extra_env=None, timeout=800):
    env = _env()
    env["SJP_DUMP_DIR"] = outdir
    env["RUSTC_WORKSPACE_WRAPPER"] = driver_path()
    env["CARGO_TARGET_DIR"] = target
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["CARGO_INCREMENTAL"] = "0"
    if extra_env:
        env.update(extra_env)
    r = subprocess.run(["cargo", NIGHTLY, "check", "--offline", "-q"] + args, cwd=manifest_dir, env=env,
                       capture_output=True, text=True, timeout=timeout)
    return r


# ------------------------------------------------------------------ types
class Types:
    """Global interning of structural types (regions erased)."""

    def __init__(self):
        pass

    @staticmethod
    def adt(path, *args):
        return ("adt", path, tuple(args))


def conv_type(table, i, memo):
    if i is None:
        return ("unknown",)
    if isinstance(i, str):
        return ("constarg", i)
    if i in memo:
        return memo[i]
    memo[i] = ("rec",)
    t = table[i]
    k = t[0]
    if k == "adt":
        r = ("adt", t[1], tuple(conv_type(table, x, memo) for x in t[2]))
    elif k == "ref":
        r = ("ref", t[1], conv_type(table, t[2], memo))
    elif k in ("ptr", "slice"):
        r = (k, conv_type(table, t[1], memo))
    elif k == "array":
        r = ("array", conv_type(table, t[1], memo), t[2])
    elif k == "tuple":
        r = ("tuple", tuple(conv_type(table, x, memo) for x in t[1]))
    elif k == "fndef":
        r = ("fndef", conv_callee(table, t[1], memo))
    else:
        r = tuple(t)
    memo[i] = r
    return r


class Callee:
    __slots__ = ("id", "args", "local", "name", "kind", "trait", "self_head", "res", "ctor")

    def __init__(self, d, table, memo):
        self.id = d["id"]
        self.args = tuple(conv_type(table, x, memo) for x in d["args"])
        self.local = d.get("local", False)
        self.name = d.get("name")
        self.kind = d.get("kind")
        self.trait = d.get("trait")
        self.self_head = d.get("self_head")
        self.ctor = tuple(d["ctor"]) if d.get("ctor") else None
        self.res = Callee(d["res"], table, memo) if d.get("res") else None

    def key(self):
        if self.kind == "inherent":
            return "%s::%s" % (self.self_head, self.name)
        if self.kind == "trait":
            return "%s::%s" % (self.trait, self.name)
        if self.kind == "traitimpl":
            return "<%s>::%s" % (self.trait, self.name)
        return self.id

    def __repr__(self):
        return "Callee(%s)" % self.key()


_callee_memo = {}


def conv_callee(table, d, memo):
    return Callee(d, table, memo)


class Program:
    def __init__(self):
        self.fns = {}      # id -> Fn
        self.impls = []    # Impl
        self.adts = {}     # path -> adt info
        self.crates = {}

    def load(self, path):
        d = json.load(open(path))
        table = d["types"]
        memo = {}
        crate = d["crate"]
        self.crates[crate] = d
        for b in d["bodies"]:
            f = Fn(b, table, memo, crate)
            self.fns[f.id] = f
        for im in d["impls"]:
            self.impls.append(Impl(im, table, memo, crate))
        for a in d["adts"]:
            old = self.adts.get(a["path"])
            if old is not None and not a["local"]:
                continue
            info = {
                "path": a["path"], "kind": a["kind"], "local": a["local"], "generics": a["generics"],
                "has_drop": a["has_drop"],
                "variants": [(v["name"], [(f["name"], conv_type(table, f["ty"], memo), f["pub"])
                                          for f in v["fields"]]) for v in a["variants"]],
            }
            self.adts[a["path"]] = info

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v[0] for v in a["variants"]] if a else None


class Impl:
    def __init__(self, d, table, memo, crate):
        self.id = d["id"]
        self.trait = d["trait"]
        self.args = tuple(conv_type(table, x, memo) for x in d["args"])
        self.methods = {m[0]: m[1] for m in d["methods"]}
        self.types = {m[0]: conv_type(table, m[1], memo) for m in d["types"]}
        self.derived = d["derived"]
        self.unsafe = d["unsafe"]
        self.crate = crate
        self.span = d["span"]


class Fn:
    def __init__(self, b, table, memo, crate):
        self.id = b["id"]
        self.kind = b["kind"]
        self.crate = crate
        self.span = b.get("span")
        self.parent = b.get("parent")
        self.name = b.get("name")
        self.reachable = b.get("reachable", False)
        self.exported = b.get("exported", False)
        self.inputs = [conv_type(table, x, memo) for x in b.get("inputs", [])]
        self.output = conv_type(table, b["output"], memo) if "output" in b else None
        self.generics = b.get("generics", [])
        self.of = b.get("of")
        self.trait = b.get("trait")
        self.self_head = b.get("self_head")
        self.derived = b.get("derived", False)
        self.unsafe = b.get("unsafe", False)
        self.ty = conv_type(table, b["ty"], memo) if "ty" in b else None
        self.mut = b.get("mut")
        self.freeze = b.get("freeze")
        body = b.get("body")
        if body is not None:
            _resolve(body, table, memo)
        self.body = body

    def label(self):
        if self.of == "traitimpl":
            return "<%s as %s>::%s" % (short(self.self_head), short(self.trait), self.name)
        if self.of == "inherent":
            return "%s::%s" % (short(self.self_head), self.name)
        return self.id

    def __repr__(self):
        return "Fn(%s)" % self.id


def short(p):
    return p.rsplit("::", 1)[-1] if p else p


def _resolve(x, table, memo):
    """Replace type indices and callees by converted values, in place."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if "ty" in n and isinstance(n["ty"], int):
                n["ty"] = conv_type(table, n["ty"], memo)
            if "from" in n and isinstance(n["from"], int):
                n["from"] = conv_type(table, n["from"], memo)
            if n.get("k") in ("call", "fn", "const") and isinstance(n.get("f"), dict):
                n["f"] = Callee(n["f"], table, memo)
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append(v)


LAST_BUILD = {}


def dump_repo(features=None, spec=False, keep=None, extra=()):
    """Dump the workspace's library crates (and the spec crate) from the current tree; extra: (name, Cargo.toml, lib.rs)
    of further crates that use it."""
    t0 = time.time()
    warm = os.environ.get("SJP_WARM")        # development only: keep build products between runs
    work = warm or tempfile.mkdtemp(prefix="sjp-sa-")
    try:
        out = os.path.join(work, "dump")
        os.makedirs(out, exist_ok=True)
        target = os.path.join(work, "target")
        if spec:
            # the spec crate depends on the crates in REPO by path; dump them all in one build
            src = os.path.join(VERIF, "spec")
            dst = os.path.join(work, "spec")
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target", "Cargo.lock"), dirs_exist_ok=True)
            toml = open(os.path.join(dst, "Cargo.toml")).read().replace("/repo", REPO)
            open(os.path.join(dst, "Cargo.toml"), "w").write(toml)
            if os.path.exists(os.path.join(REPO, "Cargo.lock")):
                shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
            rs = cargo_dump(dst, out, ["--lib"], target, {"RUSTC_WRAPPER": "", "SJP_SPEC": "1"})
            if rs.returncode != 0:
                raise LoadError("specification crate does not compile against the tree:\n" + rs.stderr[-3000:])
        args = ["--workspace", "--lib"]
        if features is not None:
            args += ["--no-default-features"]
            if features:
                args += ["--features", ",".join(features)]
        r = cargo_dump(REPO, out, args, target)
        if r.returncode != 0:
            raise LoadError("the tree does not compile:\n" + r.stderr[-3000:])
        for name, toml, lib in extra:
            dst = os.path.join(work, name)
            os.makedirs(os.path.join(dst, "src"), exist_ok=True)
            open(os.path.join(dst, "Cargo.toml"), "w").write(toml)
            open(os.path.join(dst, "src", "lib.rs"), "w").write(lib)
            if os.path.exists(os.path.join(REPO, "Cargo.lock")):
                shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
            os.makedirs(os.path.join(dst, "dump"), exist_ok=True)
            r = cargo_dump(dst, os.path.join(dst, "dump"), ["--lib"], target)
            if r.returncode != 0:
                raise LoadError("crate %s does not compile against the tree:\n" % name + "\n".join(re.findall(r"^error.*(?:\n.+)*", r.stderr, re.M))[-3000:])
        p = Program()
        for f in sorted(os.listdir(out)):
            if f.endswith(".json"):
                p.load(os.path.join(out, f))
        for name, _, _ in extra:
            p.load(os.path.join(work, name, "dump", name + ".json"))
        p.load_s = time.time() - t0
        if keep:
            shutil.copytree(out, keep, dirs_exist_ok=True)
        return p
    finally:
        if not warm:
            shutil.rmtree(work, ignore_errors=True)


def load_dir(d):
    p = Program()
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            p.load(os.path.join(d, f))
    return p
