"""Building and running the explorer in /verif/mc against the working tree of /repo."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
MEM = 20 << 30

# (karatsuba, toom3, burnikel-ziegler, to-decimal) thresholds of the builds with hooks
LOW = (4, 5, 4, 2)
HIGH = (26, 44, 36, 24)
HOOKS_QUICK = {"C03": [LOW], "C04": [LOW], "C05": [LOW], "C13": [LOW],
               "C18": [LOW, (6, 16, 6, 3), HIGH], "C20": [LOW]}
MORE = [(4, 7, 6, 3), (5, 10, 4, 2), (6, 16, 8, 4), (20, 5, 6, 5), (9, 12, 10, 7)]
HOOKS_THOROUGH = {"C03": [LOW] + MORE, "C04": [LOW] + MORE, "C05": [LOW, (4, 7, 6, 3), (6, 16, 8, 4), (9, 12, 10, 7)],
                  "C13": [LOW] + MORE, "C18": [LOW] + MORE + [HIGH, (40, 160, 50, 40)], "C20": [LOW, (6, 16, 8, 4)]}

# What operations a property is about: a crash or hang in another one is not its business.
OPS = {
    "C01": {"Add"}, "C02": {"Sub"}, "C03": {"Mul"}, "C04": {"Square", "Pow"},
    "C05": {"Div", "Rem", "DivBig", "RemBig"}, "C06": {"AddW", "SubW", "MulW", "DivW", "RemW"},
    "C07": {"Shl"}, "C08": {"Shr"}, "C09": set(), "C10": {"Cmp"}, "C11": {"Parse"}, "C12": {"Fmt"},
    "C13": {"ToDec"}, "C18": {"Add", "Sub", "Mul", "Square", "Pow", "Div", "Rem", "DivBig", "RemBig", "ToDec"},
    "C19": {"New", "FromWord", "Consts"},
}


# Properties explored with numbers of more than 65536 digits, also in a build without optimisation on a stack of 2 MB
BARE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C19"}


class Variant:
    def __init__(self, prop, profile="release", hook=None, tiny=True, access=False):
        self.prop, self.profile, self.hook, self.tiny, self.access = prop, profile, hook, tiny, access

    @property
    def name(self):
        if self.access:
            return "accesses"
        if self.hook:
            return "thresholds-%s%s" % ("-".join(map(str, self.hook)), "" if self.tiny else "-notiny")
        return {"release": "checked", "plain": "unchecked", "bare": "unoptimised"}[self.profile]

    @property
    def features(self):
        return self.prop.lower()


def variants(prop, tier):
    v = [Variant(prop)]
    if prop != "C20":
        v.append(Variant(prop, "plain"))
    if prop in BARE:
        v.append(Variant(prop, "bare"))
    for h in (HOOKS_QUICK if tier == "quick" else HOOKS_THOROUGH).get(prop, []):
        v.append(Variant(prop, hook=h))
    if prop == "C20":
        v.append(Variant(prop, access=True))
    return v


def variant_by_name(prop, name):
    if name == "checked":
        return Variant(prop)
    if name == "unchecked":
        return Variant(prop, "plain")
    if name == "unoptimised":
        return Variant(prop, "bare")
    if name == "accesses":
        return Variant(prop, access=True)
    t = name.split("-")
    return Variant(prop, hook=tuple(int(x) for x in t[1:5]), tiny=len(t) == 5)


def env_base():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "BABS_MC_", "RUSTFLAGS", "MC_")) or k in ("RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del e[k]
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


_hash = None


def source_hash():
    """Of everything that goes into a build."""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for root, files in ((os.path.join(REPO, "src"), None), (os.path.join(VERIF, "mc", "src"), None), (os.path.join(VERIF, "mc", "rt"), None),
                            (REPO, ["Cargo.toml", "build.rs"]), (os.path.join(VERIF, "mc"), ["Cargo.toml", "Cargo.lock"])):
            if files is None:
                paths = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
            else:
                paths = [os.path.join(root, f) for f in files if os.path.exists(os.path.join(root, f))]
            for p in paths:
                h.update(p.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(hashlib.sha256(f.read()).digest())
        _hash = h.hexdigest()[:16]
    return _hash


def target_dir(v, feats):
    return os.path.join(TARGET, "%s.%s.%s" % (v.name, feats, source_hash()))


def binary(v, feats):
    return os.path.join(target_dir(v, feats), v.profile, "mc")


def prune(v, feats):
    """Remove builds of the same kind from other sources, but the latest one."""
    pre = "%s.%s." % (v.name, feats)
    try:
        old = [os.path.join(TARGET, d) for d in os.listdir(TARGET) if d.startswith(pre) and not d.endswith(source_hash())]
        old.sort(key=os.path.getmtime, reverse=True)
        for d in old[1:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(v, feats=None):
    """Path of the binary, or (None, compiler output)."""
    everything = binary(v, "all") + ".done"
    if feats is None and os.path.exists(everything):
        return binary(v, "all"), ""
    feats = feats or v.features
    done = binary(v, feats) + ".done"
    if os.path.exists(done) and os.path.exists(binary(v, feats)):
        return binary(v, feats), ""
    prune(v, feats)
    e = env_base()
    e["CARGO_TARGET_DIR"] = target_dir(v, feats)
    if v.hook:
        e["RUSTFLAGS"] = "--cfg babs_mc" + (" --cfg babs_tiny" if v.tiny else "")
        for k, x in zip(("KARATSUBA", "TOOM3", "BZ", "TO_DEC_DIV"), v.hook):
            e["BABS_MC_%s_CUTOFF" % k] = str(x)
    if v.profile == "bare":
        e["RUSTFLAGS"] = "--cfg babs_bare"
    if v.access:
        # every memory access of the library calls rt/access.c
        e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
        obj = os.path.join(target_dir(v, feats), "access.o")
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        r = subprocess.run(["gcc", "-O2", "-fPIC", "-c", os.path.join(VERIF, "mc", "rt", "access.c"), "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        e["RUSTFLAGS"] = "--cfg babs_access -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=" + obj
    cmd = ["cargo", "build", "--offline", "--quiet"]
    cmd += ["--release"] if v.profile == "release" else ["--profile", v.profile]
    if feats != "all":
        cmd += ["--no-default-features", "--features", feats]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "mc"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    open(done, "w").close()
    return binary(v, feats), ""


def build_all(vs, feats=None):
    """Build several at the same time: {index: (binary, output)}"""
    out = {}

    def one(i):
        out[i] = build(vs[i], feats)
        if out[i][0] is None and vs[i].hook and vs[i].tiny:
            # without the digits of small radix, which depend on an internal interface
            vs[i].tiny = False
            out[i] = build(vs[i], feats)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(vs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(cmd, env=None, timeout=None):
    """Exit status (None when out of time) and output."""
    e = env_base()
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None
