"""Builds the harness crate against /repo's current tree and gives access to
 - the LLVM IR of every entry point (profile chk: debug checks on; profile rel: off)
 - the same code as native shared objects, for replay."""
import os, re, sys, subprocess, hashlib, fcntl, json, struct, ctypes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def ensure():
    """(re)build both profiles; returns paths.  Serialised by a lock file."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        stamp = os.path.join(TARGET, "stamp")
        out = {}
        for prof in ("chk", "rel"):
            out[prof] = {"ll": os.path.join(TARGET, f"{prof}.ll"), "so": os.path.join(TARGET, f"{prof}.so")}
        if os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(p) for v in out.values() for p in v.values()):
            return out, h
        if os.path.exists(stamp):
            os.unlink(stamp)
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
                   CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
        env.pop("RUSTFLAGS", None)
        env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
        # never trust mtimes: rebuild micromath and the harness whenever the content changed
        for prof in ("chk", "rel"):
            subprocess.run(["cargo", "clean", "--offline", "--profile", prof, "-p", "micromath", "-p", "mmharness"],
                           cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs = []
        for prof in ("chk", "rel"):
            cmd = ["cargo", "rustc", "--offline", "--locked", "--profile", prof, "--", "--emit=llvm-ir,link",
                   "-C", "no-vectorize-slp", "-C", "no-vectorize-loops"]
            r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
            deps = os.path.join(TARGET, prof, "deps")
            os.replace(os.path.join(deps, "mmharness.ll"), out[prof]["ll"])
            import shutil
            shutil.copy(os.path.join(deps, "libmmharness.so"), out[prof]["so"])
        open(stamp, "w").write(h)
        return out, h


# ---------------------------------------------------------------- entry point signatures
T = {"f32": "f", "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "usize": 64}
_sig = {}


def signatures():
    if not _sig:
        for line in open(os.path.join(HARNESS, "src", "lib.rs")):
            m = re.match(r'#\[no_mangle\] pub extern "C" fn (\w+)\((.*?)\)(?: -> (\w+))? \{', line)
            if not m:
                continue
            args = []
            for nm, ty in re.findall(r"(\w+): (&mut \[\w+; \d+\]|&\[\w+; \d+\]|&mut \w+|\w+)", m.group(2)):
                x = re.match(r"(&mut |&)\[(\w+); (\d+)\]", ty)
                if x:
                    args.append((nm, "in" if x.group(1) == "&" else "out", T[x.group(2)], int(x.group(3))))
                elif ty.startswith("&mut "):
                    args.append((nm, "out", T[ty[5:]], 1))
                else:
                    args.append((nm, "val" if ty[0] != "i" else "sval", T[ty], 1))
            _sig[m.group(1)] = (args, T[m.group(3)] if m.group(3) else None)
    return _sig


SCT = {8: ctypes.c_int8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}
CT = {"f": ctypes.c_float, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}


def _b2f(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def _call(lib, fn, vals):
    """vals: flat list of bit patterns (ints), inputs in order.  Returns (ret bits, [outs])"""
    args, rty = signatures()[fn]
    f = getattr(lib, fn)
    # floats travel through c_uint32 arrays so that NaN payloads survive; scalar float
    # arguments go through a c_float built from the same bits
    f.restype = CT[rty] if rty else None
    f.argtypes = None
    ca, outs, i = [], [], 0
    for nm, kind, ty, n in args:
        w = 32 if ty == "f" else ty
        if kind == "sval" or kind == "val":
            if ty == "f":
                c = ctypes.c_float.from_buffer(ctypes.c_uint32(vals[i]))
            elif kind == "sval":
                c = SCT[w](vals[i])
            else:
                c = CT[w](vals[i])
            ca.append(c)
            i += 1
        elif kind == "in":
            arr = (CT[w] * n)(*vals[i:i + n])
            ca.append(ctypes.byref(arr))
            i += n
        else:
            arr = (CT[w] * n)(*([0xA5A5A5A5A5A5A5A5 & ((1 << w) - 1)] * n))
            ca.append(ctypes.byref(arr))
            outs.append(arr)
    r = f(*ca)
    if rty == "f":
        r = struct.unpack("<I", struct.pack("<f", r))[0]
    return r, [list(a) for a in outs]


def worker(so):
    lib = ctypes.CDLL(so)
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    for line in sys.stdin:
        fn, vals = json.loads(line)
        r = _call(lib, fn, vals)
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


class Native:
    """calls entry points in a child process; an abort (panic) or any other death of the
    child is reported as ('panic', ...)"""

    def __init__(self, so):
        self.so, self.p = so, None
        self.calls = 0

    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", self.so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if self.p.stdout.readline() != "ready\n":
            raise BuildError("native replay worker does not start: " + self.so)

    def call(self, fn, vals):
        self.calls += 1
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps([fn, [int(v) for v in vals]]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.p = None
            if rc != -6:
                raise BuildError(f"native replay worker died with {rc} in {fn}{vals}")
            return ("panic", None, None)
        r, outs = json.loads(line)
        return ("ret", r, outs)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--worker":
        worker(sys.argv[2])
    else:
        print(ensure())
