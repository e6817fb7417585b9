"""Lowering of /repo's current sources (plus a harness) to LLVM IR."""
import os, re, subprocess, json, hashlib, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-march=x86-64-v3", "-maes", "-mpclmul",
        "-include", f"{VERIF}/harness/prelude.hpp", "-DUSE_RANDEN", "-fconstexpr-steps=100000",
        f"-I{VERIF}/harness", f"-I{REPO}/include", f"-I{REPO}/thirdparties/spqlios", f"-I{REPO}/thirdparties/randen",
        f"-I{REPO}/thirdparties/cereal/include", "-w"]


def mini_params(over):
    """The repository's own parameter file with some numbers replaced (everything else as shipped)."""
    s = open(f"{REPO}/include/params/128bit.hpp").read()
    for key, val in over.items():
        st, fld = key.split(".")
        m = re.search(r"struct\s+" + st + r"\s*\{.*?\n\};", s, re.S)
        if not m:
            raise SystemExit(f"parameter struct {st} not found")
        body = m.group(0)
        new, n = re.subn(r"(\b" + re.escape(fld) + r"\s*=\s*)([^;]*?)(\s*;)", lambda q: q.group(1) + str(val) + q.group(3), body, count=1)
        if n != 1:
            raise SystemExit(f"parameter {key} not found")
        s = s[: m.start()] + new + s[m.end():]
    return s


def overlay(work, over, empty_externs=True):
    """-ivfsoverlay file: replaced parameter file, emptied extern-template headers."""
    files = []
    if over:
        p = os.path.join(work, "128bit.hpp")
        open(p, "w").write(mini_params(over))
        files.append((f"{REPO}/include/params/128bit.hpp", p))
    if empty_externs:
        e = os.path.join(work, "empty.hpp")
        open(e, "w").write("#pragma once\n")
        d = f"{REPO}/include/externs"
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                files.append((f"{d}/{f}", e))
    if not files:
        return []
    bydir = {}
    for v, r in files:
        bydir.setdefault(os.path.dirname(v), []).append({"type": "file", "name": os.path.basename(v), "external-contents": r})
    y = {"version": 0, "case-sensitive": "true", "roots": [{"type": "directory", "name": d, "contents": c} for d, c in bydir.items()]}
    yp = os.path.join(work, "overlay.yaml")
    json.dump(y, open(yp, "w"))
    return ["-ivfsoverlay", yp]


def lower(src, out, extra=(), steps=True):
    base = BASE if steps else [b for b in BASE if "constexpr-steps" not in b]
    cmd = [CLANG] + base + list(extra) + ["-c", "-emit-llvm", src, "-o", out]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd


def engine_path():
    """The executor binary: the committed one when it matches the sources, else a fresh build."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(f"{VERIF}/engine")):
        if f.endswith((".hpp", ".cpp")):
            h.update(f.encode()); h.update(open(f"{VERIF}/engine/{f}", "rb").read())
    key = h.hexdigest()[:16]
    b = f"{VERIF}/engine/bin/tfsym-{key}"
    if os.path.exists(b):
        r = subprocess.run([b, "-version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            return b
    os.makedirs("/tmp/tfsym-bin", exist_ok=True)
    b2 = f"/tmp/tfsym-bin/tfsym-{key}"
    if not os.path.exists(b2):
        t = b2 + f".{os.getpid()}"
        subprocess.run([f"{VERIF}/engine/build.sh", t], check=True)
        os.rename(t, b2)
    return b2
