#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   run one check (tier defaults to VERIF_TIER)
check.py setup                      build everything once
check.py replay <file>              rerun a failing case"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
EVIDENCE = os.path.join(ROOT, "evidence")

ALL = ""
# property: (themes of the generated types, families in the quick tier, type seeds in the thorough tier)
CONFIG = {
    "C05": ("mixed,ns,attrs,force,lists,borrow,large", 42, 6),
    "C15": ("borrow,borrow,mixed,recursive,large", 35, 6),
    "C16": ("enum,forward,enum,mixed,tuple,lists,large", 49, 6),
    "C17": ("naming,naming,naming,naming,naming,large", 48, 8),
    "C21": ("ns,force,mixed,attrs,large", 40, 6),
    "C22": ("hooks,hooks,hooks,hooks,large", 40, 6),
}
DEFAULT = (ALL, 102, 6)
# the generated types play no part in these
FEW = {p: (ALL, 4, 1) for p in ("C04", "C10", "C19", "C23", "C24", "C26")}
# a valid type that cannot be derived any more says nothing about these
NOT_TYPES = {"C04", "C26", "C12", "C13", "C14", "C19", "C20"}


def env(extra):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update({
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": "",
        "VERIF_ROOT": ROOT,
    })
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.update({k: str(v) for k, v in extra.items()})
    return e


class BuildFailed(Exception):
    def __init__(self, text, derive):
        self.text = text
        self.derive = derive


def in_derive(span):
    while span:
        if span["file_name"].endswith("families.rs"):
            return True
        x = span.get("expansion")
        if not x:
            return False
        if x.get("macro_decl_name") in ("#[derive(ToXml)]", "#[derive(FromXml)]"):
            return True
        span = x.get("span")
    return False


def build(themes, families, type_seed):
    """Builds the harness and returns a private copy of the binary"""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(
            ["cargo", "build", "--offline", "-p", "harness", "--message-format=json"],
            cwd=HARNESS,
            env=env({"XM_TYPE_SEED": type_seed, "XM_FAMILIES": families, "XM_THEMES": themes}),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
        )
        if r.returncode != 0:
            texts, derive = [], False
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                    continue
                texts.append(m["message"]["rendered"])
                spans = [s for s in m["message"]["spans"] if s["is_primary"]]
                if m["target"]["name"] in ("types", "harness", "support") and any(in_derive(s) for s in spans):
                    derive = True
            raise BuildFailed("\n".join(texts) or r.stderr[-4000:], derive)
        d = tempfile.mkdtemp(prefix="xm-")
        return d, shutil.copy(os.path.join(target, "debug", "harness"), d)


def config(prop, tier):
    themes, families, seeds = FEW.get(prop) or CONFIG.get(prop) or DEFAULT
    return themes, families, (seeds if tier == "thorough" else 1)


def merge(files):
    out = None
    for f in files:
        if out is None:
            out = f
            out["coverage"]["type_seeds"] = [f["coverage"].pop("type_seed")]
            continue
        a, b = out["coverage"], f["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "calls", "families", "types"):
            a[k] += b[k]
        for k, v in b["counts"].items():
            a["counts"][k] = a["counts"].get(k, 0) + v
        a["samples"] += b["samples"][:2]
        a["type_seeds"].append(b["type_seed"])
        out["violations"] += f["violations"]
        out["wall_s"] += f["wall_s"]
    return out


def run(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    themes, families, seeds = config(prop, tier)
    path = os.path.join(EVIDENCE, prop + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(path):
        os.remove(path)
    if prop == "C24":
        sys.path.insert(0, os.path.join(ROOT, "tools"))
        import c24

        return c24.run(ROOT, HARNESS, EVIDENCE, seed, tier, env)
    parts = []
    for k in range(seeds):
        type_seed = seed if k == 0 else seed * 1000 + k
        try:
            d, binary = build(themes, families if tier == "quick" or k == 0 else families + 48, type_seed)
        except BuildFailed as e:
            print(e.text[-6000:])
            if e.derive and prop not in NOT_TYPES:
                os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
                rp = os.path.join(EVIDENCE, "replay", f"{prop}-build.txt")
                with open(rp, "w") as f:
                    f.write(f"property: {prop}\ntype_seed: {type_seed}\nfamilies: {families}\nthemes: {themes}\n"
                            f"a valid type cannot be derived:\n\n{e.text}\n")
                with open(path, "w") as f:
                    json.dump({
                        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                        "coverage": {"evaluations": families, "distinct_nontrivial": 1, "rule": "the generated valid types must compile",
                                     "samples": [e.text[:500]]},
                        "wall_s": time.time() - start, "violations": 1}, f)
                print("the derive rejects or miscompiles valid types")
                print(f"VIOLATION property={prop} replay={rp}")
                return 1
            print("the build failed")
            return 2
        try:
            r = subprocess.run([binary, "run", prop], env=env({"VERIF_SEED": seed, "VERIF_TIER": tier, "XM_EVIDENCE": EVIDENCE}))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if r.returncode != 0:
            return r.returncode
        with open(path) as f:
            parts.append(json.load(f))
    out = merge(parts)
    out["wall_s"] = round(time.time() - start, 3)
    with open(path, "w") as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return 0


def replay(path):
    vals = {}
    for line in open(path):
        if ": " in line:
            k, v = line.rstrip("\n").split(": ", 1)
            vals.setdefault(k, v)
        elif line.startswith("themes:"):
            vals["themes"] = ""
        elif not line.strip():
            break
    try:
        d, binary = build(vals.get("themes", ""), vals["families"], vals["type_seed"])
    except BuildFailed as e:
        print(e.text)
        return 1
    try:
        return subprocess.run([binary, "replay", path], env=env({"VERIF_SEED": vals.get("seed", "1") or 1})).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        d, _ = build(ALL, DEFAULT[1], 1)
        shutil.rmtree(d, ignore_errors=True)
        return 0
    if a[0] == "replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main())
