#!/usr/bin/env python3
"""Lays out the part of /repo's crate that builds offline (no gribberish / readap), as
symlinks into /repo, under /verif/build/scope-core. Only Cargo.toml, lib.rs and mod.rs are
rewritten (dependency and `mod` lines removed), from /repo's current ones, on every run.
`layout.py full` lays out the whole crate under build/scope-full, with the two git
dependencies pointed at the stand-ins in /verif/harness/stubs."""
import os, re, shutil, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = ("gribberish", "readap")
LEFT_OUT = {
    "src/model", "src/tools/dap.rs", "src/buoy_station.rs",
    "src/data/gfs_wave_grib_point_data_record.rs", "src/data/latest_obs_data_record.rs",
    "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs",
}


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def is_left_out(rel, full):
    return not full and any(rel == x or rel.startswith(x + "/") for x in LEFT_OUT)


def lay(full):
    scope = os.path.join(ROOT, "build", "scope-full" if full else "scope-core")
    wanted = set()
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(base, name), REPO)
            if is_left_out(rel, full):
                continue
            wanted.add(rel)
            path = os.path.join(scope, rel)
            if os.path.basename(rel) in ("lib.rs", "mod.rs") and not full:
                def keep(m):
                    stem = os.path.join(os.path.dirname(rel), m.group(2))
                    gone = is_left_out(stem, full) or is_left_out(stem + ".rs", full)
                    return "\n" if gone else m.group(0)
                text = re.sub(r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, read(rel), flags=re.M)
                write(path, text)
            else:
                to = os.path.join(REPO, rel)
                if os.path.islink(path) and os.readlink(path) == to:
                    continue
                if os.path.lexists(path):
                    os.remove(path)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                os.symlink(to, path)
    for base, _, names in os.walk(os.path.join(scope, "src")):
        for name in names:
            path = os.path.join(base, name)
            if os.path.relpath(path, scope) not in wanted:
                os.remove(path)
    toml = read("Cargo.toml")
    toml = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml, flags=re.M | re.S)
    if full:
        for d in DEPS:
            toml = re.sub(r"^%s[ \t]*=.*$" % d, '%s = { path = "%s" }' % (d, os.path.join(ROOT, "harness", "stubs", d)), toml, flags=re.M)
    else:
        toml = re.sub(r"^(?:%s)[ \t]*=.*\n?" % "|".join(DEPS), "", toml, flags=re.M)
    write(os.path.join(scope, "Cargo.toml"), toml)
    return scope


if __name__ == "__main__":
    print(lay("full" in sys.argv[1:]))
