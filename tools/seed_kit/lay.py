"""lay.py FROM TO: copies the part of the crate that builds offline (no gribberish, no readap)."""
import os, re, shutil, sys
src, to = sys.argv[1:3]
OUT = {"src/model", "src/tools/dap.rs", "src/buoy_station.rs",
       "src/data/gfs_wave_grib_point_data_record.rs", "src/data/latest_obs_data_record.rs",
       "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs"}
gone = lambda rel: any(rel == x or rel.startswith(x + "/") for x in OUT)
for base, _, names in os.walk(os.path.join(src, "src")):
    for name in names:
        path = os.path.join(base, name)
        rel = os.path.relpath(path, src)
        if gone(rel):
            continue
        dest = os.path.join(to, rel)
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        if name in ("lib.rs", "mod.rs"):
            def keep(m):
                stem = os.path.join(os.path.dirname(rel), m.group(2))
                return "\n" if gone(stem) or gone(stem + ".rs") else m.group(0)
            text = open(path, encoding="utf-8").read()
            text = re.sub(r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, text, flags=re.M)
            open(dest, "w", encoding="utf-8").write(text)
        else:
            shutil.copyfile(path, dest)
toml = open(os.path.join(src, "Cargo.toml"), encoding="utf-8").read()
toml = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml, flags=re.M | re.S)
toml = re.sub(r"^(?:gribberish|readap)[ \t]*=.*\n?", "", toml, flags=re.M)
open(os.path.join(to, "Cargo.toml"), "w", encoding="utf-8").write(toml)
