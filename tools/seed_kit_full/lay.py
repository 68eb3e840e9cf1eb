"""lay.py FROM TO STUBS: copies the whole crate, with stand-ins for its two git dependencies."""
import os, re, shutil, sys
src, to, stubs = sys.argv[1:4]
shutil.copytree(os.path.join(src, "src"), os.path.join(to, "src"))
toml = open(os.path.join(src, "Cargo.toml"), encoding="utf-8").read()
toml = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml, flags=re.M | re.S)
for d in ("gribberish", "readap"):
    toml = re.sub(r"^%s[ \t]*=.*$" % d, '%s = { path = "%s" }' % (d, os.path.join(stubs, d)), toml, flags=re.M)
open(os.path.join(to, "Cargo.toml"), "w", encoding="utf-8").write(toml)
