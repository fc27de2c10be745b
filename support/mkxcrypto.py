"""Copy golang.org/x/crypto (the version /repo uses) to DST with a cheap scrypt.Key."""
import os, re, shutil, subprocess, sys
dst, keyfile = sys.argv[1], sys.argv[2]
src = subprocess.check_output(["go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto"], cwd="/repo", text=True).strip()
if not src:
    sys.exit("x/crypto not found in the module cache")
shutil.copytree(src, dst, ignore=shutil.ignore_patterns("testdata", "*_test.go"))
for d, ds, fs in os.walk(dst):
    os.chmod(d, 0o755)
    for f in fs:
        os.chmod(os.path.join(d, f), 0o644)
f = os.path.join(dst, "scrypt", "scrypt.go")
s = open(f).read()
i = s.index("func Key(")
s = s[:i] + open(keyfile).read()
open(f, "w").write(s)
