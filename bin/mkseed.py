"""mkseed.py [ID...]: builds /verif/seeded/<id>/ from /verif/seedsrc/*.py, each confirmed in a scratch copy
(applies, builds, stable tests pass, demo passes without and fails with the patch)."""
import sys, os, subprocess, json, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, main, needs, breaks, deps=("runner", "sdk"), extra=None):
    SEEDS[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, deps=deps, extra=extra or {})
for f in sorted(glob.glob(V + "/seedsrc/*.py")):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# exit 0: the property's example holds; nonzero: it does not
set -e
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
tar xzf "$d/kit.tgz" -C "$w"
mkdir -p "$w/demo/src"; cp "$d/main.rs" "$w/demo/src/main.rs"; cp "$d/Cargo.toml.in" "$w/demo/Cargo.toml"
cd "$w"; GEN; cd demo
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_TARGET_DIR="$w/target" RUSTFLAGS=--cap-lints=allow
cargo build --offline -q
"$w/target/debug/demo"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
    for i in ids:
        s = SEEDS[i]
        out = V + "/seeded/" + i
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "/repo is dirty"
        try:
            for f, old, new in s["edits"]:
                p = "/repo/" + f
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(out + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- .")
        open(out + "/main.rs", "w").write(s["main"])
        if s["deps"] is not None:
            dep = "".join('%s = { path = "../crates/%s" }\n' % (n, d) for n, d in [({"runner": "mozak-runner", "sdk": "mozak-sdk", "sdkn": "mozak-sdk", "sdkvm": "mozak-sdk-vm", "cli": "mozak-cli"}.get(d, d), d) for d in s["deps"]])
            for c in s["extra"].get("shims", ["im", "plonky2", "elf"]):
                dep += '%s = { path = "../shims/%s" }\n' % (c, c)
            if s["extra"].get("rsx"):
                dep += 'rsx = { path = "../hx/rsx" }\n'
            open(out + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + dep + '[workspace]\n')
            sh("tar czf %s/kit.tgz -C %s vendor shims crates hx/rsx hx/sdk/src/vm.rs engine/gen.py" % (out, V))
            open(out + "/demo.sh", "w").write(DEMO.replace("GEN", "python3 -B engine/gen.py " + s["extra"]["gen"] if "gen" in s["extra"] else ":"))
        else:
            open(out + "/demo.sh", "w").write(s["extra"]["demo"])
            for n, c in s["extra"].get("files", {}).items():
                open(out + "/" + n, "w").write(c)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        # confirm
        r0 = sh("cd /repo && bash %s/demo.sh" % out)
        a = sh("git -C /repo apply %s/patch.diff" % out)
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
            r1 = sh("cd /repo && bash %s/demo.sh" % out)
        finally:
            sh("git -C /repo checkout -- .")
        tests = "?"
        try:
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seed-test.json"))
            tests = "%s" % (got if len(str(got)) < 80 else {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in got.items()})
        except Exception as e:
            tests = repr(e)
        print(i, "demo clean", r0.returncode, "| apply", a.returncode, "build", b.returncode, "tests", t.returncode, tests, "| demo patched", r1.returncode, flush=True)
        if r0.returncode or a.returncode or b.returncode or not r1.returncode:
            print((r0.stdout + a.stdout)[-1500:], b.stdout[-1000:], r1.stdout[-800:])
main()
