import fcntl, os, re, signal, subprocess, sys
ROOT = os.environ["VERIF_ROOT"]
prop = sys.argv[1]
# property -> harness package
HARNESS = dict(l.split()[:2] for l in open(f"{ROOT}/tools/harnesses.txt") if l.strip() and l[0] != "#")
pkg = HARNESS[prop]
os.makedirs(f"{ROOT}/build", exist_ok=True)
with open(f"{ROOT}/build/.lock", "w") as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if subprocess.call([sys.executable, f"{ROOT}/tools/sync.py"]) != 0:
        sys.exit(2)
    b = subprocess.run(["cargo", "build", "--offline", "-q", "-p", pkg], cwd=f"{ROOT}/build/ws",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-6000:])
        print(f"{prop}: the harness does not build against this tree")
        sys.exit(2)
    # run a private copy so that a concurrent rebuild cannot replace it
    exe = f"{ROOT}/build/target/debug/{pkg}"
r = subprocess.run([exe], cwd=ROOT, stderr=subprocess.PIPE, text=True, errors="replace")
sys.stderr.write(r.stderr)
panic = [l for l in r.stderr.splitlines() if l.startswith("UNGUARDED PANIC ")]
# a panic of the code under test itself, wherever it was called from
if r.returncode == 101 and panic and re.match(r"UNGUARDED PANIC \S*(pallets|common|runtime|node|nested|avro-helpers)/", panic[0]) and "harness/" not in panic[0].split(":")[0]:
    os.makedirs(f"{ROOT}/build/replay", exist_ok=True)
    path = f"{ROOT}/build/replay/{prop}-panic.txt"
    open(path, "w").write(f"{panic[0]}\n{exe} VERIF_PROP={prop} VERIF_SEED={os.environ['VERIF_SEED']} VERIF_TIER={os.environ['VERIF_TIER']}\n")
    print(panic[0])
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)
if r.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
    os.makedirs(f"{ROOT}/build/replay", exist_ok=True)
    path = f"{ROOT}/build/replay/{prop}-crash.txt"
    open(path, "w").write(f"{exe} died with signal {-r.returncode}; VERIF_SEED={os.environ['VERIF_SEED']} VERIF_TIER={os.environ['VERIF_TIER']}\n")
    print(f"the code under test killed the process (signal {-r.returncode})")
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)
sys.exit(r.returncode if r.returncode in (0, 1, 2) else 2)
