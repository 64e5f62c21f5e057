"""run.py LIBDIR VARIANT PART --seed S --shard i/n --limit N [--case K] ...: runs cases of the Python module in batches under mpirun."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
lib, variant, part = sys.argv[1:4]; a = sys.argv[4:]
opt = {"--seed": "1", "--shard": "0/1", "--limit": "96", "--case": None, "--tier": "quick", "--scratch": None}
i = 0
while i < len(a):
    if a[i] in opt: opt[a[i]] = a[i + 1]; i += 2
    elif a[i] == "--known": i += 2
    else: i += 1
own = None
if not opt["--scratch"]: own = opt["--scratch"] = tempfile.mkdtemp(prefix="verif-py-")
sc = opt["--scratch"]; si, sn = map(int, opt["--shard"].split("/")); n = int(opt["--limit"])
cases = [int(opt["--case"])] if opt["--case"] is not None else list(range(si, n, sn))
BLOCK = 96                                 # cases of one block have the same number of processes
batches = {}
for c in cases: batches.setdefault(c // BLOCK, []).append(c)
env = dict(os.environ, LD_LIBRARY_PATH=lib, PYTHONPATH=os.path.join(REPO, "python"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive", HOME=sc,
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1", OMPI_MCA_plm_rsh_agent="/bin/false",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none", VERIF_LIB=lib)
if variant == "asan":
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=4000:handle_segv=0:handle_abort=0"
counters = {}; evals = 0; sigs = set(); samples = []; nviol = 0; ninc = 0
def emit(d): print(json.dumps(d, separators=(",", ":"))); sys.stdout.flush()
def viol(case, key, detail):
    global nviol
    nviol += 1; emit({"t": "viol", "part": part, "case": case, "seed": int(opt["--seed"]), "key": key, "detail": detail[:3000]})
def launch(b, cs, np, tag):
    d = os.path.join(sc, "b%s" % tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    e = dict(env, TMPDIR=d)
    pre = ["env", "LD_PRELOAD=" + subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip() + " " + subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()] if variant == "asan" else []
    cmd = ["mpirun", "-np", str(np)] + pre + ["/usr/bin/python3", os.path.join(V, "harness.py"), opt["--seed"], opt["--tier"], d, ",".join(map(str, cs))]
    p = subprocess.Popen(cmd, env=e, cwd=d, stdout=open(os.path.join(d, "out"), "w"), stderr=subprocess.STDOUT, start_new_session=True)
    try: rc = p.wait(timeout=(40 + 6 * len(cs)) * (2 if variant == "asan" else 1))
    except subprocess.TimeoutExpired:
        rc = None; p.terminate()
        try: p.wait(timeout=15)
        except subprocess.TimeoutExpired: pass
        for r in range(np):
            try: os.kill(int(open(os.path.join(d, "pid.%d" % r)).read()), signal.SIGKILL)
            except (OSError, ValueError): pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait(); rows = []; begun = []; ended = []
    for r in range(np):
        try: L = open(os.path.join(d, "log.%d" % r)).read().splitlines()
        except OSError: L = []
        for l in L:
            try: x = json.loads(l)
            except ValueError: continue
            if x["t"] == "begin": begun.append((x["case"], r))
            elif x["t"] == "end": ended.append((x["case"], r))
            else: rows.append(dict(x, rank=r))
    out = open(os.path.join(d, "out"), errors="replace").read(); shutil.rmtree(d, ignore_errors=True)
    return rc, rows, begun, ended, out
stop = False
for b in sorted(batches):
    if stop: break
    cs = batches[b]; np = 1 + b % 4 if opt["--tier"] == "quick" else 1 + b % 5; todo = list(cs)
    while todo and not stop:
        rc, rows, begun, ended, out = launch(b, todo, np, str(b))
        done = [c for c in todo if sum(1 for x in ended if x[0] == c) == np]
        for x in rows:
            if x["t"] == "viol": viol(x["case"], x["key"], "%s | rank %d of %d: %s" % (x["what"], x["rank"], np, x["detail"]))
            elif x["t"] == "sum":
                if x["case"] in done:
                    for k, v in x["counters"].items(): counters[k] = counters.get(k, 0) + v
                    if x["rank"] == 0: sigs.add(hashlib.sha256(x["what"].encode()).hexdigest()[:16]); samples.append(x["what"]); evals += 1
        if rc == 0 and len(done) == len(todo): break
        bad = [c for c in todo if c not in done]
        if not bad: ninc += 1; emit({"t": "inc", "part": part, "case": todo[-1], "why": "processes ended with code %s after the last case: %s" % (rc, out[-600:])}); break
        c = bad[0]; was_begun = any(x[0] == c for x in begun)
        if not was_begun: ninc += 1; emit({"t": "inc", "part": part, "case": c, "why": "the processes did not start (code %s): %s" % (rc, out[-800:])}); stop = ninc >= 3; todo = bad[1:]; continue
        # the case did not end: once more by itself
        rc2, rows2, begun2, ended2, out2 = launch(b, [c], np, str(b))
        if rc2 == 0 and sum(1 for x in ended2 if x[0] == c) == np:
            # not in itself: the state left by the earlier cases of the batch matters, or the machine was busy
            if rc is None: ninc += 1; emit({"t": "inc", "part": part, "case": c, "why": "timed out once"})
            else: viol(c, "crash", "case %d of a batch on %d processes ended them (code %s) and not by itself: %s" % (c, np, rc, out[-1500:]))
        else:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", out2); s = re.search(r"exited on signal (\d+)", out2)
            viol(c, "asan:" + m.group(1) if m else "signal:" + s.group(1) if s else "hang" if rc2 is None else "interpreter-ended", "Python on %d processes, code %s: %s" % (np, rc2, out2[-2500:]))
            evals += 1
            if rc2 is None: stop = True
        todo = bad[1:]
        if nviol >= 6: stop = True
    if nviol >= 6: stop = True
emit({"t": "summary", "part": part, "evaluations": evals, "violations": nviol, "inconclusive": ninc, "counters": counters, "samples": [x[:300] for x in samples[:2]], "sigs": sorted(sigs)})
if own: shutil.rmtree(own, ignore_errors=True)
