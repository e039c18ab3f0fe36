"""What each check does."""
import json, os, re, subprocess, threading
from driver import CORES, ToolError, VERIF


def thread(fn, *a, **k):
    """Start fn now; the returned thunk joins it and re-raises."""
    box = {}
    def go():
        try:
            box["r"] = fn(*a, **k)
        except BaseException as e:      # noqa
            box["e"] = e
    t = threading.Thread(target=go)
    t.start()
    def join():
        t.join()
        if "e" in box:
            raise box["e"]
        return box.get("r")
    return join


# --------------------------------------------------------------------- tree behaviour
GRAPHS_QUICK = ["LtsMap5x2", "LtsSet9"]
GRAPHS_THOROUGH = ["LtsMap5x2", "LtsMap4x3", "LtsMap6x2", "LtsSet9", "LtsSet10"]
MAP_ASSUME = [
    "keys enter the specification through strictly monotone embeddings into the real key type; the tree sees keys only through comparison, split, join and index (C11 and C12 decide those)",
    "histories are those of TLC's state graphs (every transition, in random order and embedding), TLC's simulated behaviours and recorded random runs",
]


def graphs(run, names):
    def one(g):
        f = run.path(g + ".graph")
        run.tlc("VebMap", g + ".cfg", out=f, workers=1)
        return f
    return [thread(one, g) for g in names]


def iter_graph(run):
    f = run.path("iter.graph")
    run.tlc("VebIter", "VebIter.cfg", out=f, workers=1)
    return f


def sims(run, num, depth, seeds):
    def one(s):
        f = run.path(f"sim{s}")
        run.tlc("VebSim", "Sim24.cfg", out=f, workers=1, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(s)], tag=f"VebSim-seed{s}")
        return f
    return [thread(one, s) for s in seeds]


def config_list(exe):
    out = subprocess.run([exe, "--list", "1"], capture_output=True, text=True, timeout=60)
    if out.returncode != 0:
        raise ToolError("cannot list assemblies: " + out.stderr)
    rows = []
    for l in out.stdout.splitlines():
        s, n, bits, cost, plain, tags = (l.split(" ") + [""])[:6]
        rows.append(dict(set=s, name=n, bits=int(bits), cost=int(cost), plain=None if plain == "-" else plain, tags=tags.split(",")))
    return rows


def designs(run, quick, thorough=(), proofs=()):
    jobs = [thread(run.design, m, c, workers=3, timeout=700) for m, c in quick]
    if not run.quick:
        jobs += [thread(run.design, m, c, workers=8, timeout=6000) for m, c in thorough] + [thread(run.prove, m) for m in proofs]
    return jobs


PROFILES = ("checked", "release")     # with and without debug assertions and overflow checks


def both(run, feats, bins):
    """the programs of both profiles: [{name: path}, ...] in the order of PROFILES"""
    return [b() for b in [thread(run.build, feats, bins, p) for p in PROFILES]]


def listing(exe, what, *args):
    out = subprocess.run([exe, *args, "--list", "1"], capture_output=True, text=True, timeout=60)
    if out.returncode:
        raise ToolError(f"cannot list {what}: " + out.stderr)
    return out.stdout.splitlines()


TREE_DESIGN = [("MCVebTree", "Tree23.cfg"), ("MCVebTree", "Tree222.cfg"), ("Blocks", "Blocks3.cfg"), ("MCBulk", "Bulk4.cfg")]
LEAF_DESIGN = [("ByteLeaf", "ByteLeafSet5.cfg"), ("ByteLeaf", "ByteLeafMap3.cfg"), ("MCWords", "Words5.cfg")]
LEAF_DESIGN_DEEP = [("ByteLeaf", "ByteLeafSet7.cfg"), ("ByteLeaf", "ByteLeafMap4.cfg"), ("MCWords", "Words7.cfg")]
ITER_DESIGN = [("MCIter", "MCIter.cfg")]
COL_DESIGN = [("ColDesign", "ColDesign5.cfg"), ("MCCol", "MCCol3.cfg")]
COL_DESIGN_DEEP = [("ColDesign", "ColDesign7.cfg"), ("MCCol", "MCCol4.cfg")]
TREE_DESIGN_DEEP = [("MCVebTree", "Tree33.cfg"), ("MCVebTree", "Tree2222.cfg"), ("MCVebTree", "Tree322.cfg"), ("Blocks", "Blocks4.cfg"), ("MCBulk", "Bulk6.cfg")]


def maps_job(run, exe, prop, cfg, gfiles, sfiles, emb, steps, simemb, seed, budget, label="", extra=()):
    scale = 40 if cfg["cost"] >= 50 else 1
    cmd = [exe, "--prop", prop, "--config", cfg["name"], "--graphs", ",".join(gfiles), "--sims", ",".join(sfiles),
           "--emb", str(emb * scale), "--steps", str(steps), "--simemb", str(simemb * scale), "--seed", str(seed), "--budget", str(budget), *extra]
    return lambda: run.program(cmd, cfg["name"] + label, timeout=budget * 3 + 200)


def all_jobs(run, exe, prop, cfg, graph, stride, budget, extra=(), parts=1, profile="checked"):
    """every `stride`-th embedding of the graph into the whole (small) key domain"""
    def job(i):
        cmd = [exe, "--prop", prop, "--config", cfg["name"], "--all", graph, "--stride", str(stride), "--part", str(i), "--parts", str(parts),
               "--seed", str(run.seed), "--budget", str(budget), *extra]
        return lambda: run.program(cmd, f"{cfg['name']} ({profile}, all embeddings, part {i})", timeout=budget * 2 + 100)
    return [job(i) for i in range(parts)]


def trace_job(run, exe, prop, names, n, steps, seed, label):
    def go():
        f = run.path(f"trace-{label}.json")
        run.program([exe, "--prop", prop, "--configs", ",".join(names), "--n", str(n), "--steps", str(steps), "--seed", str(seed), "--out", f], f"recorder {label}", timeout=400)
        if run.violations:
            return
        validate(run, f, label)
    return go


def bulk_job(run, exe, prop, names, seed, label):
    """runs with tens of thousands of entries"""
    def go():
        f = run.path(f"bulk-{label}.json")
        run.program([exe, "--prop", prop, "--configs", ",".join(names), "--seed", str(seed), "--out", f], f"bulk recorder {label}", timeout=600)
        if run.violations:
            return
        validate(run, f, label, "TraceBulk", "VebBulk")
    return go


def validate(run, f, label, module="TraceMap", spec="VebMap"):
    """TLC decides whether the recorded calls are a behaviour of VebMap (VebBulk)."""
    rc, out = run.tlc(module, module + ".cfg", env={"TRACE": f}, workers=1, expect_ok=False, tag=f"{module}-{label}", timeout=500)
    text = open(out, errors="replace").read()
    m = re.search(r'"CONSUMED <<(\d+), (\d+)>>"', text)
    skips = len(re.findall(r'"SKIP \d+"', text))
    d = re.search(r'"DEVIATION <<(\d+), (.*)>>"', text)
    lines = open(f).read().splitlines()
    if d:
        at = int(d[1])
        start = max(i for i in range(at) if lines[i].startswith('["config"'))
        c = json.loads(lines[start])
        acc = [f"property {run.prop}", f"config {c[1]}", "ordinals " + (" ".join(c[2]) if module == "TraceMap" else f"{c[2]} keys from {c[3]} on"), "blocks ", "profile " + ("release" if "release" in label else "checked"), f"note recorded run, rejected by {module}"]
        for l in lines[start + 1:at]:
            e = json.loads(l)
            acc.append(f"step {e[0]} {e[1]} {e[2]} 0")
        acc.append(f"FAIL recorded call {lines[at - 1][:3000]} is not allowed by {spec} in state {d[2][:2000]}")
        run.violation("\n".join(acc) + "\n")
        return
    if rc != 0 or not m or int(m[1]) <= int(m[2]):
        raise ToolError(f"trace validation {label} failed (exit {rc}):\n{text[-3000:]}")
    with run.lock:
        run.traces += sum(1 for l in lines if l.startswith('["config"'))
        run.stats["recorded_calls_validated"] = run.stats.get("recorded_calls_validated", 0) + len(lines) - 1
        run.stats["recorded_runs_skipped"] = run.stats.get("recorded_runs_skipped", 0) + skips


def tree_check(features, keep=lambda c: True, design=TREE_DESIGN, deep=TREE_DESIGN_DEEP, even=False, prop=None, traces=True,
               qgraphs=GRAPHS_QUICK, tgraphs=GRAPHS_THOROUGH, emb=300, budget=30, iterator=False, small="LtsMap3x2", stride=768, parts=1, bulk=True, proofs=()):
    def go(run):
        q = run.quick
        feats = list(features) + (["more"] if "trees" in features else [])
        bins = ["maps"] + (["record"] if traces else []) + (["bulk"] if bulk else [])
        g = graphs(run, qgraphs if q else tgraphs)
        sm = graphs(run, [small])[0]
        s = sims(run, 40 if q else 120, 500, [run.seed * 10 + i for i in range(1 if q else 3)])
        dz = designs(run, design + ITER_DESIGN * iterator, deep, proofs)
        builds = thread(both, run, feats, bins)
        it = thread(iter_graph, run) if iterator else None
        exes = builds()
        gf, sf = [x() for x in g], [x() for x in s]
        for d in dz:
            d()
        P = prop or run.prop
        extra = ["--iter", it()] if it else []
        jobs = []
        for exe, profile in zip(exes, PROFILES):
            # without assertions: the same histories, fewer of them
            full = even or profile == "checked"
            cfgs = [c for c in config_list(exe["maps"]) if keep(c) and not (q and c["set"] == "more" and c["cost"] >= 50)]
            # expensive assemblies first
            cfgs.sort(key=lambda c: -c["cost"])
            for c in cfgs:
                for k in range(1 if q else 4 if full else 2):
                    e, m = (emb, 40) if full else (emb // 3, 16)
                    jobs.append(maps_job(run, exe["maps"], P, c, gf, sf, e if q else e * 4, 200, m if q else m * 4, run.seed + 1000 * k + (0 if full else 500), budget if q else 300, f" ({profile})", extra))
            for c in cfgs:
                if c["bits"] <= 8:
                    st = 1 if c["bits"] < 8 else stride if q else max(1, stride // 32)
                    jobs += all_jobs(run, exe["maps"], P, c, sm(), st if full or st == 1 else st * 4, budget if q else 400, extra, parts if q else max(4, parts), profile)
            if traces:
                names = [c["name"] for c in cfgs]
                groups = 8 if q else 16
                for i in range(groups):
                    part = names[i::groups]
                    if part:
                        for k in range(1 if q else 4 if full else 1):
                            jobs.append(trace_job(run, exe["record"], P, part, [60, 200, 300, 24][k], 1000 if q else 4000, run.seed + k + (0 if full else 50), f"{profile}-{i}-{k}"))
            if bulk:
                names = [c["name"] for c in cfgs]
                for i in range(min(8, len(names))):
                    for k in range(1 if q else 6 if full else 2):
                        jobs.append(bulk_job(run, exe["bulk"], P, names[i::8], run.seed + k + (0 if full else 50), f"{profile}-{i}-{k}"))
        run.parallel(jobs)
        run.assumptions += MAP_ASSUME
    return go


PLANS = {p: tree_check(["trees", "wrappers"]) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]}
PLANS.update({p: tree_check(["trees", "wrappers"], iterator=True, proofs=["IterProof"]) for p in ["C09", "C10"]})
PLANS["C16"] = tree_check(["owned"], emb=800, traces=False, bulk=False)
PLANS["C18"] = tree_check(["trees", "wrappers"], even=True, traces=False, iterator=True)
PLANS["C20"] = tree_check(["bytes"], keep=lambda c: c["name"] == "byteset", emb=3000,
                           design=TREE_DESIGN + LEAF_DESIGN, deep=TREE_DESIGN_DEEP + LEAF_DESIGN_DEEP, small="LtsSet3", stride=4, parts=8, proofs=["WordsProof"])
PLANS["C21"] = tree_check(["trees", "wrappers"], keep=lambda c: c["set"] == "wrappers", emb=600)


# --------------------------------------------------------------------- collections
def collections(run):
    q = run.quick
    def spec(cfg, out, *args):
        f = run.path(out)
        run.tlc("Collection" if not args else "ColSim", cfg, out=f, workers=1, args=args, tag=out)
        return f
    g = [thread(spec, f"Col{n}.cfg", f"Collection-{n}") for n in ("3x2x2", "4x2x1", "5x1x2")]
    s = []
    for i in range(1 if q else 4):
        seed = run.seed * 10 + i
        s.append(thread(spec, "ColSim20.cfg", f"ColSim20-{seed}", "-simulate", f"num={20 if q else 60}", "-depth", "400", "-seed", str(seed)))
        s.append(thread(spec, "ColSim256.cfg", f"ColSim256-{seed}", "-simulate", "num=3", "-depth", "2400", "-seed", str(seed)))
    exes = both(run, ["cols"], ["cols", "bulkcols"])
    dz = designs(run, COL_DESIGN + [("MCBulk", "Bulk4.cfg")], COL_DESIGN_DEEP + [("MCBulk", "Bulk6.cfg")], ["ColProof"])
    gf, sf = [x() for x in g], [x() for x in s]
    rows = sorted((l.split() for l in listing(exes[0]["cols"], "collections")), key=lambda r: -int(r[2]))
    names = [r[0] for r in rows]
    jobs = []
    for exe, profile, part in zip(exes, PROFILES, (1, 3)):
        for name, bits, cost in rows:
            for k in range(1 if q else 4):
                scale = 8 if int(cost) > 1 else 1
                cmd = [exe["cols"], "--prop", run.prop, "--config", name, "--graphs", ",".join(gf), "--sims", ",".join(sf), "--emb", str((600 if q else 4000) * scale // part),
                       "--simemb", str((10 if q else 30) * scale // part), "--steps", "200", "--seed", str(run.seed + 1000 * k + part - 1), "--budget", str(40 if q else 400)]
                jobs.append(lambda cmd=cmd, name=f"{name} ({profile})": run.program(cmd, name, timeout=1500))
        for i in range(4):
            for k in range((2 if q else 12) if part == 1 else (1 if q else 4)):
                jobs.append(bulk_job(run, exe["bulkcols"], run.prop, names[i::4], run.seed + k + 50 * (part - 1), f"cols-{profile}-{i}-{k}"))
    run.parallel(jobs)
    for d in dz:
        d()
    run.assumptions += ["subtrees are a trusted sorted-vector implementation of the tree interface, so only the collection is under test",
                        "removers are the six kinds of Collection.tla; a declining remover gives its subtree back unchanged"]


PLANS["C13"] = collections
PLANS["C14"] = collections


# --------------------------------------------------------------------- cloning
def clones(run):
    q = run.quick
    def spec(module, cfg, out, *args):
        f = run.path(out)
        run.tlc(module, cfg, out=f, workers=1, args=args, tag=out)
        return f
    g = [thread(spec, "VebClone", f"{n}.cfg", f"{n}.graph") for n in ("VebClone", "VebCloneSet")]
    s = [thread(spec, "CloneSim", "CloneSim.cfg", f"CloneSim-{run.seed * 10 + i}", "-simulate", f"num={20 if q else 60}", "-depth", "600", "-seed", str(run.seed * 10 + i))
         for i in range(1 if q else 4)]
    exes = both(run, ["clones"], ["clones"])
    gf, sf = [x() for x in g], [x() for x in s]
    names = [l.split()[0] for l in listing(exes[0]["clones"], "cloneable assemblies")]
    jobs = []
    for exe, profile, part in zip(exes, PROFILES, (1, 3)):
        for name in names:
            for k in range(1 if q else 6):
                cmd = [exe["clones"], "--prop", run.prop, "--config", name, "--graphs", ",".join(gf), "--sims", ",".join(sf), "--emb", str((1500 if q else 12000) // part),
                       "--simemb", str((40 if q else 200) // part), "--steps", "150", "--seed", str(run.seed + 1000 * k + part - 1), "--budget", str(40 if q else 300)]
                jobs.append(lambda cmd=cmd, name=f"{name} ({profile})": run.program(cmd, name, timeout=1500))
    run.parallel(jobs)
    run.assumptions += MAP_ASSUME[:1] + ["a deviation of a cloned tree counts only if a tree built by the same calls without cloning does not show it"]


PLANS["C17"] = clones


# --------------------------------------------------------------------- keys
KEY_DESIGN = ["Keys221", "Keys511", "Keys610", "Keys321", "Keys242", "Keys342"]


def check_facts(run, module, f, label, config_of, timeout=600, account=None):
    """TLC decides whether every recorded fact holds; a deviation becomes a violation."""
    rc, out = run.tlc(module, module + ".cfg", env={"TRACE": f}, workers=1, expect_ok=False, tag=f"{module}-{label}", timeout=timeout)
    text = open(out, errors="replace").read()
    m = re.search(r'"CONSUMED <<(\d+), (\d+)>>"', text)
    d = re.search(r'"DEVIATION (\d+)(.*)"', text)
    if d:
        lines = open(f).read().splitlines()
        at = int(d[1])
        run.violation(f"property {run.prop}\nconfig {config_of(lines, at - 1)}\nnote recorded fact, rejected by {module}\n{account(lines, at - 1) if account else ''}"
                      f"FAIL fact {lines[at - 1][:3000]} does not hold{d[2][:2000]}\n")
        return
    if rc != 0 or not m or int(m[1]) <= int(m[2]):
        raise ToolError(f"{module} {label} failed (exit {rc}):\n{text[-3000:]}")
    with run.lock:
        run.stats["recorded_facts_validated"] = run.stats.get("recorded_facts_validated", 0) + int(m[2])
        run.traces += 1


def heading(lines, at):
    while at >= 0 and not lines[at].startswith('["type"'):
        at -= 1
    return json.loads(lines[at])[1] if at >= 0 else "U2/U4"


def keys(run):
    q = run.quick
    dz = [thread(run.design, "MCKeys", c + ".cfg", workers=1) for c in KEY_DESIGN]
    if not q and run.prop != "C22":
        dz.append(thread(run.prove, "IntProof"))
    exes = [e["keyfacts"] for e in both(run, ["keyfacts"], ["keyfacts"])]
    def part(i, k, exe):
        def go():
            f = run.path(f"facts-{i}-{k}.json")
            run.program([exe, "--prop", run.prop, "--part", str(i), "--seed", str(run.seed + k), "--n", str((1000 if q else 20000) // (1 if exe == exes[0] else 4)), "--out", f], f"key facts {i}-{k}", timeout=300)
            if not run.violations:
                check_facts(run, "TraceKeys", f, f"{i}-{k}", heading, 1500)
            os.unlink(f)
        return go
    which = {"C11": range(12), "C12": range(6), "C22": [12]}[run.prop]
    run.parallel([part(i, k, exes[0]) for k in range(1 if q else 4) for i in which] + [part(i, 50, exes[1]) for i in which])
    if run.prop != "C22" and not run.violations:
        for exe, profile, part in zip(exes, PROFILES, (1, 2)):
            run.program([exe, "--prop", run.prop, "--all32", "1", "--fills", str(1 if q or part > 1 else 5), "--lane", str(32 if q or part > 1 else 16), "--seed", str(run.seed)], f"all 32-bit keys ({profile})", timeout=3000)
        run.extra["exhaustive"] = "unit, 2-, 4-, 8-, 16- and 32-bit keys: every value; 8-bit and smaller: every pair"
    for d in dz:
        d()
    run.assumptions += ["keys of 64 bits and more and longer arrays: every digit position and pair of positions, every carry, random values, and every value of 32 adjacent bits, not every key"]


PLANS.update({p: keys for p in ("C11", "C12", "C22")})


# --------------------------------------------------------------------- components of a tree
def spies(run):
    q = run.quick
    g, s = graphs(run, GRAPHS_QUICK if q else GRAPHS_THOROUGH), sims(run, 20, 400, [run.seed * 10 + 5])
    dz = designs(run, TREE_DESIGN + [("MCNode", "Node23.cfg")], TREE_DESIGN_DEEP + [("MCNode", f"Node{n}.cfg") for n in ("222", "322")], ["VebNodeProof"])
    exes = [e["spies"] for e in both(run, ["spies"], ["spies"])]
    gf, sf = [x() for x in g], [x() for x in s]
    for d in dz:
        d()
    names = [l.split()[0] for l in listing(exes[0], "spied assemblies")]
    def start(lines, at):
        while not lines[at].startswith('["run"'):
            at -= 1
        return at
    def one(n, k):
        def go():
            f = run.path(f"spy-{n}-{k}.json")
            run.program([exes[k % 2], "--prop", run.prop, "--config", n, "--graphs", ",".join(gf), "--sims", ",".join(sf), "--steps", str([60, 200, 200, 60][k % 4]),
                         "--events", str(100000 if q else 1000000), "--seed", str(run.seed + k), "--out", f], n, timeout=600)
            if not run.violations:
                check_facts(run, "TraceStruct", f, f"{n}-{k}", lambda lines, at: json.loads(lines[start(lines, at)])[1], 1500,
                            lambda lines, at: "\n".join("event " + x for x in lines[start(lines, at):at]) + "\n")
            os.unlink(f)
        return go
    run.parallel([one(n, k) for k in range(3 if q else 6) for n in names])
    run.assumptions += ["summaries and collections are trusted recording components; levels are compared as multisets of key sets"]


PLANS["C15"] = spies


# --------------------------------------------------------------------- work per call
def costs(run):
    q = run.quick
    dz = designs(run, TREE_DESIGN, TREE_DESIGN_DEEP)
    exes = [e["costs"] for e in both(run, ["costs"], ["costs"])]
    names = [l for l in " ".join(listing(exes[0], "measured assemblies")).split()]
    def one(n, k):
        exe = exes[1 if k == 50 or k % 4 == 3 else 0]
        def go():
            f = run.path(f"cost-{n}-{k}.json")
            run.program([exe, "--prop", run.prop, "--config", n, "--rounds", str(4 if q else 16), "--max", str(50_000 if q else 500_000), "--seed", str(run.seed + k), "--out", f], n, timeout=800 if q else 3000, mem_gb=8)
            if not run.violations:
                check_facts(run, "TraceCost", f, f"{n}-{k}", lambda lines, at: n, account=lambda lines, at: "note comparisons, splits, joins, hashes, slots, accesses and allocations are listed last\n")
            os.unlink(f)
        return go
    run.parallel([one(n, k) for k in ([0, 50] if q else range(4)) for n in names])
    for d in dz:
        d()
    run.assumptions += ["work is counted on keys (comparisons, splits, joins, hashes, slot computations), on array slots and a counting collection, and in allocations; a scan inside a hash table that touches no key is not counted",
                        "a hash table may rehash itself: with hash tables the work on keys of the updates is judged over the life of a tree, not call by call"]


PLANS["C19"] = costs


# --------------------------------------------------------------------- storage
def space(run):
    q = run.quick
    dz = designs(run, TREE_DESIGN[:2], TREE_DESIGN_DEEP[:3])
    exes = [e["space"] for e in both(run, ["costs", "trees", "wrappers"], ["space"])]
    names = [l.split()[1] for l in listing(exes[0], "assemblies")]
    def one(part, k):
        exe = exes[1 if k == 50 or k % 3 == 2 else 0]
        def go():
            f = run.path(f"space-{part}-{k}.json")
            run.program([exe, "--prop", run.prop, "--configs", ",".join(names[part::8]), "--rounds", str(15 if k == 50 else 45 if q else 450), "--seed", str(run.seed + k), "--out", f], f"space {part}", timeout=800 if q else 3000, mem_gb=8)
            if not run.violations:
                check_facts(run, "TraceSpace", f, f"{part}-{k}", lambda lines, at: next(json.loads(lines[i])[1] for i in range(at, -1, -1) if lines[i].startswith('["tree"')),
                            account=lambda lines, at: "note held: entries, keys alive, last call, number of calls; gone: keys alive and heap bytes after dropping\n")
            os.unlink(f)
        return go
    run.parallel([one(i, k) for k in ([0, 50] if q else range(6)) for i in range(8)])
    for d in dz:
        d()
    run.assumptions += ["the bound allows twice the places the design needs; capacity a collection keeps in reserve is not counted while the tree lives"]


PLANS["C26"] = space


# --------------------------------------------------------------------- several trees, several threads
def thread_sharing(run):
    q = run.quick
    dz = designs(run, [("Threads", "Threads.cfg")], [("Threads", "Threads3.cfg")])
    def sim(s):
        f = run.path(f"threadsim{s}")
        run.tlc("ThreadSim", "ThreadSim.cfg", out=f, workers=1, args=["-simulate", f"num={20 if q else 60}", "-depth", "600", "-seed", str(s)], tag=f"ThreadSim-seed{s}")
        return f
    ss = [thread(sim, run.seed * 10 + i) for i in range(1 if q else 3)]
    exes = [e["threads"] for e in both(run, ["threads"], ["threads"])]
    sf = ",".join(s() for s in ss)
    names = " ".join(listing(exes[0], "assemblies", "--prop", run.prop)).split()
    # three threads each
    run.parallel([lambda n=n, exe=exe, p=p, emb=emb: run.program([exe, "--prop", run.prop, "--config", n, "--sims", sf, "--emb", str(emb), "--reads", "12", "--seed", str(run.seed)], f"{n} ({p})", timeout=1500)
                  for exe, p, emb in zip(exes, PROFILES, (12, 4) if q else (30, 10)) for n in names], workers=3)
    for d in dz:
        d()
    run.assumptions += ["calls are atomic in the specification: exclusive access and freezing make that a theorem of the ownership rules (Commute), so schedules matter only through state shared behind the API",
                        "truly concurrent batches sample the schedules of the machine they run on; what may be sent and shared is decided for every schedule by the compiler's auto traits"]


PLANS["C27"] = thread_sharing


# --------------------------------------------------------------------- byte maps over their lists
def leaf(run):
    q = run.quick
    dz = designs(run, LEAF_DESIGN + COL_DESIGN[:1], LEAF_DESIGN_DEEP + COL_DESIGN_DEEP[:1], ["WordsProof", "ColProof"])
    exes = [e["leaf"] for e in both(run, ["parts"], ["leaf"])]
    def start(lines, at):
        while not lines[at].startswith('["run"'):
            at -= 1
        return at
    def one(n, k):
        def go():
            f = run.path(f"leaf-{n}-{k}.json")
            run.program([exes[1 if k % 3 == 2 else 0], "--prop", run.prop, "--config", n, "--events", str(60000 if q else 600000), "--seed", str(run.seed + k), "--out", f], n, timeout=300)
            if not run.violations:
                check_facts(run, "TraceLeaf", f, f"{n}-{k}", lambda lines, at: n, 1500,
                            lambda lines, at: "\n".join("event " + x for x in lines[start(lines, at):at]) + "\n")
            os.unlink(f)
        return go
    run.parallel([one(n, k) for k in range(4 if q else 12) for n in ("leaf", "col")])
    for d in dz:
        d()
    run.assumptions += ["the list is a trusted recording component; accesses are judged by position and length, contents after every call"]


PLANS["C23"] = leaf


def spec_graph(run, module, cfg, out, *args):
    f = run.path(out)
    run.tlc(module, cfg, out=f, workers=1, args=args, tag=out)
    return f


def lists(run):
    q = run.quick
    g = thread(spec_graph, run, "Lists", "Lists4.cfg", "Lists4")
    s = [thread(spec_graph, run, "ListSim", "ListSim.cfg", f"ListSim-{run.seed * 10 + i}", "-simulate", f"num={4 if q else 20}", "-depth", "1600", "-seed", str(run.seed * 10 + i))
         for i in range(1 if q else 4)]
    exes = [e["lists"] for e in both(run, ["parts"], ["lists"])]
    gf, sf = g(), [x() for x in s]
    run.parallel([lambda k=k, exe=exe, p=p: run.program([exe, "--prop", run.prop, "--config", k, "--graphs", gf, "--sims", ",".join(sf), "--rounds", str(20 if q else 400), "--seed", str(run.seed)], f"{k} ({p})", timeout=1500)
                  for exe, p in zip(exes, PROFILES) for k in ("values", "trees")])
    run.assumptions += ["subtrees are a trusted sorted-vector implementation of the tree interface; removers take the largest entry, take it and drop the rest, or decline"]


PLANS["C24"] = lists


def handles(run):
    g = thread(spec_graph, run, "Handles", "Handles.cfg", "Handles")
    exes = [e["handles"] for e in both(run, ["parts"], ["handles"])]
    for exe, p in zip(exes, PROFILES):
        run.program([exe, "--prop", run.prop, "--graph", g(), "--tours", str(1000 if run.quick else 50000), "--seed", str(run.seed)], f"handles ({p})", timeout=1500, mem_gb=8)
    run.assumptions += ["clones of a key are counted for the spying key type only; the built-in key types are compared by value"]


PLANS["C25"] = handles
