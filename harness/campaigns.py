"""One function per property: which models TLC checks exhaustively, which scenarios it generates for the program."""
import random

import scenario


def gen(ctx, name, num, opts=None, post=None, **over):
    """num scripts from Gen.tla, as jobs."""
    seed = ctx.rng.randrange(1, 1 << 30)
    scripts = scenario.generate(num, seed, **over)
    jobs = []
    for i, s in enumerate(scripts):
        s["name"] = f"{name}/{i}"
        if post:
            s = post(s, i) or s
        jobs.append((s, dict(opts or {}), ctx.rng.randrange(1 << 30)))
    return jobs


def large(ctx, name, num, opts=None, post=None, **over):
    """num scripts from GenLarge.tla, as jobs."""
    jobs = []
    for i, s in enumerate(scenario.generate_large(num, ctx.rng.randrange(1, 1 << 30), **over)):
        s["name"] = f"{name}/{i}"
        if post:
            s = post(s, i) or s
        jobs.append((s, dict({"autoview": False, "addrs": over.get("Addrs", 4)}, **(opts or {})), ctx.rng.randrange(1 << 30)))
    return jobs


def every(ctx, name, ks, moves, stops=0, num=None, opts=None):
    """All histories of the small world (num of them, if given)."""
    jobs = []
    for k in ks:
        scripts, transitions = scenario.every_history(k, moves, stops)
        ctx.notes.append(f"{name}: K={k}, {moves} changes, {stops} stops: {len(scripts)} scripts for {transitions} transitions")
        for i, s in enumerate(scripts):
            s["name"] = f"{name}/{k}-{i}"
            jobs.append((s, {"chk": [], "addrs": 2, "autoview": True, **(opts or {})}, ctx.rng.randrange(1 << 30)))
    if num and num < len(jobs):
        jobs = ctx.rng.sample(jobs, num)
    return jobs


def N(ctx, quick, factor=12):
    return quick if ctx.quick else quick * factor


def C01(ctx):
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    ctx.model("IndexerMC", "IndexerMC_3.cfg")
    o = {"chk": []}
    ctx.play("grow", gen(ctx, "grow", N(ctx, 160), o, PReorg=10, PNode=25))
    ctx.play("any", gen(ctx, "any", N(ctx, 160), o, Ks="{1,2,3,4,6}", PDirty=30))
    ctx.play("scripts", gen(ctx, "scripts", N(ctx, 80), o, Rich="TRUE"))
    ctx.play("large blocks", large(ctx, "large", N(ctx, 8), o, NBlock=300, NOuts=300, Addrs=120, PReorg=20))


def C02(ctx):
    ctx.model("IndexerMC", "IndexerMC_3.cfg")
    o = {"chk": []}
    ctx.play("reorg", gen(ctx, "reorg", N(ctx, 250), o, Ks="{2,3,4,6}", PPool=25, PReorg=60, PNode=30, Addrs=3))
    ctx.play("nested", gen(ctx, "nested", N(ctx, 150), o, Ks="{3,4,5}", PPool=10, PReorg=85, PNode=25, PMid=30, Steps=90, MaxBlocks=60))
    ctx.play("wide margins", large(ctx, "wide", N(ctx, 16), o, Ks="{40,130,257,300}", PReorg=65, PPool=15, Turns=6))
    ctx.play("every history", every(ctx, "every", (2, 3), 3, num=200 if ctx.quick else None), batch=400)


def C03(ctx):
    ctx.model("IndexerMC", "IndexerMC_ref.cfg")
    o = {"chk": []}
    ctx.play("pool", gen(ctx, "pool", N(ctx, 250), o, Ks="{1,2,3}", PPool=80, PReorg=8, PDirty=40, PNode=35, PMid=30, PBlink=10))
    ctx.play("dirty", gen(ctx, "dirty", N(ctx, 150), o, Ks="{1,2,3}", PPool=75, PReorg=12, PDirty=90, PNode=30, PMid=60))
    ctx.play("large pools", large(ctx, "large", N(ctx, 16), o, NPool=150, PPool=80, Turns=6))
    ctx.play("crowded pools", large(ctx, "crowd", N(ctx, 2), o, NPool=1100, PPool=90, PReorg=5, PRestart=10, Base=80, Busy=80, Turns=4))
    ctx.play("many inputs", large(ctx, "inputs", N(ctx, 16), o, NPool=12, NIns=70, PPool=80, Base=40, Busy=60, Turns=8))


def C14(ctx):
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    ctx.play("fetch", gen(ctx, "fetch", N(ctx, 300), {"chk": ["fetch"], "autoview": False, "creds": True}, PReorg=10, PPool=60, PNode=30, PMid=30))
    ctx.play("refusals", gen(ctx, "refusals", N(ctx, 60), {"chk": ["fetch"], "autoview": False, "creds": True}, PFault=25, PPool=50, PNode=30, PMid=50))
    ctx.play("large pools", large(ctx, "large", N(ctx, 16), {"chk": ["fetch"]}, NPool=400, PPool=70, PReorg=10, Turns=6))
    ctx.play("very large pools", large(ctx, "very large", N(ctx, 4), {"chk": ["fetch"]}, NPool=1200, PPool=85, PReorg=5, Turns=3))
    ctx.play("wide margins", large(ctx, "wide", N(ctx, 8), {"chk": ["fetch"]}, Ks="{130,257,300}", PReorg=20, PPool=30, Turns=6))

    def idle(s, i):         # hundreds of updates during which nothing happens
        at = [j for j, x in enumerate(s["steps"]) if x["a"] == "sync"]
        for j in sorted(ctx.rng.sample(at, min(3, len(at))), reverse=True):
            s["steps"][j:j] = [{"a": "sync"}] * ctx.rng.choice([260, 300, 520])
    ctx.play("long runs", large(ctx, "long", N(ctx, 8), {"chk": ["fetch"]}, post=idle, NPool=20, PPool=70, PReorg=10, PRestart=5, Turns=6))


def C15(ctx):
    ctx.model("IndexerMC", "IndexerMC_ref.cfg")
    o = {"chk": []}
    ctx.play("mid", gen(ctx, "mid", N(ctx, 300), o, Ks="{1,2,3,4}", PMid=95, PNode=30, PReorg=30, PPool=40, PBlink=8))
    ctx.play("busy", gen(ctx, "busy", N(ctx, 150), o, Ks="{2,3,5}", PMid=95, PNode=55, PReorg=25, PPool=55, Steps=80, MaxBlocks=60))
    ctx.play("large pools", large(ctx, "large", N(ctx, 12), o, NPool=150, PPool=60, PMid=100, Turns=6))
    ctx.play("every history", every(ctx, "every", (1, 2, 3), 2, num=400 if ctx.quick else None), batch=400)


PERSIST = dict(Watch="TRUE", PReorg=15, PPool=25, PNode=30, Steps=90, MaxBlocks=60)
OPS = ["open", "write", "write", "fsync", "rename"]


def C07(ctx):
    ctx.model("IndexerMC", "IndexerMC_stop.cfg")
    o = {"chk": ["base"], "watch": "store", "noblocks": True, "short": 0.3, "peek": 0.1}
    ctx.play("restart", gen(ctx, "restart", N(ctx, 140), o, **{**PERSIST, "PStop": 6, "PRelease": 60}))
    ctx.play("looks", gen(ctx, "looks", N(ctx, 64), {**o, "peek": 0.5, "hold": OPS}, **{**PERSIST, "PStop": 2, "PRelease": 15, "PPool": 5}))
    ctx.play("contents", gen(ctx, "contents", N(ctx, 100), o, **{**PERSIST, "PStop": 6, "PRelease": 60, "Rich": "TRUE", "Wide": "TRUE", "Addrs": 8}))
    ctx.play("large", large(ctx, "large", N(ctx, 12), {"chk": ["base"], "noblocks": True}, NBlock=300, NOuts=300, PPool=5, PReorg=10, PRestart=70, Addrs=40, Rich="TRUE", Wide="TRUE", Cap=200000, Extra=300))
    ctx.play("many outputs", large(ctx, "outputs", N(ctx, 4), {"chk": ["base"], "noblocks": True}, NPad=65540, PRestart=100, Turns=2, Wide="TRUE"))
    ctx.play("many coins", large(ctx, "coins", N(ctx, 2), {"chk": ["base"], "noblocks": True}, NPad=65550, NKept=65550, PRestart=100, Turns=1, Wide="TRUE", Extra=2, PReorg=0))
    ctx.play("many blocks", large(ctx, "blocks", N(ctx, 2), {"chk": ["base"], "noblocks": True}, post=lambda s, i: scenario.stretch(s, 65530), PRestart=100, Turns=1, PReorg=0))
    ctx.play("every history", every(ctx, "every", (1, 2, 3), 1 if ctx.quick else 2, stops=1, num=200 if ctx.quick else None, opts={"chk": ["base"]}), batch=400)


def C08(ctx):
    ctx.model("IndexerMC", "IndexerMC_stop.cfg")
    ctx.model("DiskMC", "DiskMC.cfg" if ctx.quick else "DiskMC_9.cfg")
    o = {"chk": ["base"], "watch": "store", "hold": OPS, "noblocks": True, "fops": True, "short": 0.2}
    ctx.play("crash", gen(ctx, "crash", N(ctx, 200), o, **{**PERSIST, "PStop": 25, "PRelease": 15}))
    def first(s, i):
        at = [j for j, x in enumerate(s["steps"]) if x["a"] == "start"][0]
        s["steps"][at:at] = [{"a": "first"} for _ in range(ctx.rng.randrange(1, 6))]
    ctx.play("first write", gen(ctx, "first", N(ctx, 48), o, post=first, Steps=20, Rich="TRUE"))
    ctx.play("full", gen(ctx, "full", N(ctx, 48), o, **{**PERSIST, "PStop": 5, "PRelease": 50, "PFull": 40}))
    cut_off(ctx, N(ctx, 24))


def cut_off(ctx, num):
    """The stored index is cut off at many lengths, each time followed by a start that has to fail; then it is put back."""
    def post(s, i):
        k = s["K"]
        steps = [x for x in s["steps"] if x["a"] in ("node", "start", "rpc")][:14]
        steps += [{"a": "sync"}, {"a": "sync"}, {"a": "kill"}]
        for n in range(12):
            cut = [{"cut": ctx.rng.choice([0, 1, 2, 3, 4, 5, 35, 36, 67, 68, 69])}, {"part": ctx.rng.random()}, {"edge": ctx.rng.random()}, {"edge": ctx.rng.random()},
                   {"tail": ctx.rng.choice([1, 1, 2, 3, 4, 8, 21, 22, 31, 32, 33])}][n % 5]
            steps += [{"a": "damage", **cut},
                      {"a": "refused"}, {"a": "restore"}]
        steps += [{"a": "start"}, {"a": "sync"}, {"a": "views", "kind": "mutxo"}]
        s["steps"] = steps
        return s
    ctx.play("cut off", gen(ctx, "cut off", num, {"chk": ["base"], "autoview": False}, post=post, PNode=20, PReorg=0, Rich="TRUE"))


def C09(ctx):
    ctx.model("IndexerMC", "IndexerMC_ref.cfg")
    ctx.model("Locks", "Locks_disk.cfg" if ctx.quick else "Locks_both.cfg")
    o = {"chk": ["base"], "watch": "store", "hold": OPS}
    ctx.play("held", gen(ctx, "held", N(ctx, 200), o, **{**PERSIST, "PStop": 2, "PRelease": 7, "PPool": 15, "PReorg": 20}))
    ctx.play("held, restarts", gen(ctx, "held2", N(ctx, 100), o, **{**PERSIST, "PStop": 5, "PRelease": 15, "PQuery": 25}))


def C13(ctx):
    ctx.model("IndexerMC", "IndexerMC_stop.cfg")
    ctx.model("IndexerMC", "IndexerMC_ends.cfg")
    o = {"chk": ["base"]}
    ctx.play("faults", gen(ctx, "faults", N(ctx, 250), {**o, "creds": True}, PFault=8, PPool=50, PNode=30, PMid=50))
    ctx.play("deep", gen(ctx, "deep", N(ctx, 100), o, Ks="{1,2,3}", PDeep=60, PReorg=50, PPool=20, PNode=30))


def C16(ctx):
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    o = {"chk": ["base"], "watch": "store"}
    ctx.play("clock", gen(ctx, "clock", N(ctx, 150), o, **{**PERSIST, "PStop": 4, "PRelease": 40, "PClock": 15}))
    ctx.play("wild clock", gen(ctx, "wild", N(ctx, 100), {**o, "wildclock": True}, **{**PERSIST, "PStop": 4, "PRelease": 40}))


def storms(ctx):
    def post(s, i):
        steps, nodes = [], []
        for x in s["steps"]:
            if x["a"] == "node" and steps and steps[-1]["a"] != "node":
                nodes.append(x)
                if len(nodes) >= ctx.rng.choice([1, 1, 2, 3]):
                    steps.append(nodes.pop(0))
                    steps.append({"a": "storm", "nodes": nodes, "clients": ctx.rng.choice([2, 4, 8])})
                    nodes = []
            elif x["a"] in ("node", "start"):
                steps.append(x)
        s["steps"] = steps + nodes + [{"a": "sync"}, {"a": "sync"}]
        return s
    return post


def C04(ctx):
    ctx.model("IndexerMC", "IndexerMC_ref.cfg")
    o = {"chk": [], "shim": True}
    ctx.play("storm", gen(ctx, "storm", N(ctx, 60), o, post=storms(ctx), PReorg=30, PPool=40, PNode=50, Steps=80, MaxBlocks=60))
    def long(s, i):
        storms(ctx)(s, i)
        for x in s["steps"]:
            if x["a"] == "storm":
                x.update(long=ctx.rng.choice([20, 100, 300, 1000]), clients=ctx.rng.choice([1, 2, 3]), most=12)
    ctx.play("long lists", gen(ctx, "long lists", N(ctx, 16), o, post=long, PReorg=30, PPool=40, PNode=50, Steps=40, MaxBlocks=60))
    ctx.play("jitter", gen(ctx, "jitter", N(ctx, 60), {**o, "delays": [20000, 300]}, post=storms(ctx), PReorg=30, PPool=40, PNode=50, Steps=80, MaxBlocks=60))


def C11(ctx):
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    o = {"chk": ["base"], "addrs": 8}
    ctx.play("scripts", gen(ctx, "scripts", N(ctx, 250), o, Rich="TRUE", Addrs=8, PReorg=10, PStop=2))


def C18(ctx):
    ctx.model("IndexerMC", "IndexerMC_live.cfg" if ctx.quick else "IndexerMC_live2.cfg")
    ctx.model("Locks", "Locks.cfg" if ctx.quick else "Locks_3.cfg")
    ctx.model("Locks", "Locks_node.cfg")
    o = {"chk": ["base"], "watch": "store"}
    ctx.play("promises", gen(ctx, "promises", N(ctx, 150), o, **{**PERSIST, "PStop": 3, "PRelease": 80, "PNode": 35, "PPool": 10}))

    def stored(s, i):       # every block is stored before the next one comes, which an update made after that write sees
        steps, fresh = [], False
        for x in s["steps"]:
            if x["a"] in ("rpc", "q", "qall"):
                continue
            if x["a"] == "node":
                fresh = len(steps) > 3
            steps.append(x)
            if x["a"] == "sync" and fresh:
                steps += [{"a": "release"}, {"a": "sync"}] + ([{"a": "views", "kind": "mutxo"}] if ctx.rng.random() < 0.1 else [])
                fresh = False
        s["steps"] = steps
    ctx.play("long runs", large(ctx, "long", N(ctx, 8), {"chk": ["base"], "watch": "store"}, post=stored, Turns=140 if ctx.quick else 400, PPool=0, PReorg=0, PRestart=0, Busy=3))
    ctx.play("slow node", gen(ctx, "slow", N(ctx, 60), {"chk": [], "closing": 0.3}, PAge=12, PReorg=15))

    def paced(s, i):
        cut = [j for j, x in enumerate(s["steps"]) if x["a"] == "rpc"]
        for j in sorted(ctx.rng.sample(cut, min(2, len(cut))), reverse=True):
            s["steps"][j:j] = [{"a": "sync"}, {"a": "clog", "n": ctx.rng.choice([1, 3, 8])}]
        s["steps"] += [{"a": "sync"}, {"a": "clog", "n": 4}, {"a": "pace", "n": 12}, {"a": "clog", "n": 4}, {"a": "pace", "n": 12}]
    ctx.play("pace", gen(ctx, "pace", N(ctx, 48), {"chk": [], "interval": 60, "autoview": False, "expect": False}, post=paced, PNode=35, Steps=30))

    def quiet(s, i):        # the pace after hundreds of updates during which nothing happened
        at = [j for j, x in enumerate(s["steps"]) if x["a"] == "sync"]
        for j in sorted(ctx.rng.sample(at, min(2, len(at))), reverse=True):
            s["steps"][j:j] = [{"a": "sync"}] * ctx.rng.choice([70, 135, 270]) + [{"a": "pace", "n": 6}]
    def busy(s, i):         # the pace while clients ask for much, without a pause
        at = [j for j, x in enumerate(s["steps"]) if x["a"] == "sync"]
        s["steps"][at[-1] + 1:] = [{"a": "sync"}, {"a": "load", "n": 4, "ms": 60}, {"a": "pace", "n": 40}, {"a": "unload"}, {"a": "sync"}, {"a": "views", "kind": "mbal"}]
    ctx.play("busy times", large(ctx, "busy", N(ctx, 3), {"chk": [], "interval": 40}, post=busy, NPad=12000, NKept=12000, Kept='"pkh"', PReorg=10, PRestart=0, Turns=3))
    ctx.play("quiet times", large(ctx, "quiet", N(ctx, 8), {"chk": [], "interval": 15}, post=quiet, PReorg=10, PRestart=5, Turns=4))


def C20(ctx):
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    o = {"chk": ["base"]}
    ctx.play("large sums", large(ctx, "sums", N(ctx, 12), o, NBlock=60, NOuts=300, Addrs=2, Wide="TRUE", Cap=150000, PReorg=20, PRestart=30))
    ctx.play("amounts", gen(ctx, "amounts", N(ctx, 250), o, Wide="TRUE", Addrs=3, PReorg=10, PStop=3))


def directories(ctx, name, num, opts=None, post=None, **over):
    """num block directories from GenBuild.tla, as jobs."""
    scripts = scenario.generate_build(num, ctx.rng.randrange(1, 1 << 30), **over)
    jobs = []
    for i, s in enumerate(scripts):
        s["name"] = f"{name}/{i}"
        if post:
            s = post(s, i) or s
        jobs.append((s, dict({"chk": ["build"]}, **(opts or {})), ctx.rng.randrange(1 << 30)))
    return jobs


def build_model(ctx):
    ctx.model("BuildMC", "Build.cfg" if ctx.quick else "Build_3.cfg")


def C05(ctx):
    build_model(ctx)

    def threads(s, i):
        s["cfg"]["threads"] = 1 + i % 8
        s["cfg"]["batch"] = (1, 2, 3, 4, 7, 1000)[i // 8 % 6]
    ctx.play("batches", directories(ctx, "batches", N(ctx, 192), post=threads, MaxExtra=24))
    ctx.play("slow reads", directories(ctx, "slow", N(ctx, 96), {"watch": "blocks", "slow": 0.4}, post=threads, MaxExtra=16))
    ctx.play("jitter", directories(ctx, "jitter", N(ctx, 96), {"delays": [20000, 400]}, post=threads, MaxExtra=16))
    ctx.play("many blocks", large(ctx, "many", N(ctx, 24), {"chk": ["build"]}, post=threads, Extra=500, Busy=60, Turns=1))

    def single(s, i):
        s["cfg"]["threads"] = 2 + i % 7
        s["cfg"]["batch"] = (1, 1, 2)[i % 3]
    ctx.play("very many blocks", large(ctx, "very many", N(ctx, 8), {"chk": ["build"], "files": 1500}, post=single, Base=1000, Extra=1200, Busy=2, Turns=1))


def C06(ctx):
    build_model(ctx)
    ctx.play("layouts", directories(ctx, "layouts", N(ctx, 300), MaxForks=6))
    ctx.play("slow reads", directories(ctx, "slow", N(ctx, 96), {"watch": "blocks", "slow": 0.4}, MaxForks=6, MaxExtra=6))
    ctx.play("long chains", large(ctx, "chain", N(ctx, 1, 6), {"chk": ["build"]}, post=lambda s, i: scenario.stretch(s, ctx.rng.randrange(60000, 66000)), PRestart=0, Turns=1, PReorg=0))
    ctx.play("repetitions", large(ctx, "rep", N(ctx, 16), {"chk": ["build"], "repeat": 60}, Extra=60, Turns=1))


def C19(ctx):
    build_model(ctx)

    def post(s, i):
        s["steps"] = [s["steps"][0], {"a": "refused"}]
    ctx.play("bad files", directories(ctx, "bad", N(ctx, 192), post=post, Bads='{"cuthead", "cutbody", "badtx", "short", "magic", "rest", "lost", "gone"}'))
    ctx.play("missing outputs", directories(ctx, "missing", N(ctx, 96), post=post, Bads='{"missing"}'))
    ctx.play("i/o errors", directories(ctx, "eio", N(ctx, 120), {"watch": "blocks", "eio": [1, 36], "slow": 0.1}, post=post))


def C10(ctx):
    """All requests of Api.tla; asked at random places of random histories."""
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    by_k = {k: [(f, r) for f, rs in scenario.generate_requests(k).items() for r in rs] for k in ((2, 3) if ctx.quick else (1, 2, 3, 6))}
    for k, reqs in by_k.items():
        ctx.rng.shuffle(reqs)
        for f, r in reqs:
            ctx.count("requests " + f)
        per = 120
        parts = [reqs[i:i + per] for i in range(0, len(reqs), per)]

        def post(s, i):
            part = [r for _, r in parts[i % len(parts)]]
            steps, seen = [], False
            for x in s["steps"]:
                steps.append(x)
                if x["a"] == "q" or x["a"] == "qall":
                    seen = True
                if seen and x["a"] == "rpc" and part and ctx.rng.random() < 0.3:
                    steps += [{"a": "api", "requests": part[:25]}]
                    part = part[25:]
                    if ctx.rng.random() < 0.5:
                        steps += [{"a": "abuse", "n": 3}]
            steps += [{"a": "sync"}, {"a": "sync"}, {"a": "api", "requests": part}, {"a": "abuse", "n": 3}] + [{"a": "bulk", "n": n, "post": p, "kind": ctx.rng.choice(["mbal", "mutxo"])}
                          for n, p in ((ctx.rng.choice([100, 500, 1700]), False), (ctx.rng.choice([200, 2000, 5000]), True))] + [{"a": "views", "kind": "mutxo"}]
            if i % 2:
                steps += [{"a": "crowd", "n": 900}, {"a": "sync"}, {"a": "views", "kind": "mutxo"}]
            if i == 0:
                steps += [{"a": "bulk", "n": n, "post": True, "kind": "mbal"} for n in (15000, 30000, 60000)]
            s["steps"] = steps
        ctx.play(f"requests K={k}", gen(ctx, "requests", len(parts), {"chk": [], "autoview": False, "pieces": 0.3}, post=post, Ks="{%d}" % k, PReorg=15, PPool=50, PNode=25, PQuery=15, Steps=40))


ZEROS = [0, 1, 2, 5, 10, 19, 20, 0]


def C21(ctx):
    """All texts of GenCodec.tla, asked in histories that pay to addresses with many leading zero bytes."""
    ctx.model("IndexerMC", "IndexerMC_small.cfg")
    texts = []
    for f, ts in scenario.generate_texts(2 if ctx.quick else 8).items():
        ctx.count("texts " + f, len(ts))
        texts += ts
    ctx.rng.shuffle(texts)
    per = 150
    parts = [texts[i:i + per] for i in range(0, len(texts), per)]

    def post(s, i):
        s["cfg"]["zeros"] = ZEROS
        s["steps"] += [{"a": "sync"}, {"a": "sync"}, {"a": "views", "kind": "mutxo"}, {"a": "texts", "texts": parts[i % len(parts)]}, {"a": "views", "kind": "mbal"}]
    ctx.play("texts", gen(ctx, "texts", len(parts), {"chk": [], "autoview": False, "addrs": 8}, post=post, PReorg=15, PPool=40, PNode=25, Steps=25, Addrs=8, Rich="TRUE"))


def C12(ctx):
    """Unusual transactions of GenWire.tla in files, blocks of the node and its memory pool; bytes as Wire.tla says."""
    ctx.model("WireMC", "WireMC.cfg")
    scripts = scenario.generate_wire(N(ctx, 128), ctx.rng.randrange(1, 1 << 30))
    jobs, records = [], []
    for i, s in enumerate(scripts):
        s["name"] = f"shapes/{i}"
        seed = ctx.rng.randrange(1 << 30)
        jobs.append((s, {"chk": ["build"], "autoview": False, "addrs": 5, "upper": i % 4 // 3 * 0.5}, seed))
        w = scenario.build_world(s, random.Random(seed))
        for t in w.txs.values():
            ctx.count("transactions")
            ctx.count("inputs %s" % bucket(len(t.fields)))
            ctx.count("outputs %s" % bucket(len(t.outs)))
            ctx.count("witness" if t.wit else "legacy")
            for x in t.wit:
                ctx.count("witness items %s" % bucket(len(x)))
            if len(t.raw) < 1500 and len(records) < (1500 if ctx.quick else 8000):
                records.append(w.wire_record(t.id))
    ctx.states += scenario.check_wire(records)[1]
    ctx.count("transactions whose bytes were compared with Wire.tla", len(records))
    ctx.play("shapes", jobs)


def bucket(n):
    return str(n) if n < 3 else "3..252" if n < 253 else "253..65535" if n < 65536 else "65536.."


def C17(ctx):
    """Environments of GenConfig.tla, for starts without and with a stored index."""
    ctx.model("BuildMC", "Build.cfg")
    envs = scenario.generate_settings(N(ctx, 60), ctx.rng.randrange(1, 1 << 30))
    usual = next(e for e in envs["missing"] if all(x["t"] != "absent" for x in e.values()))
    cases = []
    for f, es in envs.items():
        # the default port only on addresses that nobody else uses at the same time
        es = [dict(e, HOST=usual["HOST"]) if e["PORT"]["t"] == "absent" and e["HOST"]["t"] != "bad" else e for e in es]
        ctx.count("environments " + f, len(es))
        cases += [(f"{f}/{i}", e, stored, {}) for i, e in enumerate(es) for stored in ((False, True) if f == "one" else (i % 2 == 1,))]
    for text, v, n in (("1", 1, 300), ("100", 100, 20), ("400", 400, 5), ("1500", 1500, 4), ("2750", 2750, 4), ("", None, 4)):
        e = dict(usual, UPDATE_INTERVAL={"text": text, "t": "good" if text else "absent", "v": v or ""})
        cases += [(f"pace {text}", e, stored, {"pace": n}) for stored in (False, True)]
    cases += [("port taken", usual, stored, {"taken": True}) for stored in (False, True)]
    ctx.rng.shuffle(cases)
    six = [c for c in cases if c[1]["CONFIRMATIONS"]["t"] == "absent"]
    rest = [c for c in cases if c[1]["CONFIRMATIONS"]["t"] != "absent"]
    # both defaults at once, one after the other, where that port is free
    alone = [("defaults", dict(usual, HOST={"text": "", "t": "absent", "v": ""}, PORT={"text": "", "t": "absent", "v": ""}), False, {})]

    def jobs(name, cs, ks):
        scripts = scenario.generate_build(len(cs), ctx.rng.randrange(1, 1 << 30), Ks=ks)
        out = []
        for s, (label, env, stored, extra) in zip(scripts, cs):
            s["name"] = label
            s["cfg"]["threads"], s["cfg"]["batch"] = 1, 1000
            trial = {"a": "trial", **extra}
            first = s["steps"][0]
            s["steps"] = ([first, {"a": "start"}, {"a": "sync"}, {"a": "kill"}] if stored else [first]) + [{"a": "env", "env": env}, trial]
            out.append((s, {"chk": ["build"]}, ctx.rng.randrange(1 << 30)))
        return out
    ctx.play("confirmations by the hundred", large(ctx, "hundreds", N(ctx, 12), {"chk": ["build", "base"]}, Ks="{100,127,128,129,255,256,257,300}", Turns=2, PReorg=40))
    ctx.play("settings", jobs("settings", rest, "{1,2,3,4,5,8,12}"))
    ctx.play("settings, default confirmations", jobs("six", six, "{6}"))
    if scenario.free("127.0.0.1", 8000):
        ctx.play("default address", jobs("alone", alone, "{3}"))
    else:
        ctx.notes.append("port 8000 of 127.0.0.1 is in use here: the default of both HOST and PORT was not tried")
