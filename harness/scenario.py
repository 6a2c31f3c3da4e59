"""Plays scripts against the real program and collects recordings, in parallel."""
import asyncio
import concurrent.futures
import json
import multiprocessing
import os
import random
import re
import socket
import struct
import sys
import tempfile
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import faults
import tlc
from driver import Exited, Run, Stalled, ToolError, free_port
from world import B58, MAGIC, World, b58encode, dsha, sha256

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SHIM = os.path.join(BUILD, "shim.so")
BINARY = os.environ.get("VERIF_BINARY") or os.path.join(BUILD, "target", "debug", "bitcoin-indexer")

GEN_DEFAULTS = dict(Queries="{}", MaxSignals=3, Addrs=4, Rich="FALSE", Ks="{1,2,3,4}", Steps=60, PNode=20, PMid=50, PReorg=25, PPool=40, PDirty=20,
                    PQuery=12, PStop=0, PDeep=0, MaxBlocks=40, Watch="FALSE", PRelease=20, PFault=0, PClock=0, PFull=0, PBlink=0, PAge=0, Wide="FALSE")


def generate(num, seed, timeout=300, **over):
    """Scripts from Gen.tla by TLC's simulator."""
    c = dict(GEN_DEFAULTS)
    c.update(over)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + "CHECK_DEADLOCK FALSE\n"
    code, out = tlc.run("Gen", cfg, args=["-simulate", f"num={num}", "-depth", str(10 * int(c["Steps"]) + 50), "-seed", str(seed)], workers=1, timeout=timeout)
    scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(scripts) < num * 0.9:
        raise tlc.TlcError(f"scenario generation ended with {code}, {len(scripts)} scripts\n" + tlc.errors(out))
    return scripts


LARGE_DEFAULTS = dict(Addrs=4, Rich="FALSE", Wide="FALSE", Ks="{2,3}", Base=0, Extra=6, NPad=0, NKept=0, Kept='"empty"', Turns=4, Busy=15, NBlock=0, NOuts=6, Cap=21000000, NPool=3, NIns=0, PPool=25, PReorg=35, PRestart=25, PMid=50)


def generate_large(num, seed, timeout=300, procs=8, **over):
    """Scripts from GenLarge.tla, by several simulators at a time."""
    c = dict(LARGE_DEFAULTS)
    c.update(over)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + "CHECK_DEADLOCK FALSE\n"
    procs = min(procs, num)

    def part(i):
        n = num // procs + (i < num % procs)
        code, out = tlc.run("GenLarge", cfg, args=["-simulate", f"num={n}", "-depth", str(int(c["Turns"]) + 50), "-seed", str(seed + i)], workers=1, timeout=timeout, heap="2g")
        scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
        if code != 0 or len(scripts) < n:
            raise tlc.TlcError(f"generation of large scenarios ended with {code}, {len(scripts)} scripts\n" + tlc.errors(out))
        return scripts
    with concurrent.futures.ThreadPoolExecutor(procs) as pool:
        return [s for ss in pool.map(part, range(procs)) for s in ss]


def every_history(k, moves, stops=0, timeout=600):
    """A script for each transition of GenAll.tla's graph, less those that are the beginning of another."""
    c = dict(Queries="{}", MaxSignals=2, MCK=k, Moves=moves, Stops=stops, Faults=0, Files=3, FirstTip=3, UseWriter="FALSE")
    cfg = "SPECIFICATION ASpec\nVIEW AView\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + "CHECK_DEADLOCK FALSE\n"
    code, out = tlc.run("GenAll", cfg, timeout=timeout)
    world = re.findall(r'^"WORLD (.*)"$', out, re.M)
    steps = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"STEP (.*)"$', out, re.M)]
    if code != 0 or not world or not steps:
        raise tlc.TlcError(f"enumeration of histories ended with {code}, {len(steps)} steps\n" + tlc.errors(out))
    world = json.loads(json.loads('"' + world[0] + '"'))
    for t in world["txs"]:
        for o in t["outs"]:
            o.update(k="pkh", a=o["s"][6])
    seen = {json.dumps(s): s for s in steps}
    inner = {json.dumps(s[:-1]) for s in steps}
    scripts = []
    for key in sorted(seen):
        if key in inner:
            continue
        script = [{"a": "node", "tip": c["FirstTip"], "pool": []}]
        for e in seen[key]:
            script.append({"a": "node", "tip": e[1], "pool": e[2]} if e[0] == "node" else {"a": "rpc", "exp": e[1], "arg": e[2]} if e[0] == "rpc" else {"a": e[0]})
        scripts.append({"K": k, "cfg": {"files": c["Files"], "threads": 1, "batch": 1000, "salt": len(scripts)}, **world, "steps": script})
    return scripts, len(seen)


def generate_requests(k):
    """All requests of GenApi.tla -> {family: [request]}."""
    code, out = tlc.run("GenApi", f"SPECIFICATION Spec\nCONSTANTS K = {k}\n", workers=1)
    fam = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(fam) != 5:
        raise tlc.TlcError(f"generation of requests ended with {code}\n" + tlc.errors(out))
    return {f["family"]: f["requests"] for f in fam}


def generate_texts(bases):
    """All texts of GenCodec.tla -> {family: [text]}."""
    code, out = tlc.run("GenCodec", f"SPECIFICATION Spec\nCONSTANTS Bases = {bases}\n", workers=1)
    fam = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(fam) != 9:
        raise tlc.TlcError(f"generation of texts ended with {code}\n" + tlc.errors(out))
    return {f["family"]: f["texts"] for f in fam}


def generate_wire(num, seed, timeout=300, **over):
    """Histories of unusual transactions from GenWire.tla."""
    c = dict(dict(Addrs=4, Rich="TRUE", Wide="FALSE", Ks="{1,2,3}", Shapes=5), **over)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + "CHECK_DEADLOCK FALSE\n"
    code, out = tlc.run("GenWire", cfg, args=["-simulate", f"num={num}", "-depth", "5", "-seed", str(seed)], workers=1, timeout=timeout)
    scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(scripts) < num * 0.9:
        raise tlc.TlcError(f"generation of transactions ended with {code}, {len(scripts)} scripts\n" + tlc.errors(out))
    return scripts


def check_wire(records):
    """Are the driver's bytes those of Wire.tla?"""
    fd, path = tempfile.mkstemp(prefix="vwire-", suffix=".json", dir=os.environ.get("VERIF_RUN_DIR"))
    with os.fdopen(fd, "w") as f:
        json.dump(records, f)
    try:
        return tlc.check("WireCheck", "WireCheck.cfg", env={"TRACES": path})[0]
    finally:
        os.unlink(path)


def generate_settings(combos, seed):
    """Environments of GenConfig.tla -> {family: [environment]}."""
    code, out = tlc.run("GenConfig", f"SPECIFICATION Spec\nCONSTANTS Combos = {combos}\n", args=["-seed", str(seed)], workers=1)
    fam = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(fam) != 4:
        raise tlc.TlcError(f"generation of settings ended with {code}\n" + tlc.errors(out))
    return {f["family"]: f["envs"] for f in fam}


BUILD_DEFAULTS = dict(Addrs=4, Rich="FALSE", Wide="FALSE", Ks="{1,2,3,4}", Bads='{"none"}', MaxExtra=10, MaxForks=4)
BLOCK_FILE = re.compile(r"blk[0-9]{5}\.dat$")


def generate_build(num, seed, timeout=300, **over):
    """Block directories from GenBuild.tla."""
    c = dict(BUILD_DEFAULTS)
    c.update(over)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + "CHECK_DEADLOCK FALSE\n"
    code, out = tlc.run("GenBuild", cfg, args=["-simulate", f"num={num}", "-depth", "5", "-seed", str(seed)], workers=1, timeout=timeout)
    scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    if code != 0 or len(scripts) < num * 0.9:
        raise tlc.TlcError(f"generation of block directories ended with {code}, {len(scripts)} scripts\n" + tlc.errors(out))
    return scripts


def free(host, port):
    with socket.socket() as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((host, port))
            return True
        except OSError:
            return False


def lay_out(script, world, rng):
    """The files of a generated block directory, with what is wrong with it -> [(name, [block number or bytes])]."""
    files = [[f["name"], list(f["items"]), f["pad"]] for f in script["files"]]
    bad, target = script["bad"], script["target"]

    def entry(b, raw=None):
        raw = world.blks[b].raw if raw is None else raw
        return struct.pack("<II", MAGIC, len(raw)) + raw

    def alone():
        """The target gets a file of its own."""
        for f in files:
            f[1] = [b for b in f[1] if b != target]
        files.append([script["spare"], [target], 0])
        return files[-1]

    if bad in ("cuthead", "cutbody", "badtx", "short", "magic", "rest"):
        f = alone()
        data = entry(target)
        raw = world.blks[target].raw
        if bad == "cuthead":
            data = data[:rng.randrange(1, 88)]
        elif bad == "cutbody":
            data = data[:rng.randrange(88, len(data))]
        elif bad == "short":
            data = entry(target, raw[:rng.randrange(80, len(raw))])
        elif bad == "badtx":    # the number of transactions, or of inputs of the first one, is too high
            k = rng.choice([80, 80, 85])
            data = entry(target, raw[:k] + rng.choice([b"\xfd\xff\xff", bytes([raw[k] + 1]) if k == 80 else b"\xfd\xff\x7f", b"\xfe\x00\x00\x01\x00"]) + raw[k + 1:])
        elif bad == "magic":
            data = bytes([data[0] ^ 1]) + data[1:]
            if rng.random() < 0.5 and len(files) > 1:   # in the middle of a file
                data = data + entry(target)
        elif bad == "rest":     # something else follows the block
            data = data + rng.randbytes(rng.choice([1, 8, 87, 88, 200])).replace(b"\0", b"\1")
        f[1] = [data]
    elif bad == "lost":     # a directory where a block file belongs
        f = alone()
        f[0] = "/" + f[0]
    elif bad == "gone":     # one that cannot be opened
        f = alone()
        f[0] = "@" + f[0]
    out = [(n, items + ([b"\0" * pad] if pad else [])) for n, items, pad in files]
    for n in script.get("odd", []):
        data = rng.choice([b"", b"junk", rng.randbytes(100), entry(script["oddblocks"]), b"".join(entry(b) for b in sorted(world.blks))])
        out.append((b"\xff\xfeblk00000.dat" if n == "nonutf8" else n, [data]))
    return out


def shape(rng):
    """A random way to serialise a transaction; the ledger does not depend on it."""
    o = {}
    if rng.random() < 0.5:
        o["witness"] = [rng.choice([0, 1, 33, 71, 72, 252, 253, 300]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    o["scriptsig"] = rng.choice([0, 0, 1, 107, 252, 253, 260])
    o["version"] = rng.choice([1, 2, 2, -1, 0x7FFFFFFF])
    o["sequence"] = rng.choice([0xFFFFFFFF, 0xFFFFFFFD, 0, 5])
    if rng.random() < 0.2:
        o["grind"] = rng.choice([1, 1, 2])
    return o


def build_world(script, rng, plain=False):
    cfg = script.get("cfg", {})
    w = World(salt=cfg.get("salt", 0), collide=cfg.get("collide", False), zeros=cfg.get("zeros", ()))
    for i, t in enumerate(script["txs"], 1):
        opt = dict(t["opt"]) if "opt" in t else ({} if plain else shape(rng))
        if t["cb"]:
            opt.setdefault("tag", i)
        w.add_tx(i, [] if t["cb"] else t["ins"], t["outs"], coinbase=t["cb"], opt=opt)
    for i, b in enumerate(script["blks"], 1):
        w.add_block(i, b["p"], b["txs"])
    return w


def stretch(script, n):
    """The same world on top of n further blocks that pay nobody."""
    first = len(script["txs"])
    script["txs"] += [{"cb": True, "ins": [], "outs": [{"k": "ret0", "a": 1, "v": [0, 0]}], "opt": {}} for _ in range(n)]
    below = [{"p": i, "h": i + 1, "txs": [first + i + 1]} for i in range(n)]
    script["blks"] = below + [dict(b, p=b["p"] + n, h=b["h"] + n) for b in script["blks"]]
    script["cfg"]["files"] += n
    for x in script["steps"]:
        if x["a"] == "node":
            x["tip"] += n
    return script


def addresses(script, n=4):
    seen = {(v, h) for v in (0, 5) for h in range(1, n + 1)}
    return sorted(seen)


def credentials(rng):
    """A user (without a colon, as HTTP wants it) and a password of any characters and length."""
    chars = "abcXYZ0189+/=% &\u00e9\u20ac\u65e5\U0001f511\"'\\"
    word = lambda more="": "".join(rng.choice(chars + more) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 63, 64, 200, 1000])))
    return {"user": word(), "password": word("::")}


class Player:
    """script: dict from the generator.  opts: how to play it."""

    def __init__(self, script, opts, seed):
        self.script, self.opts, self.rng = script, opts, random.Random(seed)
        self.world = build_world(script, self.rng, opts.get("plain", False))
        cfg = script["cfg"]
        self.r = Run(BINARY, self.world, k=script["K"], threads=cfg.get("threads", 1), batch=cfg.get("batch", 1000), interval=opts.get("interval", 8 if opts.get("watch") == "store" else 1),
                     shim=SHIM if opts.get("shim", True) else None, watch=opts.get("watch"), chunked=cfg.get("chunked", False), closing=opts.get("closing", 0), upper=opts.get("upper", 0), **(credentials(self.rng) if opts.get("creds") else {}))
        self.addrs = addresses(script, opts.get("addrs", 4))
        k = script["K"]      # of many views only some
        self.cs = range(k + 1) if k <= 16 else sorted({c for c in (0, 1, 2, 127, 128, 255, 256, 257, k - 1, k, self.rng.randrange(k)) if c <= k})
        self.r.rng, self.r.short, self.r.log_fops = self.rng, opts.get("short", 0), opts.get("fops", False)
        self.r.pieces = opts.get("pieces", 0)
        if opts.get("short") and self.r.control:
            self.r.control.short_reads(200000)
        self.expect = opts.get("expect", True)     # compare requests with the model
        self.drift = []
        self.loads = []
        self.stats = {"rpc": 0, "queries": 0, "updates": 0, "starts": 0, "compared": 0}
        self.need_ready = False
        self.until = float("inf")     # when to stop
        self.unwritten = 0             # expected writes that did not happen
        self.turn = 0
        self.stored = False      # the program has got so far that it must have stored an index

    def check_request(self, step):
        q = self.r.parked
        if q is None or "exp" not in step or not self.expect:
            return
        w = self.world
        m, p = q.method, q.params
        if m == "getrawmempool":
            got = ("mp", 0)
        elif m == "getrawtransaction":
            got = ("tx", w.by_txid.get(bytes.fromhex(p[0])[::-1], -1))
        elif m == "getblockhash":
            got = ("bh", p[0])
        elif m == "getblock":
            got = ("gb", w.by_hash.get(bytes.fromhex(p[0])[::-1], -1))
        else:
            got = (m, 0)
        self.stats["compared"] += 1
        if got != (step["exp"], step["arg"]):
            self.drift.append(f"expected {step['exp']} {step['arg']}, got {got[0]} {got[1]}")
            self.expect = False
            self.r.unsure = True

    def arm(self):
        """Hold the next write of the store at one of its operations (the one it begins with is always there)."""
        if self.opts.get("watch") == "store":
            self.r.hold(self.rng.choice(self.opts.get("hold", ["open"])))

    async def after_update(self):
        self.stats["updates"] += 1
        if self.need_ready:
            await self.r.ready()
            self.need_ready = False
        if self.opts.get("autoview", True):
            self.turn += 1
            await self.r.query_all(self.addrs, kinds=(("mutxo",) if self.turn % 3 else ("mutxo", "mbal")))

    async def settle(self):
        """The node has stopped changing: the update that is running ends, one more is made, and all views are asked for."""
        for _ in range(2):
            await self.r.sync(1500)
            await self.after_update()
        if not self.opts.get("autoview", True):
            await self.r.query_all(self.addrs, cs=self.cs, kinds=("mutxo",))

    async def rpc(self, step):
        r = self.r
        await r.park()
        self.check_request(step)
        was = r.parked.method
        nxt = await r.step()
        self.stats["rpc"] += 1
        if nxt.method == "getrawmempool":
            await self.after_update()

    async def one(self, st):
        r, a = self.r, st["a"]
        if a == "node":
            r.node(st["tip"], st["pool"])
        elif a == "start":
            self.stats["starts"] += 1
            if self.opts.get("noblocks") and self.stored and os.path.isdir(r.blocks_dir):
                os.rename(r.blocks_dir, r.blocks_dir + ".gone")
            await r.start()
            self.need_ready = True
            await r.park()
            self.stored = True
            self.arm()
        elif a == "rpc":
            await self.rpc(st)
        elif a == "sync":
            await r.sync()
            await self.after_update()
        elif a == "kill":
            await r.kill()
            if self.opts.get("watch") != "store":
                self.expect = False
        elif a == "hold":
            r.hold(self.rng.choice(st["ops"]) if "ops" in st else "open")
        elif a == "taken":
            if not await r.began(1.0):
                r.unsure = True
        elif a == "release":
            for _ in range(2):
                if await r.began(0.3):
                    break
                await r.sync()      # the writer may have to wait for the end of the running update
                await self.after_update()
                self.stats["postponed"] = self.stats.get("postponed", 0) + 1
                self.expect = False
                r.unsure = True
            look = r.held is not None and r.written.is_set()     # a write ended while another one was held
            if look:
                await self.peek()
            if not await r.quiet(expect=True):
                self.unwritten += 1
            if look or self.rng.random() < self.opts.get("peek", 0):
                await self.peek()
            self.arm()
        elif a == "quiet":
            await r.quiet()
        elif a == "crash":
            await r.crash(self.rng, wait=st.get("held", True))
            self.stray()
        elif a == "first":      # the very first write of the store does not end
            if os.path.exists(r.store_path):
                return
            await r.start()
            r.asked = True
            r.hold(self.rng.choice(self.opts["hold"]))
            await r.crash(self.rng)
            self.stray()
            self.stats["first writes"] = self.stats.get("first writes", 0) + 1
        elif a == "full":
            await r.disk_full(self.rng)
        elif a == "fault":
            await self.fault(st)
        elif a == "clock":
            self.set_clock()
        elif a == "age":
            # the monotonic clock jumps, as if the node had taken that long to answer
            if r.control:
                await r.park()
                self.aged = getattr(self, "aged", 0) + self.rng.choice([1, 11, 31, 61, 121, 601, 3601, 86401]) * 1000
                r.control.age(self.aged)
                self.stats["aged"] = self.stats.get("aged", 0) + 1
        elif a == "damage":
            self.damage(st)
        elif a == "restore":
            with open(r.store_path, "wb") as f:
                f.write(self.saved)
            r.log("restored")
        elif a == "refused":
            await self.refused()
        elif a == "q":
            if not self.need_ready:
                addrs = [tuple(x) for x in st["addrs"]]
                if st["kind"] in ("bal", "utxo"):
                    addrs = addrs[:1]
                await r.query(st["kind"], addrs, st["c"], post=st.get("post", False))
        elif a == "qall":
            if not self.need_ready:
                if st["kind"] in ("bal", "utxo"):
                    for x in self.addrs:
                        await r.query(st["kind"], [x], st["c"])
                else:
                    await r.query(st["kind"], self.addrs, st["c"], post=st.get("post", False))
        elif a == "views":
            if not self.need_ready:
                await r.query_all(self.addrs, cs=self.cs, kinds=(st["kind"],))
        elif a == "api":
            for q in st["requests"]:
                await r.api(q, self.rng)
        elif a == "texts":
            await self.texts(st)
        elif a == "bulk":       # very many addresses in one request, repeated ones among them
            many = [self.rng.choice(self.addrs) for _ in range(st["n"])]
            await r.query(st["kind"], many, self.rng.choice(list(self.cs)), post=st["post"], timeout=60)
        elif a == "abuse":
            for _ in range(st["n"]):
                await r.abuse(self.nonsense())
        elif a == "crowd":      # the same mistake by very many clients
            for _ in range(3):
                raw = self.nonsense()
                for _ in range(st["n"] // 30):
                    await asyncio.gather(*(r.abuse(raw) for _ in range(10)))
        elif a == "pace":
            await self.pace(st["n"])
            await self.after_update()
        elif a == "clog":
            await self.clog(st)
        elif a == "load":
            await self.load(st)
        elif a == "unload":
            await self.unload()
        elif a == "env":
            self.environment(st["env"])
        elif a == "trial":
            await self.trial(st)
        elif a == "storm":
            await self.storm(st)
        else:
            raise ToolError("unknown step " + a)

    def text(self, t):
        """A text of GenCodec.tla."""
        rng, b, ch = self.rng, t["b"], t["ch"]
        ver, n, z = b
        # the payload that is paid to, where there is one
        hids = [h for h in range(1, 9) if n == 20 and h <= len(self.world.zeros) and self.world.zeros[h - 1] == z]
        p = self.world.hash160(rng.choice(hids)) if hids else bytes(min(z, n)) + bytes(rng.randrange(1, 256) for _ in range(n - z))
        payload = bytes([ver]) + p
        sum4 = dsha(payload)[:4]
        k = ch[0]
        if k == "sum":
            s = bytearray(sum4)
            s[ch[1] // 8] ^= 1 << ch[1] % 8
            return b58encode(payload + bytes(s))
        if k == "sha":
            s = (sha256(payload)[:4], dsha(p)[:4], dsha(payload)[-4:], dsha(payload)[:4][::-1], bytes(4))[ch[1]]
            return b58encode(payload + s)
        s = b58encode(payload + sum4)
        x = ch[1] if len(ch) > 1 else 0
        if k == "as is":
            return s
        if k == "set":
            x = min(x, len(s)) - 1
            return s[:x] + B58[ch[2]] + s[x + 1:]
        if k == "insert":
            x = min(x, len(s))
            return s[:x] + B58[ch[2]] + s[x:]
        if k == "swap":
            x = min(x, len(s) - 2)
            return s[:x] + s[x + 1] + s[x] + s[x + 2:]
        if k == "drop":
            x = min(x, len(s) - 1)
            return s[:x] + s[x + 1:]
        if k == "cut":
            return s[:x]
        if k == "case":
            x = min(x, len(s) - 1)
            return s[:x] + s[x].swapcase() + s[x + 1:]
        if k == "ones":
            return "1" * x + s
        if k == "wrap":
            return b58encode((int.from_bytes(payload + sum4, "big") + (ch[2] << 8 * x)).to_bytes(x + 4 if x > 24 else 30, "big").lstrip(b"\0"))
        if k == "lose ones":
            return s[min(x, len(s) - len(s.lstrip("1"))):]
        if k == "more":
            return s + "".join(rng.choice(B58) for _ in range(x))
        if k == "foreign":
            x = min(x, len(s)) - 1
            return s[:x] + chr(ch[2]) + s[x + 1:]
        if k == "before":
            return chr(x) + s
        if k == "after":
            return s + chr(x)
        odd = ["", "1", "z", s * 2, s * 300, "1" * 25, "1" * 24, "1" * 26, "1" * 34, "1" * 10000, "z" * 33, "z" * 34, "z" * 35, "z" * 1000, " ", "null", "\0", s[::-1],
               s.lower(), s.upper(), "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "bitcoin:" + s, s + "," + s, "[" + s + "]", p.hex(), payload.hex(), (payload + sum4).hex(), '"' + s + '"', "%31" + s[1:], s + "/", "\u0130", "é" + s]
        return odd[x % len(odd)]

    async def texts(self, st):
        r, rng = self.r, self.rng
        for t in st["texts"]:
            s = self.text(t)
            safe = s.isalnum() and s.isascii() and len(s) < 3000
            how = rng.choice(["path", "list", "post", "post"]) if safe else "post"
            texts = [s]
            if how != "path" and rng.random() < 0.3:    # among others
                texts.insert(rng.randrange(2), self.world.address(*rng.choice(self.addrs)))
            await r.ask_texts(texts, rng.choice("bu"), rng.choice([None, 0, r.k]), how)
            self.stats["texts"] = self.stats.get("texts", 0) + 1

    def environment(self, env):
        """Settings of GenConfig.tla for the starts to come."""
        r, rng = self.r, self.rng
        words = {"$K": r.k, "$STORE": os.path.join(r.store_dir, "store.dat"), "$BLOCKS": r.blocks_dir, "$RPC": r.rpc_port,
                 "$HOST": "127.%d.%d.%d" % (rng.randrange(1, 250), rng.randrange(256), rng.randrange(1, 255)),
                 "$ODD": "\u00fc\u20ac:%s\u65e5\U0001f511\\\"'" % rng.randrange(1000), "$LONG": "".join(rng.choice("abcXYZ0189+/=:%& \u00e9") for _ in range(rng.randrange(50, 400)))}
        r.port = None
        seen = {}
        for n, x in env.items():
            text, v = x["text"], x["v"]
            if text == "$PORT":
                r.port = free_port()
                words["$PORT"] = r.port
            if text == "$NOTUNICODE":
                text = rng.choice([b"\xff", b"a\xffb", b"\xc3", b"8000\xff", b"127.0.0.1\xfe"])
            else:
                for w, t in words.items():
                    if v == w:
                        v = t
                    text = text.replace(w, str(t))
            r.env_extra[n] = None if x["t"] == "absent" else text
            seen[n] = {"t": x["t"], "v": v}
        if r.port is None:
            r.port = 8000
        h = seen["HOST"]
        host = "127.0.0.1" if h["t"] != "good" else h["v"]
        r.host = {"0.0.0.0": "127.0.0.1", "::": "::1"}.get(host, host)
        if env["STORE_FILE_PATH"]["t"] == "good":
            r.store_path = r.env_extra["STORE_FILE_PATH"]
        r.user, r.password = (r.env_extra[n] if isinstance(r.env_extra[n], str) else "?" for n in ("RPC_SERVER_USER", "RPC_SERVER_PASSWORD"))
        r.log("env", env=seen)

    async def pace(self, n):
        """Measure n updates, answering at once."""
        r = self.r
        for _ in range(4000):       # to the beginning of an update
            if (await r.park()).method == "getrawmempool":
                break
            await r.step()
        ts = [r.parked.time]
        for _ in range(n):
            await r.sync()
            ts.append(r.parked.time)
        r.log("pace", n=n, ms=int(1000 * (ts[-1] - ts[0])), least=int(1000 * min(y - x for x, y in zip(ts, ts[1:]))), interval=r.interval, load=len(self.loads))
        self.stats["paced"] = self.stats.get("paced", 0) + 1

    async def peek(self):
        await self.r.peek()
        self.stats["looks at the stored index"] = self.stats.get("looks at the stored index", 0) + 1

    async def load(self, st):
        """Clients that keep asking for answers that take the service about st["ms"] milliseconds each."""
        r = self.r
        if self.need_ready or self.loads:
            return
        names = [self.world.address(*a) for a in self.addrs]
        loop = asyncio.get_running_loop()
        stop = threading.Event()

        def ask(c, k):
            body = json.dumps(names * k)
            c.sendall(f"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: {len(body)}\r\n\r\n{body}".encode())
            got = b""
            while b"\r\n\r\n" not in got:
                x = c.recv(1 << 16)
                if not x:
                    raise OSError
                got += x
            head, rest = got.split(b"\r\n\r\n", 1)
            left = int(re.search(rb"content-length: *(\d+)", head.lower()).group(1)) - len(rest)
            while left > 0:
                x = c.recv(1 << 16)
                if not x:
                    raise OSError
                left -= len(x)

        def first(k):
            with socket.create_connection((r.host, r.port)) as c:
                t = time.time()
                ask(c, k)
                return time.time() - t

        def client(k):
            try:
                with socket.create_connection((r.host, r.port), timeout=60) as c:
                    while not stop.is_set():
                        ask(c, k)
            except OSError:
                pass
        k = 1
        while k < 20000 and await loop.run_in_executor(None, first, k) < st["ms"] / 1000:
            k *= 2
        self.loads = [threading.Thread(target=client, args=(k,), daemon=True) for _ in range(st["n"])]
        self.load_stop = stop
        for t in self.loads:
            t.start()
        await asyncio.sleep(0.3)
        self.stats["busy clients"] = self.stats.get("busy clients", 0) + st["n"]

    async def unload(self):
        if self.loads:
            self.load_stop.set()
            for t in self.loads:
                await asyncio.get_running_loop().run_in_executor(None, t.join, 60)
        self.loads = []

    async def clog(self, st):
        """Clients that stop in the middle of a request, or do not read the answer."""
        r = self.r
        if self.need_ready:
            return
        names = [self.world.address(*a) for a in self.addrs]
        big = json.dumps(names * 3000)
        for _ in range(st["n"]):
            raw = self.rng.choice([r.req("POST", "/addresses/utxos", big), r.req("POST", "/addresses/balance", big), r.req("POST", "/addresses/utxos", big)[:-1],
                                   b"GET /addresses/utxos?addr", r.req("GET", "/addresses/%s/utxos" % names[0])[:-2], b""])
            reader, writer = await asyncio.open_connection(r.host, r.port, limit=1)
            writer.write(raw)
            r.clogs.append(writer)
            self.stats["stuck clients"] = self.stats.get("stuck clients", 0) + 1

    async def trial(self, st):
        """A start that may have to be refused; the specification knows."""
        r = self.r

        def snapshot():
            return {n: open(os.path.join(r.store_dir, n), "rb").read() for n in os.listdir(r.store_dir)}
        before = snapshot()
        taken = None
        if st.get("taken"):
            taken = socket.socket()
            taken.bind((r.host, r.port))
            taken.listen(1)
            r.log("noport")
        self.stats["starts"] += 1
        try:
            await r.start()
            await r.park()
            for i in range(4000):
                if i < 4:
                    r.log("ports", open=r.control.listeners())
                await r.step()
                if r.parked.method == "getrawmempool":
                    break
            if taken:
                t = time.time()
                while time.time() < t + 8:
                    await r.step()
            else:
                await r.ready()
                await r.query_all(self.addrs, kinds=("mutxo",))
                r.log("ports", open=r.control.listeners())
                if st.get("pace"):
                    await self.pace(st["pace"])
                for c in range(r.k + 2):
                    await r.query("mbal", self.addrs, c)
                r.log("ports", open=r.control.listeners())
            await r.kill()
            self.stats["accepted"] = self.stats.get("accepted", 0) + 1
        except Exited:
            self.stats["refused"] = self.stats.get("refused", 0) + 1
        finally:
            if taken:
                taken.close()
        r.log("leftover", there=os.path.exists(r.store_path), changed=snapshot() != before)

    def stray(self):
        """What a write that did not end left behind may be of any length and content."""
        r = self.r
        for n in sorted(os.listdir(r.store_dir)):
            if n != "store.dat" and self.rng.random() < 0.6:
                with open(os.path.join(r.store_dir, n), "ab") as f:
                    f.write(self.rng.randbytes(self.rng.choice([1, 50, 5000])))
                self.stats["stray files"] = self.stats.get("stray files", 0) + 1

    def set_clock(self):
        """The wall clock is set to another time between 1971 and 9990."""
        now = int(time.time() * 1000)
        day = 86400000
        to = self.rng.choice([now, now - 1, now - 1000, now - day, now + 1000, now + day, now + 400 * day, 366 * day, 253000000000000,
                              self.rng.randrange(366 * day, now), self.rng.randrange(now, 253000000000000)])
        self.r.control.clock(to - now)
        self.stats["clock set"] = self.stats.get("clock set", 0) + 1

    def block_io(self, f):
        """Reads of block files end in an order of the driver's choosing; one of them may fail."""
        if f.op[0] not in ("open", "read", "opendir", "readdir"):
            return "o"
        self.io += 1
        if self.fail_at == self.io:
            self.r.log("rotten", bad="i/o error at " + f.op[0])
            self.stats["i/o errors at " + f.op[0]] = self.stats.get("i/o errors at " + f.op[0], 0) + 1
            return "e 5" if f.op[0] in ("read", "readdir") else "e 13"
        if self.opts.get("slow") and self.rng.random() < self.opts["slow"]:
            asyncio.get_running_loop().call_later(self.rng.random() * 0.012, self.r.reply_fop, f, "o")
            return None
        return "o"

    async def wild_clock(self):
        while True:
            for _ in range(20):
                self.set_clock()
            await asyncio.sleep(self.rng.random() * 0.002)

    def damage(self, st):
        """Cut the stored index off.  Only its length matters to the specification."""
        r = self.r
        with open(r.store_path, "rb") as f:
            self.saved = f.read()
        n = len(self.saved)
        if "edge" in st:      # where something begins or ends, whatever the format
            ids = list(self.world.by_txid) + list(self.world.by_hash) + list(self.world.hid_of)
            at = sorted({x for i in ids for b in (i, i[::-1]) for p in [self.saved.find(b)] if p >= 0 for x in (p, p + len(b)) if x < n} or {0})
            cut = at[-1] if st["edge"] > 0.8 else at[int(st["edge"] / 0.8 * len(at)) % len(at)]
        else:
            cut = min(n - 1, n - st["tail"] if "tail" in st else st["cut"] if "cut" in st else int(st["part"] * n))
        cut = max(0, cut)
        with open(r.store_path, "wb") as f:
            f.write(self.saved[:cut])
        r.log("damage", cut=cut, size=n)
        self.stats["damaged"] = self.stats.get("damaged", 0) + 1

    async def refused(self):
        """Start the program where it should refuse to; serve its node requests if it does not."""
        r = self.r
        await r.start()
        try:
            await r.first_update()
            await r.kill()
        except Exited:
            pass
        r.log("leftover", there=os.path.exists(r.store_path), changed=False)

    async def fault(self, st):
        """One reply is broken.  The program should end; if it goes on, it gets proper replies up to the next update."""
        r = self.r
        await r.park()
        kinds = faults.of(r.parked.method)
        kind = st.get("kind") or self.rng.choice(kinds)
        self.stats["fault " + kind] = self.stats.get("fault " + kind, 0) + 1
        raw = faults.make(kind, r.parked, self)
        r.fault = lambda rpc: raw
        r.fault_closes = kind in ("closed", "cut", "junk")
        await r.step_no_wait()
        r.fault = None
        if raw == b"" and kind == "gone":
            r.rpc_server.close()
            r.rpc_server = None
        self.expect = False
        try:
            if not self.need_ready and self.rng.random() < 0.5:
                await r.query_all(self.addrs, cs=[0], kinds=("mutxo",))
            for _ in range(2000):
                x = await r.park()
                if x.method == "getrawmempool":
                    break
                await r.step()
        except Exited:
            return
        if self.need_ready:
            await r.ready(5)
        await r.query_all(self.addrs)
        await r.kill()

    def nonsense(self):
        rng = self.rng
        good = "/addresses/%s/balance" % self.world.address(0, 1)
        return rng.choice([
            b"", b"\r\n\r\n", b"GET", b"GET %s HTTP/1.1\r\n" % good.encode(), b"GARBAGE\r\n\r\n", rng.randbytes(50),
            b"GET %s HTTP/9.9\r\n\r\n" % good.encode(), b"GET /\xff\xfe HTTP/1.1\r\nHost: x\r\n\r\n",
            b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n[\"1",
            b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n[]",
            b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
            b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n[\"1",
            b"GET /%s HTTP/1.1\r\nHost: x\r\n\r\n" % (b"a" * 100000), b"GET / HTTP/1.1\r\n" + b"X: y\r\n" * 500 + b"\r\n",
            b"GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % good.encode() * 20,
            b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n",
            b"CONNECT x:1 HTTP/1.1\r\n\r\n", b"GET %s HTTP/1.1\r\nHost: x\r\nUpgrade: h2c\r\nConnection: Upgrade\r\n\r\n" % good.encode(),
            b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + bytes(9), b"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
            b"GET %s?confirmations=%s HTTP/1.1\r\nHost: x\r\n\r\n" % (good.encode(), b"9" * 5000)])

    async def storm(self, st):
        """Run an update to its end while clients keep asking."""
        r = self.r
        if self.need_ready:
            await r.sync()
            return await self.after_update()
        stop = False
        clients = st.get("clients", 4)
        long = st.get("long", 1)       # how often the lists repeat the addresses

        async def client(i):
            n = 0
            while (not stop or n < 2) and r.proc is not None and n < st.get("most", 60):
                kind = ("mutxo", "mbal", "mutxo", "utxo", "mbal", "bal")[(i + n) % 6]
                c = (i + n // 2) % (r.k + 1)
                addrs = [self.addrs[(i + n) % len(self.addrs)]] if kind in ("utxo", "bal") else self.addrs * long
                await r.query(kind, addrs, c, post=long > 1 or bool(n & 1), timeout=60 if long > 1 else None)
                n += 1

        tasks = [asyncio.ensure_future(client(i)) for i in range(clients)]
        todo = list(st.get("nodes", []))
        try:
            for _ in range(4000):
                await r.step()
                self.stats["rpc"] += 1
                if r.parked.method == "getrawmempool":
                    self.stats["updates"] += 1
                    if not todo:
                        break
                if todo and self.rng.random() < st.get("p", 0.3):
                    nx = todo.pop(0)
                    r.node(nx["tip"], nx["pool"])
        finally:
            stop = True
            await asyncio.gather(*tasks)

    async def play(self):
        r = self.r
        wild = None
        try:
            layout = None
            if "files" in self.script:
                layout = lay_out(self.script, self.world, self.rng)
                if self.script["bad"] != "none":
                    r.log("rotten", bad=self.script["bad"])
            else:
                layout = default_layout(self.world.chain(self.script["cfg"]["files"]), self.rng, self.opts.get("files"), self.opts.get("repeat", 0))
            r.write_block_files(layout)
            await r.listen()
            if self.opts.get("watch") == "blocks":
                self.io = 0
                self.fail_at = self.opts["eio"][0] + int(self.rng.random() * self.opts["eio"][1]) if self.opts.get("eio") else None
                r.fop_policy = self.block_io
            if self.opts.get("delays"):
                ppm, us = self.opts["delays"]
                r.control.delays(ppm, us, self.rng.randrange(1, 1 << 31))
            if self.opts.get("wildclock"):
                wild = asyncio.ensure_future(self.wild_clock())
            for st in self.script["steps"]:
                if time.time() > self.until or self.unwritten > 2:      # what is recorded so far is enough to judge
                    self.stats["cut"] = 1
                    break
                await self.one(st)
            if r.proc is not None and self.opts.get("end", True):
                await self.settle()
                await r.kill()
        except (Exited, Stalled):
            pass
        finally:
            if wild:
                wild.cancel()
            self.tail = r.log_tail()
            r.search()
            await r.close()
        self.stats["queries"] = r.qn
        files = sorted({b for n, items in layout for b in items if isinstance(b, int) and (isinstance(n, int) or (isinstance(n, str) and BLOCK_FILE.match(n)))})
        return r.trace(self.script.get("name", ""), chk=self.opts.get("chk", ["fetch", "build", "base"]), files=files)


def default_layout(chain, rng, many=None, repeat=0):
    n = rng.choice([1, 1, 2, 3])
    if repeat:      # some blocks more than once
        chain = list(chain)
        for b in rng.choices(chain, k=repeat):
            chain.insert(rng.randrange(len(chain) + 1), b)
    if many:        # many files, the blocks in any order
        n = rng.randrange(1, many)
        files = [[] for _ in range(n)]
        for b in rng.sample(chain, len(chain)):
            rng.choice(files).append(b)
        return list(enumerate(files))
    files = [[] for _ in range(n)]
    for i, b in enumerate(chain):
        files[min(n - 1, i * n // len(chain))].append(b)
    return [(i, items) for i, items in enumerate(files)]


def _work(job):
    index, script, opts, seed, until = job
    try:
        p = Player(script, opts, seed)
        t = time.time()
        p.until = min(t + opts.get("limit", 240) - 60, until)
        trace = asyncio.run(asyncio.wait_for(p.play(), opts.get("limit", 240)))
        return index, trace, {"stats": p.stats, "drift": p.drift, "tail": p.tail, "secs": time.time() - t}
    except Exception:
        return index, None, {"error": traceback.format_exc()}


def play_all(jobs, procs=8, deadline=None, chunk=1):
    """jobs: list of (script, opts, seed) -> list of (trace, info); those not started before the deadline are None;
    where the trace is None the driver failed."""
    out = [None] * len(jobs)
    stalls = 0
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        until = float("inf") if deadline is None else deadline - 45
        it = pool.imap_unordered(_work, [(i, *j, until) for i, j in enumerate(jobs)], chunk)
        for _ in range(len(jobs)):
            try:
                left = None if deadline is None else max(0.1, deadline - time.time())
                i, trace, info = it.next(left)
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            except StopIteration:
                break
            out[i] = (trace, info)
            stalls += trace is not None and bool(trace["ev"]) and trace["ev"][-1]["e"] == "stall"
            if stalls >= 4:      # enough to judge; every further one would cost a time limit
                pool.terminate()
                break
    return out
