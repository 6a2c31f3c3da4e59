"""Runs the real binary between a scripted node, an HTTP client and the file shim, and records a trace.

One event loop owns the node, the client and the shim's other end, so the recorded order is the real order:
a reply is logged before it is sent, a request when it has arrived.  Nothing here judges an answer; the
trace goes to TLC (spec/ServiceTrace.tla).
"""
import asyncio
import base64
import json
import mmap
import os
import random
import re
import shutil
import signal
import socket
import struct
import tempfile
import time

from world import World, MAGIC, b58check, b58decode, dsha

STEP_TIMEOUT = float(os.environ.get("VERIF_STEP_TIMEOUT", "20"))
MEMORY = 2 << 30
WRITE_TIMEOUT = 8.0      # for a write of the (tiny) index to begin and end


def free_port():
    """A port below the ephemeral range that no other run of this check uses."""
    d = os.path.join(os.environ.get("VERIF_RUN_DIR") or tempfile.gettempdir(), "vports")
    os.makedirs(d, exist_ok=True)
    while True:
        n = random.SystemRandom().randrange(10300, 32000)
        try:
            os.close(os.open(os.path.join(d, str(n)), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", n))
            return n
        except OSError:
            continue
        finally:
            s.close()


class ToolError(Exception):
    pass


class Exited(Exception):
    """The process under test ended."""


class Stalled(Exception):
    """The process under test made no step within the time limit."""


class Rpc:
    __slots__ = ("method", "params", "writer", "auth", "answered", "seq", "time")


class Fop:
    __slots__ = ("text", "op", "writer", "answered", "last")

    def __init__(self):
        self.last = False       # with it a write of the store is complete


class Control(object):
    """The page shared with the shim."""

    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def clock(self, ms):
        self.m[0:8] = struct.pack("<q", ms)

    def age(self, ms):
        self.m[40:48] = struct.pack("<q", ms)

    def delays(self, ppm, us, seed=1, lo=0, hi=0):
        self.m[12:20] = struct.pack("<II", us, seed)
        self.m[28:36] = struct.pack("<II", lo, hi)
        self.m[8:12] = struct.pack("<I", ppm)

    def short_reads(self, ppm):
        self.m[36:40] = struct.pack("<I", ppm)

    def count(self):
        return struct.unpack("<I", self.m[24:28])[0]

    def listeners(self):
        """Addresses and ports the process has begun to listen on."""
        out = []
        for i in range(min(32, struct.unpack("<I", self.m[60:64])[0])):
            fam, port = struct.unpack("<HH", self.m[64 + 20 * i:68 + 20 * i])
            a = self.m[68 + 20 * i:84 + 20 * i]
            out.append([socket.inet_ntop(socket.AF_INET if fam == 4 else socket.AF_INET6, a[:4] if fam == 4 else a), port])
        return out

    def forget_listeners(self):
        self.m[60:64] = bytes(4)

    def close(self):
        self.m.close()
        self.f.close()


async def read_http(reader, bodyless=False):
    head = await reader.readuntil(b"\r\n\r\n")
    lines = head.decode("latin1").split("\r\n")
    headers = {}
    for line in lines[1:]:
        if ":" in line:
            k, v = line.split(":", 1)
            headers[k.strip().lower()] = v.strip()
    if bodyless:
        return lines[0], headers, b""
    if headers.get("transfer-encoding", "").lower() == "chunked":
        body = b""
        while True:
            n = int((await reader.readline()).split(b";")[0], 16)
            chunk = await reader.readexactly(n)
            await reader.readexactly(2)
            if n == 0:
                break
            body += chunk
    else:
        body = await reader.readexactly(int(headers.get("content-length", "0")))
    return lines[0], headers, body


class Run:
    """One life of one index directory: node, process, client, trace."""

    def __init__(self, binary, world, k=3, threads=1, batch=1000, interval=1, shim=None, watch=None, seed=1, user="user", password="password",
                 chunked=False, closing=0, upper=0):
        self.binary, self.world, self.k, self.threads, self.batch, self.interval = binary, world, k, threads, batch, interval
        self.shim = shim
        self.watch = watch      # None, "store" or "blocks": which directory the shim reports
        self.dir = tempfile.mkdtemp(prefix="vrun-", dir=os.environ.get("VERIF_RUN_DIR"))
        self.blocks_dir = os.path.join(self.dir, "blocks")
        self.store_dir = os.path.join(self.dir, "index")
        os.mkdir(self.blocks_dir)
        os.mkdir(self.store_dir)
        self.store_path = os.path.join(self.store_dir, "store.dat")
        self.control = Control(os.path.join(self.dir, "ctl")) if shim else None
        self.user, self.password = user, password
        self.events = []
        self.tip = 0
        self.pool = []
        self.proc = None
        self.exit_task = None
        self.pending = asyncio.Queue()
        self.parked = None
        self.rpc_server = self.fop_server = None
        self.fop_policy = None       # callable(Fop) -> reply text, or None if it is going to be answered later
        self.auto = None
        self.qn = 0
        self.port = None
        self.host = "127.0.0.1"      # where to connect to
        self.conns = []
        self.clogs = []
        self.fault = None            # callable(Rpc) -> raw bytes / None, to break a reply
        self.fault_closes = False
        self.pre = None              # callable(Rpc): node changes before a reply
        self.upper = upper      # how often it writes hexadecimal digits in capitals
        self.chunked, self.closing = chunked, closing     # how it replies; how often it closes the connection then, and says so
        self.rpc_count = 0
        self.log_path = os.path.join(self.dir, "log")
        self.env_extra = {}
        self.deep = False
        self.writes = 0              # completed writes of the store file in this process
        self.fop_log = []            # operations on the store directory in this process
        self.fop_time = 0.0
        self.log_fops = False        # record them in the trace
        self.pieces = 0              # chance that a request is sent in pieces, or its body in chunks
        self.short = 0               # chance that a write takes only part of the data
        self.rng = random.Random(seed)
        self.hold_at = None          # hold the writer at this operation of the next write
        self.held = None
        self.reached = asyncio.Event()   # the writer is held
        self.written = asyncio.Event()   # a write has been completed
        self.writing = set()         # files open for writing
        self.renaming = None         # what has been given the name of the store, while that may not have happened yet
        self.asked = False           # the process has made a request
        self.unsure = False          # a write may be running unnoticed (the index is serialised before the file is opened)

    # -- trace
    def log(self, e, **kw):
        kw["e"] = e
        self.events.append(kw)
        return kw

    def trace(self, name="", chk=(), files=()):
        txs, blks = self.world.trace_universe()
        ev = self.events if self.events else [{"e": "nop"}]
        return dict(name=name, K=self.k, txs=txs, blks=blks, ev=ev, hids=[[list(b), h] for b, h in self.world.hid_of.items()], chk=list(chk), files=list(files))

    # -- node
    def node(self, tip=None, pool=None):
        if tip is not None:
            self.tip = tip
        if pool is not None:
            self.pool = list(pool)
        self.log("node", tip=self.tip, pool=list(self.pool))

    async def _rpc_conn(self, reader, writer):
        try:
            while True:
                line, headers, body = await read_http(reader)
                r = Rpc()
                try:
                    q = json.loads(body)
                    r.method, r.params = q["method"], q.get("params", [])
                    if r.method in ("getrawtransaction", "getblock"):
                        bytes.fromhex(r.params[0])
                    elif r.method == "getblockhash":
                        r.params[0] + 0
                except Exception:
                    r.method, r.params = "malformed", []
                r.writer, r.answered = writer, asyncio.get_running_loop().create_future()
                r.auth = headers.get("authorization", "")
                self.rpc_count += 1
                r.seq = self.rpc_count
                r.time = time.monotonic()
                self.pending.put_nowait(r)
                await r.answered
        except (asyncio.IncompleteReadError, ConnectionError):
            pass
        except asyncio.CancelledError:
            pass
        finally:
            writer.close()

    async def listen(self):
        self.rpc_server = await asyncio.start_server(self._rpc_conn, "127.0.0.1", 0)
        self.rpc_port = self.rpc_server.sockets[0].getsockname()[1]
        if self.shim and self.watch:
            self.fop_server = await asyncio.start_unix_server(self._fop_conn, os.path.join(self.dir, "sock"))

    def send(self, rpc, status, obj, raw=None):
        if raw is None:
            body = json.dumps(obj).encode()
            close = self.closing and self.rng.random() < self.closing
            more = b"Connection: close\r\n" if close else b""
            reason = {200: "OK", 500: "Internal Server Error", 401: "Unauthorized", 503: "Service Unavailable", 404: "Not Found"}.get(status, "X")
            if self.chunked:
                cut = max(1, len(body) // 3)
                parts = [body[i:i + cut] for i in range(0, len(body), cut)]
                raw = (b"HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n%s\r\n" % (status, reason.encode(), more)
                       + b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n")
            else:
                raw = b"HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n%s\r\n" % (status, reason.encode(), len(body), more) + body
        try:
            rpc.writer.write(raw)
            if obj is not None and close:
                rpc.writer.close()
        except ConnectionError:
            pass
        if not rpc.answered.done():
            rpc.answered.set_result(True)

    def answer(self, rpc):
        """Answer one request from the node's present state."""
        if self.pre:
            self.pre(rpc)
        w = self.world
        m, p = rpc.method, rpc.params
        good = "Basic " + base64.b64encode(f"{self.user}:{self.password}".encode()).decode()
        if rpc.auth != good:
            self.log("unauth", got=rpc.auth)
            self.send(rpc, 401, None, b"HTTP/1.1 401 Unauthorized\r\nContent-Length: 0\r\n\r\n")
            return
        if self.fault:
            raw = self.fault(rpc)
            if raw is not None:
                self.log("fault", m=m)
                if raw == b"":
                    rpc.writer.transport.abort()
                    if not rpc.answered.done():
                        rpc.answered.set_result(True)
                else:
                    self.send(rpc, 0, None, raw)
                    if self.fault_closes:
                        rpc.writer.close()
                return
        def digits(data):
            return data.hex().upper() if self.upper and self.rng.random() < self.upper else data.hex()
        if m == "getrawmempool":
            self.log("mp")
            self.send(rpc, 200, {"result": [digits(w.txs[t].txid[::-1]) for t in self.pool], "error": None, "id": "indexer"})
        elif m == "getrawtransaction":
            t = w.by_txid.get(bytes.fromhex(p[0])[::-1], 0)
            if t in self.pool:
                self.log("tx", t=t, ok=True)
                self.send(rpc, 200, {"result": digits(w.txs[t].raw), "error": None, "id": "indexer"})
            else:
                self.log("tx", t=t, ok=False)
                self.send(rpc, 500, {"result": None, "error": {"code": -5, "message": "No such mempool transaction. Use -txindex or provide a block hash to enable blockchain transaction queries. Use gettransaction for wallet transactions."}, "id": "indexer"})
        elif m == "getblockhash":
            h = p[0]
            chain = w.chain(self.tip)
            b = chain[h] if 0 <= h < len(chain) else 0
            self.log("bh", h=h, b=b)
            if b:
                self.send(rpc, 200, {"result": digits(w.blks[b].hash[::-1]), "error": None, "id": "indexer"})
            else:
                self.send(rpc, 500, {"result": None, "error": {"code": -8, "message": "Block height out of range"}, "id": "indexer"})
        elif m == "getblock":
            b = w.by_hash.get(bytes.fromhex(p[0])[::-1], 0)
            self.log("gb", b=b)
            if b:
                self.send(rpc, 200, {"result": digits(w.blks[b].raw), "error": None, "id": "indexer"})
            else:
                self.send(rpc, 500, {"result": None, "error": {"code": -5, "message": "Block not found"}, "id": "indexer"})
        else:
            self.log("bad", why="a request that the node does not understand")
            self.send(rpc, 500, {"result": None, "error": {"code": -32601, "message": "Method not found"}, "id": "indexer"})

    # -- file operations
    async def _fop_conn(self, reader, writer):
        try:
            while True:
                line = await reader.readline()
                if not line:
                    break
                f = Fop()
                f.text = line.decode().strip()
                f.op = f.text.split()
                f.writer = writer
                f.answered = asyncio.get_running_loop().create_future()
                if self.fop_policy:
                    r = self.fop_policy(f)
                    if r is not None:
                        self.reply_fop(f, r)
                        continue
                    await f.answered
                    continue
                self.store_op(f)
                if self.hold_at and self.asked and self.held is None and f.op[0] == self.hold_at and not (f.op[0] == "open" and f.op[1] != "w"):
                    self.held = f
                    self.reached.set()
                    await f.answered
                elif f.op[0] == "write" and self.short and self.rng.random() < self.short and int(f.op[1]) > 1:
                    self.reply_fop(f, "s %d" % self.rng.choice([1, int(f.op[1]) // 2, int(f.op[1]) - 1, self.rng.randrange(1, int(f.op[1]))]))
                else:
                    self.reply_fop(f, "o")
        except (ConnectionError, asyncio.CancelledError):
            pass
        finally:
            writer.close()

    def store_op(self, f):
        """Keep count of completed writes: a rename onto the store, or the store itself opened for writing and closed."""
        o = f.op
        self.fop_log.append(f.text)
        if os.environ.get("VERIF_FOPS"):
            self.log("nop", f=f.text)
        self.fop_time = asyncio.get_running_loop().time()
        if o[0] == "open" and o[1] == "w":
            self.writing.add(o[3])
            self.renaming = None
        elif o[0] == "close" and o[1] in self.writing:
            self.writing.discard(o[1])
            f.last = o[1] == "store.dat"
        elif o[0] == "rename" and o[2] == "store.dat":
            f.last = True

    async def peek(self):
        """How many blocks the stored index holds now, as the program itself reads it from a copy."""
        if not os.path.exists(self.store_path):
            return
        for _ in range(200):
            if not (self.renaming and os.path.exists(self.renaming)):
                break
            await asyncio.sleep(0.01)
        d = tempfile.mkdtemp(prefix="peek", dir=self.dir)
        shutil.copy(self.store_path, os.path.join(d, "store.dat"))
        os.mkdir(os.path.join(d, "blocks"))
        height = asyncio.get_running_loop().create_future()

        async def node(reader, writer):
            try:
                while True:
                    head = (await reader.readuntil(b"\r\n\r\n")).lower()
                    n = re.search(rb"content-length: *(\d+)", head)
                    call = json.loads(await reader.readexactly(int(n.group(1)) if n else 0))
                    if call["method"] == "getblockhash":
                        if not height.done():
                            height.set_result(call["params"][0])
                        return
                    body = json.dumps({"result": [], "error": None, "id": "indexer"})
                    writer.write(f"HTTP/1.1 200 OK\r\nContent-Length: {len(body)}\r\n\r\n{body}".encode())
            except (asyncio.IncompleteReadError, ConnectionError, ValueError, KeyError):
                pass
            finally:
                writer.close()
        server = await asyncio.start_server(node, "127.0.0.1", 0)
        env = {k: v for k, v in self.environment().items() if not k.startswith(("VSHIM", "LD_"))}
        env.update(STORE_FILE_PATH=os.path.join(d, "store.dat"), BLOCK_FILES_PATH=os.path.join(d, "blocks"), PORT=str(free_port()), RPC_SERVER_PORT=str(server.sockets[0].getsockname()[1]))
        proc = await asyncio.create_subprocess_exec(self.binary, env=env, stdout=asyncio.subprocess.DEVNULL, stderr=asyncio.subprocess.DEVNULL, stdin=asyncio.subprocess.DEVNULL, cwd=d)
        over = asyncio.ensure_future(proc.wait())
        try:
            await asyncio.wait({height, over}, timeout=STEP_TIMEOUT, return_when=asyncio.FIRST_COMPLETED)
            self.log("peek", h=height.result() if height.done() else -1)
        finally:
            if not over.done():
                proc.kill()
            await over
            server.close()
            shutil.rmtree(d, ignore_errors=True)

    async def began(self, timeout):
        """A write of the store is held, or has ended, or does so in time."""
        if self.held is None and not self.written.is_set():
            t = asyncio.ensure_future(self.reached.wait())
            d = asyncio.ensure_future(self.written.wait())
            await asyncio.wait({t, d, self.exit_task}, timeout=timeout, return_when=asyncio.FIRST_COMPLETED)
            t.cancel()
            d.cancel()
        return self.held is not None or self.written.is_set()

    async def quiet(self, expect=False):
        """Let a held write go on, wait for the end of a write (if one is expected) and log how many were completed."""
        loop = asyncio.get_running_loop()
        end = loop.time() + WRITE_TIMEOUT
        if expect:
            await self.began(WRITE_TIMEOUT)
        self.hold_at = None
        if self.held is not None:
            f, self.held = self.held, None
            self.reply_fop(f, "o")
        while loop.time() < end and not self.exited():
            if not self.writing and loop.time() - self.fop_time > 0.02 and not (self.renaming and os.path.exists(self.renaming)) and (self.written.is_set() or not expect):
                break
            await asyncio.sleep(0.003)
        done = self.written.is_set()
        self.written.clear()
        self.reached.clear()
        if self.exited():
            self.note_exit()
            raise Exited()
        self.log("quiet", w=self.writes)
        return done

    def hold(self, op):
        """Hold the writer at this operation of the next write."""
        self.hold_at = op
        self.held = None
        self.reached.clear()
        self.written.clear()

    async def crash(self, rng, how=None, wait=True):
        """The process dies at the operation at which its write is held, or at any moment when none is."""
        if wait and self.held is None and self.hold_at:
            t = asyncio.ensure_future(self.reached.wait())
            await asyncio.wait({t, self.exit_task}, timeout=WRITE_TIMEOUT, return_when=asyncio.FIRST_COMPLETED)
            t.cancel()
        if self.held is not None and not self.exited():
            f, self.held = self.held, None
            if f.op[0] == "write":
                n = int(f.op[1])
                self.reply_fop(f, "p %d" % (how if how is not None else rng.choice([0, 1, n // 2, n - 1, rng.randrange(n + 1), n])))
            else:
                self.reply_fop(f, "k")
            await asyncio.wait({self.exit_task}, timeout=WRITE_TIMEOUT)
        await self.kill()

    async def disk_full(self, rng):
        """The operation at which the write is held fails.  The process may end or go on."""
        await self.began(WRITE_TIMEOUT)
        if self.held is None:
            return await self.crash(rng, wait=False)
        f, self.held = self.held, None
        self.log("full", op=f.op[0])
        self.hold_at = None
        self.reply_fop(f, "e 28" if f.op[0] in ("open", "write") else "e 5" if f.op[0] == "fsync" else "o")
        await asyncio.wait({self.exit_task}, timeout=1.0)
        await self.kill()

    def log_fop(self, f):
        o = f.op
        if o[0] == "open" and o[1] == "w":
            self.log("fop", op="open", name=o[3], to="", trunc=o[2] == "t")
        elif o[0] in ("write", "fsync"):
            self.log("fop", op=o[0], name=o[2], to="", trunc=False)
        elif o[0] in ("rename", "unlink"):
            self.log("fop", op=o[0], name=o[1], to=o[2], trunc=False)

    def reply_fop(self, f, text="o"):
        if f.last and text == "o":
            self.writes += 1
            self.written.set()
            if f.op[0] == "rename":
                self.renaming = os.path.join(self.store_dir, f.op[1])
        if self.log_fops and text[0] in "os":
            self.log_fop(f)
        try:
            f.writer.write((text + "\n").encode())
        except ConnectionError:
            pass
        if not f.answered.done():
            f.answered.set_result(True)

    # -- process
    def write_block_files(self, layout):
        """layout: list of (file number, [block ids or bytes])"""
        for n, items in layout:
            data = bytearray()
            for it in items:
                if isinstance(it, (bytes, bytearray)):
                    data += it
                else:
                    raw = self.world.blks[it].raw
                    data += struct.pack("<II", MAGIC, len(raw)) + raw
            name = "blk%05d.dat" % n if isinstance(n, int) else n
            if isinstance(name, str) and name.startswith("/"):
                os.mkdir(self.blocks_dir + name)
                continue
            if isinstance(name, str) and name.startswith("@"):      # leads nowhere
                os.symlink(os.path.join(self.dir, "nowhere"), os.path.join(self.blocks_dir, name[1:]))
                continue
            path = os.path.join(self.blocks_dir.encode(), name) if isinstance(name, bytes) else os.path.join(self.blocks_dir, name)
            with open(path, "wb") as f:
                f.write(data)

    def environment(self):
        self.port = self.port or free_port()
        env = {
            "PATH": os.environ.get("PATH", ""),
            "HOST": "127.0.0.1", "PORT": str(self.port), "THREADS": str(self.threads), "BATCH_SIZE": str(self.batch),
            "STORE_FILE_PATH": self.store_path, "BLOCK_FILES_PATH": self.blocks_dir, "CONFIRMATIONS": str(self.k),
            "UPDATE_INTERVAL": str(self.interval), "RPC_SERVER_HOST": "127.0.0.1", "RPC_SERVER_PORT": str(self.rpc_port),
            "RPC_SERVER_USER": self.user, "RPC_SERVER_PASSWORD": self.password, "RUST_BACKTRACE": "0", "TOKIO_WORKER_THREADS": "2",
        }
        if self.shim:
            env["LD_PRELOAD"] = self.shim
            env["VSHIM_CTL"] = os.path.join(self.dir, "ctl")
            if self.watch:
                env["VSHIM_SOCK"] = os.path.join(self.dir, "sock")
                if self.watch == "blocks":
                    env["VSHIM_LIST"] = "1"
                env["VSHIM_DIR"] = self.blocks_dir if self.watch == "blocks" else self.store_dir
        for k, v in self.env_extra.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        return env

    async def start(self):
        if self.rpc_server is None:
            await self.listen()
        self.log("start", store=os.path.exists(self.store_path))
        self.parked = None
        self.writes = 0
        self.writing = set()
        self.renaming = None
        self.fop_log = []
        self.asked = False
        self.held = None
        self.hold_at = None
        self.reached.clear()
        self.written.clear()
        if self.control:
            self.control.forget_listeners()
        with open(self.log_path, "ab") as log:
            self.proc = await asyncio.create_subprocess_exec(self.binary, env=self.environment(), stdout=log, stderr=log, stdin=asyncio.subprocess.DEVNULL, cwd=self.dir)
        self.exit_task = asyncio.ensure_future(self.proc.wait())
        asyncio.ensure_future(self.mind_memory(self.proc))

    async def mind_memory(self, proc):
        """The program needs some 200 MB; it must not take the machine's memory."""
        while proc.returncode is None:
            try:
                with open("/proc/%d/statm" % proc.pid) as f:
                    if int(f.read().split()[1]) * 4096 > MEMORY:
                        proc.kill()
            except (OSError, ValueError, IndexError):
                return
            await asyncio.sleep(0.4)

    def exited(self):
        return self.exit_task is not None and self.exit_task.done()

    def note_exit(self):
        if self.proc is not None:
            code = self.proc.returncode
            self.log("exit", code=code if code is not None else -1)
            self.proc = None
            self._reset_conns()

    def _reset_conns(self):
        for c in self.conns:
            c[1].close()
        for c in self.clogs:
            c.transport.abort()
        self.conns, self.clogs = [], []
        while not self.pending.empty():
            r = self.pending.get_nowait()
            if not r.answered.done():
                r.answered.set_result(True)
        if self.parked and not self.parked.answered.done():
            self.parked.answered.set_result(True)
        self.parked = None

    async def _race(self, coro, timeout=None):
        """Wait for coro, the exit of the process, or the time limit."""
        t = asyncio.ensure_future(coro)
        try:
            done, _ = await asyncio.wait({t, self.exit_task}, timeout=timeout or STEP_TIMEOUT, return_when=asyncio.FIRST_COMPLETED)
            if t in done:
                return t.result()
            if self.exit_task in done:
                self.note_exit()
                raise Exited()
            self.log("stall")
            raise Stalled()
        finally:
            if not t.done():
                t.cancel()

    async def park(self, timeout=None):
        """Wait until the updater's next request has arrived and leave it unanswered."""
        if self.parked is None:
            if self.proc is None:
                raise Exited()
            r = await self._race(self.pending.get(), timeout)
            self.parked = r
            self.asked = True
            if r.method == "getrawmempool":
                self.log("mpreq", w=self.writes, busy=bool(self.writing or self.held or self.unsure))
        return self.parked

    async def step(self):
        """Answer the parked request and wait for the next one."""
        r = await self.park()
        self.parked = None
        self.answer(r)
        return await self.park()

    async def step_no_wait(self):
        r = await self.park()
        self.parked = None
        self.answer(r)
        return r

    async def sync(self, limit=4000):
        """Run one whole update: answer until the next update asks for the memory pool."""
        limit += 3 * (len(self.world.txs) + len(self.world.blks))
        r = await self.park()
        for i in range(limit):
            r = await self.step()
            if r.method == "getrawmempool":
                return i + 1
        self.log("stall")
        raise Stalled()

    async def first_update(self):
        await self.park()
        await self.sync()
        await self.ready()

    async def ready(self, timeout=None):
        """Wait for the HTTP port; the server is started once the first update is done."""
        async def probe():
            while True:
                try:
                    c = await asyncio.open_connection(self.host, self.port, limit=1 << 26)
                    self.conns.append(c)
                    return
                except OSError:
                    await asyncio.sleep(0.005)
        await self._race(probe(), timeout)
        self.log("ready")

    async def kill(self):
        if self.proc is None:
            return
        try:
            self.proc.kill()
        except ProcessLookupError:
            pass
        await self.exit_task
        self.held = None
        if self.exit_task.result() == -signal.SIGKILL:
            self.log("kill")
            self.proc = None
            self._reset_conns()
        else:
            self.note_exit()

    async def wait_exit(self, timeout=None):
        """The process is expected to end by itself."""
        async def forever():
            await asyncio.Event().wait()
        try:
            await self._race(forever(), timeout)
        except Exited:
            return True
        except Stalled:
            return False

    async def close(self):
        try:
            if self.proc is not None:
                try:
                    self.proc.kill()
                except ProcessLookupError:
                    pass
                await self.exit_task
            for c in self.conns:
                c[1].close()
            for s in (self.rpc_server, self.fop_server):
                if s:
                    s.close()
            if self.control:
                self.control.close()
            me = asyncio.current_task()
            for t in asyncio.all_tasks():
                if t is not me and t.get_coro().__qualname__.startswith("Run."):
                    t.cancel()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.dir, ignore_errors=True)

    def log_tail(self, n=1500):
        try:
            with open(self.log_path, "rb") as f:
                return f.read()[-n:].decode("utf-8", "replace")
        except OSError:
            return ""

    # -- the credentials are for the node alone
    def secrets(self):
        """What must be seen nowhere else; short ones may be there by chance."""
        if isinstance(self.user, bytes) or isinstance(self.password, bytes):
            return []
        user, word = self.user.encode(), self.password.encode()
        return ([word] if len(word) >= 16 else []) + ([base64.b64encode(user + b":" + word)] if len(user + word) >= 16 else [])

    def told(self, where, data):
        if any(x in data for x in self.secrets()):
            self.log("bad", why="the credentials are in " + where)

    def search(self):
        files = [("the log", self.log_path)] + [("a file", os.path.join(d, n)) for d in (self.dir, self.store_dir) if os.path.isdir(d) for n in os.listdir(d)]
        for where, path in files:
            if os.path.isfile(path):
                with open(path, "rb") as f:
                    self.told(where, f.read())

    # -- client
    async def raw(self, request, timeout=None):
        """One HTTP exchange -> (status, body); status 0 when refused or cut off, -1 when there was no answer in time."""
        conn = self.conns.pop() if self.conns else None
        for attempt in (0, 1):
            try:
                if conn is None:
                    conn = await asyncio.open_connection(self.host, self.port, limit=1 << 26)
                for piece in self.cut(request):
                    conn[1].write(piece)
                    await conn[1].drain()
                    if piece is not request:
                        await asyncio.sleep(0.002)

                async def get():
                    line, headers, body = await read_http(conn[0], request.startswith(b"HEAD "))
                    return line, headers, body
                line, headers, body = await asyncio.wait_for(get(), timeout or STEP_TIMEOUT)
                self.conns.append(conn)
                self.told("an answer", repr(line).encode() + repr(headers).encode() + body)
                return int(line.split()[1]), body
            except asyncio.TimeoutError:
                conn[1].close()
                return -1, b""
            except (OSError, asyncio.IncompleteReadError):
                if conn is not None:
                    conn[1].close()
                conn = None
                if attempt:
                    return 0, b""
        return 0, b""

    def cut(self, request):
        """The pieces in which a request is sent."""
        if not self.pieces or self.rng.random() >= self.pieces:
            return [request]
        head = request.find(b"\r\n\r\n") + 4
        lo = self.rng.choice([1, head]) if head < len(request) else 1
        at = sorted({lo, *(self.rng.randrange(lo, len(request)) for _ in range(self.rng.choice([1, 1, 2, 5])))})
        return [request[a:b] for a, b in zip([0] + at, at + [len(request)]) if a < b]

    def req(self, method, path, body=None):
        if body is None:
            return f"{method} {path} HTTP/1.1\r\nHost: x\r\n\r\n".encode("latin1")
        if isinstance(body, str):
            body = body.encode()
        if self.pieces and self.rng.random() < self.pieces / 2:
            at = sorted({self.rng.randrange(len(body) + 1) for _ in range(self.rng.choice([0, 1, 3]))})
            parts = [body[a:b] for a, b in zip([0] + at, at + [len(body)]) if a < b]
            return f"{method} {path} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n".encode("latin1") + b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in parts) + b"0\r\n\r\n"
        return f"{method} {path} HTTP/1.1\r\nHost: x\r\nContent-Length: {len(body)}\r\n\r\n".encode("latin1") + body

    def parse_utxos(self, items):
        out = []
        for u in items:
            if not re.fullmatch("[0-9a-f]{64}", u["hash"]):
                raise ValueError("transaction id")
            t = self.world.by_txid.get(bytes.fromhex(u["hash"])[::-1], 0)
            out.append([t, int(u["vout"]), self.world.value(u["value"])])
        return out

    def parse_addr(self, s):
        return list(self.world.addr_of.get(s, (-1, -1)))

    async def query(self, kind, addrs, c=None, post=False, timeout=None, order=None):
        """kind: bal, utxo (one address), mbal, mutxo (many).  Logged as a pair of events."""
        w = self.world
        names = [w.address(*a) for a in addrs]
        suffix = "" if c is None else f"confirmations={c}"
        what = "balance" if kind.endswith("bal") else "utxos"
        if kind in ("bal", "utxo"):
            req = self.req("GET", f"/addresses/{names[0]}/{what}" + ("?" + suffix if suffix else ""))
        elif post:
            req = self.req("POST", f"/addresses/{what}" + ("?" + suffix if suffix else ""), json.dumps(names))
        else:
            req = self.req("GET", f"/addresses/{what}?addresses={','.join(names)}" + ("&" + suffix if suffix else ""))
        self.qn += 1
        q = self.qn
        self.log("qs", q=q)
        status, body = await self.raw(req, timeout)
        r = []
        form = status == 200
        if status == 200:
            try:
                j = json.loads(body, parse_float=str, parse_int=str)
                if kind == "bal":
                    r = [[list(addrs[0]), w.value(j)]]
                elif kind == "utxo":
                    r = [[list(addrs[0]), self.parse_utxos(j)]]
                elif kind == "mbal":
                    r = [[self.parse_addr(x["address"]), w.value(x["balance"])] for x in j]
                else:
                    r = [[self.parse_addr(x["address"]), self.parse_utxos(x["utxos"])] for x in j]
            except Exception:
                form = False
                r = []
        if self.exited():
            self.note_exit()
        self.log("qe", q=q, st=status, form=form, kind="b" if kind.endswith("bal") else "u", c=0 if c is None else c, **{"as": [list(a) for a in addrs], "r": r})
        return status

    async def api(self, req, rng):
        """One request of spec/Api.tla."""
        w = self.world

        def text(a, url=False):
            if len(a) == 2:
                return w.address(*a)
            good = w.address(0, 1)
            how = a[0]
            if how == "empty":
                return ""
            if how == "checksum":
                i = rng.randrange(1, len(good))
                return good[:i] + ("2" if good[i] != "2" else "3") + good[i + 1:]
            if how == "version":
                return b58check(bytes([rng.choice([1, 4, 6, 111, 128, 196, 255])]) + w.hash160(1))
            if how == "short":
                return good[:-1]
            if how == "long":
                return good + rng.choice(["1", "z", good])
            if how == "character":
                return good[:5] + rng.choice("0OIl-_.") + good[6:]
            if how == "space":
                return ("%20" if url else " ") + good
            return rng.choice(["abc", "balance", "utxos", "null", "addresses", "1", "x" * 300])

        m, path, c = req["m"], req["path"], req["c"]
        if path in ("bal1", "utxo1"):
            p = "/addresses/%s/%s" % (text(req["a"], True), "balance" if path == "bal1" else "utxos")
        elif path in ("bal", "utxo"):
            p = "/addresses/" + ("balance" if path == "bal" else "utxos")
        else:
            p = path.replace("/A", "/" + w.address(0, 1)).replace("/B", "/" + w.address(5, 1))
        parts = ["%s=%s" % (n, text(v, True)) for n, v in req["x"]]
        more = []
        if req["q"]:
            more.append("addresses=" + ",".join(text(a, True) for a in req["q"][0]))
        if c:
            more.append("confirmations" if c[1] == "bare" else "confirmations=" + str(c[1]))
        rng.shuffle(more)
        parts += more
        body = None
        if req["body"]:
            kind, v = req["body"]
            if kind == "list":
                body = json.dumps([text(a) for a in v], indent=rng.choice([None, None, 1]))
            else:
                g = json.dumps(w.address(0, 1))
                body = {"nothing": "", "text": w.address(0, 1), "open": "[" + g, "tail": "[" + g + "] x", "object": "{\"addresses\": [" + g + "]}", "string": g,
                        "number": "7", "null": "null", "true": "true", "numbers": "[1, 2]", "mixed": "[" + g + ", 1]", "nested": "[[" + g + "]]", "nulls": "[null]",
                        "objects": "[{}]", "notutf8": b"[\"\xff\xfe\"]", "single quotes": "[" + g.replace('"', "'") + "]", "comma": "[" + g + ",]",
                        "deep": "[" * 2000, "two": "[" + g + "][" + g + "]"}[v]
        raw = self.req(m, p + ("?" + "&".join(parts) if parts else ""), body)
        self.qn += 1
        q = self.qn
        self.log("qs", q=q)
        status, got = await self.raw(raw)
        r, form = [], False
        try:
            if status == 200:
                j = json.loads(got, parse_float=str, parse_int=str)
                if path == "bal1":
                    r = [[req["a"], w.value(j)]]
                elif path == "utxo1":
                    r = [[req["a"], self.parse_utxos(j)]]
                elif path == "bal":
                    r = [[self.parse_addr(x["address"]), w.value(x["balance"])] for x in j]
                elif path == "utxo":
                    r = [[self.parse_addr(x["address"]), self.parse_utxos(x["utxos"])] for x in j]
                form = True
            elif status == 400:
                form = isinstance(json.loads(got)["message"], str)
        except Exception:
            form, r = False, []
        if self.exited():
            self.note_exit()
        self.log("api", q=q, st=status, form=form, req=req, r=r)
        return status

    async def ask_texts(self, texts, kind, c, how):
        """Texts that may be addresses.  how: path, list (both only for harmless characters), post."""
        w = self.world
        suffix = "" if c is None else f"confirmations={c}"
        what = "balance" if kind == "b" else "utxos"
        if how == "path":
            raw = self.req("GET", f"/addresses/{texts[0]}/{what}" + ("?" + suffix if suffix else ""))
        elif how == "list":
            raw = self.req("GET", f"/addresses/{what}?addresses={','.join(texts)}" + ("&" + suffix if suffix else ""))
        else:
            raw = self.req("POST", f"/addresses/{what}" + ("?" + suffix if suffix else ""), json.dumps(texts))
        sums = {}
        for t in texts:
            b = b58decode(t)
            if b is not None and len(b) == 25:
                sums[b[:21]] = dsha(b[:21])[:4]
        self.qn += 1
        q = self.qn
        self.log("qs", q=q)
        status, got = await self.raw(raw)
        r, form = [], False
        try:
            if status == 200:
                j = json.loads(got, parse_float=str, parse_int=str)
                value = w.value if kind == "b" else self.parse_utxos
                r = [[texts[0], value(j)]] if how == "path" else [[str(x["address"]), value(x["balance" if kind == "b" else "utxos"])] for x in j]
                form = True
            elif status == 400:
                form = isinstance(json.loads(got)["message"], str)
        except Exception:
            form, r = False, []
        if self.exited():
            self.note_exit()
        self.log("addr", q=q, st=status, form=form, kind=kind, c=c or 0, r=r, texts=[{"s": t, "codes": [ord(x) for x in t]} for t in texts],
                 sums=[[list(p), list(s)] for p, s in sums.items()])
        return status

    async def abuse(self, raw, wait=0.05):
        """Bytes that are no proper request, from a client that then goes away."""
        try:
            c = await asyncio.open_connection(self.host, self.port)
            c[1].write(raw)
            try:
                await asyncio.wait_for(c[0].read(1000), wait)
            except asyncio.TimeoutError:
                pass
            c[1].transport.abort() if len(raw) % 2 else c[1].close()
        except OSError:
            pass

    async def query_all(self, addrs, cs=None, kinds=("utxo", "bal")):
        for c in (cs if cs is not None else range(self.k + 1)):
            for kind in kinds:
                if kind in ("bal", "utxo"):
                    for a in addrs:
                        await self.query(kind, [a], c)
                else:
                    await self.query(kind, addrs, c, post=bool(c % 2))
