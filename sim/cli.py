"""Building machines from scenarios and running the command line on them."""
import base64

from . import kernel, simfs


def enc(b):
    """bytes <-> JSON: text where possible, so that replay files can be read."""
    try:
        s = b.decode("utf-8")
        return s
    except UnicodeDecodeError:
        return {"b64": base64.b64encode(b).decode()}


def dec(v):
    if isinstance(v, dict):
        return base64.b64decode(v["b64"])
    return v.encode("utf-8", "surrogateescape")


def build_fs(spec):
    fs = simfs.FS(spec.get("listing", 0))
    for f in spec.get("files", []):
        fs.put(f["path"], dec(f["data"]) if "data" in f else None,
               f.get("mode", {"d": 0o755, "l": 0o777}.get(f.get("kind"), 0o644)), f.get("uid", 1000), f.get("gid", 1000), f.get("kind", "f"),
               f.get("target"))
    for d in spec.get("dirmodes", []):
        fs.walk(d["path"], fs.root, (0, [0])).mode = d["mode"]
    fs.barrier()
    fs.capacity = spec.get("capacity")
    return fs


def proc_spec(s):
    out = dict(s)
    if "stdin" in out and out["stdin"] is not None:
        out["stdin"] = dict(out["stdin"])
        if "data" in out["stdin"]:
            out["stdin"]["data"] = dec(out["stdin"]["data"])
    return out


class Result:
    """What one simulated process did."""
    __slots__ = ("code", "exc", "out", "err", "oplog", "fired", "steps", "entries", "nsys", "killed", "counts",
                 "mon_fired", "stdin_reads", "buggified", "env_reads")

    def __init__(self, p):
        self.code, self.exc = p.code, p.exc
        self.out, self.err = bytes(p.ctx.raw_out.data), bytes(p.ctx.raw_err.data)
        self.oplog = [tuple(e[1:]) for e in p.oplog]
        self.fired = p.fired
        self.steps, self.entries, self.nsys = p.mon.steps, p.mon.entries, p.nsys
        self.killed = p.code == -9
        self.counts = dict(p.counts)
        self.mon_fired = list(p.mon.fired)
        self.stdin_reads = p.ctx.raw_in.reads
        self.buggified = list(p.ctx.buggified)
        self.env_reads = sorted(p.env_reads)

    @property
    def hung(self):
        return self.code == -99


def run(machine, procs, switches=None, sched=None):
    if sched is None:
        sched = kernel.ReplaySched(switches or [])
    ps = machine.run([proc_spec(p) for p in procs], sched)
    return [Result(p) for p in ps]


def run_one(machine, proc):
    return run(machine, [proc])[0]
