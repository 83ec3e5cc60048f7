"""Simulated SPICE programs.

A program reads its netlist when the real one would (shortly after exec), takes
virtual time, writes its log and raw file in pieces and exits.  What it writes is
a function of the netlist text it read, so that any mix-up of files between runs
is visible.  How long it takes and how it ends is decided by the plan.
"""
import hashlib
import os
import re
import struct
from . import core, disk
from .core import HarnessError


def signature(text):
    """Identity of a circuit as the simulator sees it (comments and blank lines do not matter)."""
    lines = [l.strip() for l in text.splitlines()]
    lines = [re.sub(r"\s+", " ", l) for l in lines if l and not l.startswith("*")]
    return hashlib.sha1("\n".join(lines).encode()).hexdigest()[:12]


def token(text):
    m = re.search(r"(?im)\.param\s+.*?\btok\s*=\s*(\d+)", text)
    if m:
        return int(m.group(1))
    m = re.search(r"(?im)^\s*\*\s*tok\s*=\s*(\d+)", text)
    return int(m.group(1)) if m else None


class CmdLine:
    """What a simulator understands of its command line."""

    def __init__(self, argv, flavor):
        self.netlist = None
        self.log = None
        self.raw = None
        self.batch = False
        self.switches = []
        a = list(argv[1:])
        i = 0
        takes = {"ngspice": {"-o": "log", "-r": "raw", "-D": None, "-c": None, "-t": None, "--output": "log", "--rawfile": "raw",
                             "--define": None, "--soa-log": None, "--term": None},
                 "xyce": {"-l": "log", "-r": "raw", "-hspice-ext": None, "-o": None, "-namesfile": None, "-delim": None, "-prf": None, "-rsf": None,
                          "-param": None, "-doc": None, "-doc_cat": None, "-remeasure": None, "-max-warnings": None, "-redefined_params": None,
                          "-subckt_multiplier": None, "-local_variation": None, "-noise_names_file": None, "-nox": None, "-linsolv": None, "-maxord": None,
                          "-randseed": None, "-plugin": None},
                 "qspice": {"-o": "log", "-r": "raw", "-ProtectSelections": None, "-ProtectSubcircuits": None},
                 "ltspice": {"-ini": None}}[flavor]
        while i < len(a):
            x = a[i]
            if x in takes:
                if i + 1 >= len(a):
                    break           # usage error: no netlist
                if takes[x]:
                    setattr(self, takes[x], a[i + 1])
                else:
                    self.switches.append((x, a[i + 1]))
                i += 2
                continue
            if x in ("-b", "-Run", "-run", "--batch"):
                if x in ("-b", "--batch"):
                    self.batch = True
                i += 1
                continue
            if x.startswith("-") or x == "":
                self.switches.append(x)
                i += 1
                continue
            self.netlist = x
            i += 1
        if flavor == "ltspice" and self.netlist:
            if self.netlist[:2].lower() == "z:":
                self.netlist = self.netlist[2:]
        if self.netlist:
            stem = os.path.splitext(self.netlist)[0]
            if flavor == "ltspice":
                self.log = stem + ".log"
                self.raw = stem + ".raw"
            elif flavor == "qspice":
                self.raw = self.raw or stem + ".qraw"
                self.log = self.log or stem + ".log"
                self.batch = True
            elif flavor == "xyce":
                self.batch = True
                self.raw = self.raw or self.netlist + ".raw"
            # ngspice without -r writes no raw file in batch mode


class Program:
    """One execution of a simulator.  spec: {dur, start, out, rc, ...} from the plan."""

    def __init__(self, popen, flavor, spec_for, content_for, on_read=None):
        self.p = popen
        self.sim = popen.sim
        self.flavor = flavor
        self.spec_for = spec_for
        self.content_for = content_for
        self.on_read = on_read
        self.tok = None
        self.spec = None
        self.cmd = CmdLine(popen.argv, flavor)
        self.text = None
        self.dead = False
        self.files = []

    def start(self):
        s = self.sim
        c = self.cmd
        cwd = self.p.cwd or os.getcwd()

        def ab(x):
            return None if x is None else os.path.join(cwd, x)
        self.netlist, self.log, self.raw = ab(c.netlist), ab(c.log), ab(c.raw)
        s.rec("proc_start", pid=self.p.pid - 9_000_000, netlist=self.rel(self.netlist), log=self.rel(self.log),
              raw=self.rel(self.raw), sw=c.switches, exe=os.path.basename(self.p.argv[0]),
              cwd=self.rel(self.p.cwd) if self.p.cwd else None)
        if not c.batch or self.netlist is None:
            # an interactive or usage-error start: a GUI waits for the user for ever
            self.spec = {"out": "hang"}
            return
        pre = self.spec_for(None, self)
        s.after(pre.get("start", 0.05) if pre else 0.05, self._read)

    def rel(self, p):
        if p is None:
            return None
        return os.path.relpath(p, disk.SCRATCH)

    def _read(self):
        if self.dead:
            return
        s = self.sim
        try:
            data = disk.read_file(self.netlist)
        except OSError:
            s.rec("proc_no_netlist", netlist=self.rel(self.netlist))
            self.p.exit(1)
            return
        for enc in ("utf-8", "utf-16-le", "latin-1"):
            try:
                self.text = data.decode(enc)
                break
            except UnicodeDecodeError:
                continue
        self.sig = signature(self.text)
        self.tok = token(self.text)
        self.spec = self.spec_for(self.tok, self)
        s.rec("proc_read", pid=self.p.pid - 9_000_000, tok=self.tok, sig=self.sig)
        if self.on_read:
            self.on_read(self)
        if self.spec.get("console", True):
            self.p.write_console(b"Simulating %s\n" % (self.sig.encode()))
        self._go()

    def _write(self, path, data, mode="ab"):
        try:
            disk.write_file(path, data, mode)
            if path not in self.files:
                self.files.append(path)
        except OSError:
            pass

    def _go(self):
        sp = self.spec
        s = self.sim
        dur = sp.get("dur", 1.0)
        out = sp.get("out", "ok")
        log, raw = self.content_for(self)
        self.full_log, self.full_raw = log, raw
        if self.log and out not in ("nolog", "crash_nolog"):
            self._write(self.log, log[:len(log) // 2], "wb")
        if out == "hang":
            return
        if self.raw and out not in ("noraw", "fail", "crash", "crash_nolog"):
            k = len(raw) // 3

            def w1():
                if not self.dead:
                    self._write(self.raw, raw[:k], "wb")

            s.after(dur * 0.3, w1)
            s.after(dur * 0.7, lambda: None if self.dead else self._write(self.raw, raw[k:2 * k]))
            s.after(dur * 0.9, lambda: None if self.dead else self._write(self.raw, raw[2 * k:]))
        elif self.raw and out == "crash":
            s.after(dur * 0.5, lambda: None if self.dead else self._write(self.raw, raw[:len(raw) // 2], "wb"))
        for ext, data in sp.get("extra", {}).items():
            s.after(dur * 0.8, lambda e=ext, d=data: None if self.dead else
                    self._write(os.path.splitext(self.netlist)[0] + e, d.encode(), "wb"))
        rc = sp.get("rc", {"ok": 0, "noraw": 0, "nolog": 0, "fail": 1, "crash": -11, "crash_nolog": -11}[out])

        def fin():
            if self.dead:
                return
            if self.log and out not in ("nolog", "crash", "crash_nolog"):
                tail = log[len(log) // 2:]
                if out == "fail":
                    tail += b"Fatal error: simulation aborted\n"
                self._write(self.log, tail)
            self.dead = True
            self.p.exit(rc)
        s.after(dur, fin)

    def killed(self, sig):
        if sig != 9 and self.spec and self.spec.get("stubborn"):
            return              # it ignores requests to terminate, as programs under wine do
        self.dead = True
        self.p.exit(-sig)

    def finish_now(self):
        """The process disappears on its own (exits) at this instant."""
        self.dead = True
        self.p.exit(0 if False else 3)


# ---------------------------------------------------------------- default contents
def simple_raw(sig, flavor, n=4):
    """A small well-formed binary raw file whose values encode the signature."""
    base = int(sig[:6], 16) % 1000 + 1
    title = "* %s\n" % sig
    enc = "utf-16-le" if flavor == "ltspice" else "utf-8"
    cmd = {"ltspice": "Linear Technology Corporation LTspice XVII", "qspice": "QSPICE80, Build Nov  1 2024",
           "ngspice": "ngspice-44, Build", "xyce": "Xyce"}[flavor]
    hdr = ("Title: " + title + "Date: Tue Nov 14 22:13:20 2023\nPlotname: Transient Analysis\n"
           "Flags: real" + (" forward" if flavor == "ltspice" else "") + "\nNo. Variables: 2\nNo. Points: %12d\n" % n +
           "Offset:   0.0000000000000000e+00\nCommand: %s\nVariables:\n\t0\ttime\ttime\n\t1\tV(out)\tvoltage\nBinary:\n" % cmd)
    f = "<df" if flavor == "ltspice" else "<dd"
    body = b"".join(struct.pack(f, i * 0.25, base + i) for i in range(n))
    return hdr.encode(enc) + body


def simple_log(sig, flavor):
    if flavor == "ltspice":
        return ("LTspice 24.0.12 for Windows\nCircuit: * %s\n\nTotal elapsed time: 0.021 seconds.\n" % sig).encode()
    return ("Circuit: * %s\n\nNo. of Data Rows : 4\nTotal analysis time (seconds) = 0.01\n" % sig).encode()


def default_content(prog):
    return simple_log(prog.sig, prog.flavor), simple_raw(prog.sig, prog.flavor)
