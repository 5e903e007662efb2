# -*- coding: utf-8 -*-
"""C32: strategy output goes to the task's output file."""
from pv.api import *
from contracts.acc import context

DEFAULTS = {"sep": " ", "end": "\n"}


class Disk(object):
    """one file, appended to by others as well (the log); what reaches it, in order"""

    def __init__(self, path):
        self.path, self.content, self.handles = path, [], []
        self.others = 0

    def other(self):
        """somebody else may write meanwhile"""
        if choose(2):
            self.others += 1
            self.content.append(("other", self.others))

    def open(self, path, mode="r", *a, **k):
        prove("the task's output file is opened", val_eq(path, self.path))
        prove("for appending, as text", mode in ("a", "at", "ta", "a+", "+a"))
        prove("without changing line ends", k.get("newline") is None and not a[3:4])
        h = Handle(self)
        self.handles.append(h)
        return h


class Handle(object):
    def __init__(self, disk):
        self.disk, self.buf, self.closed = disk, [], False

    def put(self, x):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.buf.append(x)

    def write(self, s):
        self.put(("text", s))

    def flush(self):
        if self.buf:
            self.disk.other()
            self.disk.content.extend(self.buf)
            del self.buf[:]

    def close(self):
        self.flush()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Own(Handle):
    """a file of the strategy's own"""

    def __init__(self):
        Handle.__init__(self, Disk(None))
        self.empty = fresh_bool("own_file_counts_as_false")

    def __bool__(self):
        return not truth(self.empty)

    def flush(self):
        self.disk.content.extend(self.buf)
        del self.buf[:]


def world(I, out):
    disk, std = Disk(out), Own()

    def on_print(*a, **k):
        f = k.pop("file", None)
        flush = k.pop("flush", False)
        o = {"sep": k.pop("sep", None), "end": k.pop("end", None)}
        if k:
            raise TypeError("%r is an invalid keyword argument for print()" % list(k)[0])
        for n in o:
            if o[n] is None:
                o[n] = DEFAULTS[n]
        h = std if f is None or type(f).__name__ == "_Stdout" else f
        h.put(("print", a, o["sep"], o["end"]))
        if truth(flush):
            h.flush()
    on = eng().ghost
    on["on_open"], on["on_print"] = disk.open, on_print
    on["on_stdout"] = lambda s, x: std.write(x)
    on["on_stdout_flush"] = lambda s: std.flush()
    return disk, std


def same(got, want):
    """two lists of things printed"""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0] or len(g) != len(w):
            return False
        if g[0] == "other":
            if g != w:
                return False
        elif not (len(g[1]) == len(w[1]) and all(x is y for x, y in zip(g[1], w[1])) and g[2] is w[2] and g[3] is w[3]):
            return False
    return True


@harness("any values printed, twice, to the task's file, the standard output or a file of their own",
         covers=["output file", "standard output", "own file", "separator", "end"])
def printed(I):
    out = (None, "", fresh_str("out", nonempty=True))[choose(3)]
    context(I, out=out)
    P = I.import_module("jqtrade.scheduler.api").strategy_print
    disk, std = world(I, out)
    disk.content.append(("other", 0))       # what is there already
    own = Own()
    want, want_own, want_std = [("other", 0)], [], []
    for k in range(2):
        values = [fresh_obj("first"), Seg("values%d" % k, fresh_int("n%d" % k, 0), lambda i, k=k: Opaque(z3.Function(
            "value%d" % k, z3.IntSort(), OBJ)(iterm(i))))][choose(2):]
        kw = {}
        sep, end = DEFAULTS["sep"], DEFAULTS["end"]
        c = choose(3) if k else 0
        if c == 1:
            cover("separator")
            kw["sep"] = sep = fresh_str("sep")
        if c == 2:
            cover("end")
            kw["end"] = end = fresh_str("end")
        mine = choose(2)
        if mine:
            kw["file"] = own
        if k and choose(2):
            kw["flush"] = True
        before = disk.others
        r, e = catch(I, P, *values, **kw)
        prove("printing succeeds", e is None and r is None, repr(e))
        item = ("print", tuple(values), sep, end)
        seen = disk.content[:]
        while disk.others > before:     # wherever others wrote, in their order
            before += 1
            want.append(("other", before))
        if mine:
            cover("own file")
            own.flush()
            want_own.append(item)
        elif out:
            cover("output file")
            want.append(item)
        else:
            cover("standard output")
            want_std.append(item)
            prove("it is written at once", not std.buf)
        prove("what is printed is in the task's output file, in full, at its end, at once, and nothing else", same(seen, want))
        prove("the file is left closed or empty buffered", all(not h.buf for h in disk.handles))
        prove("or on the standard output", same(std.disk.content, want_std) and not std.buf)
        prove("or in the file of its own", same(own.disk.content, want_own))
    if not out:
        prove("no file is opened without an output file", not disk.handles)
