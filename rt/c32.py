# -*- coding: utf-8 -*-
"""random prints (values, separators, ends, own files, flush) of one or two tasks' contexts, mixed with other writers of the
same file; contents of the output file, the own files and the standard output after every single print"""
import io

from rt.common import *


def text(rng):
    return rng.choice(["", "a", "b c", "\u4e0a\u8bc1", "x\ny", "%s", "\t", "1,2"])


def generate(tier, rng):
    for k in range(150 if tier == "quick" else 5000):
        ops = []
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < .15:
                ops.append({"op": "other", "text": text(rng)})
            elif x < .25:
                ops.append({"op": "switch"})
            else:
                ops.append({"op": "print", "values": [rng.choice([text(rng), 1, 2.5, None, [1, "a"], True]) for _ in range(
                    rng.choice([0, 1, 1, 2, 5, 300]))], "sep": rng.choice([None, None, "", ", ", "\n"]),
                    "end": rng.choice([None, None, "", "!", "\n\n"]), "own": rng.choice([None, None, None, "mem", "file"]),
                    "flush": rng.choice([None, None, True])})
        yield "prints", {"ops": ops, "outs": rng.choice([[True, True], [True, False], [False, True], [True, "same"]]),
                         "sized": rng.random() < .3, "existing": rng.choice([None, "", "old\n", "old"])}


def prints(inp):
    fresh()
    C = mod("scheduler.context").Context
    P = mod("scheduler.api").strategy_print
    with scratch() as d, patched(sys, "stdout", Watched()) as _:
        std = sys.stdout
        paths = []
        for i, o in enumerate(inp["outs"]):
            paths.append(paths[0] if o == "same" else os.path.join(d, "out%d.log" % i) if o else None)
        content = {}
        for p in paths:
            if p and inp["existing"] is not None:
                open(p, "w").write(inp["existing"])
            if p:
                content[p] = inp["existing"] or ""

        def context(i):
            C("t%d" % i, None, None, None, None, False, None, paths[i])
        cur = 0
        context(0)
        mem, own, own_path = Sized() if inp.get("sized") else io.StringIO(), None, os.path.join(d, "own.txt")
        own = open(own_path, "w")
        want_mem = want_own = want_std = ""
        for op in inp["ops"]:
            if op["op"] == "other":
                for p in content:
                    with open(p, "a") as f:
                        f.write(op["text"])
                    content[p] += op["text"]
            elif op["op"] == "switch":
                cur = 1 - cur
                context(cur)
            else:
                k = {n: op[n] for n in ("sep", "end", "flush") if op[n] is not None}
                t = (" " if op["sep"] is None else op["sep"]).join(str(v) for v in op["values"]) + (
                    "\n" if op["end"] is None else op["end"])
                if op["own"]:
                    k["file"] = mem if op["own"] == "mem" else own
                r, e = outcome(P, *op["values"], **k)
                require(r == "ok", "print raised %r", e)
                if op["own"] == "mem":
                    want_mem += t
                elif op["own"] == "file":
                    want_own += t
                elif paths[cur]:
                    content[paths[cur]] += t
                else:
                    want_std += t
                    require(not std.unflushed, "the standard output is not flushed at once")
            for p in content:
                got = open(p).read() if os.path.exists(p) else ""
                require(got == content[p], "the output file holds %r, expected %r", got[-300:], content[p][-300:])
            require(mem.getvalue() == want_mem, "the own file holds %r, expected %r", mem.getvalue(), want_mem)
            own.flush()
            require(open(own_path).read() == want_own, "the own file holds %r, expected %r", open(own_path).read(), want_own)
            require(std.getvalue() == want_std, "standard output got %r, expected %r", std.getvalue(), want_std)
        own.close()


class Sized(io.StringIO):
    """a file that counts as false while it is empty"""
    def __len__(self):
        return len(self.getvalue())


class Watched(io.StringIO):
    unflushed = False

    def write(self, s):
        self.unflushed = self.unflushed or bool(s)
        return io.StringIO.write(self, s)

    def flush(self):
        self.unflushed = False


CASES = {"prints": prints}
