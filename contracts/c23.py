# -*- coding: utf-8 -*-
"""C23: the broker's balance files are read faithfully.

The tables are ghost data frames with rows of unknown number and content; the rows that matter are reached through an
arbitrary row j (a position) or stand between two arbitrary blocks of other rows (the cash row)."""
from pv.api import *
from pv.lib import b_round
from pv.strings import to_str
from contracts.acc import ifun, rfun
from contracts.gate import *

NAN = float("nan")


class Row(object):
    """a row of a table: columns by name"""

    def __init__(self, **cols):
        self.__dict__.update(cols)


class Cells(object):
    """a row taken out of a table"""

    def __init__(self, last, complete):
        self.last, self.complete = last, complete

    def isna(self):
        return self

    isnull = isna

    def all(self):
        return self.last and self.complete


class At(object):
    def __init__(self, f, end):
        self.f, self.end = f, end

    def __getitem__(self, i):
        n = self.f.length()
        if self.end and isinstance(i, int) and i < 0:
            i = n + i
        if not truth(and_(i >= 0, i < n)):
            raise (IndexError if self.end else KeyError)(i)
        return Cells(truth(val_eq(i, n - 1)), self.f.complete)


class Frame(object):
    """a table that was read; if it is complete its last row is empty"""

    def __init__(self, parts, complete):
        self.parts = list(parts) + ([Row(**{c: NAN for c in ALL})] if complete else [])
        self.complete = complete
        self.loc, self.iloc = At(self, False), At(self, True)

    def length(self):
        return PList(self.parts).length()

    def __len__(self):
        return self.length()

    @property
    def empty(self):
        return val_eq(self.length(), 0)

    def itertuples(self, *a, **k):
        return PList(self.parts)


ALL = ("acct", "exchange", "totalAsset", "enabledBalance", "currentBalance", "symbol", "currentQty", "enabledQty", "costPrice",
       "lastPrice", "mktValue")


def fun(name, i, sort):
    return z3.Function(name, z3.IntSort(), sort)(iterm(i))


class Other(object):
    """row i of the assets that is not the cash row of the account"""

    def __init__(self, w, tag, i):
        self.w, self.tag, self.i = w, tag, i
        fact(z3.Not(z3.And(bt(val_eq(self.text, w.account)), fun(tag + "_whole", i, z3.BoolSort()))))

    @property
    def text(self):
        return str_fun(self.tag + "_acct", self.i, nonempty=True)

    @property
    def acct(self):
        return self.w.as_read(self.text)

    @property
    def exchange(self):
        if truth(mkbool(fun(self.tag + "_whole", self.i, z3.BoolSort()))):
            return NAN
        return str_fun(self.tag + "_exchange", self.i, nonempty=True)

    @property
    def totalAsset(self):
        return rfun(self.tag + "_total", self.i)

    @property
    def enabledBalance(self):
        return rfun(self.tag + "_enabled", self.i)

    @property
    def currentBalance(self):
        return rfun(self.tag + "_current", self.i)


def whole(n):
    """a quantity as a column with empty cells shows it"""
    return mkreal(z3.ToReal(iterm(n)))


class Held(object):
    """row i of the positions"""

    def __init__(self, w, i):
        self.w, self.i = w, i

    @property
    def text(self):
        return str_fun("held_acct", self.i, nonempty=True)

    @property
    def acct(self):
        return self.w.as_read(self.text)

    @property
    def digits(self):
        return Atom("digits(%s)" % iterm(self.i).sexpr(), fun("digits", self.i, z3.StringSort()), "", True, True, "digits", 6)

    @property
    def shenzhen(self):
        return mkbool(fun("shenzhen", self.i, z3.BoolSort()))

    @property
    def symbol(self):
        return mk([self.digits, ".SZ" if truth(self.shenzhen) else ".SH"])

    @property
    def qty(self):
        return ifun("qty", self.i)

    @property
    def currentQty(self):
        return whole(self.qty)

    @property
    def enabledQty(self):
        return whole(ifun("enabled_qty", self.i))

    @property
    def costPrice(self):
        return rfun("cost", self.i)

    @property
    def lastPrice(self):
        return rfun("last", self.i)

    @property
    def mktValue(self):
        return rfun("value", self.i)


class World(object):
    def __init__(self, I, account="given", retries=None):
        self.I = I
        self.disk = Files(self)
        given = {}
        self.account = "12345"
        if account == "given":
            v = (fresh_str("account_no", nonempty=True), fresh_int("account", 1))[choose(2)]
            given["account_no"] = v
            self.account = to_str(v)
        elif account is not None:
            given["account_no"] = account
        self.retries = 3
        if retries is not None:
            self.retries = retries
            given["sync_retry_kwargs"] = PDict([("max_attempts", retries), ("attempt_internal", 0)])
        self.text_accounts = True
        self.tables = {}
        self.reads = {"assetInfo": 0, "positionInfo": 0}
        eng().ghost["on_sleep"] = lambda s: None
        eng().ghost["on_read_csv"] = self.read
        self.g = G(I, self.disk, **given)
        r, e = self.g.setup()
        prove("the gate is set up", e is None, repr(e))

    def as_read(self, text):
        """an account number read as a number is no text any more"""
        return text if self.text_accounts else fresh_obj("number")

    def read(self, path, *a, **k):
        d = k.pop("dtype", None)
        if a or k:
            raise Unsupported("read_csv with further arguments")
        self.text_accounts = d is not None and (d.get("acct") if isinstance(d, PDict) else d) is not None
        for kind in self.reads:
            if truth(val_eq(path, self.g.path(kind))):
                self.reads[kind] += 1
                return self.tables[kind]()
        fail("the files read are those of the date", repr(path))
        raise FileNotFoundError(path)

    def sync(self):
        return catch(self.I, self.g.method("sync_balance"))


def fail(what, detail=""):
    prove(what, False, detail)


class Files(Disk):
    def __init__(self, w):
        Disk.__init__(self)
        self.w, self.missing = w, ()

    def directory(self, path):
        return True if path in ("/orders", "/runtime/data", "/runtime") else None

    def new(self, path):
        for kind in ("assetInfo", "positionInfo"):
            if truth(val_eq(path, self.w.g.path(kind))) if getattr(self.w, "g", None) is not None else False:
                return File(path, kind not in self.missing, 1)
        return File(path, False, 0)


def assets(w, row=True):
    """the cash row of the account, if any, among arbitrary other rows"""
    others = [Seg("rows_" + t, fresh_int("rows_" + t, 0), lambda i, t=t: Other(w, t, i)) for t in ("before", "after")]
    if not row:
        return others[:1]
    w.cash = {n: fresh_real(n) for n in ("totalAsset", "enabledBalance", "currentBalance")}
    return [others[0], Row(acct=w.as_read(w.account), exchange=NAN, **w.cash), others[1]]


def held(w):
    w.n = fresh_int("held", 0)
    w.seg = Seg("held", w.n, lambda i: Held(w, i))
    return [w.seg]


def ok(w):
    w.tables["assetInfo"] = lambda: Frame(assets(w), True)
    w.tables["positionInfo"] = lambda: Frame(held(w), True)


def check_cash(w, r):
    c = r.getitem("cash")
    v = w.cash
    prove("the total is that of the row", val_eq(c.getitem("total_asset"), b_round(v["totalAsset"], 4)))
    prove("the available cash is the enabled balance", val_eq(c.getitem("available_cash"), b_round(v["enabledBalance"], 4)))
    prove("the locked cash is the rest of the current balance", val_eq(c.getitem("locked_cash"), b_round(
        v["currentBalance"] - v["enabledBalance"], 4)))
    prove("and nothing else", len(r.entries) == 2 and len(c.entries) == 3)


@harness("cash", covers=["reported"])
def cash(I):
    w = World(I)
    ok(w)
    r, e = w.sync()
    prove("complete files are read", e is None, repr(e))
    cover("reported")
    check_cash(w, r)


@harness("positions", covers=["held", "empty", "of another account", "Shenzhen", "Shanghai"])
def positions(I):
    w = World(I)
    ok(w)
    r, e = w.sync()
    prove("complete files are read", e is None, repr(e))
    j = fresh_int("j", 0)
    assume(j < w.n)
    row = w.seg.get(j)
    mine = truth(val_eq(row.text, w.account))
    some_ = truth(not_(val_eq(row.qty, 0)))
    out = []
    O = I.import_module("jqtrade.account.order")
    for part in r.getitem("positions").parts:
        if not isinstance(part, Seg):
            fail("every position stems from a row")
            continue
        p = position(part, w.seg, j)
        if p is not None:
            out.append(part.get(p))
    if not mine or not some_:
        cover("empty" if mine else "of another account")
        prove("nothing else is reported", not out)
        return
    cover("held")
    prove("a holding of the account is reported", len(out) == 1)
    x = out[0]
    sz = truth(row.shenzhen)
    cover("Shenzhen" if sz else "Shanghai")
    prove("in the platform's notation", val_eq(x.getitem("code"), mk([row.digits, ".XSHE" if sz else ".XSHG"])))
    prove("its quantity", val_eq(x.getitem("amount"), row.qty))
    prove("its free quantity", val_eq(x.getitem("available_amount"), ifun("enabled_qty", j)))
    prove("its cost", val_eq(x.getitem("avg_cost"), b_round(row.costPrice, 3)))
    prove("its price", val_eq(x.getitem("last_price"), b_round(row.lastPrice, 3)))
    prove("its value", val_eq(x.getitem("position_value"), b_round(row.mktValue, 4)))
    prove("as a long position", x.getitem("side") is O.OrderSide.long or val_eq(x.getitem("side"), "long"))
    prove("and nothing else", len(x.entries) == 7)


@harness("a security the broker's notation does not know", covers=["refused"])
def unknown(I):
    w = World(I)
    s = fresh_str("symbol", nonempty=True)
    for x in ("SZ", "SH"):
        assume(not_(mkbool(z3.SuffixOf(z3.StringVal(x), s.parts[0].t))))
    ok(w)
    q = fresh_int("quantity", 1)
    w.tables["positionInfo"] = lambda: Frame(held(w) + [Row(
        acct=w.as_read(w.account), symbol=s, currentQty=whole(q), enabledQty=whole(q), costPrice=fresh_real("c"),
        lastPrice=fresh_real("l"), mktValue=fresh_real("v"))], True)
    r, e = w.sync()
    cover("refused")
    prove("it is an error", isinstance(e, Exception))


@harness("no account number", covers=["refused"])
def no_account(I):
    k = choose(3)
    w = World(I, account=(None, "", "")[k])
    ok(w)
    r, e = w.sync()
    cover("refused")
    prove("a missing account number is an error", isinstance(e, Exception))


@harness("a missing file", covers=["assetInfo", "positionInfo"])
def missing(I):
    w = World(I, retries=1)
    ok(w)
    kind = ("assetInfo", "positionInfo")[choose(2)]
    w.disk.missing = (kind,)
    r, e = w.sync()
    cover(kind)
    prove("is an error", isinstance(e, FileNotFoundError))


@harness("a balance file without the account", covers=["other rows", "no rows"])
def absent(I):
    w = World(I, retries=1)
    ok(w)
    k = choose(2)
    w.tables["assetInfo"] = (lambda: Frame(assets(w, False), True)) if k else lambda: Frame([], True)
    r, e = w.sync()
    cover("other rows" if k else "no rows")
    prove("is an error", isinstance(e, Exception))


@harness("incomplete or unreadable files", covers=["read again", "given up", "header only"])
def incomplete(I):
    w = World(I, retries=1)
    ok(w)
    kind = ("assetInfo", "positionInfo")[choose(2)]
    good = w.tables[kind]
    state = {"bad": 0}

    def table():
        c = choose(4)
        if c == 0:
            return good()
        state["bad"] += 1
        if c == 1:
            raise IOError("cannot be read")
        if c == 2:
            cover("header only")
            return Frame([], False)
        return Frame((assets if kind == "assetInfo" else held)(w) + [Row(**{n: "x" if n in ("acct", "symbol", "exchange") else 1.5
                                                                           for n in ALL})], False)
    w.tables[kind] = table
    r, e = w.sync()
    prove("every file is read at most once more than there are retries", w.reads[kind] <= w.retries + 1)
    if state["bad"] > w.retries:
        cover("given up")
        prove("a file that stays incomplete is an error", isinstance(e, Exception))
    else:
        cover("read again")
        prove("a file that is complete in the end is read", e is None, repr(e))
        check_cash(w, r)
