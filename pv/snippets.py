# -*- coding: utf-8 -*-
"""small functions on which pv/crosscheck.py compares the interpreter with CPython: (kinds of the arguments, text)"""
L = ("list", "int")
W = ("list", "word")
SNIPPETS = [
    (["int", "int"], "def f(a, b):\n    return a // b, a % b"),
    (["int", "int"], "def f(a, b):\n    return divmod(a, b)"),
    (["int"], "def f(a):\n    return a // 1000, a % 1000, -a // 7, -a % 7, a // -7, a % -7"),
    (["int", "int"], "def f(a, b):\n    return abs(a - b), max(a, b), min(a, b, 3), a ** 2"),
    (["int", "int"], "def f(a, b):\n    return a < b, a <= b, a == b, a != b, not a, a and b, a or b, 0 < a < b"),
    (["int", "real"], "def f(a, b):\n    return a + b, a * b, a - b, a > b, a == b"),
    (["real"], "def f(a):\n    return int(a), a // 1, bool(a), -a, a * 2"),
    (["real", "real"], "def f(a, b):\n    return a / b if b else None"),
    (["int"], "def f(a):\n    return a / 8, int(a / 2), int(-3.5)"),
    (["int", "bool"], "def f(a, b):\n    x = 1 if b else a\n    return x, a if a > 3 else -a, b and a, b or a"),
    (["bool", "bool"], "def f(a, b):\n    return a and b, a or b, not a, a == b, a is True, int(a), a + b"),
    (["int"], "def f(a):\n    if a > 10:\n        return 'big'\n    elif a == 0:\n        return 'zero'\n    elif a < 0:\n        a = -a\n    return a"),
    (["nat"], "def f(n):\n    s = 0\n    for i in range(n % 6):\n        if i == 3:\n            continue\n        if i == 5:\n            break\n        s += i\n    else:\n        s = -s\n    return s"),
    (["nat"], "def f(n):\n    n = n % 7\n    r = []\n    while n > 0:\n        n -= 2\n        r.append(n)\n    else:\n        r.append('end')\n    return r"),
    (["int", "int"], "def f(a, b):\n    try:\n        x = a // b\n    except ZeroDivisionError:\n        return 'zero'\n    else:\n        x += 1\n    finally:\n        a = 5\n    return x, a"),
    (["int"], "def f(a):\n    def g(x, y=2, *z, **k):\n        return x, y, len(z), sorted(k)\n    return g(a), g(a, 3), g(a, 3, 4, 5), g(x=a), g(a, q=1, p=2)"),
    (["int"], "def f(a):\n    def g():\n        nonlocal a\n        a += 1\n        return a\n    g()\n    return g(), a"),
    (["int"], "class A(object):\n    n = 1\n\n    def __init__(self, x):\n        self.x = x\n\n    @property\n    def y(self):\n        return self.x + self.n\n\n    @y.setter\n    def y(self, v):\n        self.x = v\n\n    @classmethod\n    def make(cls, x):\n        return cls(x + 1)\n\n    @staticmethod\n    def s(x):\n        return x * 2\n\n    def __eq__(self, o):\n        return self.x == o.x\n\n\nclass B(A):\n    n = 10\n\n    def __init__(self, x):\n        super(B, self).__init__(x)\n        self.__z = x\n\n    def z(self):\n        return self.__z\n\n\ndef f(a):\n    b = B.make(a)\n    c = A(a)\n    c.y = 3\n    return b.x, b.y, c.y, B.s(a), b.z(), isinstance(b, A), isinstance(c, B), B(1) == A(1), A(a) == A(3), hasattr(c, 'q'), getattr(c, 'q', 7)"),
    (["int"], "def f(a):\n    class E(Exception):\n        pass\n    try:\n        if a > 0:\n            raise E('x', a)\n        if a < 0:\n            raise ValueError(a)\n    except E as e:\n        return e.args\n    except (ValueError, KeyError) as e:\n        return str(e) == str(a)\n    return None"),
    (["int"], "def f(a):\n    r = []\n    def g():\n        try:\n            r.append(1)\n            return r.append(2)\n        finally:\n            r.append(a)\n    g()\n    return r"),
    (["int"], "def f(a):\n    r = []\n    for i in range(3):\n        try:\n            if i == a % 3:\n                continue\n            r.append(i)\n        finally:\n            r.append('f')\n    return r"),
    (["int", "int", "int"], "def f(a, b, c):\n    return sorted([a, b, c]), sorted([a, b, c], reverse=True), sorted([(a, 1), (b, 0), (c, 2)])"),
    (["small", "small", "small"], "def f(a, b, c):\n    x = [(a, 'a'), (b, 'b'), (c, 'c')]\n    x.sort(key=lambda t: -t[0])\n    return [t[1] for t in x]"),
    (["int", "int"], "def f(a, b):\n    x = [a, b]\n    y = x\n    y.append(1)\n    z = x[:]\n    z += [2]\n    x.insert(0, 9)\n    x.extend([a])\n    return x, y, z, x.index(9), 9 in x, x[-1], x[1:3], x.pop(0), x.pop(), len(x)"),
    (["small"], "def f(a):\n    x = [5, 6, 7]\n    return x[a]"),
    (["word", "word"], "def f(a, b):\n    d = {a: 1, 'ab': 2}\n    d[b] = 3\n    d.setdefault('z', 4)\n    d.update(q=5)\n    return d, a in d, d.get(b), d.get('nope', 0), list(d), len(d), d.pop('ab', None), sorted(d.items())"),
    (["word"], "def f(a):\n    d = {'a': 1, 'b': 2}\n    return d[a]"),
    (["word", "word"], "def f(a, b):\n    d = {'x': 0}\n    d[a] = 1\n    d[b] = 2\n    del d['x']\n    return d, list(d.values()), [k for k in d]"),
    (["word", "word"], "def f(a, b):\n    s = {a, b, 'a'}\n    s.add('z')\n    return len(s), a in s, 'b' in s, sorted(s)"),
    (["small", "small"], "def f(a, b):\n    return {a: 'a', b: 'b'}, {(a, b): 1}.get((0, 0)), a in (1, 2, b)"),
    # strings
    (["str", "str"], "def f(a, b):\n    return a + b, a == b, a < b, len(a), a in b, b.startswith(a), b.endswith(a), not a"),
    (["str"], "def f(a):\n    return a.split(';'), a.split('='), a.strip(), a.split()"),
    (["str"], "def f(a):\n    return a.split('=', 1), a.partition('='), a.rpartition('.'), a.rsplit('.', 1)"),
    (["str"], "def f(a):\n    return a.replace('a', 'bb'), a.upper(), a.lower(), a.find('b'), a.count('a'), a.isdigit()"),
    (["str"], "def f(a):\n    return a[:2], a[1:], a[-1:], a[0:3], a[:-1]"),
    (["str"], "def f(a):\n    return a[0]"),
    (["str"], "def f(a):\n    return int(a)"),
    (["str", "int"], "def f(a, b):\n    return '%s-%d' % (a, b), '{}:{}'.format(a, b), f'{a}/{b}', '%05d' % b, '%02d' % b, str(b)"),
    (["nat"], "def f(b):\n    return '%02d' % b, '{:02d}'.format(b), f'{b:03d}', str(b).zfill(4)"),
    (["str"], "def f(a):\n    k, v = a.split('=')\n    return k.strip(), v"),
    (["str"], "def f(a):\n    r = {}\n    for e in a.split(';'):\n        if not e:\n            continue\n        if '=' not in e:\n            raise ValueError(e)\n        k, v = e.split('=', 1)\n        r[k.strip()] = v.strip()\n    return r"),
    (["str"], "import re\n\n\ndef f(a):\n    m = re.match(r'^(\\d+)\\.(XSHE|XSHG)$', a)\n    return m.groups() if m else None"),
    (["str"], "import re\n\n\ndef f(a):\n    return bool(re.match(r'[a-c]+=', a)), bool(re.search(r'\\d', a)), bool(re.fullmatch(r'(open|close)(\\+\\d{1,2}h)?(\\d{1,2}m)?', a))"),
    (["str", "word"], "def f(a, b):\n    return b.join([a, 'x', b]), ','.join([a]), ''.join([])"),
    # dates
    (["dt", "int"], "def f(d, n):\n    e = d + datetime.timedelta(seconds=n)\n    return e, e - d, e > d, e.date(), e.hour, e.minute, e.second, e.microsecond"),
    (["dt"], "def f(d):\n    return d.replace(hour=3, minute=4), d.replace(microsecond=0), d.strftime('%Y-%m-%d %H:%M:%S'), d.date().strftime('%Y%m%d')"),
    (["dt", "dt"], "def f(a, b):\n    return a < b, a == b, (a - b).total_seconds() > 0, (a - b).days, max(a, b), a.date() == b.date(), a.time() < b.time()"),
    (["date", "int"], "def f(d, n):\n    n = n % 1000\n    e = d + datetime.timedelta(days=n)\n    return e, e - d, (e - d).days, e >= d, e.year, e.month, e.day, e.weekday()"),
    (["date"], "def f(d):\n    return datetime.datetime.combine(d, datetime.time(9, 30)), datetime.datetime(d.year, d.month, d.day), d.strftime('%Y%m%d'), str(d), d.isoformat()"),
    (["dt"], "def f(d):\n    return datetime.datetime.strptime(d.strftime('%Y-%m-%d %H:%M:%S'), '%Y-%m-%d %H:%M:%S')"),
    (["nat", "nat"], "def f(h, m):\n    return datetime.datetime(2024, 3, 5, h, m)"),
    # loops over sequences
    ([L], "def f(x):\n    r = []\n    for e in x:\n        r.append(e * 2)\n    return r"),
    ([L], "def f(x):\n    return [e + 1 for e in x if e > 0]"),
    ([L], "def f(x):\n    r = []\n    for i, e in enumerate(x):\n        if e % 2 == 0:\n            continue\n        r.append((i, e))\n    return r"),
    ([L], "def f(x):\n    s = 0\n    for e in x:\n        s += e\n    return s"),
    ([L], "def f(x):\n    return sum(x), len(x), bool(x)"),
    ([L], "def f(x):\n    n = 0\n    for e in x:\n        if e > 5:\n            n += 1\n    return n"),
    ([L], "def f(x):\n    for e in x:\n        if e == 7:\n            return 'found'\n    return 'none'"),
    ([L], "def f(x):\n    last = None\n    for e in x:\n        last = e\n    return last"),
    ([L], "def f(x):\n    m = 0\n    for e in x:\n        if e > m:\n            m = e\n    return m >= 0, all(e <= m for e in x)"),
    ([L], "def f(x):\n    return any(e > 3 for e in x), all(e > 3 for e in x)"),
    ([L], "def f(x):\n    return max(x)"),
    ([L, "int"], "def f(x, a):\n    return a in x, x == [a], x + [a]"),
    ([L, "int"], "def f(x, a):\n    for e in x:\n        if e < 0:\n            raise ValueError(e)\n        if e == a:\n            break\n    else:\n        return 'no'\n    return 'yes'"),
    ([L], "def f(x):\n    r = []\n    for e in x:\n        try:\n            r.append(10 // e)\n        except ZeroDivisionError:\n            r.append(None)\n    return r"),
    ([L], "def f(x):\n    a, b = [], []\n    for e in x:\n        (a if e > 0 else b).append(e)\n    return a, b"),
    ([L], "def f(x):\n    r = []\n    for e in x:\n        r.append(e)\n        r.append(-e)\n    return r"),
    ([L], "def f(x):\n    x = list(x)\n    x.reverse()\n    return x"),
    ([L], "def f(x):\n    return list(reversed(x)), x[::-1]"),
    ([L], "def f(x):\n    return sorted(x)"),
    ([L], "def f(x):\n    return [e for e in map(lambda v: v + 1, x)], list(filter(None, x))"),
    ([L], "def f(x):\n    return list(zip(x, range(10)))"),
    ([L], "def f(x):\n    def g():\n        for e in x:\n            if e:\n                yield e\n    return list(g())"),
    ([W], "def f(x):\n    d = {}\n    for e in x:\n        d[e] = len(e)\n    return d"),
    ([W], "def f(x):\n    d = {}\n    for i, e in enumerate(x):\n        d[e] = i\n    return d.get('a'), d.get('ab', -1), 'b' in d"),
    ([W], "def f(x):\n    d = {}\n    for i, e in enumerate(x):\n        d.setdefault(e, i)\n    return d.get('a'), d.get('ab', -1), 'b' in d"),
    ([W], "def f(x):\n    d = {e: 1 for e in x if e}\n    return len(d) <= len(x), '' in d, 'a' in d"),
    ([W], "def f(x):\n    d = {'a': 0}\n    for e in x:\n        if e in d:\n            d[e] = d[e] + 1\n    return d"),
    ([W], "def f(x):\n    d = {'a': 0, 'b': 0}\n    for e in x:\n        d.pop(e, None)\n    return d"),
    ([W], "def f(x):\n    s = set()\n    for e in x:\n        s.add(e)\n    return 'a' in s, 'b' in s"),
    ([W], "def f(x):\n    return ','.join(x)"),
    ([W], "def f(x):\n    return [e.upper() for e in x], [e + '!' for e in x if e != 'a']"),
    ([W], "def f(x):\n    n = 0\n    for e in x:\n        n += len(e)\n        if n > 3:\n            break\n    return n"),
    ([L], "def f(x):\n    i = 0\n    r = []\n    while i < len(x):\n        r.append(x[i])\n        i += 1\n    return r"),
    ([L], "def f(x):\n    prev = None\n    for e in x:\n        if prev is not None and e < prev:\n            return False\n        prev = e\n    return True"),
    ([L], "def f(x):\n    state = 'a'\n    for e in x:\n        if state == 'a' and e > 0:\n            state = 'b'\n        elif state == 'b' and e < 0:\n            state = 'c'\n    return state"),
    ([L], "def f(x):\n    t = 0\n    for e in x:\n        t = t * 2 + e\n    return t"),
    ([L], "class C(object):\n    def __init__(self):\n        self.n = 0\n        self.seen = []\n\n    def add(self, e):\n        self.n += 1\n        self.seen.append(e)\n\n\ndef f(x):\n    c = C()\n    for e in x:\n        c.add(e)\n    return c.n, c.seen"),
    ([L], "class C(object):\n    def __init__(self, v):\n        self.v = v\n\n\ndef f(x):\n    cs = [C(e) for e in x]\n    for c in cs:\n        c.v += 1\n    return [c.v for c in cs]"),
    ([L, L], "def f(x, y):\n    r = []\n    for e in x:\n        for g in y:\n            if e == g:\n                r.append(e)\n    return r"),
    ([L, L], "def f(x, y):\n    return x + y, [e for e in x if e in y]"),
    ([L], "def f(x):\n    x.append(1)\n    y = x.copy()\n    y.clear()\n    return x, y"),
    ([L], "def f(x):\n    r = x[:2]\n    for e in r:\n        if e > 3:\n            r = [0]\n    return r"),
    ([L], "def f(x):\n    a, *b = x\n    return a, b"),
    ([L], "def f(x):\n    x[0] = 3\n    return x"),
    ([L], "def f(x):\n    return x[0], x[-1]"),
    ([L], "def f(x):\n    x.remove(7)\n    return x"),
    (["word", "word"], "def f(a, b):\n    d = {a: 1, 'ab': 2}\n    d[b] = 3\n    d.setdefault('z', 4)\n    d.update(q=5)\n    return d, a in d, d.get(b), d.get('nope', 0), list(d), len(d)"),
    (["word", "word"], "def f(a, b):\n    d = {a: 1, 'ab': 2}\n    x = d.pop('ab', None)\n    d[b] = x\n    return d, list(d.items())"),
    (["word", "word"], "def f(a, b):\n    s = {a, b, 'a'}\n    s.add('z')\n    s.discard('key')\n    return len(s), a in s, 'b' in s"),
    (["str", "str"], "def f(a, b):\n    return a + b, a == b, len(a), a in b, b.startswith(a), b.endswith(a), not a"),
    (["str"], "def f(a):\n    return a.split(';')"),
    (["str"], "def f(a):\n    return a.split('=')"),
    (["str"], "def f(a):\n    return a.split('=', 1)"),
    (["str"], "def f(a):\n    return a.partition('=')"),
    (["str"], "def f(a):\n    return a.rsplit('.', 1)"),
    (["str"], "def f(a):\n    return a.rpartition('.')"),
    (["str"], "def f(a):\n    x, y = a.split('.')\n    return x, y"),
    (["str"], "def f(a):\n    return a.upper()"),
    (["str"], "def f(a):\n    return a.find('b'), a.find('=', 1)"),
    (["str"], "def f(a):\n    return a.count('a')"),
    (["str"], "def f(a):\n    return a.isdigit()"),
    (["str"], "def f(a):\n    return a[:2]"),
    (["str"], "def f(a):\n    return a[1:]"),
    (["str"], "def f(a):\n    return a[-1:], a[:-1]"),
    (["str"], "import re\n\n\ndef f(a):\n    m = re.match(r'^([0-9]+)[.](XSHE|XSHG)$', a)\n    return m.groups() if m else None"),
    (["str"], "import re\n\n\ndef f(a):\n    return bool(re.match('[a-c]+=', a))"),
    (["str"], "import re\n\n\ndef f(a):\n    return bool(re.search('[0-9]', a))"),
    (["str"], "import re\n\n\ndef f(a):\n    m = re.fullmatch('(open|close)([+][0-9]{1,2}h)?([0-9]{1,2}m)?', a)\n    return m.group(1) if m else 'no'"),
    (["word", "int"], "def f(a, b):\n    return '%s-%d' % (a, b)"),
    (["word", "int"], "def f(a, b):\n    return '{}:{}'.format(a, b), f'{a}/{b}', str(b) + a"),
    (["int"], "def f(b):\n    return '%05d' % b, '%02d' % b"),
    (["word", "word"], "def f(a, b):\n    return [x for x in (a, b, 'a') if x != b], {a: b}.get(b), (a, b) == (b, a), [a] == [b]"),
    (["word", "word"], "def f(a, b):\n    return a or b or 'none', a and b, 'x' if a else 'y', a is None, None or a"),
    ([L], "def f(x):\n    def g():\n        for e in x:\n            yield e + 1\n    r = []\n    for v in g():\n        r.append(v)\n    return r"),
    ([L], "def f(x):\n    def g():\n        for e in x:\n            if e > 1:\n                yield e\n            yield -e\n    return [v * 2 for v in g()]"),
    ([L], "def f(x):\n    def g():\n        for e in x:\n            yield e\n        yield 7\n    return sum(g())"),
    ([L], "def f(x):\n    r = [e for e in x]\n    r.append(5)\n    return [v for v in r if v != 7], len(r)"),
    ([L], "def f(x):\n    a = {}\n    for i, e in enumerate(x):\n        a[i] = e\n    return a.get(0), a.get(2, 'no'), len(a)"),
    ([L], "def f(x):\n    d = {1: 'one', 7: 'seven'}\n    r = []\n    for e in x:\n        if e not in d:\n            continue\n        r.append(d[e])\n    return r"),
    ([L, "int"], "def f(x, a):\n    return a in x"),
    ([L, "int"], "def f(x, a):\n    return x + [a], [a] + x, [a] + x + [a]"),
    ([L, "small"], "def f(x, a):\n    return x[a]"),
    ([L, "nat"], "def f(x, a):\n    return x[:a]"),
    ([L, "nat"], "def f(x, a):\n    return x[a:]"),
    ([L], "def f(x):\n    n = 0\n    ok = True\n    for e in x:\n        n += 1\n        if e < 0:\n            ok = False\n    return n, ok"),
    ([L], "def f(x):\n    seen = False\n    for e in x:\n        seen = seen or e == 7\n    return seen"),
    ([L], "def f(x):\n    while x:\n        e = x.pop(0)\n        if e > 3:\n            return 'big'\n    return 'none'"),
    ([L], "def f(x):\n    it = iter(x)\n    a = next(it, None)\n    return a, [e for e in it]"),
    ([L], "def f(x):\n    r = []\n    try:\n        for e in x:\n            if e == 7:\n                raise KeyError(e)\n            r.append(e)\n    except KeyError:\n        return 'seven'\n    return r"),
    ([L], "def f(x):\n    for i, e in enumerate(x):\n        if e > 50:\n            return i\n    return -1"),
    ([L], "def f(x):\n    return [(i, e) for i, e in enumerate(x)], [i for i in range(len(x))]"),
    ([W], "def f(x):\n    groups = {'a': [], 'b': []}\n    for e in x:\n        if e in groups:\n            groups[e].append(e)\n    return groups"),
    ([("pair", "word", "int")], "def f(x):\n    k, v = x\n    return {k: v}"),
    ([("list", ("pair", "word", "int"))], "def f(x):\n    d = dict(x)\n    return d, [k for k, v in x if v > 0], {k: v for k, v in d.items() if v}"),
    ([("opt", "int"), ("opt", "word")], "def f(a, b):\n    return a or 0, b or '', a is None, b is not None, [a, b]"),
    ([("dict", "word", "int")], "def f(d):\n    return {k: v + 1 for k, v in d.items()}, sum(d.values()), max(d.values(), default=0), [v for v in d.values() if v > 2]"),
    (["bool", "int"], "def f(a, b):\n    return a + b, a * 3, a < 1, a > b, b - a, sum([a, a]), int(a)"),
    (["dt"], "def f(d):\n    return d.timestamp() >= 0, d.replace(hour=0, minute=0, second=0, microsecond=0), d.time()  == datetime.time(9, 30)"),
    (["dt", "nat"], "def f(d, n):\n    return [d + datetime.timedelta(minutes=i) for i in range(n % 4)]"),
    (["date"], "def f(d):\n    return d.replace(day=1), (d - datetime.date(2000, 1, 1)).days"),
    (["int"], "def f(n):\n    t = datetime.timedelta(seconds=n)\n    return t.days, t.seconds, t.total_seconds(), t > datetime.timedelta(0)"),
]
