'''Drives a GroupedList or a BibleRangeList through a history of operations next to a model: a list of groups of nodes.'''
from .core import Violation
from .real import GroupedList, GroupViewError, BibleRange, BibleRangeList, BibleVerse, BOOK, ALL, rng

KEYS = 12


class Item:
    '''A list item with its own identity; ordered and compared by key only.'''
    __slots__ = ("key", "uid")

    def __init__(self, key, uid):
        self.key, self.uid = key, uid

    def __eq__(self, o):
        return self.key == o.key if isinstance(o, Item) else NotImplemented

    def __hash__(self):
        return hash(self.key)

    def __lt__(self, o):
        return self.key < o.key

    def __le__(self, o):
        return self.key <= o.key

    def __gt__(self, o):
        return self.key > o.key

    def __ge__(self, o):
        return self.key >= o.key

    def __repr__(self):
        return f"{self.key}#{self.uid}"


class Node:
    '''A place in the model list.'''
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class ViewModel:
    def __init__(self, view, head):
        self.view, self.head = view, head
        self.must = True            # the view has to be usable
        self.dead = False           # its group is gone: nothing it may show


def gen_ops(r, n, views):
    ops = []
    kinds = ["append"] * 5 + ["prepend"] * 4 + ["insert"] * 7 + ["extend"] * 2 + ["append_group"] * 4 + ["iadd"] + \
        ["igroup"] * 5 + ["pop"] * 5 + ["del"] * 4 + ["remove"] * 3 + ["set"] * 4 + ["clear_groups"] + ["reverse"] + \
        ["sort"] + ["self"] + ["copy"] + ["bad"] * 2 + ["query"] * 4
    if r.random() < 0.15:
        kinds += ["clear"]
    if views:
        kinds += ["view"] * 8 + ["vset"] * 3 + ["vdel"] * 5
    if r.random() < 0.3:            # mostly removing
        kinds += ["pop"] * 8 + ["del"] * 5 + (["vdel"] * 8 if views else [])
    if r.random() < 0.5:            # start with something in the list
        for _ in range(r.randint(1, 4)):
            ops.append(["append_group", [r.randrange(KEYS) for _ in range(r.randint(1, 5))]])
    if r.random() < 0.04:
        for _ in range(r.randint(1, 20)):
            ops.append(["append_group", [r.randrange(KEYS) for _ in range(r.randint(1, 20))]])
    for _ in range(n):
        k = r.choice(kinds)
        key, pos = r.randrange(KEYS), r.randrange(1 << 16)
        if k in ("append", "prepend"):
            ops.append([k, key, r.random() < 0.35])
        elif k in ("insert", "set"):
            ops.append([k, pos, key])
        elif k in ("extend", "append_group", "iadd"):
            ops.append([k, [r.randrange(KEYS) for _ in range(r.choice([0, 1, 2, 3, 5]))]])
        elif k == "pop":
            ops.append([k, None if r.random() < 0.4 else pos])
        elif k == "remove":
            ops.append([k, key])
        elif k in ("vset", "vdel"):
            ops.append([k, r.randrange(1 << 16), pos, key])
        elif k == "self":
            ops.append([k, r.choice(["extend", "append_group", "iadd", "extend_group", "append_group_group"]), pos])
        elif k == "bad":
            ops.append([k, r.choice(["index", "type", "pop_empty", "remove", "partial"]), pos])
        else:
            ops.append([k, pos])
    return ops


class Driver:
    def __init__(self, cls, m, focus):
        self.cls, self.m, self.focus = cls, m, focus
        self.uid = 0
        self.groups = []            # model: list of lists of Node
        self.views = []
        self.log = []
        self.real = GroupedList() if cls == "g" else BibleRangeList()
        self.names = {}
        self.count = 0

    # -- items
    def new(self, key):
        self.uid += 1
        if self.cls == "g":
            return Item(key, self.uid)
        v = BibleVerse(BOOK["Mark"], 1 + key % 4, 1 + key // 4, flags=ALL)
        e = BibleVerse(BOOK["Mark"], 5, 1 + key // 4, flags=ALL)
        return BibleRange(start=v, end=e, flags=ALL)

    def key(self, x):
        return x.key if self.cls == "g" else x.start.chap_num - 1 + 4 * (x.start.verse_num - 1)

    def same(self, a, b):
        return a is b if self.cls == "g" else rng(a) == rng(b)

    def nodes(self):
        return [x for g in self.groups for x in g]

    def values(self):
        return [x.value for x in self.nodes()]

    def where(self, i):
        '''(group index, index in group) of flat index i'''
        for gi, g in enumerate(self.groups):
            if i < len(g):
                return gi, i
            i -= len(g)
        raise AssertionError

    # -- model edits
    def _del(self, node):
        for gi, g in enumerate(self.groups):
            if node in g:
                if g[0] is node:
                    for v in self.views:
                        if v.head is node:
                            v.must = False
                g.remove(node)
                if not g:
                    del self.groups[gi]
                return
        raise AssertionError

    def _heads_changed(self):
        heads = {id(g[0]) for g in self.groups}
        for v in self.views:
            if id(v.head) not in heads:
                v.must = False

    def _one_group(self):
        n = self.nodes()
        self.groups = [n] if n else []
        for v in self.views:
            v.must = False

    def fail(self, what):
        raise Violation(f"{what}\n  history: {self.log}")

    def raises(self, exc, fn, what):
        self.m.ev("oracle_decisions")
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.fail(f"{what} raised {type(e).__name__}, not {exc}")
        self.fail(f"{what} raised nothing, not {exc}")

    def step(self, op):
        real, m = self.real, self.m
        k = op[0]
        n = len(self.nodes())
        self.log.append(op)
        m.ev("op_" + k)
        if k == "append":
            x = self.new(op[1])
            ret = real.append(x, new_group=True) if op[2] else real.append(x)
            if op[2] or not self.groups:
                self.groups.append([])
            self.groups[-1].append(Node(x))
        elif k == "prepend":
            x = self.new(op[1])
            real.prepend(x, new_group=True) if op[2] else real.prepend(x)
            if op[2] or not self.groups:
                self.groups.insert(0, [])
            self.groups[0].insert(0, Node(x))
            self._heads_changed()
        elif k == "insert":
            x = self.new(op[2])
            i = op[1] % (2 * n + 1) - n         # -n .. n
            real.insert(i, x)
            i = i + n if i < 0 else i
            if not n:
                self.groups.append([Node(x)])
            elif i == n:
                self.groups[-1].append(Node(x))
            else:
                gi, j = self.where(i)
                self.groups[gi].insert(j, Node(x))
            self._heads_changed()
        elif k in ("extend", "append_group", "iadd"):
            xs = [self.new(y) for y in op[1]]
            src = xs if op[1][:1] != [3] else iter(xs)
            self._add_many(k, src, xs)
        elif k == "self":
            if op[1] in ("extend", "append_group", "iadd"):
                if n < 200:
                    self._add_many(op[1], real, self.values())
            elif self.groups and n < 200:
                gi = op[2] % len(self.groups)
                self._add_many(op[1][:-6], real.groups[gi], [x.value for x in self.groups[gi]])
        elif k == "igroup":
            if n:
                i = op[1] % (2 * n) - n
                real.insert_group_at(i)
                gi, j = self.where(i % n)
                if j:
                    g = self.groups[gi]
                    self.groups[gi:gi + 1] = [g[:j], g[j:]]
        elif k in ("pop", "del"):
            if n:
                if op[1] is None:
                    i, got = n - 1, real.pop()
                else:
                    i = op[1] % (2 * n) - n
                    if k == "pop":
                        got = real.pop(i)
                    else:
                        del real[i]
                    i %= n
                node = self.nodes()[i]
                if k == "pop":
                    m.ev("oracle_decisions")
                    if not self.same(got, node.value):
                        self.fail(f"pop({op[1] and i}) returned {got!r}, not {node.value!r}")
                self._del(node)
        elif k == "remove":
            x = self.new(op[1])
            hit = [y for y in self.nodes() if y.value == x]
            if hit:
                real.remove(x)
                self._del(hit[0])
            else:
                self.raises(ValueError, lambda: real.remove(x), f"remove() of the missing {x!r}")
        elif k == "set":
            if n:
                i = op[1] % (2 * n) - n
                x = self.new(op[2])
                real[i] = x
                self.nodes()[i].value = x
        elif k == "clear":
            real.clear()
            self.groups = []
            for v in self.views:
                v.must, v.dead = False, True
        elif k == "clear_groups":
            real.clear_groups()
            self._one_group()
        elif k == "reverse":
            real.reverse()
            self._one_group()
            for g in self.groups:
                g.reverse()
        elif k == "sort":
            real.sort() if self.cls == "g" else real.sort(regroup=False)
            self._one_group()
            for g in self.groups:
                g.sort(key=lambda x: x.value)
        elif k == "copy":
            if self.cls == "r":
                c = BibleRangeList(real)
            else:
                c = GroupedList(real.to_nested_lists())
            m.ev("oracle_decisions")
            if not (c == real and real == c and not (c != real)):
                self.fail("a copy differs from its original")
            if self.cls == "r":
                c.append(self.new(0))           # must not show in the original
            else:
                c.clear()
        elif k == "bad":
            self._bad(op)
        elif k == "query":
            self._query(op[1])
        elif k == "view":
            if self.groups:
                gi = op[1] % (2 * len(self.groups)) - len(self.groups)
                view = real.groups[gi]
                self.views.append(ViewModel(view, self.groups[gi][0]))
                if len(self.views) > 12:
                    self.views.pop(0)
        elif k in ("vset", "vdel"):
            self._through_view(op)
        else:
            raise AssertionError(k)

    def _add_many(self, k, src, xs):
        if k == "extend":
            self.real.extend(src)
        elif k == "append_group":
            self.real.append_group(src)
        else:
            before = self.real
            self.real += src
            if self.real is not before:
                self.fail("+= replaced the list")
        if not xs:
            return
        if k == "append_group" or not self.groups:
            self.groups.append([])
        self.groups[-1] += [Node(x) for x in xs]

    def _bad(self, op):
        real, n = self.real, len(self.nodes())
        x = self.new(1)
        if op[1] == "index":
            for i in (n, n + op[2] % 5, -n - 1, -n - 1 - op[2] % 5):
                self.raises(IndexError, lambda: real[i], f"[{i}] of {n} items")
                self.raises(IndexError, lambda: real.__setitem__(i, x), f"[{i}] = of {n} items")
                self.raises(IndexError, lambda: real.__delitem__(i), f"del [{i}] of {n} items")
                self.raises(IndexError, lambda: real.pop(i), f"pop({i}) of {n} items")
                self.raises(IndexError, lambda: real.insert_group_at(i), f"insert_group_at({i}) of {n} items")
            for i in (n + 1 + op[2] % 5, -n - 1 - op[2] % 5):      # a list takes any position; refusing it is all right
                twin = type(real)([[y.value for y in g] for g in self.groups])
                vals = self.values()
                try:
                    twin.insert(i, x)
                    vals.insert(i, x)
                except IndexError:
                    m = self.m
                    m.ev("insert_refused")
                self.eqs(list(twin), vals, f"insert({i}) of {n} items")
                self.eqs(list(reversed(twin)), vals[::-1], f"insert({i}) of {n} items, reversed")
            g = len(self.groups)
            for i in (g, -g - 1):
                self.raises(IndexError, lambda: real.groups[i], f"groups[{i}] of {g} groups")
        elif op[1] == "type":
            if self.cls == "r":
                y = "Mark 2:3"
                self.raises(TypeError, lambda: real.append(y), "append(str)")
                self.raises(TypeError, lambda: real.append(y, new_group=True), "append(str, new_group)")
                self.raises(TypeError, lambda: real.prepend(y), "prepend(str)")
                self.raises(TypeError, lambda: real.insert(0, y), "insert(0, str)")
                if n:
                    self.raises(TypeError, lambda: real.__setitem__(0, y), "[0] = str")
                    self.raises(TypeError, lambda: real.groups[0].__setitem__(0, y), "groups[0][0] = str")
                self.raises(TypeError, lambda: real.append_group([y]), "append_group([str])")
                self.raises(TypeError, lambda: real.extend([y]), "extend([str])")
                self.raises((TypeError, ValueError), lambda: real.remove(y), "remove(str)")
                self.raises((TypeError, ValueError), lambda: real.index(y), "index(str)")
        elif op[1] == "partial":        # the source fails part of the way: all before it was added, or nothing
            k = ("extend", "append_group", "iadd")[op[2] % 3]
            xs = [self.new(1 + i) for i in range(op[2] // 3 % 4)]

            def source():
                yield from xs
                if self.cls == "r" and op[2] % 2:
                    yield "Mark 2:3"            # not a range
                else:
                    raise LookupError("the source failed")

            def add():
                if k == "iadd":
                    real.__iadd__(source())
                else:
                    getattr(real, k)(source())
            self.raises((TypeError, LookupError), add, k + "() from a source that fails")
            added = len(real) - n
            self.m.ev("failing_sources")
            if added not in (0, len(xs)):
                self.fail(f"{k}() from a source that fails after {len(xs)} items added {added}")
            if added:
                if k == "append_group" or not self.groups:
                    self.groups.append([])
                self.groups[-1] += [Node(x) for x in xs]
        elif op[1] == "pop_empty":
            if not n:
                self.raises(IndexError, lambda: real.pop(), "pop() of an empty list")
        else:
            y = Item(99, 0) if self.cls == "g" else BibleRange(BOOK["Jude"])
            self.raises(ValueError, lambda: real.remove(y), "remove() of a missing item")
            self.raises(ValueError, lambda: real.index(y), "index() of a missing item")

    def _query(self, pos):
        real, vals, m = self.real, self.values(), self.m
        n = len(vals)
        x = vals[pos % n] if n and pos % 3 else self.new(pos % KEYS)
        m.ev("oracle_decisions", 4)
        if real.count(x) != vals.count(x):
            self.fail(f"count({x!r}) is {real.count(x)}, not {vals.count(x)}")
        if self.cls == "g" and (x in real) != (x in vals):
            self.fail(f"{x!r} in list is {x in real}")
        if x in vals:
            if real.index(x) != vals.index(x):
                self.fail(f"index({x!r}) is {real.index(x)}, not {vals.index(x)}")
            lo = (pos // 7) % n
            hi = lo + 1 + (pos // 11) % (n - lo)
            want = [i for i in range(lo, hi) if vals[i] == x]
            for a, b in ((lo - n, hi), (lo, hi - n), (lo - n, hi - n)):        # the same, counted from the end
                if hi == n and b <= 0:
                    continue
                try:
                    got = real.index(x, a, b)
                except ValueError:
                    got = None
                if got != (want[0] if want else None):
                    self.fail(f"index({x!r}, {a}, {b}) of {n} items is {got}, not {want[:1]}")
            if want:
                if real.index(x, lo, hi) != want[0]:
                    self.fail(f"index({x!r}, {lo}, {hi}) is {real.index(x, lo, hi)}, not {want[0]}")
                if hi == n and real.index(x, lo) != want[0]:
                    self.fail(f"index({x!r}, {lo}) is wrong")
            else:
                self.raises(ValueError, lambda: real.index(x, lo, hi), f"index({x!r}, {lo}, {hi})")
        else:
            self.raises(ValueError, lambda: real.index(x), f"index({x!r})")
        if not real.equals(vals, compare_groups=False):
            self.fail("equals(the same items, compare_groups=False) is False")
        if n and real.equals(vals[:-1], compare_groups=False):
            self.fail("equals(fewer items) is True")
        twin = type(real)([[x.value for x in g] for g in self.groups])
        if not (real == twin and twin == real) or real != twin:
            self.fail("== to a list with the same items and groups is False")
        if real == vals or not real != vals:
            self.fail("== to a plain list is True")
        if n:
            i = pos % n
            y = self.new((self.key(vals[i]) + 1 + pos % (KEYS - 1)) % KEYS)
            twin[i] = y
            for o in (twin, vals[:i] + [y] + vals[i + 1:]):
                if real.equals(o, compare_groups=False):
                    self.fail(f"equals(other item {i}, compare_groups=False) is True")
            if real == twin or twin == real or not real != twin:
                self.fail(f"== to a list with another item {i} is True")
            twin[i] = vals[i]
            m.ev("unequal_items")
        for i in range(len(self.groups) - 1):           # as many groups, with another boundary
            a, b = self.groups[i], self.groups[i + 1]
            if len(a) > 1 or len(b) > 1:
                ab = [x.value for x in a + b]
                k = len(a) - 1 if len(a) > 1 else 2
                gs = self.nested()
                other = type(real)(gs[:i] + [ab[:k], ab[k:]] + gs[i + 2:])
                m.ev("moved_boundary")
                if real == other or other == real:
                    self.fail("== to a list with as many groups and another boundary is True")
                if not real.equals(other, compare_groups=False):
                    self.fail("equals(compare_groups=False) to a list with another boundary is False")
                break
        if n < 30 and pos % 4 == 0:
            self.text(real.groups, vals, "the groups")
            if self.cls == "g":
                self.text(real, vals, "a list")
        if n > 1:
            i = 1 + pos % (n - 1)
            if self.where(i)[1] == 0:
                other = type(real)([vals])
            else:
                twin.insert_group_at(i)
                other = twin
            if real == other:
                self.fail("== to a list with other groups is True")
            if not real.equals(other, compare_groups=False):
                self.fail("equals(compare_groups=False) to a list with other groups is False")

    # -- views
    def shown(self, v):
        '''What a view shows: None if it raises GroupViewError, else the index of the model group.'''
        try:
            got = list(v.view)
        except GroupViewError:
            self.m.ev("stale_view_raised")
            if v.must:
                self.fail(f"a view of the group starting with {v.head.value!r}, still the start of a group, raised "
                          f"GroupViewError")
            for f in (lambda: v.view[0], lambda: len(v.view), lambda: v.view.__setitem__(0, v.head.value),
                      lambda: v.view.__delitem__(0)):
                self.raises(GroupViewError, f, "another use of a stale view")
            return None
        if v.dead:
            self.fail(f"a view of a cleared list shows {got}")
        if v.must:
            gi = next(i for i, g in enumerate(self.groups) if g[0] is v.head)
            cand = [gi]
            self.m.ev("live_view_used")
        else:
            cand = range(len(self.groups))
            self.m.ev("stale_view_shows_a_group")
        for gi in cand:
            g = [x.value for x in self.groups[gi]]
            if len(g) == len(got) and all(self.same(a, b) for a, b in zip(g, got)):
                break
        else:
            self.fail(f"a view (obtained for the group of {v.head.value!r}) shows {got}, which is not "
                      f"{'its' if v.must else 'a'} group: {self.nested()}")
        g = self.groups[gi]
        if len(v.view) != len(g):
            self.fail("len() of a view is wrong")
        n = len(g)
        for j in range(n) if n < 12 else (0, 1, n // 3, n // 2, n - 2, n - 1):
            if not self.same(v.view[j], g[j].value):
                self.fail(f"item {j} of a view is wrong")
        self.raises(IndexError, lambda: v.view[len(g)], "index beyond a view")
        self.count += 1
        if self.count % 4 == 0:
            x = g[0].value
            for j in (n, n + 1 + self.count % 3):
                self.raises(IndexError, lambda: v.view.__setitem__(j, x), f"[{j}] = through a view of {n} items")
                self.raises(IndexError, lambda: v.view.__delitem__(j), f"del [{j}] through a view of {n} items")
            j = -1 - self.count % (n + 2)
            try:                    # views refuse negative indices; counting from the end would be all right too
                got = v.view[j]
            except IndexError:
                self.m.ev("negative_view_index_refused")
            else:
                if -j > n or not self.same(got, g[j].value):
                    self.fail(f"item {j} of a view of {n} items is {got!r}")
            self.text(v.view, [y.value for y in g], "a view")
        return gi

    def text(self, obj, values, what):
        '''str() and repr() work and mention the items in order.'''
        self.m.ev("written_as_text")
        for f in (str, repr):
            t = f(obj)
            at = 0
            for x in values:
                at = t.find(repr(x), at)
                if at < 0:
                    self.fail(f"{f.__name__}() of {what} of {values} is {t!r}")
                at += len(repr(x))

    def _through_view(self, op):
        if not self.views:
            return
        v = self.views[op[1] % len(self.views)]
        gi = self.shown(v)
        if gi is None:
            return
        if self.cls == "r" and not v.must:
            return              # which of several equal groups it shows cannot be told
        g = self.groups[gi]
        j = op[2] % len(g)
        if op[0] == "vset":
            x = self.new(op[3])
            v.view[j] = x
            g[j].value = x
            self.m.ev("written_through_view")
        else:
            del v.view[j]
            self._del(g[j])
            self.m.ev("deleted_through_view")

    def nested(self):
        return [[x.value for x in g] for g in self.groups]

    def eqs(self, got, want, what):
        self.m.ev("oracle_decisions")
        if len(got) != len(want) or not all(self.same(a, b) for a, b in zip(got, want)):
            self.fail(f"{what() if callable(what) else what}: {got!r}, not {want!r}")

    def check_flat(self):
        real, vals = self.real, self.values()
        n = len(vals)
        if len(real) != n:
            self.fail(f"len() is {len(real)}, not {n}")
        if bool(real) != bool(n):
            self.fail("truth value is wrong")
        self.eqs(list(real), vals, "items")
        self.eqs(list(reversed(real)), vals[::-1], "reversed items")
        step = 1 if n < 25 else 1 + n // 7
        for i in range(0, n, step):
            self.eqs([real[i], real[i - n]], [vals[i], vals[i]], f"items [{i}] and [{i - n}]")
        if n:
            self.eqs([real[n - 1], real[-1]], [vals[-1]] * 2, "last item")

    def check_groups(self):
        real = self.real
        gs = real.groups
        if len(gs) != len(self.groups):
            self.fail(f"there are {len(gs)} groups, not {len(self.groups)}: {self.nested()}")
        got = [list(g) for g in gs]
        if len(got) != len(self.groups):
            self.fail(f"iteration gives {got}, not {self.nested()}")
        for a, b in zip(got, self.groups):
            self.eqs(a, [x.value for x in b], lambda: f"groups of {self.nested()}")
        G = len(got)
        for i in range(G) if G < 12 else (0, 1, G // 2, G - 1):
            want = [x.value for x in self.groups[i]]
            self.eqs(list(gs[i]), want, f"groups[{i}]")
            self.eqs(list(gs[i - G]), want, f"groups[{i - G}]")
        nested = real.to_nested_lists()
        for a, b in zip(nested, self.groups, strict=True):
            self.eqs(a, [x.value for x in b], "to_nested_lists()")
        for v in self.views:
            self.shown(v)
