"""Random histories of Python RangeSet objects for spec/TraceRangeSet.tla (the same specification that judges the C++ class)."""
import copy, json, pickle, random, sys
import lsst.sphgeom as sg

K = 14
M = 2 ** 64


def big(v):
    if v == 0:
        return [0]
    r = [1]
    while v:
        r.append(v & 32767)
        v >>= 15
    return r


def breakpoints(g):
    kind = g.randrange(7)
    if kind == 0:
        return list(range(K))
    if kind == 1:
        return [0] + [M - (K - i) for i in range(1, K)]
    if kind == 2:
        return [i << 60 for i in range(K)]
    s = set()
    while len(s) < K - 1:
        v = g.getrandbits(64) >> g.randrange(64)
        if g.random() < 0.3:
            v = M - 1 - v
        if 0 < v < M:
            s.add(v)
            if g.random() < 0.5 and len(s) < K - 1 and v + 1 < M:
                s.add(v + 1)
    return [0] + sorted(s)


def main():
    out, seed, n, length = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    g = random.Random(seed)
    ops = {"and": (lambda a, b: a & b, "intersection", "__iand__"), "or": (lambda a, b: a | b, "union", "__ior__"),
           "sub": (lambda a, b: a - b, "difference", "__isub__"), "xor": (lambda a, b: a ^ b, "symmetricDifference", "__ixor__")}
    with open(out, "w") as fh:
        for t in range(n):
            b = breakpoints(g)
            at = {v: i for i, v in enumerate(b)}
            w = [big((b[i + 1] if i + 1 < K else M) - b[i]) for i in range(K)]
            r = [None] + [sg.RangeSet() for _ in range(3)]

            def ids(v):
                return [[at.get(x, -1), at.get(y, -1)] for x, y in v]

            def obs(o):
                s = r[o]
                views = [list(s.ranges()), list(s), [s[i] for i in range(len(s))], [s[i - len(s)] for i in range(len(s))],
                         eval(str(s)), eval(repr(s), {"RangeSet": lambda x: x})]
                good = all([tuple(x) for x in v] == [tuple(x) for x in views[0]] for v in views)
                for i in (len(s), -len(s) - 1):  # just outside
                    try:
                        s[i]
                        good = False
                    except IndexError:
                        pass
                valid = s.isValid()
                return dict(r=ids(views[0]) if good else [[-1, -1]], c=ids(s.complemented().ranges()), n=s.size() if s.size() == len(s) else -1,
                            e=s.empty(), f=s.full(), v=valid is True, card=big(s.cardinality()), eq=[s == r[i] for i in (1, 2, 3)],
                            ne=[s != r[i] for i in (1, 2, 3)])
            ev = []
            for _ in range(length):
                o, a, c = (g.randint(1, 3) for _ in range(3))
                f, l = g.randrange(K), g.randrange(K)
                if g.random() < 0.15:
                    l = 0
                if g.random() < 0.4:
                    l = (f + 1) % K
                if g.random() < 0.9 and f == l:
                    l = (l + 1) % K
                unit = b[l] == b[f] + 1
                s = r[o]
                k = g.randrange(14)
                e = dict(o=o)
                if k < 2:
                    if g.random() < 0.5:
                        u = unit and g.random() < 0.7
                        x = (b[f],) if u else (b[f], b[l])
                        q = [s.intersects(*x), s.contains(*x), s.isWithin(*x), s.isDisjointFrom(*x)]
                        if u and (b[f] in s) is not q[1]:
                            q[1] = not q[1]
                        e.update(op="qrg", f=f, l=l, ans=q)
                    else:
                        q = [s.intersects(r[a]), s.contains(r[a]), s.isWithin(r[a]), s.isDisjointFrom(r[a])]
                        if (r[a] in s) is not q[1]:
                            q[1] = not q[1]
                        e.update(op="qst", a=a, ans=q)
                    ev.append(e)
                    continue
                if k < 6:
                    x = (b[f],) if unit and g.random() < 0.5 else (b[f], b[l])
                    ins = k < 5
                    (s.insert if ins else s.erase)(*x)
                    e.update(op="ins" if ins else "era", f=f, l=l)
                elif k == 6:
                    if g.random() < 0.5:
                        s.complement()
                        e.update(op="com")
                    else:
                        r[o] = g.choice([r[a].complemented, r[a].__invert__])()
                        e.update(op="cpl", a=a)
                elif k == 7:
                    if g.random() < 0.5:
                        s.fill()
                        e.update(op="fil")
                    else:
                        s.clear()
                        e.update(op="clr")
                elif k < 10:
                    how = g.randrange(5)
                    x = r[a]
                    r[o] = [copy.copy, copy.deepcopy, sg.RangeSet, lambda y: pickle.loads(pickle.dumps(y)),
                            lambda y: pickle.loads(pickle.dumps(y, 2))][how](x)
                    e.update(op="asg", a=a)
                elif k == 10:
                    rs = [[g.randrange(K), g.randrange(K)] for _ in range(g.randrange(1, 4))]
                    items = [g.choice([tuple, list])([b[x], b[y]]) if b[y] != b[x] + 1 or g.random() < 0.5 else b[x] for x, y in rs]
                    r[o] = sg.RangeSet(items if g.random() < 0.5 else iter(items)) if len(rs) > 1 or g.random() < 0.5 else sg.RangeSet(b[rs[0][0]], b[rs[0][1]])
                    e.update(op="ctr", rs=rs)
                elif k == 11:
                    op = g.choice(list(ops))
                    fn, name, _ = ops[op]
                    r[o] = fn(r[a], r[c]) if g.random() < 0.5 else getattr(r[a], name)(r[c])
                    e.update(op="bin", b=op, x=a, y=c)
                else:
                    op = g.choice(list(ops))
                    x = r[o]
                    if op == "and":
                        x &= r[c]
                    elif op == "or":
                        x |= r[c]
                    elif op == "sub":
                        x -= r[c]
                    else:
                        x ^= r[c]
                    r[o] = x
                    if c != o and r[c] is x:
                        r[o] = sg.RangeSet(12345)  # two names for one object
                    e.update(op="opa", b=op, y=c)
                e["obs"] = obs(o)
                ev.append(e)
            fh.write(json.dumps(dict(w=w, ev=ev)) + "\n")


if __name__ == "__main__":
    main()
