"""Independent reader of .msh text files, formats 2.2 and 4.1."""
import numpy as np
import fgmesh


def sections(path):
    out, name, buf = {}, None, []
    with open(path, encoding="utf-8") as f:
        for l in f:
            l = l.rstrip("\n")
            if l.startswith("$End"):
                if name is None or l[4:] != name:
                    raise ValueError("unexpected %s" % l)
                out[name] = buf
                name = None
            elif l.startswith("$"):
                name, buf = l[1:], []
            elif name:
                buf.append(l)
    if name:
        raise ValueError("section %s is not closed" % name)
    return out


def read(path):
    """-> (Mesh whose node k is the one numbered k+1, info dict)"""
    S = sections(path)
    ver = S["MeshFormat"][0].split()
    names = {}
    for l in S.get("PhysicalNames", ["0"])[1:]:
        d, t, n = l.split(None, 2)
        names[(int(d), int(t))] = n.strip().strip('"')
    if len(names) != int(S.get("PhysicalNames", ["0"])[0]):
        raise ValueError("number of physical names")
    pos, elems = {}, []     # elems: (dim, physical name, nodes)
    if ver[0].startswith("2"):
        n = int(S["Nodes"][0])
        for l in S["Nodes"][1:]:
            w = l.split()
            if int(w[0]) in pos:
                raise ValueError("node %s given twice" % w[0])
            pos[int(w[0])] = [float(x) for x in w[1:4]]
        if len(pos) != n:
            raise ValueError("%d nodes announced, %d given" % (n, len(pos)))
        n = int(S["Elements"][0])
        seen = set()
        for l in S["Elements"][1:]:
            w = [int(x) for x in l.split()]
            if w[0] in seen:
                raise ValueError("element %d given twice" % w[0])
            seen.add(w[0])
            nod = w[3 + w[2]:]
            if w[1] == 2:
                elems.append((2, names.get((2, w[3])), nod))
            elif w[1] == 4:
                elems.append((3, names.get((3, w[3])), nod))
        if len(seen) != n:
            raise ValueError("%d elements announced, %d given" % (n, len(seen)))
    elif ver[0].startswith("4.1"):
        phys = {}
        L = iter(S["Entities"])
        n = [int(x) for x in next(L).split()]
        for d in range(4):
            for _ in range(n[d]):
                w = next(L).split()
                k = 4 if d == 0 else 7
                m = int(w[k])
                phys[(d, int(w[0]))] = [int(x) for x in w[k + 1:k + 1 + m]]
        L = iter(S["Nodes"])
        nb, nn = [int(x) for x in next(L).split()][:2]
        for _ in range(nb):
            w = [int(x) for x in next(L).split()]
            tags = [int(next(L)) for _ in range(w[3])]
            for t in tags:
                if t in pos:
                    raise ValueError("node %d given twice" % t)
                pos[t] = [float(x) for x in next(L).split()[:3]]
        if len(pos) != nn:
            raise ValueError("%d nodes announced, %d given" % (nn, len(pos)))
        L = iter(S["Elements"])
        nb, ne = [int(x) for x in next(L).split()][:2]
        for _ in range(nb):
            d, tag, ty, m = [int(x) for x in next(L).split()]
            for _ in range(m):
                w = [int(x) for x in next(L).split()]
                if ty in (2, 4):
                    p = phys.get((d, tag), [])
                    elems.append((d, names.get((d, p[0])) if p else None, w[1:]))
    else:
        raise ValueError("format " + ver[0])
    if sorted(pos) != list(range(1, len(pos) + 1)):
        raise ValueError("node numbers are not 1..n")
    nodes = np.array([pos[i] for i in sorted(pos)])
    tets = [([i - 1 for i in e], r) for d, r, e in elems if d == 3]
    tris = [([i - 1 for i in e], r) for d, r, e in elems if d == 2]
    for e, _ in tets + tris:
        if min(e) < 0 or max(e) >= len(nodes) or len(set(e)) != len(e):
            raise ValueError("bad element %s" % e)
    m = fgmesh.Mesh(nodes, [t for t, _ in tets], [r for _, r in tets], [t for t, _ in tris], [r for _, r in tris])
    return m, {"format": ver[0], "binary": ver[1], "names": sorted((d, n) for (d, t), n in names.items())}
