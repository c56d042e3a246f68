"""Stand-in for the meshio module (absent here): reads .msh text files of format 2.2."""
import os
import sys
import numpy as np

sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fgmsh  # noqa: E402


class CellBlock:
    def __init__(self, type, data):
        self.type, self.data = type, data

    def __len__(self):
        return len(self.data)


class Mesh:
    pass


def read(filename, file_format=None):
    S = fgmsh.sections(filename)
    m = Mesh()
    m.field_data = {}
    for l in S.get("PhysicalNames", ["0"])[1:]:
        d, t, n = l.split(None, 2)
        m.field_data[n.strip().strip('"')] = np.array([int(t), int(d)])
    num, pts = {}, []
    for l in S["Nodes"][1:]:
        w = l.split()
        num[int(w[0])] = len(pts)
        pts.append([float(x) for x in w[1:4]])
    m.points = np.array(pts)
    m.cells, tags, prev = [], [], None
    for l in S["Elements"][1:]:
        w = [int(x) for x in l.split()]
        ty = {2: "triangle", 4: "tetra", 1: "line", 15: "vertex"}[w[1]]
        if ty != prev:
            m.cells.append(CellBlock(ty, []))
            tags.append([])
            prev = ty
        m.cells[-1].data.append([num[i] for i in w[3 + w[2]:]])
        tags[-1].append(w[3])
    for c in m.cells:
        c.data = np.array(c.data)
    m.cell_data = {"gmsh:physical": [np.array(t) for t in tags],
                   "gmsh:geometrical": [np.array(t) for t in tags]}
    return m
