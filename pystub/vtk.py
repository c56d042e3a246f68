"""Stand-in for the vtk module (absent here): what is given to the writer goes to a JSON file."""
import json

VTK_TETRA = 10


class vtkFloatArray:
    def __init__(self):
        self.rows, self.nc, self.name = [], 1, None

    def SetNumberOfComponents(self, n):
        self.nc = n

    def SetName(self, n):
        self.name = n

    def InsertNextTuple(self, t):
        if len(t) != self.nc:
            raise ValueError("wrong size")
        self.rows.append([float(x) for x in t])


vtkDoubleArray = vtkFloatArray


class vtkPoints:
    def __init__(self):
        self.p = {}
        self.n = 0

    def SetNumberOfPoints(self, n):
        self.n = n

    def InsertPoint(self, i, *c):
        c = c[0] if len(c) == 1 else c
        self.p[int(i)] = [float(x) for x in c]

    SetPoint = InsertPoint

    def InsertNextPoint(self, *c):
        self.InsertPoint(len(self.p), *c)


class _PointData:
    def __init__(self):
        self.vectors = self.scalars = None

    def SetVectors(self, x):
        self.vectors = x

    def SetScalars(self, x):
        self.scalars = x


class vtkUnstructuredGrid:
    def __init__(self):
        self.points, self.cells, self.pd = None, [], _PointData()

    def SetPoints(self, p):
        self.points = p

    def InsertNextCell(self, ty, n, ids):
        if ty != VTK_TETRA or n != 4 or len(ids) != 4:
            raise ValueError("cell")
        self.cells.append([int(x) for x in ids])

    def GetPointData(self):
        return self.pd


class vtkXMLUnstructuredGridWriter:
    def SetFileName(self, f):
        self.f = f

    def SetInputData(self, g):
        self.g = g

    def SetDataModeToBinary(self):
        pass

    SetDataModeToAscii = SetDataModeToBinary
    SetDataModeToAppended = SetDataModeToBinary

    def Write(self):
        g = self.g
        x = g.pd.vectors or g.pd.scalars
        n = max(g.points.p, default=-1) + 1
        with open(self.f, "w") as f:
            json.dump({"points": [g.points.p[i] for i in range(n)], "announced": g.points.n, "cells": g.cells,
                       "data": x.rows, "nc": x.nc, "kind": "vectors" if g.pd.vectors else "scalars"}, f)
        return 1
