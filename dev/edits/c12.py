P = "finat/point_set.py"
EDITS = [
    # --- refactorings
    ("same", "C12", P, """        _, dim = self.points.shape
        return dim
""", """        return self.points.shape[1]
"""),
    ("same", "C12", P, """        return self.point.reshape(1, -1)
""", """        return self.point[numpy.newaxis, :]
"""),
    ("same", "C12", P, """        return self.point.reshape(1, -1)
""", """        return numpy.array([self.point])
"""),
    ("same", "C12", P, """        assert len(points.shape) == 2
        self.points = points
""", """        if points.ndim != 2:
            raise AssertionError("points must be a matrix")
        self.points = points
"""),
    ("same", "C12", P, """        return (gem.Index(extent=len(self.points)),)

    @cached_property
    def expression(self):
        return gem.partial_indexed(gem.Literal(self.points), self.indices)
""", """        npoints = self.points.shape[0]
        return (gem.Index(extent=npoints),)

    @cached_property
    def expression(self):
        i = gem.Index(extent=self.dimension)
        return gem.ComponentTensor(gem.Indexed(gem.Literal(self.points), self.indices + (i,)), (i,))
"""),
    ("same", "C12", P, """        N, _ = self._points_expr.shape
        return (gem.Index(extent=N),)
""", """        return (gem.Index(extent=len(self.points)),)
"""),
    ("same", "C12", P, """        return numpy.array([list(chain(*pt_tuple))
                            for pt_tuple in product(*[ps.points
                                                      for ps in self.factors])])
""", """        rows = []
        for combination in product(*(ps.points for ps in self.factors)):
            rows.append([x for pt in combination for x in pt])
        return numpy.array(rows)
"""),
    ("same", "C12", P, """        return numpy.array([list(chain(*pt_tuple))
                            for pt_tuple in product(*[ps.points
                                                      for ps in self.factors])])
""", """        return numpy.array([numpy.concatenate(pt_tuple)
                            for pt_tuple in product(*[ps.points for ps in self.factors])])
"""),
    ("same", "C12", P, """        return tuple(chain(*[ps.indices for ps in self.factors]))
""", """        return tuple(index for ps in self.factors for index in ps.indices)
"""),
    ("same", "C12", P, """        return tuple(chain(*[ps.indices for ps in self.factors]))
""", """        return tuple(chain.from_iterable(ps.indices for ps in self.factors))
"""),
    ("same", "C12", P, """        result = []
        for point_set in self.factors:
            for i in range(point_set.dimension):
                result.append(gem.Indexed(point_set.expression, (i,)))
        return gem.ListTensor(result)
""", """        return gem.ListTensor([gem.Indexed(ps.expression, (component,))
                               for ps in self.factors
                               for component in range(ps.dimension)])
"""),
    ("same", "C12", P, """        result = []
        for point_set in self.factors:
            for i in range(point_set.dimension):
                result.append(gem.Indexed(point_set.expression, (i,)))
        return gem.ListTensor(result)
""", """        result = []
        for point_set in self.factors:
            expr = point_set.expression
            n, = expr.shape
            result.extend(expr[i] for i in range(n))
        return gem.ListTensor(result)
"""),
    ("same", "C12", P, """        return type(self) is type(other) and \\
            self.points.shape == other.points.shape and \\
            numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
""", """        if type(self) is not type(other):
            return False
        if self.points.shape != other.points.shape:
            return False
        return numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
"""),
    ("same", "C12", P, """        return type(self) is type(other) and \\
            self.points.shape == other.points.shape and \\
            numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
""", """        return (type(self) is type(other)
                and self.points.shape == other.points.shape
                and numpy.allclose(self.points, other.points, atol=tolerance, rtol=0.0))
"""),
    ("same", "C12", P, """        return type(self) is type(other) and \\
            len(self.factors) == len(other.factors) and \\
            all(s.almost_equal(o, tolerance=tolerance)
                for s, o in zip(self.factors, other.factors))
""", """        if type(self) is not type(other) or len(self.factors) != len(other.factors):
            return False
        for mine, theirs in zip(self.factors, other.factors):
            if not mine.almost_equal(theirs, tolerance):
                return False
        return True
"""),
    # --- bugs
    ("bug", "C12", P, "rtol=0, atol=tolerance", "atol=tolerance"),
    ("bug", "C12", P, "all(s.almost_equal(o, tolerance=tolerance)", "all(s.almost_equal(o)"),
    ("bug", "C12", P, """            len(self.factors) == len(other.factors) and \\
""", ""),
    ("bug", "C12", P, "return type(self) is type(other) and \\\n            self.points.shape == other.points.shape and \\\n            numpy.all", "return isinstance(other, PointSet) and \\\n            self.points.shape == other.points.shape and \\\n            numpy.all"),
    ("bug", "C12", P, "for pt_tuple in product(*[ps.points\n                                                      for ps in self.factors])])", "for pt_tuple in zip(*[ps.points\n                                                      for ps in self.factors])])"),
]
