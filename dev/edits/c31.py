D = "finat/ufl/"
EDITS = [
    ("bug", "C31", D + "tensorproductelement.py", "return sum(e.embedded_superdegree for e", "return max(e.embedded_superdegree for e"),
    ("bug", "C31", D + "tensorproductelement.py", "return min(e.embedded_subdegree for e", "return sum(e.embedded_subdegree for e"),
    ("bug", "C31", D + "enrichedelement.py", "return max(e.embedded_superdegree for e", "return sum(e.embedded_superdegree for e"),
    ("bug", "C31", D + "enrichedelement.py", "return min(e.embedded_subdegree for e in self._elements)", "return self._elements[0].embedded_subdegree"),
    ("bug", "C31", D + "mixedelement.py", "return min(e.embedded_subdegree for e", "return max(e.embedded_subdegree for e"),
    ("bug", "C31", D + "mixedelement.py", "return max(e.embedded_superdegree for e in self.sub_elements)", "return self.degree()"),
    ("bug", "C31", D + "brokenelement.py", "return self._element.embedded_superdegree", "return self._element.degree()"),
    ("bug", "C31", D + "restrictedelement.py", "return self._element.embedded_subdegree", "return 0"),
    ("bug", "C31", D + "finiteelement.py", "superdegree = max(superdegree, self._embedded_degree)", "superdegree = self._embedded_degree"),
    ("bug", "C31", D + "finiteelement.py", "superdegree = max(superdegree)", "superdegree = superdegree[0]"),
    ("bug", "C31", D + "finiteelement.py", "superdegree = max(superdegree)", "superdegree = sum(superdegree)"),
    ("same", "C31", D + "mixedelement.py", "return min(e.embedded_subdegree for e in self.sub_elements)", "return sorted(e.embedded_subdegree for e in self._sub_elements)[0]"),
    ("same", "C31", D + "tensorproductelement.py", "return sum(e.embedded_superdegree for e in self._sub_elements)", "total = 0\n        for e in self._sub_elements:\n            total += e.embedded_superdegree\n        return total"),
    ("same", "C31", D + "finiteelement.py", "superdegree = max(superdegree)", "superdegree = sorted(superdegree)[-1]"),
    ("same", "C31", D + "mixedelement.py", "degree = max_degree(degrees) if degrees else None", "degree = None if not degrees else max_degree(degrees)"),
]
