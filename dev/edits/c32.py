D = "finat/direct_serendipity.py"
EDITS = [
    ("bug", "C32", D, "                                      4 + (i + 1) * (self.degree-1)))", "                                      4 + i * (self.degree-1) + self.degree))"),
    ("bug", "C32", D, "2: {0: list(range(4 + 4 * (self.degree - 1),", "2: {0: list(range(4 + 4 * self.degree,"),
    ("bug", "C32", D, "(self.degree+1)*(self.degree+2)//2 + 2", "self.degree*(self.degree+1)//2 + self.degree + 3 + self.degree//7"),
    ("bug", "C32", D, "            return {0: {i: [i] for i in range(4)},\n                    1: {i: [i+4] for i in range(4)},", "            return {0: {i: [i] for i in range(4)},\n                    1: {i: [7-i] for i in range(4)},"),
    ("bug", "C32", D, "return 4 if self.degree == 1 else", "return 4 if self.degree <= 1 else self.degree*(self.degree+3) if self.degree == 8 else"),
    ("bug", "C32", D, "        key = (tuple(xx), alpha)", "        key = (tuple(xx), sum(alpha))"),
    ("bug", "C32", D, "        for i in range(order+1):\n            alphas", "        for i in range(min(order, 1)+1):\n            alphas"),
    ("bug", "C32", D, "coordinate_mapping.physical_points(ps, entity=entity)", "coordinate_mapping.physical_points(ps)"),
    ("bug", "C32", D, "zip(xx, phys_points)", "zip(xx[::-1], phys_points)"),
    ("bug", "C32", D, "phys_verts[idx])", "phys_verts[(3 - idx[0],) + idx[1:]])"),
    ("bug", "C32", D, "expr.diff(*(zip(xx, alpha)))", "expr.diff(*(zip(xx[::-1], alpha)))"),
    ("bug", "C32", D, "zip(xx, alpha)))))", "zip(xx, sorted(alpha))))))"),
    ("bug", "C32", D, "for i in range(rm4, -1, -1):", "for i in range(rm4, 0, -1):"),
    ("bug", "C32", D, "            for i in range(len(nodes1d)):\n", "            for i in range(min(len(nodes1d), 4)):\n"),
    ("bug", "C32", D, "(nds[i+j] - nds[i])", "(nds[i+1] - nds[i])"),
    ("bug", "C32", D, "result = result * (xsym - nds[i]) + coeffs[i]", "result = result * (xsym - nds[i+1]) + coeffs[i]"),
    ("same", "C32", D, "        elif self.degree == 2:\n            return {0: {i: [i] for i in range(4)},\n                    1: {i: [i+4] for i in range(4)},\n                    2: {0: []}}\n", ""),
    ("same", "C32", D, "        for i in range(order+1):\n            alphas = mis(2, i)\n            for alpha in alphas:\n                dphis = self._basis_deriv(xx, alpha)\n                result[alpha] = gem.ListTensor(list(map(mapper, dphis)))\n\n        return result",
     "        for i in range(order+1):\n            for alpha in mis(2, i):\n                result[alpha] = gem.ListTensor([mapper(d) for d in self._basis_deriv(xx, alpha)])\n        return result"),
    ("same", "C32", D, "        try:\n            return self._deriv_cache[key]\n        except KeyError:\n            dphi = tuple(diff(phi, xx, alpha) for phi in phis)\n            return self._deriv_cache.setdefault(key, dphi)",
     "        if key not in self._deriv_cache:\n            self._deriv_cache[key] = tuple(diff(phi, xx, alpha) for phi in phis)\n        return self._deriv_cache[key]"),
    ("same", "C32", D, "        repl = dict((vs[idx], phys_verts[idx])\n                    for idx in numpy.ndindex(vs.shape))\n", "        repl = {}\n        for i in range(4):\n            for j in range(2):\n                repl[vs[i, j]] = phys_verts[i, j]\n"),
]
