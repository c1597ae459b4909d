F = "finat/fiat_elements.py"
B = "finat/finiteelementbase.py"
EDITS = [
    ("bug", "C19", F, "            pts = tuple(sorted(point_dict.keys()))\n", "            pts = tuple(point_dict.keys())\n"),
    ("bug", "C19", F, "            for p, k in zip(pts, range(kstart, kend)):", "            for p, k in zip(point_dict, range(kstart, kend)):"),
    ("bug", "C19", F, "kend = kstart + len(pts)\n                seen[pts] = kstart, kend\n                allpts.extend(pts)", "kend = kstart + len(pts)\n                seen[pts] = 0, kend\n                allpts.extend(pts)"),
    ("bug", "C19", F, "kstart = len(allpts)", "kstart = len(seen)"),
    ("bug", "C19", F, "            if pts not in seen:", "            if True:"),
    ("bug", "C19", F, "Q[(i, k, *cmp)] = weight", "Q[(i, k, *reversed(cmp))] = weight"),
    ("bug", "C19", F, "Q[(i, k, *cmp)] = weight", "Q[(k, i, *cmp)] = weight"),
    ("bug", "C19", F, "all(len(set(key)) == 1 and np.isclose(weight, 1) and len(key) == 2", "all(len(set(key)) == 1 and len(key) == 2"),
    ("bug", "C19", F, "all(len(set(key)) == 1 and np.isclose(weight, 1) and len(key) == 2", "all(np.isclose(weight, 1) and len(key) == 2"),
    ("bug", "C19", F, "all(len(set(key)) == 1 and np.isclose(weight, 1) and len(key) == 2", "any(len(set(key)) == 1 and np.isclose(weight, 1) and len(key) == 2"),
    ("bug", "C19", F, "                for weight, cmp in point_dict[p]:\n                    Q[(i, k, *cmp)] = weight", "                (weight, cmp), *rest = point_dict[p]\n                Q[(i, k, *cmp)] = weight"),
    ("bug", "C19", F, "if len(dual.deriv_dict) != 0:", "if len(dual.deriv_dict) != 0 and not dual.get_point_dict():"),
    ("bug", "C19", F, "Indexed(Q, (i, *x.indices, *js)), (i, *js))", "Indexed(Q, (i, *x.indices, *js)), (*js, i))"),
    ("bug", "C19", B, "evaluation = gem.IndexSum(Qi * expri, x.indices + shape_indices)", "evaluation = gem.IndexSum(Qi * expri, x.indices)"),
    ("bug", "C19", B, "Qi = Q[basis_indices + shape_indices]", "Qi = Q[shape_indices + basis_indices]"),
    ("bug", "C19", B, "        return evaluation, basis_indices\n\n    @abstractproperty", "        return evaluation, basis_indices[::-1]\n\n    @abstractproperty"),
    ("bug", "C19", B, "        expri = expr[shape_indices]", "        expri = expr[shape_indices[::-1]]"),
    ("same", "C19", B, "        evaluation = gem.optimise.contraction(evaluation, shape_indices)\n", ""),
    ("same", "C19", F, """        for i, dual in enumerate(fiat_dual_basis):
            point_dict = dual.get_point_dict()
            pts = tuple(sorted(point_dict.keys()))
            kstart, kend = seen[pts]
            for p, k in zip(pts, range(kstart, kend)):
                for weight, cmp in point_dict[p]:
                    Q[(i, k, *cmp)] = weight
""", """        for i, dual in enumerate(fiat_dual_basis):
            point_dict = dual.get_point_dict()
            pts = tuple(sorted(point_dict))
            kstart, _ = seen[pts]
            Q.update({(i, kstart + k) + tuple(cmp): weight
                      for k, p in enumerate(pts)
                      for weight, cmp in point_dict[p]})
"""),
    ("same", "C19", F, """            if len(Q) == 1:
                Qshape = tuple(s + 1 for s in tuple(Q)[0])
            else:
                Qshape = tuple(s + 1 for s in map(max, *Q))
""", """            Qshape = tuple(max(s) + 1 for s in zip(*Q))
"""),
    ("same", "C19", F, """        if all(len(set(key)) == 1 and np.isclose(weight, 1) and len(key) == 2
               for key, weight in Q.items()):
""", """        def is_unit(key, weight):
            return len(key) == 2 and key[0] == key[1] and np.isclose(weight, 1)

        if all(is_unit(*entry) for entry in Q.items()):
"""),
]
