A, B, H, M, PS, Z, T, PM, W, AS, MT = ("finat/%s.py" % n for n in ("argyris", "bell", "hct", "morley", "powell_sabin", "hz", "hermite", "piola_mapped", "aw", "alfeld_sorokina", "mtw"))
EDITS = [
    ("bug", "C33", A, "    beta = Jt @ Jt\n", "    beta = detJ\n"),
    ("bug", "C33", A, "P0 = -(-1)**k * P1", "P0 = -P1"),
    ("bug", "C33", A, "P1 = comb(k + vorder, k)", "P1 = comb(k + vorder, vorder - 1) if k else 1"),
    ("bug", "C33", A, "V[s, s + eorder] = -1 * Bnt", "V[s, s + eorder] = -1 * k * Bnt"),
    ("bug", "C33", A, "V[s, v1id+1+i] = -7/16 * Bnt * Jt[i]", "V[s, v1id+1+i] = -5/16 * Bnt * Jt[i]"),
    ("bug", "C33", A, "H[p, q] = J[m, i] * J[n, j] + J[m, j] * J[n, i]", "H[p, q] = J[i, m] * J[j, n] + J[j, m] * J[i, n]"),
    ("bug", "C33", A, "H[:, [i == j for i, j in indices]] *= 0.5", "H[[i == j for i, j in indices]] *= 0.5"),
    ("bug", "C33", A, "G = [[J[j, i] for j in range(sd)]", "G = [[J[i, j] for j in range(sd)]"),
    ("bug", "C33", A, "                tau = [Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1]]", "                tau = [Jt[0]*Jt[0], Jt[0]*Jt[1], Jt[1]*Jt[1]]"),
    ("bug", "C33", A, "                v0, v1 = top[1][e]\n", "                v0, v1 = e, (e + 1) % 3\n"),
    ("bug", "C33", B, "1/252 * Bnt", "1/242 * Bnt"),
    ("bug", "C33", B, "V[s, v0id] = -1 * V[s, v1id]\n\n            # vertex derivatives", "V[s, v0id] = V[s, v1id]\n\n            # vertex derivatives"),
    ("bug", "C33", H, "V[s, v1id] = -1 * V[s, v0id]", "V[s, v1id] = V[s, v0id]"),
    ("bug", "C33", H, "eorder = self.degree - 3", "eorder = 0"),
    ("bug", "C33", M, "v0id, v1id = [i for i in range(3) if i != e]", "v0id, v1id = e, (e + 1) % 3"),
    ("bug", "C33", M, "rns[i, 1]*(pts[i, 0]*J[0, 1] + pts[i, 1]*J[1, 1])", "rns[i, 1]*(pts[i, 0]*J[0, 1] - pts[i, 1]*J[1, 1])"),
    ("bug", "C33", M, "V[3+i, c[0]] = -1*B12 / pel[i]", "V[3+i, c[0]] = -1*B12 / pel[c[0]]"),
    ("bug", "C33", PM, "det1 = A[2, 0] * A[0, 1] - A[2, 1] * A[0, 0]", "det1 = A[2, 0] * A[0, 1] + A[2, 1] * A[0, 0]"),
    ("bug", "C33", PM, "    nhat /= numpy.dot(nhat, nhat)\n", ""),
    ("bug", "C33", PM, "C[j, i] = (-1)**(i+j)*determinant", "C[i, j] = (-1)**(i+j)*determinant"),
    ("bug", "C33", PM, "    that /= numpy.linalg.norm(that)\n", ""),
    ("bug", "C33", PM, "cur_bfs = bfs[sd-1][f][1:]", "cur_bfs = bfs[sd-1][f][:0:-1]"),
    ("bug", "C33", W, "W[:, [i != j for i, j in indices]] *= 2", "W[[i != j for i, j in indices], :] *= 2"),
    ("bug", "C33", W, "s = dofs_per_facet*f + i * sd\n", "s = dofs_per_facet*f + i\n"),
    ("bug", "C33", AS, "if len(nodes[cur].deriv_dict) > 0:", "if k == 0:"),
    ("bug", "C33", AS, "return ListTensor(V.T)", "return ListTensor(V)"),
    ("bug", "C33", MT, "V[cur+1, cur:cur+sd] =", "V[cur+2, cur:cur+sd] ="),
    ("same", "C33", PM, "    nhat /= numpy.dot(nhat, nhat)\n", "    nhat = nhat / (nhat @ nhat)\n"),
    ("same", "C33", A, """    Lhat = numpy.linalg.norm(that)
    Bnn = Bnn * Lhat
    Bnt = Bnt / Lhat
""", """    Lhat = numpy.sqrt(that @ that)
    Bnn = Lhat * Bnn
    Bnt = Bnt / Lhat
"""),
    ("same", "C33", A, """                # second derivatives
                tau = [Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1]]
                for i in range(len(tau)):
                    V[s, v1id+3+i] = 1/32 * Bnt * tau[i]
                    V[s, v0id+3+i] = -1 * V[s, v1id+3+i]
""", """                for i, tau in enumerate((Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1])):
                    second = Bnt * tau / 32
                    V[s, [v0id+3+i, v1id+3+i]] = [-second, second]
"""),
    ("same", "C33", A, """    H = numpy.zeros((hdofs, hdofs), dtype=object)
        for p, (i, j) in enumerate(indices):
            for q, (m, n) in enumerate(indices):
                H[p, q] = J[m, i] * J[n, j] + J[m, j] * J[n, i]
        H[:, [i == j for i, j in indices]] *= 0.5
""", """    H = [[J[m, i] * J[n, j] if m == n else J[m, i] * J[n, j] + J[m, j] * J[n, i] for m, n in indices]
             for i, j in indices]
"""),
    ("same", "C33", A, """        V[s:s+gdofs, s:s+gdofs] = G
        s += gdofs
        V[s:s+hdofs, s:s+hdofs] = H
        s += hdofs
""", """        g = slice(s, s+gdofs)
        V[g, g] = G
        if hdofs:
            h = slice(g.stop, g.stop+hdofs)
            V[h, h] = H
        s += gdofs + hdofs
"""),
    ("same", "C33", M, """        for i, c in enumerate([(1, 2), (0, 2), (0, 1)]):
""", """        for i, c in sorted(self.cell.get_topology()[1].items()):
"""),
    ("same", "C33", PM, """    rows = ((-1 * det1 / det0, -1 * scale * A[2, 1], scale * A[2, 0]),
            (-1 * det2 / det0, scale * A[1, 1], -1 * scale * A[1, 0]))
    return rows
""", """    rows = numpy.zeros((2, 3), dtype=object)
    for k, det in enumerate((det1, det2)):
        rows[k, 0] = -1 * det / det0
        sign = (-1)**k
        rows[k, 1] = -1 * sign * scale * A[2-k, 1]
        rows[k, 2] = sign * scale * A[2-k, 0]
    return rows
"""),
    ("same", "C33", W, """            W[p, q] = 0.5*(K[i, m] * K[j, n] + K[j, m] * K[i, n])
    W[:, [i != j for i, j in indices]] *= 2
""", """            weight = 0.5 if m == n else 1
            W[p, q] = weight*(K[j, m] * K[i, n] + K[i, m] * K[j, n])
"""),
    ("same", "C33", "finat/hz.py", "        V[0:3, 0:3] = V[3:6, 3:6] = V[6:9, 6:9] = W\n        ncomp = W.shape[0]\n        num_verts = sd+1\n",
     "        import numpy\n        ncomp, _ = W.shape\n        num_verts = sd+1\n        for v in range(num_verts):\n            vdofs = range(ncomp*v, ncomp*(v+1))\n            V[numpy.ix_(vdofs, vdofs)] = W\n"),
]
