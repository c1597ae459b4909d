A, B, H, M, PS, Z, T, PM = ("finat/%s.py" % n for n in ("argyris", "bell", "hct", "morley", "powell_sabin", "hz", "hermite", "piola_mapped"))
EDITS = [
    ("bug", "C20", A, "V[:, s+sd:voffset*(v+1)] *= 1 / (h[v]*h[v])", "V[:, s+sd:voffset*(v+1)] *= 1 / h[v]"),
    ("bug", "C20", A, "V[:, s:s+eorder+1] *= 2 / (h[v0] + h[v1])", "V[:, s:s+eorder+1] *= 2"),
    ("bug", "C33", A, "    beta = Jt @ Jt\n", "    beta = detJ\n"),
    ("bug", "C20", A, "            Bnn = Bnn * pel[e]\n", "            Bnn = Bnn * pel[e] * pel[e]\n"),
    ("bug", "C20", A, "    Bnt = Bnt / Lhat\n", "    Bnt = Bnt / Lhat / detJ\n"),
    ("bug", "C20", B, "V[:, s:s+sd] *= 1/h[v]", "V[:, s:s+sd-1] *= 1/h[v]"),
    ("bug", "C20", H, "            V[:, s:s+sd] *= 1/h[v]\n", "            V[:, s:s+sd] *= 1/(h[v]*h[v])\n"),
    ("same", "C20", M, "            for i in range(6):\n", "            for i in range(3, 6):\n"),
    ("bug", "C20", M, "V[3+i, c[1]] = B12 / pel[i]", "V[3+i, c[1]] = B12"),
    ("bug", "C20", PS, "V[:, voffset*v+1+k] /= h[v]", "V[:, voffset*v+k] /= h[v]"),
    ("bug", "C20", T, "J[j, k] / h[i]", "J[j, k] / h[i] / h[i]"),
    ("bug", "C20", Z, "*= 1/(h[e] * h[e])", "*= 1/h[e]"),
    ("bug", "C20", PM, "    scale = detJ / det0\n", "    scale = 1 / det0\n"),
    ("bug", "C20", PM, "    row = (-1 * alpha / beta, detJ / beta)\n", "    row = (-1 * alpha / beta, 1 / beta)\n"),
    ("bug", "C20", PM, "V[cur, cur] = detJ\n", "V[cur, cur] = detJ * detJ\n"),
    ("same", "C20", A, """            V[:, s:s+sd] *= 1 / h[v]
            V[:, s+sd:voffset*(v+1)] *= 1 / (h[v]*h[v])
""", """            scale = 1 / h[v]
            for k in range(s, s + sd):
                V[:, k] = V[:, k] * scale
            V[:, s+sd:voffset*(v+1)] *= scale * scale
"""),
    ("same", "C20", M, """            for i in range(6):
                V[i, 3+e] = 2*V[i, 3+e] / (h[v0id] + h[v1id])
""", """            V[:, 3+e] /= 0.5*(h[v0id] + h[v1id])
"""),
    ("same", "C20", T, """            for j in range(d):
                for k in range(d):
                    M[cur+j, cur+k] = J[j, k] / h[i]
""", """            scale = h[i]
            M[cur:cur+d, cur:cur+d] = [[J[j, k] / scale for k in range(d)] for j in range(d)]
"""),
    ("same", "C20", PM, "    row = (-1 * alpha / beta, detJ / beta)\n", "    inverse = 1 / beta\n    row = (alpha * inverse * -1, inverse * detJ)\n"),
    ("same", "C20", A, """    alpha = Jn @ Jt
    beta = Jt @ Jt
    Bnn = detJ / beta
    Bnt = alpha / beta

    Lhat = numpy.linalg.norm(that)
    Bnn = Bnn * Lhat
    Bnt = Bnt / Lhat
""", """    alpha = Jt[0] * Jn[0] + Jt[1] * Jn[1]
    beta = Jt[0] * Jt[0] + Jt[1] * Jt[1]
    Lhat = numpy.sqrt(that @ that)
    Bnn = (detJ * Lhat) / beta
    Bnt = alpha / (beta * Lhat)
"""),
]
