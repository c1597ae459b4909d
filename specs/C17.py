"""Every FIAT-backed element, for an unknown cell, degree and variant: the FIAT
element of its own family receives exactly those arguments, and every datum
the element declares is that FIAT element's. Element classes that FIAT cannot
give orientation permutations for refuse the query."""
import FIAT

import finat
from finat.fiat_elements import FiatElement
from finat.nodal_enriched import NodalEnrichedElement

PLAIN = [
    ("GopalakrishnanLedererSchoberlFirstKind", finat.GopalakrishnanLedererSchoberlFirstKind, FIAT.GopalakrishnanLedererSchoberlFirstKind),
    ("GopalakrishnanLedererSchoberlSecondKind", finat.GopalakrishnanLedererSchoberlSecondKind, FIAT.GopalakrishnanLedererSchoberlSecondKind),
    ("Bernstein", finat.Bernstein, FIAT.Bernstein),
    ("Bubble", finat.Bubble, FIAT.Bubble),
    ("FacetBubble", finat.FacetBubble, FIAT.FacetBubble),
    ("CrouzeixRaviart", finat.CrouzeixRaviart, FIAT.CrouzeixRaviart),
    ("KongMulderVeldhuizen", finat.KongMulderVeldhuizen, FIAT.KongMulderVeldhuizen),
    ("Serendipity", finat.Serendipity, FIAT.Serendipity),
    ("DPC", finat.DPC, FIAT.DPC),
    ("DiscontinuousTaylor", finat.DiscontinuousTaylor, FIAT.DiscontinuousTaylor),
    ("TrimmedSerendipityFace", finat.TrimmedSerendipityFace, FIAT.TrimmedSerendipityFace),
    ("TrimmedSerendipityDiv", finat.TrimmedSerendipityDiv, FIAT.TrimmedSerendipityDiv),
    ("TrimmedSerendipityEdge", finat.TrimmedSerendipityEdge, FIAT.TrimmedSerendipityEdge),
    ("TrimmedSerendipityCurl", finat.TrimmedSerendipityCurl, FIAT.TrimmedSerendipityCurl),
    ("BrezziDouglasMariniCubeEdge", finat.BrezziDouglasMariniCubeEdge, FIAT.BrezziDouglasMariniCubeEdge),
    ("BrezziDouglasMariniCubeFace", finat.BrezziDouglasMariniCubeFace, FIAT.BrezziDouglasMariniCubeFace),
    ("BrezziDouglasFortinMarini", finat.BrezziDouglasFortinMarini, FIAT.BrezziDouglasFortinMarini),
    ("HDivTrace", finat.HDivTrace, FIAT.HDivTrace),
    ("GaussLobattoLegendre", finat.GaussLobattoLegendre, FIAT.GaussLobattoLegendre),
    ("GaussLegendre", finat.GaussLegendre, FIAT.GaussLegendre),
    ("FDMLagrange", finat.FDMLagrange, FIAT.FDMLagrange),
    ("FDMDiscontinuousLagrange", finat.FDMDiscontinuousLagrange, FIAT.FDMDiscontinuousLagrange),
    ("FDMQuadrature", finat.FDMQuadrature, FIAT.FDMQuadrature),
    ("FDMBrokenH1", finat.FDMBrokenH1, FIAT.FDMBrokenH1),
    ("FDMBrokenL2", finat.FDMBrokenL2, FIAT.FDMBrokenL2),
    ("FDMHermite", finat.FDMHermite, FIAT.FDMHermite),
]

VARIANT = [
    ("Regge", finat.Regge, FIAT.Regge),
    ("HellanHerrmannJohnson", finat.HellanHerrmannJohnson, FIAT.HellanHerrmannJohnson),
    ("Lagrange", finat.Lagrange, FIAT.Lagrange),
    ("DiscontinuousLagrange", finat.DiscontinuousLagrange, FIAT.DiscontinuousLagrange),
    ("Real", finat.Real, FIAT.DiscontinuousLagrange),
    ("RaviartThomas", finat.RaviartThomas, FIAT.RaviartThomas),
    ("BrezziDouglasMarini", finat.BrezziDouglasMarini, FIAT.BrezziDouglasMarini),
    ("Nedelec", finat.Nedelec, FIAT.Nedelec),
    ("NedelecSecondKind", finat.NedelecSecondKind, FIAT.NedelecSecondKind),
    ("Legendre", finat.Legendre, FIAT.Legendre),
    ("IntegratedLegendre", finat.IntegratedLegendre, FIAT.IntegratedLegendre),
    ("JohnsonMercier", finat.JohnsonMercier, FIAT.JohnsonMercier),
    ("HuZhang", finat.HuZhang, FIAT.HuZhang),
]

NO_PERMUTATIONS = [finat.TrimmedSerendipityFace, finat.TrimmedSerendipityDiv, finat.TrimmedSerendipityEdge, finat.TrimmedSerendipityCurl,
                   finat.BrezziDouglasMariniCubeEdge, finat.BrezziDouglasMariniCubeFace]

SCALAR = [finat.Bernstein, finat.Bubble, finat.FacetBubble, finat.CrouzeixRaviart, finat.KongMulderVeldhuizen, finat.Serendipity, finat.DPC,
          finat.DiscontinuousTaylor, finat.HDivTrace, finat.GaussLobattoLegendre, finat.GaussLegendre, finat.FDMLagrange,
          finat.FDMDiscontinuousLagrange, finat.FDMQuadrature, finat.FDMBrokenH1, finat.FDMBrokenL2, finat.FDMHermite,
          finat.Lagrange, finat.DiscontinuousLagrange, finat.Real, finat.Legendre, finat.IntegratedLegendre]

VECTOR = [finat.TrimmedSerendipityFace, finat.TrimmedSerendipityDiv, finat.TrimmedSerendipityEdge, finat.TrimmedSerendipityCurl,
          finat.BrezziDouglasMariniCubeEdge, finat.BrezziDouglasMariniCubeFace, finat.BrezziDouglasFortinMarini,
          finat.RaviartThomas, finat.BrezziDouglasMarini, finat.Nedelec, finat.NedelecSecondKind]


def observe(e, kind, f):
    """everything but the tables"""
    shape = f.value_shape()
    if kind in SCALAR:
        shape = ()
    if kind in VECTOR:
        shape = (f.get_reference_element().get_spatial_dimension(),)
    perms = raises("NotImplementedError") if kind in NO_PERMUTATIONS else f.entity_permutations()
    return (lambda: [e.fiat_equivalent, e.cell, e.complex, e.degree, e.formdegree, e.entity_dofs(), e.space_dimension(), e.index_shape, e.value_shape],
            lambda: [f, f.get_reference_element(), f.get_reference_complex(), f.degree(), f.get_formdegree(), f.entity_dofs(), f.space_dimension(),
                     (f.space_dimension(),), shape]), (lambda: e.entity_permutations, lambda: perms)


def case_plain(cell: "Cell", degree: "int"):
    out = {}
    for name, kind, fiat in PLAIN:
        out[name], out[name + " permutations"] = observe(kind(cell, degree), kind, fiat(cell, degree))
    return out


def case_variant(cell: "Cell", degree: "int", variant: "str"):
    out = {}
    for name, kind, fiat in VARIANT:
        out[name], out[name + " permutations"] = observe(kind(cell, degree, variant), kind, fiat(cell, degree, variant=variant))
        out[name + " by keyword"] = (lambda kind=kind: kind(cell, degree, variant=variant).fiat_equivalent, lambda fiat=fiat: fiat(cell, degree, variant=variant))
        out[name + " default"] = (lambda kind=kind: kind(cell, degree).fiat_equivalent, lambda fiat=fiat: fiat(cell, degree, variant=None))
    return out


def case_generic(f: "FiatElement"):
    e = FiatElement(f)
    out = {}
    out["data"], out["permutations"] = observe(e, FiatElement, f)
    out["mapping"] = (lambda: e.mapping, lambda: f.mapping()[0] if len(set(f.mapping())) == 1 else None)
    return out


def case_nodal(es: "tuple[Element]"):
    return {"sum": (lambda: NodalEnrichedElement(es).fiat_equivalent, lambda: FIAT.NodalEnrichedElement(*[e.fiat_equivalent for e in es])),
            "sum of an iterator": (lambda: NodalEnrichedElement(e for e in es).fiat_equivalent,
                                   lambda: FIAT.NodalEnrichedElement(*[e.fiat_equivalent for e in es]))}


def case_mapped(cell: "Cell", degree: "int"):
    """physically mapped elements; most ignore the degree, having one only"""
    out = {}
    for name, kind, fiat in [
            ("Argyris", lambda: finat.Argyris(cell, degree), lambda: FIAT.Argyris(cell, degree, variant="integral")),
            ("Argyris, integral", lambda: finat.Argyris(cell, degree, "integral"), lambda: FIAT.Argyris(cell, degree, variant="integral")),
            ("Argyris, point", lambda: finat.Argyris(cell, 5, variant="point"), lambda: FIAT.Argyris(cell, 5, variant="point")),
            ("Argyris, default", lambda: finat.Argyris(cell), lambda: FIAT.Argyris(cell, 5, variant="integral")),
            ("Bell", lambda: finat.Bell(cell), lambda: FIAT.Bell(cell)),
            ("HsiehCloughTocher", lambda: finat.HsiehCloughTocher(cell, degree), lambda: FIAT.HsiehCloughTocher(cell, degree)),
            ("HsiehCloughTocher, default", lambda: finat.HsiehCloughTocher(cell), lambda: FIAT.HsiehCloughTocher(cell, 3)),
            ("ReducedHsiehCloughTocher", lambda: finat.ReducedHsiehCloughTocher(cell), lambda: FIAT.HsiehCloughTocher(cell, reduced=True)),
            ("Hermite", lambda: finat.Hermite(cell), lambda: FIAT.CubicHermite(cell)),
            ("Morley", lambda: finat.Morley(cell), lambda: FIAT.Morley(cell)),
            ("QuadraticPowellSabin6", lambda: finat.QuadraticPowellSabin6(cell), lambda: FIAT.QuadraticPowellSabin6(cell)),
            ("QuadraticPowellSabin12", lambda: finat.QuadraticPowellSabin12(cell), lambda: FIAT.QuadraticPowellSabin12(cell)),
            ("ArnoldWintherNC", lambda: finat.ArnoldWintherNC(cell, degree), lambda: FIAT.ArnoldWintherNC(cell, degree)),
            ("ArnoldWintherNC, default", lambda: finat.ArnoldWintherNC(cell), lambda: FIAT.ArnoldWintherNC(cell, 2)),
            ("ArnoldWinther", lambda: finat.ArnoldWinther(cell, degree), lambda: FIAT.ArnoldWinther(cell, degree)),
            ("ArnoldWinther, default", lambda: finat.ArnoldWinther(cell), lambda: FIAT.ArnoldWinther(cell, 3)),
            ("MardalTaiWinther", lambda: finat.MardalTaiWinther(cell, degree), lambda: FIAT.MardalTaiWinther(cell, degree)),
            ("AlfeldSorokina", lambda: finat.AlfeldSorokina(cell, degree), lambda: FIAT.AlfeldSorokina(cell, degree)),
            ("HuZhang, default", lambda: finat.HuZhang(cell), lambda: FIAT.HuZhang(cell, 3, variant=None)),
            ("JohnsonMercier, default", lambda: finat.JohnsonMercier(cell), lambda: FIAT.JohnsonMercier(cell, 1, variant=None)),
            ("ArnoldQin", lambda: finat.ArnoldQin(cell, degree), lambda: FIAT.ArnoldQin(cell, degree)),
            ("ArnoldQin, default", lambda: finat.ArnoldQin(cell), lambda: FIAT.ArnoldQin(cell, 2))]:
        out[name] = (lambda kind=kind: kind().fiat_equivalent, fiat)
    return out


def case_options(cell: "Cell", degree: "int", variant: "str", avg: "bool"):
    """the choices that are not FIAT's are kept"""
    assert variant != "point"
    return {
        "Argyris variant": (lambda: finat.Argyris(cell, degree, variant).variant, lambda: variant),
        "Argyris default variant": (lambda: finat.Argyris(cell, degree).variant, lambda: "integral"),
        "Argyris averaging": (lambda: finat.Argyris(cell, degree, avg=avg).avg, lambda: avg),
        "Argyris point of other degree": (lambda: finat.Argyris(cell, degree, "point").fiat_equivalent,
                                          lambda: FIAT.Argyris(cell, 5, variant="point") if degree == 5 else raises("NotImplementedError")),
        "HsiehCloughTocher averaging": (lambda: finat.HsiehCloughTocher(cell, degree, avg=avg).avg, lambda: avg),
        "QuadraticPowellSabin12 averaging": (lambda: finat.QuadraticPowellSabin12(cell, avg=avg).avg, lambda: avg),
        "HuZhang variant": (lambda: finat.HuZhang(cell, degree, variant).variant, lambda: variant),
        "averaging is off unless asked for": (lambda: [finat.Argyris(cell, degree).avg, finat.HsiehCloughTocher(cell, degree).avg, finat.QuadraticPowellSabin12(cell).avg],
                                              lambda: [False, False, False]),
    }


def piola(f):
    """these FIAT elements are all contravariant Piola mapped"""
    return f if f.mapping()[0] == "contravariant piola" else undefined()


def case_bubbles(cell: "Cell", degree: "int"):
    """elements that hide the tangential facet functions of a FIAT element"""
    out = {}
    for name, make, fiat in [
            ("ReducedArnoldQin", lambda: finat.ReducedArnoldQin(cell, degree), lambda: FIAT.ArnoldQin(cell, degree, reduced=True)),
            ("ReducedArnoldQin, default", lambda: finat.ReducedArnoldQin(cell), lambda: FIAT.ArnoldQin(cell, 2, reduced=True)),
            ("ChristiansenHu", lambda: finat.ChristiansenHu(cell, degree), lambda: FIAT.ChristiansenHu(cell, degree)),
            ("BernardiRaugel", lambda: finat.BernardiRaugel(cell, degree), lambda: FIAT.BernardiRaugel(cell, order=degree)),
            ("BernardiRaugel, default", lambda: finat.BernardiRaugel(cell), lambda: FIAT.BernardiRaugel(cell, order=1)),
            ("BernardiRaugelBubble", lambda: finat.BernardiRaugelBubble(cell, degree), lambda: FIAT.BernardiRaugel(cell, order=0)),
            ("GuzmanNeilanFirstKindH1", lambda: finat.GuzmanNeilanFirstKindH1(cell, degree), lambda: FIAT.GuzmanNeilanFirstKindH1(cell, order=degree)),
            ("GuzmanNeilanSecondKindH1", lambda: finat.GuzmanNeilanSecondKindH1(cell, degree), lambda: FIAT.GuzmanNeilanSecondKindH1(cell, order=degree)),
            ("GuzmanNeilanBubble", lambda: finat.GuzmanNeilanBubble(cell, degree), lambda: FIAT.GuzmanNeilanFirstKindH1(cell, order=0)),
            ("GuzmanNeilanH1div", lambda: finat.GuzmanNeilanH1div(cell, degree), lambda: FIAT.GuzmanNeilanH1div(cell, degree=degree))]:
        out[name] = (lambda make=make: make().fiat_equivalent, lambda fiat=fiat: piola(fiat()))
    return out
