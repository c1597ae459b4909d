"""Constructing an element of any class, on any cell, of any degree and variant, registers declared citations only,
and does not depend on citation support being there."""
import finat
from citations import KNOWN, Undeclared


def fine(make):
    try:
        make()
    except (Undeclared, TypeError, NameError, AttributeError):
        return False
    except Exception:
        return True
    return True


def constructed(makers):
    r = {}
    for name, make in makers:
        r[name] = (lambda make=make: fine(make), lambda: True)
    return r


def case_mapped(cell: "Cell", degree: "int", variant: "str", avg: "bool"):
    return constructed([
        ("Argyris", lambda: finat.Argyris(cell, degree, variant, avg)), ("Argyris, default", lambda: finat.Argyris(cell)),
        ("ArnoldWinther", lambda: finat.ArnoldWinther(cell, degree)), ("ArnoldWintherNC", lambda: finat.ArnoldWintherNC(cell, degree)),
        ("HuZhang", lambda: finat.HuZhang(cell, degree, variant)), ("HuZhang, default", lambda: finat.HuZhang(cell)),
        ("Bell", lambda: finat.Bell(cell, degree)),
        ("HsiehCloughTocher", lambda: finat.HsiehCloughTocher(cell, degree, avg)), ("HsiehCloughTocher, default", lambda: finat.HsiehCloughTocher(cell)),
        ("ReducedHsiehCloughTocher", lambda: finat.ReducedHsiehCloughTocher(cell, degree)),
        ("AlfeldSorokina", lambda: finat.AlfeldSorokina(cell, degree)),
        ("QuadraticPowellSabin6", lambda: finat.QuadraticPowellSabin6(cell, degree)), ("QuadraticPowellSabin12", lambda: finat.QuadraticPowellSabin12(cell, degree, avg)),
        ("Hermite", lambda: finat.Hermite(cell, degree)),
        ("JohnsonMercier", lambda: finat.JohnsonMercier(cell, degree, variant)), ("JohnsonMercier, default", lambda: finat.JohnsonMercier(cell)),
        ("MardalTaiWinther", lambda: finat.MardalTaiWinther(cell, degree)),
        ("Morley", lambda: finat.Morley(cell, degree)),
        ("DirectSerendipity", lambda: finat.DirectSerendipity(cell, degree)),
    ])


def case_piola(cell: "Cell", degree: "int"):
    return constructed([
        ("BernardiRaugel", lambda: finat.BernardiRaugel(cell, degree)), ("BernardiRaugel, default", lambda: finat.BernardiRaugel(cell)),
        ("BernardiRaugelBubble", lambda: finat.BernardiRaugelBubble(cell, degree)),
        ("ArnoldQin", lambda: finat.ArnoldQin(cell, degree)), ("ReducedArnoldQin", lambda: finat.ReducedArnoldQin(cell, degree)),
        ("ChristiansenHu", lambda: finat.ChristiansenHu(cell, degree)),
        ("GuzmanNeilanFirstKindH1", lambda: finat.GuzmanNeilanFirstKindH1(cell, degree)), ("GuzmanNeilanSecondKindH1", lambda: finat.GuzmanNeilanSecondKindH1(cell, degree)),
        ("GuzmanNeilanBubble", lambda: finat.GuzmanNeilanBubble(cell, degree)), ("GuzmanNeilanH1div", lambda: finat.GuzmanNeilanH1div(cell, degree)),
        ("GuzmanNeilanH1div, default", lambda: finat.GuzmanNeilanH1div(cell)),
    ])


def case_fiat(cell: "Cell", degree: "int", variant: "str"):
    return constructed([
        ("KongMulderVeldhuizen", lambda: finat.KongMulderVeldhuizen(cell, degree)),
        ("Lagrange", lambda: finat.Lagrange(cell, degree, variant)), ("DiscontinuousLagrange", lambda: finat.DiscontinuousLagrange(cell, degree, variant)),
        ("Real", lambda: finat.Real(cell, degree, variant)), ("CrouzeixRaviart", lambda: finat.CrouzeixRaviart(cell, degree)),
        ("Bernstein", lambda: finat.Bernstein(cell, degree)), ("Bubble", lambda: finat.Bubble(cell, degree)), ("FacetBubble", lambda: finat.FacetBubble(cell, degree)),
        ("Serendipity", lambda: finat.Serendipity(cell, degree)), ("DPC", lambda: finat.DPC(cell, degree)), ("DiscontinuousTaylor", lambda: finat.DiscontinuousTaylor(cell, degree)),
        ("Regge", lambda: finat.Regge(cell, degree)), ("HellanHerrmannJohnson", lambda: finat.HellanHerrmannJohnson(cell, degree)),
        ("GopalakrishnanLedererSchoberlFirstKind", lambda: finat.GopalakrishnanLedererSchoberlFirstKind(cell, degree)),
        ("GopalakrishnanLedererSchoberlSecondKind", lambda: finat.GopalakrishnanLedererSchoberlSecondKind(cell, degree)),
        ("RaviartThomas", lambda: finat.RaviartThomas(cell, degree, variant)), ("BrezziDouglasMarini", lambda: finat.BrezziDouglasMarini(cell, degree, variant)),
        ("BrezziDouglasFortinMarini", lambda: finat.BrezziDouglasFortinMarini(cell, degree)), ("Nedelec", lambda: finat.Nedelec(cell, degree, variant)),
        ("NedelecSecondKind", lambda: finat.NedelecSecondKind(cell, degree, variant)),
        ("BrezziDouglasMariniCubeEdge", lambda: finat.BrezziDouglasMariniCubeEdge(cell, degree)), ("BrezziDouglasMariniCubeFace", lambda: finat.BrezziDouglasMariniCubeFace(cell, degree)),
        ("TrimmedSerendipityFace", lambda: finat.TrimmedSerendipityFace(cell, degree)), ("TrimmedSerendipityEdge", lambda: finat.TrimmedSerendipityEdge(cell, degree)),
        ("TrimmedSerendipityDiv", lambda: finat.TrimmedSerendipityDiv(cell, degree)), ("TrimmedSerendipityCurl", lambda: finat.TrimmedSerendipityCurl(cell, degree)),
        ("HDivTrace", lambda: finat.HDivTrace(cell, degree)),
    ])


def case_declared():
    return {"some": (lambda: len(KNOWN) > 0, lambda: True)}
