"""Every physically mapped element class, with an unknown basis transformation
and unknown reference tables: each table of the element is the product of the
transformation at the given geometry with the reference table of the same
derivative, and geometry is mandatory."""
import gem

import finat
from finat.alfeld_sorokina import AlfeldSorokina
from finat.argyris import Argyris
from finat.aw import ArnoldWinther, ArnoldWintherNC
from finat.bell import Bell
from finat.fiat_elements import FiatElement
from finat.hct import HsiehCloughTocher, ReducedHsiehCloughTocher
from finat.hermite import Hermite
from finat.hz import HuZhang
from finat.johnson_mercier import JohnsonMercier
from finat.morley import Morley
from finat.mtw import MardalTaiWinther
from finat.physically_mapped import PhysicallyMappedElement
from finat.piola_mapped import PiolaBubbleElement
from finat.powell_sabin import QuadraticPowellSabin12, QuadraticPowellSabin6


def reference_tables(order, ps, entity):
    """tables of the reference element, unknown"""


def transformation(coordinate_mapping):
    """the transformation at a geometry, unknown"""


class Reference:
    """an element with unknown tables"""

    def __init__(self, shape):
        self.shape = shape

    @property
    def value_shape(self):
        return self.shape

    def get_value_indices(self):
        return tuple(gem.Index(extent=d) for d in self.value_shape)

    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        return reference_tables(order, ps, entity)


class Mapped(PhysicallyMappedElement, Reference):
    def basis_transformation(self, coordinate_mapping):
        return transformation(coordinate_mapping)


def product(M, table, shape):
    i = gem.Index(extent=M.shape[0])
    j = gem.Index(extent=M.shape[1])
    z = tuple(gem.Index(extent=d) for d in shape)
    return gem.ComponentTensor(gem.IndexSum(gem.Product(gem.Indexed(M, (i, j)), gem.Indexed(table, (j,) + z)), (j,)), (i,) + z)


def case_tables(order: "int", ps: "PointSet", entity, cm, shape: "tuple[int]"):
    opaque(reference_tables, "dict[tuple[int],gem]")
    opaque(transformation, "gem")
    M = transformation(cm)
    assert cm is not None
    assert len(M.shape) == 2
    for table in reference_tables(order, ps, entity).values():
        assert table.shape == (M.shape[1],) + shape
    e = Mapped(shape)
    expected = lambda ent: {alpha: product(M, table, shape) for alpha, table in reference_tables(order, ps, ent).items()}
    return {
        "tables": (lambda: e.basis_evaluation(order, ps, entity, cm), lambda: expected(entity)),
        "tables on the cell": (lambda: e.basis_evaluation(order, ps, coordinate_mapping=cm), lambda: expected(None)),
        "no geometry": (lambda: e.basis_evaluation(order, ps, entity), lambda: raises()),
        "symbolic points": (lambda: e.point_evaluation(order, ps, entity), lambda: raises("NotImplementedError")),
    }


CLASSES = [AlfeldSorokina, Argyris, ArnoldWinther, ArnoldWintherNC, Bell, HsiehCloughTocher, ReducedHsiehCloughTocher, Hermite, HuZhang,
           JohnsonMercier, Morley, MardalTaiWinther, PiolaBubbleElement, QuadraticPowellSabin6, QuadraticPowellSabin12]


def case_classes(f: "FiatElement", order: "int", ps: "PointSet", entity, cm):
    """every class uses that product with the tables of its own FIAT element"""
    opaque(FiatElement.basis_evaluation, "dict[tuple[int],gem]")
    opaque(transformation, "gem")
    M = transformation(cm)
    assert cm is not None
    assert len(M.shape) == 2
    res = {}
    for K in CLASSES:
        class Probe(K):
            def __init__(self):
                FiatElement.__init__(self, f)

            def basis_transformation(self, coordinate_mapping):
                return transformation(coordinate_mapping)

        e = Probe()
        for table in FiatElement.basis_evaluation(e, order, ps, entity).values():
            assert table.shape == (M.shape[1],) + e.value_shape
        res[K.__name__] = (
            lambda e=e: e.basis_evaluation(order, ps, entity, cm),
            lambda e=e: {alpha: product(M, table, e.value_shape) for alpha, table in FiatElement.basis_evaluation(e, order, ps, entity).items()})
        res[K.__name__ + ", no geometry"] = (lambda e=e: e.basis_evaluation(order, ps, entity), lambda: raises())
        res[K.__name__ + ", symbolic points"] = (lambda e=e: e.point_evaluation(order, ps, entity), lambda: raises("NotImplementedError"))
    return res
