"""Cells and sub-elements of symbolic elements, as far as the elements look at
them."""
from ufl.cell import Cell, TensorProductCell, as_cell
from ufl.pullback import MixedPullback, SymmetricPullback
from ufl.permutation import compute_indices
from ufl.utils.indexflattening import flatten_multiindex, shape_to_strides, unflatten_index
from ufl.utils.sequences import max_degree, product
from finat.ufl.finiteelementbase import FiniteElementBase
from finat.ufl import BrokenElement, HCurlElement, HDivElement, RestrictedElement
from finat.ufl.enrichedelement import EnrichedElementBase
from families import DIMENSIONS


class Known(Cell):
    """a cell by name"""

    def __init__(self, name, dimension=None):
        self.name = name
        self.dimension = DIMENSIONS[name] if dimension is None else dimension

    def __lt__(self, other):
        return self.name < other.name

    def __repr__(self):
        return "Cell(" + self.name + ")"

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return self.dimension


class Product(TensorProductCell):
    """a product of cells"""

    def __init__(self, *cells):
        self.cells = cells

    def __eq__(self, other):
        return isinstance(other, Product) and self.cells == other.cells

    def __hash__(self):
        return hash(self.cells)

    def __repr__(self):
        return "Product(" + ", ".join([repr(c) for c in self.cells]) + ")"

    def sub_cells(self):
        return self.cells

    def cellname(self):
        return " * ".join([c.cellname() for c in self.cells])

    def topological_dimension(self):
        return sum([c.topological_dimension() for c in self.cells])


def product_of(*cells):
    return Product(*cells)


def cell_of(cell):
    """what as_cell makes of a cell"""
    if isinstance(cell, str):
        return Known(cell)
    if isinstance(cell, (tuple, list)):
        return Product(*[cell_of(c) for c in cell])
    return cell


def seen(e):
    """what there is to see of a symbolic element and its parts"""
    common = (type(e), e.family(), e.cell, e.degree(), e.quadrature_scheme(), e.variant(), e.mapping(), e.sobolev_space, e.reference_value_shape,
              e.embedded_subdegree, e.embedded_superdegree, repr(e))
    if isinstance(e, (HDivElement, HCurlElement, BrokenElement)):
        return common + (seen(e._element),)
    if isinstance(e, RestrictedElement):
        return common + (e.restriction_domain(), seen(e.sub_element()))
    if isinstance(e, EnrichedElementBase):
        return common + tuple([seen(x) for x in e._elements])
    return common + tuple([seen(x) for x in e.sub_elements])


class Part(FiniteElementBase):
    """a symbolic element of which only the name is known"""

    def __init__(self, name, cell, degree, quad_scheme, shape=(), changes=()):
        FiniteElementBase.__init__(self, sym(name + ".family", "str"), cell, degree, quad_scheme, shape)
        self.name = name
        self.changes = changes

    def __repr__(self):
        return sym(self.name + ".repr", "str")

    def variant(self):
        return sym(self.name + ".variant", "str")

    def mapping(self):
        return sym(self.name + ".mapping", "str")

    @property
    def sobolev_space(self):
        return sym(self.name + ".space")

    @property
    def embedded_subdegree(self):
        return sym(self.name + ".subdegree", "int")

    @property
    def embedded_superdegree(self):
        return sym(self.name + ".superdegree", "int")

    def is_cellwise_constant(self, component=None):
        if component is not None:
            return sym(self.name + ".constant in %d" % component, "bool")
        return sym(self.name + ".constant", "bool")

    def _is_linear(self):
        return sym(self.name + ".linear", "bool")

    def shortstr(self):
        return sym(self.name + ".shortstr", "str")

    def __str__(self):
        return sym(self.name + ".str", "str")

    def reconstruct(self, **kwargs):
        return Part(self.name, kwargs.get("cell", self.cell), kwargs.get("degree", self.degree()), kwargs.get("quad_scheme", self.quadrature_scheme()),
                    self.reference_value_shape, (self.changes, tuple(sorted(kwargs.items()))))


class Placed(Part):
    """a symbolic element in a known space"""

    def __init__(self, name, cell, degree, quad_scheme, space):
        Part.__init__(self, name, cell, degree, quad_scheme)
        self.space = space

    @property
    def sobolev_space(self):
        return self.space


class Varied(Part):
    """a symbolic element with a known variant, or none"""

    def __init__(self, name, cell, degree, quad_scheme, of):
        Part.__init__(self, name, cell, degree, quad_scheme)
        self.of = of

    def variant(self):
        return self.of


class Space:
    """a Sobolev space, by the spaces that contain it"""

    def __init__(self, name, parents):
        self.name = name
        self.parents = parents

    def __str__(self):
        return self.name

    def __lt__(self, other):
        return other in self.parents

    def __le__(self, other):
        return other is self or other in self.parents

    def __gt__(self, other):
        return not (other is self or other in self.parents)

    def __ge__(self, other):
        return other not in self.parents


def spaces():
    """L2, H(div), H(curl), H1, H2"""
    l2 = Space("L2", ())
    hdiv = Space("HDiv", (l2,))
    hcurl = Space("HCurl", (l2,))
    h1 = Space("H1", (hdiv, hcurl, l2))
    h2 = Space("H2", (h1, hdiv, hcurl, l2))
    return l2, hdiv, hcurl, h1, h2


def library():
    """what the elements take from ufl to do their bookkeeping"""
    bind(as_cell, cell_of)
    bind(max_degree, largest)
    bind(product, times)
    bind(compute_indices, rows)
    bind(shape_to_strides, strides_of)
    bind(flatten_multiindex, flat)
    bind(unflatten_index, unflat)
    bind(MixedPullback, whole)
    bind(SymmetricPullback, by_symmetry)
    bind(TensorProductCell, product_of)


class Pullback:
    """a pullback of all components together"""

    def __init__(self, element, symmetry):
        self.element = element
        self.symmetry = symmetry


def whole(element):
    return Pullback(element, None)


def by_symmetry(element, symmetry):
    return Pullback(element, symmetry)


def largest(degrees):
    """the largest degree; a number is the same degree in each direction"""
    degrees = list(degrees)
    lengths = [len(d) for d in degrees if isinstance(d, tuple)]
    if not lengths:
        return max(degrees)
    return tuple([max([d[k] if isinstance(d, tuple) else d for d in degrees]) for k in range(max(lengths))])


def times(numbers):
    r = 1
    for x in numbers:
        r = r * x
    return r


def rows(shape):
    """the indices of a tensor, the last one running fastest"""
    if len(shape) == 0:
        return ((),)
    return tuple([(i,) + rest for i in range(shape[0]) for rest in rows(shape[1:])])


def strides_of(shape):
    return tuple([times(shape[k + 1:]) for k in range(len(shape))])


def flat(index, strides):
    return sum([i * s for i, s in zip(index, strides)])


def unflat(i, strides):
    index = []
    for s in strides:
        index.append(i // s)
        i = i % s
    return tuple(index)
