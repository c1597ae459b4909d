F = "finat/"
EDITS = [
    ("bug", "C23", F + "direct_serendipity.py", "    @property\n    def mapping(self):", "    def mapping(self):"),
    ("bug", "C23", F + "cube.py", "def point_evaluation(self, order, refcoords, entity=None):", "def point_evaluation(self, refcoords, order, entity=None):"),
    ("bug", "C23", F + "enriched.py", "def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):", "def basis_evaluation(self, order, ps, coordinate_mapping=None, entity=None):"),
    ("bug", "C23", F + "runtime_tabulated.py", "def point_evaluation(self, order, refcoords, entity=None):", "def point_evaluation(self, order, refcoords, entity):"),
    ("bug", "C23", F + "quadrature_element.py", "    @property\n    def formdegree(self):", "    def formdegree(self):"),
    ("bug", "C23", F + "mixed.py", "    @property\n    def formdegree(self):\n", "    def form_degree(self):\n"),
    ("bug", "C23", F + "discontinuous.py", "    @cached_property\n    def fiat_equivalent", "    def fiat_equivalent"),
    ("bug", "C23", F + "runtime_tabulated.py", "    @cached_property\n    def degree(self):", "    def degree(self):"),
    ("bug", "C23", F + "ufl/hdivcurl.py", "    @property\n    def sobolev_space(self):", "    def sobolev_space(self):"),
    ("bug", "C23", F + "ufl/enrichedelement.py", "def is_cellwise_constant(self, component=None):", "def is_cellwise_constant(self):"),
    ("same", "C23", F + "enriched.py", "    def space_dimension(self):\n", "    def space_dimension(self, *unused):\n"),
    ("same", "C23", F + "quadrature_element.py", "    @property\n    def formdegree(self):\n        return None", "    formdegree = None"),
    ("same", "C23", F + "cube.py", "def point_evaluation(self, order, refcoords, entity=None):", "def point_evaluation(self, order, refcoords, entity=None, **extra):"),
]
