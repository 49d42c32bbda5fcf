BUGS = [
dict(id="p15-point-check", property="P15",
 edits=[("freud/locality/NeighborList.cc", """        if (index >= m_num_query_points)
        {
            throw std::invalid_argument(
                "NeighborList query_point_index values must be less than num_query_points.");
        }
        if (point_index[i] >= m_num_points)
        {
            throw std::invalid_argument("NeighborList point_index values must be less than num_points.");
        }
""", """        // indices equal to the previous bond's have been checked already
        if (i == 0 || index != last_index)
        {
            if (index >= m_num_query_points)
            {
                throw std::invalid_argument(
                    "NeighborList query_point_index values must be less than num_query_points.");
            }
            if (point_index[i] >= m_num_points)
            {
                throw std::invalid_argument("NeighborList point_index values must be less than num_points.");
            }
        }
""")],
 demo='''
import freud, sys, numpy as np
try:
    freud.locality.NeighborList.from_arrays(3, 3, np.array([0, 0, 1]), np.array([1, 9, 2]), np.ones((3, 3), dtype=np.float32), np.ones(3))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', needs="an invalid point index that is not in a query point's first bond", what="lists with bonds to points that do not exist are accepted", also=["P14", "P07"]),
dict(id="p14-all-pairs-rows", property="P14",
 edits=[("freud/locality/NeighborList.cc", "                bond_idx -= std::min(i, num_points);\n", "                bond_idx -= i;\n")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.cube(10)
p = np.arange(9).reshape(3, 3) * 0.4
q = np.arange(21).reshape(7, 3) * 0.2 - 2
nl = freud.locality.NeighborList.all_pairs((box, p), q)
got = sorted(map(tuple, nl[:].tolist()))
want = sorted((i, j) for i in range(7) for j in range(3) if i != j)
sys.exit(0 if got == want else 1)
''', needs="all pairs with more query points than points and exclude_ii", what="bonds of query points beyond the number of points overwrite other rows", also=["P01"]),
dict(id="p23-hexatic-wrap", property="P23",
 edits=[("freud/order/HexaticTranslational.cc", "                const vec3<float> delta = box.wrap((*points)[nb.getPointIdx()] - ref);\n",
 """                const vec3<float> L = box.getL();
                vec3<float> delta = (*points)[nb.getPointIdx()] - ref;
                delta.x -= L.x * std::round(delta.x / L.x);
                delta.y -= L.y * std::round(delta.y / L.y);
""")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.square(10)
box.periodic = False
p = np.array([[-4, 0, 0], [4, 0.5, 0]], dtype=np.float32)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0, 1], [1, 0], np.array([p[1] - p[0], p[0] - p[1]]), np.ones(2))
h = freud.order.Hexatic(k=1)
h.compute((box, p), neighbors=nl)
a = np.arctan2(0.5, 8)
sys.exit(0 if np.allclose(h.particle_order[0], np.exp(1j * a), atol=1e-4) else 1)
''', needs="a box with tilt or without periodic boundaries", what="bond vectors are wrapped in boxes that are not periodic or tilted", also=["P17"]),
dict(id="p10-filter-rmax", property="P10",
 edits=[("freud/locality/NeighborList.cc", "(*m_distances)[i] >= r_min && (*m_distances)[i] < r_max);", "(*m_distances)[i] >= r_min && (*m_distances)[i] <= r_max);")],
 demo='''
import freud, sys, numpy as np
nl = freud.locality.NeighborList.from_arrays(2, 3, [0, 0, 1], [1, 2, 2], np.array([[1, 0, 0], [2, 0, 0], [0, 0, 3]], dtype=np.float32), np.ones(3))
nl.filter_r(2.0)
sys.exit(0 if (nl.distances < 2.0).all() else 1)
''', needs="a bond of length exactly r_max", what="filter_r keeps bonds at the cutoff, unlike queries with the same r_max", also=[]),
dict(id="p10-aabb-extended-rmin", property="P10",
 edits=[("freud/locality/AABBQuery.cc", """                    if (minimum_distance_bond.second.getDistance() >= m_r_min)
                    {
                        m_current_neighbors.emplace_back(minimum_distance_bond.second);
                    }
""", """                    if (m_query_points_below_r_min.empty()
                        || minimum_distance_bond.second.getDistance() > 0)
                    {
                        m_current_neighbors.emplace_back(minimum_distance_bond.second);
                    }
""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(8, 40, seed=3)
d = np.array([b[2] for b in freud.locality.AABBQuery(box, p).query(p, dict(num_neighbors=39, r_min=1.5, exclude_ii=True))])
sys.exit(0 if len(d) and (d >= 1.5).all() else 1)
''', needs="a nearest-neighbor query with r_min whose search extends beyond half the box", what="neighbors closer than r_min are returned", also=[]),
dict(id="p19-exclude-forced", property="P19",
 edits=[("freud/locality.py", "                qargs = _QueryArgs.from_dict(query_args)\n", "                qargs = _QueryArgs.from_dict(query_args)\n                qargs.exclude_ii = qargs.exclude_ii or query_points is None\n")],
 demo='''
import freud, sys, numpy as np
s = freud.data.make_random_system(10, 50, seed=1)
r = freud.density.RDF(bins=10, r_max=2)
a = r.compute(s, neighbors=dict(r_max=2.0, exclude_ii=False)).bin_counts.sum()
b = freud.density.RDF(bins=10, r_max=2).compute(s, neighbors=dict(r_max=2.0, exclude_ii=True)).bin_counts.sum()
sys.exit(0 if a == b + 50 else 1)
''', needs="neighbors=dict(exclude_ii=False) without query points", what="an explicit exclude_ii=False is overridden", also=[]),
dict(id="p17-vector-length", property="P17",
 edits=[("freud/box.py", "        a3 = [self.Lz * self.xz, self.Lz * self.yz, self.Lz]\n", "        a3 = [self.Lz * self.xz, self.Ly * self.yz, self.Lz]\n")],
 demo='''
import freud, sys, numpy as np
b = freud.box.Box(2, 3, 4, 0.1, 0.2, 0.5)
sys.exit(0 if np.isclose(b.to_box_lengths_and_angles()[2], np.linalg.norm(b.v3), rtol=1e-4) else 1)
''', needs="a box with yz tilt and Ly != Lz", what="the exported length of the third box vector is wrong", also=[]),
dict(id="p01-cubatic-proposal", property="P01",
 edits=[("freud/order/Cubatic.cc", """    util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
        for (size_t i = begin; i < end; i++)
        {
""", """    quat<float> new_orientation;
    util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
        for (size_t i = begin; i < end; i++)
        {
"""), ("freud/order/Cubatic.cc", "            quat<float> new_orientation = cubatic_orientation;\n", "            new_orientation = cubatic_orientation;\n")],
 demo='''
import freud, sys, numpy as np
rng = np.random.default_rng(1)
q = rng.normal(size=(40, 4)); q /= np.linalg.norm(q, axis=1)[:, None]
out = []
for n in (1, None, None, None):
    freud.parallel.set_num_threads(n)
    c = freud.order.Cubatic(5, 0.001, 0.95, 32, 7)
    c.compute(q)
    out.append((c.order, *c.orientation))
sys.exit(0 if all(np.allclose(o, out[0], atol=1e-6) for o in out) else 1)
''', needs="several replicates annealed at the same time", what="replicates overwrite each other's proposed orientation", also=["P02"]),
dict(id="p09-iterator-points", property="P09",
 edits=[("freud/locality.py", """        self._points = np.array(points, dtype=np.float32)
        self._query_args = query_args

    def __iter__(self):
        iterator_cpp = self._nq._cpp_obj.query(self._points, self._query_args._cpp_obj)
""", """        self._points = np.array(points)
        self._query_args = query_args

    def __iter__(self):
        iterator_cpp = self._nq._cpp_obj.query(
            np.array(self._points, dtype=np.float32), self._query_args._cpp_obj
        )
"""), ("freud/locality.py", """        iterator_cpp = self._nq._cpp_obj.query(self._points, self._query_args._cpp_obj)

        nlist_cpp""", """        points = np.array(self._points, dtype=np.float32)
        iterator_cpp = self._nq._cpp_obj.query(points, self._query_args._cpp_obj)

        nlist_cpp""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(20, 60000, seed=3)
nq = freud.locality.AABBQuery(box, p)
want = nq.query(p[:40000], dict(num_neighbors=2)).toNeighborList()
w = sorted(map(tuple, want[:].tolist()))
got = []
junk = []
for b in nq.query(p[:40000], dict(num_neighbors=2)):
    got.append((b[0], b[1]))
    if len(got) < 20:
        junk.append(np.full((40000, 3), 0.5, dtype=np.float32))
sys.exit(0 if sorted(got) == w else 1)
''', needs="iterating over a query result while other arrays are allocated", what="the native iterator reads a freed temporary copy of the query points", also=[]),
]
