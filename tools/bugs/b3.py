BUGS = [
dict(id="p08-rad-sorts-input", property="P08",
 edits=[("freud/locality/FilterRAD.cc", "    NeighborList sorted_nlist(*m_unfiltered_nlist);\n", "    NeighborList& sorted_nlist(*m_unfiltered_nlist);\n")],
 demo='''
 import freud, numpy as np, sys
 box, pts = freud.data.make_random_system(10, 200, seed=3)
 nl = freud.locality.AABBQuery(box, pts).query(pts, dict(r_max=4, exclude_ii=True)).toNeighborList(sort_by_distance=False)
 before = np.array(nl.distances)
 freud.locality.FilterRAD(allow_incomplete_shell=True).compute((box, pts), nl)
 sys.exit(0 if np.array_equal(before, np.array(nl.distances)) else 1)
 ''', needs="a neighbor list passed by the user that is sorted by point index", what="FilterRAD sorts the neighbor list the user passed by distance in place"),
dict(id="p08-box-center-inplace", property="P08",
 edits=[("freud/box.py", """        vecs = freud.util._convert_array(vecs, shape=(None, 3)).copy()

        if masses is not None:
            masses = freud.util._convert_array(masses, shape=(len(vecs),))
        else:
            masses = np.ones(vecs.shape[0], dtype=np.float32)

        self._cpp_obj.center(""", """        vecs = freud.util._convert_array(vecs, shape=(None, 3))

        if masses is not None:
            masses = freud.util._convert_array(masses, shape=(len(vecs),))
        else:
            masses = np.ones(vecs.shape[0], dtype=np.float32)

        self._cpp_obj.center(""")],
 demo='''
 import freud, numpy as np, sys
 v = np.array([[1, 2, 3], [2, 2, 2]], dtype=np.float32)
 w = v.copy()
 freud.box.Box.cube(10).center(v)
 sys.exit(0 if np.array_equal(v, w) else 1)
 ''', needs="a contiguous float32 array", what="Box.center shifts the array the user passed"),
dict(id="p08-neighbors-dict", property="P08",
 edits=[("freud/locality.py", "self.default_query_args if neighbors is None else neighbors.copy()", "self.default_query_args if neighbors is None else neighbors")],
 demo='''
 import freud, sys
 box, pts = freud.data.make_random_system(10, 100, seed=3)
 d = dict(r_max=2.0)
 freud.density.RDF(10, 2).compute((box, pts), neighbors=d)
 sys.exit(0 if d == dict(r_max=2.0) else 1)
 ''', needs="a query dictionary without exclude_ii", what="the dictionary passed as neighbors gains an exclude_ii key", also=["P19"]),
dict(id="p07-cluster-idx-length", property="P07",
 edits=[("freud/cluster.py", "cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32", "cluster_idx, shape=(None,), dtype=np.uint32")],
 demo='''
 import freud, numpy as np, sys
 box, pts = freud.data.make_random_system(10, 100, seed=3)
 try:
     freud.cluster.ClusterProperties().compute((box, pts), np.zeros(90, dtype=np.uint32))
 except ValueError:
     sys.exit(0)
 sys.exit(1)
 ''', needs="cluster indices for fewer particles than the system has", what="ClusterProperties reads beyond the end of a short cluster_idx array"),
dict(id="p19-r-guess-zero", property="P19",
 edits=[("freud/locality.py", """        if r_guess is not None:
            self.r_guess = r_guess""", """        if r_guess:
            self.r_guess = r_guess""")],
 demo='''
 import freud, sys
 from freud.locality import _QueryArgs
 q = _QueryArgs(mode="nearest", num_neighbors=4, r_guess=0.0)
 sys.exit(0 if q.r_guess == 0 else 1)
 ''', needs="r_guess given as exactly zero", what="an explicit r_guess of 0 is dropped and replaced by the default"),
dict(id="p19-nlist-exclude", property="P19",
 edits=[("freud/locality.py", """    query_args.setdefault("exclude_ii", query_points is None)
    nq = _make""", """    query_args.setdefault("exclude_ii", query_points is not None)
    nq = _make""")],
 demo='''
 import freud, sys
 from freud.locality import _make_default_nlist
 box, pts = freud.data.make_random_system(10, 100, seed=3)
 nl = _make_default_nlist((box, pts), dict(r_max=2.0))
 sys.exit(1 if (nl.query_point_indices == nl.point_indices).any() else 0)
 ''', needs="a class that builds its neighbor list in Python", what="self-neighbors are kept when no query points are given"),
dict(id="p10-nearest-rmin", property="P10",
 edits=[("freud/locality/AABBQuery.cc", "if (minimum_distance_bond.second.getDistance() >= m_r_min)", "if (minimum_distance_bond.second.getDistance() >= 0)")],
 demo='''
 import freud, numpy as np, sys
 box, pts = freud.data.make_random_system(5, 20, seed=3)
 nq = freud.locality.AABBQuery(box, pts)
 nl = nq.query(pts, dict(num_neighbors=15, r_min=1.5, exclude_ii=True)).toNeighborList()
 sys.exit(0 if nl.distances.min() >= 1.5 else 1)
 ''', needs="a nearest-neighbor query with r_min that has to extend beyond half the box", what="bonds shorter than r_min are returned"),
dict(id="p10-nearest-rmax", property="P10",
 edits=[("freud/locality/AABBQuery.cc", "        if (m_current_neighbors[m_count - 1].getDistance() > m_r_max)\n", "        if (m_current_neighbors[m_count - 1].getDistance() > m_r_cur)\n"),
        ("freud/locality/AABBQuery.cc", "std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);", "m_r_cur, 0, m_exclude_ii, false);")],
 demo='''
 import freud, sys
 box, pts = freud.data.make_random_system(20, 200, seed=3)
 nq = freud.locality.AABBQuery(box, pts)
 nl = nq.query(pts, dict(num_neighbors=6, r_max=2.5, r_guess=2.4, exclude_ii=True)).toNeighborList()
 sys.exit(0 if nl.distances.max() <= 2.5 else 1)
 ''', needs="a nearest-neighbor query whose r_max cuts off neighbors inside the current search radius", what="neighbors beyond r_max are returned"),
dict(id="p11-extended-min", property="P11",
 edits=[("freud/locality/AABBQuery.cc", "m_all_bonds_minimum_distance[nb_point_idx].getDistance() > nb_distance)", "m_all_bonds_minimum_distance[nb_point_idx].getDistance() < nb_distance)")],
 demo='''
 import freud, numpy as np, sys
 box, pts = freud.data.make_random_system(5, 10, seed=3)
 nq = freud.locality.AABBQuery(box, pts)
 nl = nq.query(pts, dict(num_neighbors=9, exclude_ii=True)).toNeighborList()
 v = box.wrap(pts[nl.point_indices] - pts[nl.query_point_indices])
 sys.exit(0 if np.allclose(np.linalg.norm(v, axis=1), nl.distances, atol=1e-4) else 1)
 ''', needs="a nearest-neighbor query with a search radius beyond half the box", what="a farther periodic image replaces the minimum image"),
dict(id="p12-linkcell-bond", property="P12",
 edits=[("freud/locality/LinkCell.cc", "m_current_neighbors.emplace_back(m_query_point_idx, j, std::sqrt(r_sq), 1, r_ij);", "m_current_neighbors.emplace_back(j, m_query_point_idx, std::sqrt(r_sq), 1, r_ij);")],
 demo='''
 import freud, numpy as np, sys
 box, pts = freud.data.make_random_system(10, 100, seed=3)
 q = pts[:7]
 nq = freud.locality.LinkCell(box, pts)
 nl = nq.query(q, dict(num_neighbors=3)).toNeighborList()
 sys.exit(0 if nl.query_point_indices.max() < 7 else 1)
 ''', needs="a nearest-neighbor query with separate query points", what="the two indices of the bonds are exchanged"),
dict(id="p21-cubatic-scale", property="P21",
 edits=[("freud/order/Cubatic.cc", "(scale >= 1)", "(scale > 1)")],
 demo='''
 import freud, sys
 try:
     freud.order.Cubatic(5.0, 0.001, 1.0)
 except Exception:
     sys.exit(0)
 sys.exit(1)
 ''', needs="scale exactly 1", what="a scale of 1, with which the annealing never cools, is accepted"),
dict(id="p23-wrap-early-return", property="P23",
 edits=[("freud/box/Box.h", "!m_periodic.x && !m_periodic.y && !m_periodic.z", "!m_periodic.x && !m_periodic.y")],
 demo='''
 import freud, numpy as np, sys
 b = freud.box.Box(10, 10, 10)
 b.periodic = (False, False, True)
 sys.exit(0 if np.allclose(b.wrap([0, 0, 6]), [0, 0, -4]) else 1)
 ''', needs="a box periodic along z only", what="wrap does nothing in a box periodic only along z"),
dict(id="p23-com-axis", property="P23",
 edits=[("freud/density/SphereVoxelization.cc", "if (!periodic.y && (j < 0 || j >= int(m_width.y)))", "if (!periodic.x && (j < 0 || j >= int(m_width.y)))")],
 demo='''
 import freud, numpy as np, sys
 b = freud.box.Box(10, 10, 10)
 b.periodic = (True, False, True)
 s = freud.density.SphereVoxelization((10, 10, 10), 2.0)
 try:
     s.compute((b, np.array([[0, 4.6, 0]], dtype=np.float32)))
 except Exception:
     sys.exit(2)
 sys.exit(0 if s.voxels[:, 0, :].sum() == 0 else 1)
 ''', needs="a box that is periodic along x but not along y", what="voxels across the y boundary are set in a box not periodic in y"),
dict(id="p06-buffer-ids", property="P06",
 edits=[("freud/locality.py", """    @_Compute._computed_property
    def buffer_ids(self):""", """    @property
    def buffer_ids(self):""")],
 demo='''
 import freud, sys
 f = freud.locality.PeriodicBuffer()
 try:
     f.buffer_ids
 except AttributeError:
     sys.exit(0)
 sys.exit(1)
 ''', needs="reading buffer_ids before compute", what="buffer_ids is readable before compute"),
]
