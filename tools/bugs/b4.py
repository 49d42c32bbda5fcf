BUGS = [
dict(id="p13-upper-edge", property="P13",
 edits=[("freud/util/Histogram.h", "        if (value < m_min || value >= m_max)", "        if (value < m_min || value > m_max)")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.square(20)
p = np.array([[0, 0, 0], [2, 0.1, 0]], dtype=np.float32)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], np.array([[2, 0.1, 0]], dtype=np.float32))
m = freud.pmft.PMFTXY(2, 2, bins=4)
m.compute((box, p), [0, 0], neighbors=nl, reset=True)
sys.exit(0 if m.bin_counts.sum() == 0 else 1)
''', needs="a neighbor exactly at the upper edge of an axis", what="values at the upper edge of an axis are counted in the last bin"),
dict(id="p13-last-bin", property="P13",
 edits=[("freud/util/Histogram.h", """        if (bin == m_nbins)
        {
            return bin - 1;
        }
        return bin;""", """        return bin;""")],
 demo='''
import freud, sys, numpy as np
f = np.float32
box = freud.box.Box.square(1000)
for n in range(3, 200):
    for ym in (1.0, 1.3, 2.7, 3.1, 5.9, 7.7):
        mn, mx = f(-ym), f(ym)
        w = f(f(mx - mn) / f(n))
        inv = f(f(1) / w)
        v = np.nextafter(mx, f(0), dtype=f)
        if f(f(v - mn) * inv) >= n:
            p = np.array([[0, 0, 0], [0, v, 0]], dtype=f)
            nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], p[1:2])
            m = freud.pmft.PMFTXY(1, ym, bins=(4, n))
            m.compute((box, p), [0, 0], neighbors=nl)
            c = m.bin_counts
            sys.exit(0 if c[2, n - 1] == 1 else 1)
sys.exit(0)
''', needs="a value just below the upper edge whose position rounds up to the number of bins", what="the value lands in the next row of the histogram"),
dict(id="p14-filter-segments", property="P14",
 edits=[("freud/locality/NeighborList.cc", """    m_vectors = new_vectors;
    m_segments_counts_updated = false;
    return old_size - new_size;""", """    m_vectors = new_vectors;
    return old_size - new_size;""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(10, 20, seed=1)
nl = freud.locality.AABBQuery(box, p).query(p, dict(r_max=4, exclude_ii=True)).toNeighborList()
nl.segments
nl.filter(nl.distances < 3)
c = np.bincount(nl.query_point_indices, minlength=20)
sys.exit(0 if np.array_equal(c, nl.neighbor_counts) else 1)
''', needs="segments or counts are read, then the list is filtered, then they are read again", what="counts and segments still describe the bonds before filtering"),
dict(id="p14-copy-cache", property="P14",
 edits=[("freud/locality/NeighborList.cc", "    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_counts);", "    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_segments);")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(10, 20, seed=1)
nl = freud.locality.AABBQuery(box, p).query(p, dict(r_max=4, exclude_ii=True)).toNeighborList()
a = nl.neighbor_counts.copy()
b = nl.copy()
sys.exit(0 if np.array_equal(a, b.neighbor_counts) else 1)
''', needs="counts of a list are read before it is copied", what="the copy's counts are its segments"),
dict(id="p17-eq-yz", property="P17",
 edits=[("freud/box.py", "            and self.yz == other.yz\n", "")],
 demo='''
import freud, sys
a = freud.box.Box(3, 4, 5, 0.1, 0.2, 0.3)
b = freud.box.Box(3, 4, 5, 0.1, 0.2, 0.4)
sys.exit(0 if a != b else 1)
''', needs="two boxes that differ only in yz", what="boxes with different yz tilt compare equal"),
dict(id="p17-periodic-y", property="P17",
 edits=[("freud/box/Box.h", "        m_periodic = vec3<bool>(m_periodic.x, y, m_periodic.z);", "        m_periodic = vec3<bool>(m_periodic.x, y, m_periodic.x);")],
 demo='''
import freud, sys
b = freud.box.Box.cube(3)
b.periodic = [True, True, False]
b.periodic_y = False
sys.exit(0 if list(b.periodic) == [True, False, False] else 1)
''', needs="periodic x and z differ when periodic y is set", what="setting periodic_y changes periodic_z"),
dict(id="p17-image-neg", property="P17",
 edits=[("freud/box/Box.h", "image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));", "image.z = (int) (f.z + float(0.5));")],
 demo='''
import freud, sys
b = freud.box.Box.cube(2)
sys.exit(0 if list(b.get_images([0, 0, -2.2])) == [0, 0, -1] else 1)
''', needs="points below the box along z", what="images are rounded towards zero along z"),
dict(id="p12-obcd-swap", property="P12",
 edits=[("freud/environment/BondOrder.cc", "orientations[neighbor_bond.getPointIdx()]);\n                          vec3<float> v(", "orientations[neighbor_bond.getQueryPointIdx()]);\n                          vec3<float> v(")],
 demo='''
import freud, sys, numpy as np, rowan
box = freud.box.Box.cube(20)
p = np.array([[0, 0, 0], [1, 0.2, 0.1]], dtype=np.float32)
q = np.array([[0.1, 0.1, -1]], dtype=np.float32)
o = np.array([[1, 0, 0, 0], [0.6, 0, 0.8, 0]], dtype=np.float32)
qo = np.array([[1, 0, 0, 0]], dtype=np.float32)
nl = freud.locality.NeighborList.from_arrays(1, 2, [0], [1], p[1:2] - q)
b = freud.environment.BondOrder((8, 8), mode="lbod")
b.compute((box, p), o, q, qo, neighbors=nl)
c = freud.environment.BondOrder((8, 8), mode="lbod")
v = rowan.rotate(rowan.conjugate(o[1]), p[1] - q[0])
nl2 = freud.locality.NeighborList.from_arrays(1, 2, [0], [1], np.array([v], dtype=np.float32))
c.compute((box, p), np.array([[1, 0, 0, 0]] * 2, dtype=np.float32), q, qo, neighbors=nl2)
sys.exit(0 if np.array_equal(b.bin_counts, c.bin_counts) else 1)
''', needs="lbod mode with query points that differ from the points", what="the query point's index selects the point's orientation"),
dict(id="p12-correlation-swap", property="P12",
 edits=[("freud/density/CorrelationFunction.cc", "product(values[neighbor_bond.getPointIdx()], query_values[neighbor_bond.getQueryPointIdx()])", "product(values[neighbor_bond.getQueryPointIdx()], query_values[neighbor_bond.getPointIdx()])")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.square(20)
p = np.array([[0, 0, 0], [1, 0, 0]], dtype=np.float32)
q = np.array([[0, 1, 0], [1, 2, 0]], dtype=np.float32)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], np.array([[1, -1, 0]], dtype=np.float32))
c = freud.density.CorrelationFunction(4, 3)
c.compute((box, p), [1, 10], q, [3, 7], neighbors=nl)
sys.exit(0 if np.allclose(np.nansum(c.correlation).real, 30) else 1)
''', needs="query values that differ from the values", what="values are indexed by query point and query values by point"),
dict(id="p16-pmftxyt-3d", property="P16",
 edits=[("freud/pmft/PMFTXYT.cc", "    neighbor_query->getBox().enforce2D();\n", "")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.cube(10)
m = freud.pmft.PMFTXYT(2, 2, bins=4)
try:
    m.compute((box, np.zeros((1, 3))), [0])
except Exception:
    sys.exit(0)
sys.exit(1)
''', needs="a 3D box", what="PMFTXYT accepts 3D boxes"),
dict(id="p16-planar-z", property="P16",
 edits=[("freud/locality/NeighborQuery.h", "1e-6", "1e-1")],
 demo='''
import freud, sys, numpy as np
box = freud.box.Box.square(10)
try:
    freud.locality.AABBQuery(box, np.array([[0, 0, 0.05]]))
except Exception:
    sys.exit(0)
sys.exit(1)
''', needs="a point slightly off the plane in a 2D box", what="points off the plane are accepted in 2D boxes"),
dict(id="p21-bondorder-phi", property="P21",
 edits=[("freud/environment/BondOrder.cc", "n_bins_phi < 2", "n_bins_phi < 1")],
 demo='''
import freud, sys
try:
    freud.environment.BondOrder((4, 1))
except Exception:
    sys.exit(0)
sys.exit(1)
''', needs="exactly one phi bin", what="one phi bin is accepted"),
dict(id="p21-rdf-equal", property="P21",
 edits=[("freud/density/RDF.cc", "r_max <= r_min", "r_max < r_min")],
 demo='''
import freud, sys
try:
    freud.density.RDF(10, 3, r_min=3)
except Exception:
    sys.exit(0)
sys.exit(1)
''', needs="r_min equal to r_max", what="an empty range is accepted"),
dict(id="p21-fromlengths-beta", property="P21",
 edits=[("freud/box.py", "if not 0 < beta < np.pi:", "if not 0 <= beta <= np.pi:")],
 demo='''
import freud, sys
try:
    b = freud.box.Box.from_box_lengths_and_angles(1, 1, 1, 1.5, 0, 1.5)
except ValueError as e:
    sys.exit(0 if "beta" in str(e) else 1)
sys.exit(1)
''', needs="an angle of exactly zero", what="a zero beta angle is accepted"),
dict(id="p15-index-range", property="P15",
 edits=[("freud/locality/NeighborList.cc", "        if (point_index[i] >= m_num_points)", "        if (point_index[i] > m_num_points)")],
 demo='''
import freud, sys, numpy as np
try:
    freud.locality.NeighborList.from_arrays(2, 2, [0], [2], np.array([[1, 0, 0]], dtype=np.float32))
except Exception:
    sys.exit(0)
sys.exit(1)
''', needs="a point index equal to the number of points", what="an index outside the points is accepted"),
]
