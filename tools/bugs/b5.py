BUGS = [
dict(id="p02-distance-ties", property="P02",
 edits=[("freud/locality/NeighborBond.h", """            return distance < n.distance;
        }
        if (point_idx != n.point_idx)
        {
            return point_idx < n.point_idx;
        }
        return weight < n.weight;""", """            return distance < n.distance;
        }
        return weight < n.weight;""")],
 demo='''
import freud, sys, numpy as np
uc = freud.data.UnitCell.sc()
box, p = uc.generate_system(12)
ref = None
for k in range(60):
    freud.parallel.set_num_threads(1 if k == 0 else None)
    nl = freud.locality.AABBQuery(box, p).query(p, dict(r_max=2.3, exclude_ii=True)).toNeighborList(sort_by_distance=True)
    d = nl.distances
    ok = all((np.diff(nl.point_indices[a:b].astype(int))[d[a:b][1:] == d[a:b][:-1]] > 0).all() for a, b in zip(nl.segments, nl.segments + nl.neighbor_counts))
    if not ok:
        sys.exit(1)
sys.exit(0)
''', needs="bonds of equal length in a list sorted by distance, found by several threads", what="the order of equally distant neighbors depends on thread scheduling"),
dict(id="p03-debye-min-k", property="P03",
 edits=[("freud/diffraction/StaticStructureFactorDebye.h", "        m_min_valid_k = std::numeric_limits<float>::infinity();\n", "")],
 demo='''
import freud, sys
s = freud.diffraction.StaticStructureFactorDebye(bins=5, k_max=10)
s.compute(freud.data.make_random_system(20, 30, seed=1))
s.compute(freud.data.make_random_system(10, 30, seed=2))
t = freud.diffraction.StaticStructureFactorDebye(bins=5, k_max=10)
t.compute(freud.data.make_random_system(10, 30, seed=2))
sys.exit(0 if s.min_valid_k == t.min_valid_k else 1)
''', needs="a second compute with reset on a smaller box", what="min_valid_k keeps the value of an earlier, larger box after a reset", also=["P04"]),
dict(id="p03-hexatic-reuse", property="P03",
 edits=[("freud/order/HexaticTranslational.cc", """    m_psi_array = std::make_shared<util::ManagedArray<std::complex<float>>>(std::vector<size_t> {Np});
""", """    if (m_psi_array == nullptr || m_psi_array->size() != Np)
    {
        m_psi_array = std::make_shared<util::ManagedArray<std::complex<float>>>(std::vector<size_t> {Np});
    }
""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(10, 30, is2D=True, seed=1)
box, q = freud.data.make_random_system(10, 30, is2D=True, seed=2)
h = freud.order.Hexatic(6)
h.compute((box, p)); h.compute((box, q))
a = h.particle_order.copy()
b = freud.order.Hexatic(6).compute((box, q)).particle_order
sys.exit(0 if np.allclose(a, b) else 1)
''', needs="two computations with the same number of points on one object", what="the second result starts from the values of the first", also=["P05"]),
dict(id="p05-rdf-nr", property="P05",
 edits=[("freud/density/RDF.cc", "    m_N_r = std::make_shared<util::ManagedArray<float>>(m_N_r->shape());\n}", "    m_N_r->reset();\n}")],
 demo='''
import freud, sys, numpy as np
r = freud.density.RDF(10, 3)
r.compute(freud.data.make_random_system(10, 100, seed=1))
a = r.n_r
b = a.copy()
r.compute(freud.data.make_random_system(10, 300, seed=2))
r.n_r
sys.exit(0 if np.array_equal(a, b) else 1)
''', needs="n_r is kept, the object computes again with reset, and n_r is read again", what="an n_r array returned earlier changes"),
dict(id="p05-buffer-ids", property="P05",
 edits=[("freud/locality/PeriodicBuffer.cc", "    m_buffer_ids = std::make_shared<std::vector<unsigned int>>();\n", """    if (m_buffer_ids == nullptr)
    {
        m_buffer_ids = std::make_shared<std::vector<unsigned int>>();
    }
    m_buffer_ids->clear();
""")],
 demo='''
import freud, sys, numpy as np
b = freud.locality.PeriodicBuffer()
box, p = freud.data.make_random_system(10, 50, seed=1)
b.compute((box, p), buffer=1.0)
a = b.buffer_ids
c = np.array(a)
b.compute((box, p[::-1].copy()), buffer=1.0)
b.buffer_ids
sys.exit(0 if np.array_equal(a, c) else 1)
''', needs="buffer_ids is kept while the object computes again", what="buffer_ids returned earlier change"),
dict(id="p04-complex-last", property="P04",
 edits=[("freud/density.py", """        self.is_complex = (
            self.is_complex
            or np.any(np.iscomplex(values))
            or np.any(np.iscomplex(query_values))
        )""", """        self.is_complex = np.any(np.iscomplex(values)) or np.any(
            np.iscomplex(query_values)
        )""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.make_random_system(10, 60, seed=1)
v = np.exp(1j * np.arange(60))
w = np.exp(2j * np.arange(60) ** 2)
c = freud.density.CorrelationFunction(4, 3)
c.compute((box, p), values=v, query_points=p, query_values=w)
c.compute((box, p), values=np.ones(60), query_points=p, query_values=np.ones(60), reset=False)
sys.exit(0 if np.iscomplexobj(c.correlation) and np.abs(c.correlation.imag).max() > 0 else 1)
''', needs="complex values are accumulated first and real values last", what="the imaginary part accumulated earlier is dropped from the result"),
dict(id="p04-diffraction-cache", property="P04",
 edits=[("freud/diffraction.py", """        self._k_values_cached = False
        self._k_vectors_cached = False

        return self""", """        if reset:
            self._k_values_cached = False
            self._k_vectors_cached = False

        return self""")],
 demo='''
import freud, sys, numpy as np
box, p = freud.data.UnitCell.sc().generate_system(4)
d = freud.diffraction.DiffractionPattern(32)
d.compute((box, p))
a = d.k_values.copy()
d.compute((box, p), zoom=2, reset=False)
e = freud.diffraction.DiffractionPattern(32)
e.compute((box, p)); e.compute((box, p), zoom=2, reset=False)
sys.exit(0 if np.array_equal(d.k_values, e.k_values) else 1)
''', needs="k_values is read, then a frame with another zoom is accumulated, then k_values is read again", what="k_values stays at the value of the earlier read", also=["P03"]),
dict(id="p04-debye-stale", property="P04",
 edits=[("freud/diffraction/StaticStructureFactorDebye.cc", "    m_frame_counter++;\n    m_reduce = true;", "    m_reduce = m_frame_counter == 0;\n    m_frame_counter++;")],
 demo='''
import freud, sys, numpy as np
s = freud.diffraction.StaticStructureFactorDebye(bins=5, k_max=10)
f = [freud.data.make_random_system(10, 30, seed=k) for k in (1, 2, 3)]
s.compute(f[0]); s.S_k
s.compute(f[1], reset=False)
a = s.S_k.copy()
t = freud.diffraction.StaticStructureFactorDebye(bins=5, k_max=10)
t.compute(f[0]); t.S_k
t.compute(f[1], reset=False)
r = [freud.diffraction.StaticStructureFactorDebye(bins=5, k_max=10).compute(x).S_k for x in f]
sys.exit(0 if np.allclose(a, (r[0] + r[1]) / 2) else 1)
''', needs="S_k is read between two accumulating computations", what="S_k is frozen at its first read"),
dict(id="p04-local-clear", property="P04",
 edits=[("freud/locality/BondHistogramCompute.h", """            reduce();
        }
        m_reduce = false;""", """            reduce();
            if (m_frame_counter > 8)
            {
                m_local_histograms.reset();
            }
        }
        m_reduce = false;""")],
 demo='''
import freud, sys, numpy as np
r = freud.density.RDF(10, 3)
f = freud.data.make_random_system(10, 100, seed=1)
n = 0
for k in range(12):
    r.compute(f, reset=False)
    c = r.bin_counts
    n = n or c.copy()
sys.exit(0 if np.array_equal(r.bin_counts, 12 * n) else 1)
'''.replace("n = 0\n", "n = None\n").replace("n = n or c.copy()", "n = c.copy() if n is None else n"), needs="more than eight accumulated frames with reads in between", what="reading drops what was accumulated"),
]
