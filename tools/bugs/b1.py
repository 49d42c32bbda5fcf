BUGS = [
dict(id="p06-filtered-nlist", property="P06",
 edits=[("freud/locality.py", """    @_Compute._computed_property
    def filtered_nlist(self):""", """    @property
    def filtered_nlist(self):""")],
 demo='''
 import freud, sys
 f = freud.locality.FilterSANN()
 try:
     f.filtered_nlist
 except AttributeError:
     sys.exit(0)
 sys.exit(1)
 ''', needs="reading the filtered list of a filter that has not computed anything", what="filtered_nlist is readable before compute"),
dict(id="p22-cubatic-seed", property="P22",
 edits=[("freud/order.py", """f"n_replicates={self.n_replicates}, seed={self.seed})\"""", """f"n_replicates={self.n_replicates})\"""")],
 demo='''
 import freud, sys
 c = freud.order.Cubatic(5.0, 0.001, 0.9, 3, seed=11)
 sys.exit(0 if eval(repr(c)).seed == 11 else 1)
 ''', needs="an object built with an explicit seed", what="repr of Cubatic leaves out the seed"),
dict(id="p24-msd-class-list", property="P24",
 edits=[("freud/msd.py", """        self._particle_msd = []

        if mode not in""", """        if mode not in"""),
        ("freud/msd.py", """    def __init__(self, box=None""", """    _particle_msd = []

    def __init__(self, box=None""")],
 demo='''
 import freud, numpy as np, sys
 a = freud.msd.MSD(); b = freud.msd.MSD()
 p = np.random.default_rng(0).random((5, 2, 3))
 a.compute(p, reset=False); b.compute(p, reset=False)
 sys.exit(0 if b.particle_msd.shape == (5, 2) else 1)
 ''', needs="two MSD objects whose first computation is made with reset=False", what="the list of accumulated MSDs is shared between all objects until the first reset"),
dict(id="p18-boxfromcpp-tilts", property="P18",
 edits=[("freud/box.py", """        cppbox.getTiltFactorXZ(),
        cppbox.getTiltFactorYZ(),
        cppbox.is2D(),""", """        cppbox.getTiltFactorYZ(),
        cppbox.getTiltFactorXZ(),
        cppbox.is2D(),""")],
 demo='''
 import freud, numpy as np, sys
 b = freud.Box(5, 6, 7, 0.1, 0.2, 0.3)
 nq = freud.locality.AABBQuery(b, np.zeros((1, 3)))
 sys.exit(0 if abs(nq.box.xz - 0.2) < 1e-6 and abs(nq.box.yz - 0.3) < 1e-6 else 1)
 ''', needs="a triclinic box whose xz and yz differ, read back from a native object", what="xz and yz are exchanged in boxes returned from native code"),
dict(id="p18-pmftxyz-bins", property="P18",
 edits=[("freud/pmft.py", """            n_x,
            n_y,
            n_z,""", """            n_x,
            n_z,
            n_y,""")],
 demo='''
 import freud, sys
 p = freud.pmft.PMFTXYZ(3, 4, 5, bins=(4, 5, 6))
 sys.exit(0 if tuple(p.nbins) == (4, 5, 6) else 1)
 ''', needs="different numbers of bins in y and z", what="PMFTXYZ passes n_y and n_z exchanged"),
dict(id="p01-gaussian-shared-local", property="P01",
 edits=[("freud/density/GaussianDensity.cc", """    // set up some constants first
    const float Lx""", """    auto& bin_counts = local_bin_counts.local();
    // set up some constants first
    const float Lx"""),
        ("freud/density/GaussianDensity.cc", "local_bin_counts.local()(ni, nj, nk) += gaussian;", "bin_counts(ni, nj, nk) += gaussian;")],
 demo='''
 import freud, numpy as np, sys
 p = (np.random.default_rng(0).random((40000, 3)) - 0.5).astype(np.float32) * 10
 b = freud.Box.cube(10)
 freud.parallel.set_num_threads(1)
 a = freud.density.GaussianDensity(6, 2.0, 1.0).compute((b, p)).density.sum(dtype=float)
 freud.parallel.set_num_threads(8)
 for i in range(5):
     c = freud.density.GaussianDensity(6, 2.0, 1.0).compute((b, p)).density.sum(dtype=float)
     if abs(a - c) > 1e-4 * a:
         print(a, c); sys.exit(1)
 ''', needs="several threads adding to the same grid cells at once", what="the thread-local grid is looked up once outside the parallel loop, so all threads add into one array without synchronisation"),
]
