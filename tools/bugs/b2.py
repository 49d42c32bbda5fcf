BUGS = [
dict(id="p01-rotauto-sum", property="P01", also=["P02"],
 edits=[("freud/order/RotationalAutocorrelation.cc", """    // Parallel loop is over orientations (technically (ref_or, or) pairs).
""", """    // Parallel loop is over orientations (technically (ref_or, or) pairs).
    float RA_sum(0);
"""),
("freud/order/RotationalAutocorrelation.cc", """                    uh_index += 1;
                }
            }
""", """                    uh_index += 1;
                }
            }
            RA_sum += std::real((*m_RA_array)[i]);
"""),
("freud/order/RotationalAutocorrelation.cc", """    float RA_sum(0);
    for (unsigned int i = 0; i < N; i++)
    {
        RA_sum += std::real((*m_RA_array)[i]);
    }
    m_Ft""", """    m_Ft""")],
 demo='''
 import freud, numpy as np, sys
 n = 300000
 q = np.zeros((n, 4), np.float32); q[:, 0] = 1
 freud.parallel.set_num_threads(8)
 for i in range(20):
     r = freud.order.RotationalAutocorrelation(2).compute(q, q)
     if abs(r.order - 1) > 1e-2:
         print(r.order); sys.exit(1)
 ''', needs="many orientations processed by several threads at once", what="the sum over orientations is accumulated by all threads into one unsynchronised variable"),
]
