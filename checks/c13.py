"""C13: processes.  The MPI builds behave like the serial ones: Fields.tla (slabs do not show) and Results.tla."""
import vf, fieldlab, problems


def check(c):
    vf.need("herm", "inv", "mpi", "invmpi")
    vf.tlc_model(c, "FieldsMC", None if not c.quick else "FieldsMCq")
    n = c.n(8, 100)
    nps = c.rng.sample([2, 3, 4, 5], 3) if c.quick else [1, 2, 3, 4, 5, 7]
    plan = []
    for np in nps:
        plan += [("mpi", "2d", n, np, "mix"), ("mpi", "3d", n, np, "mix"), ("invmpi", "3d", n, np, "mix"), ("invmpi", "2d", n, np, "mix"),
                 ("mpi", "3d", n // 2, np, c.rng.choice(["pt", "write"])), ("invmpi", "2d", n // 2, np, c.rng.choice(["pt", "write"]))]
    fieldlab.sweep(c, plan)
    m = c.n(14, 200)
    gen = lambda r, i: problems.make(r, i, dims=r.choice([2, 2, 3]))
    a, b = (nps + nps)[:2]
    problems.compare(c, [("serial", "herm", 1, ""), ("parallel", "mpi", a, ""), ("parallel", "mpi", b, "")], m,
                     "serial against parallel", gen=lambda r, i: problems.make(r, i, dims=r.choice([2, 2, 3]), inv=r.random() < .5, herm=r.random() < .5))
    problems.compare(c, [("serial", "inv", 1, ""), ("parallel", "invmpi", a, "")], m, "serial against parallel, inversion", gen=gen)
