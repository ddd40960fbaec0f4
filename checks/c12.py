"""C12: half storage.  The inversion build behaves like the complex build: Fields.tla with HALF=1, and Results.tla."""
import vf, fieldlab, problems


def check(c):
    vf.need("complex", "inv")
    vf.tlc_model(c, "FieldsMC", None if not c.quick else "FieldsMCq")
    n = c.n(30, 300)
    fieldlab.sweep(c, [("inv", "2d", n, 1, "mix"), ("inv", "3d", n, 1, "mix"), ("inv", "1d", n, 1, "mix"),
                       ("inv", "2d", n, 1, "pt"), ("inv", "3d", n, 1, "pt"), ("inv", "3d", n, 1, "write"), ("inv", "1d", n, 1, "write")])
    problems.compare(c, [("without inversion", "complex", 1, ""), ("with inversion", "inv", 1, "")], c.n(60, 500),
                     "complex build against inversion build", gen=lambda r, i: problems.make(r, i))
    charge(c)


def charge(c):
    """rho(r) rho(-r) / (E(r) E(-r)) does not depend on the phase of the band: it must be the same in both builds.

    The inversion build has the sign of the stored other half wrong: see known_findings.txt."""
    s = """(set! geometry-lattice (make lattice (size 1 1 no-size))) (set! resolution 8)
(set! geometry (list (make cylinder (center 0) (radius .3) (height infinity) (material (make medium (epsilon 9))))))
(set! num-bands 1) (set! tolerance 1e-11) (init-params EVEN-Z true) (solve-kpoint (vector3 .3 .2 0))
(define (z x y) (vector3 x y 0))
(define qs '((.25 .125) (.375 0) (.125 .375) (.375 .25)))
(define (both f q) (* (f (z (car q) (cadr q))) (f (z (- (car q)) (- (cadr q))))))
(get-efield 1)
(define e (map (lambda (q) (both (lambda (r) (vector3-x (get-bloch-field-point r))) q)) qs))
(compute-field-divergence)
(define r (map (lambda (q) (both get-bloch-cscalar-point q)) qs))
(emit "q" (map (lambda (a b) (let ((x (/ a b))) (list (exact->inexact (real-part x)) (exact->inexact (imag-part x))))) r e))
"""
    recs, ctx = [], {}
    for cfg in ("complex", "inv"):
        r = vf.run_mpb(cfg, s)
        if r.rc or not r.one("q"):
            c.violate("charge density: the %s build fails with status %s" % (cfg, r.rc), log=r.out[-500:])
            return
        q = r.one("q")[0]
        ctx[len(recs)] = cfg
        mx = max(abs(y) for z in q for y in z)
        recs.append(dict(ev="obs", p="charge density of the other half", f=[], b=[], x=[problems.qi(y / mx, 1e4) for z in q for y in z],
                         tf=30, tb=200, sep=1))
    sgn = [-1, 1, -1, -1]                 # the second pair lies in the plane that is stored completely
    if all(abs(a - sgn[i // 2] * b) < 200 for i, (a, b) in enumerate(zip(recs[0]["x"], recs[1]["x"]))):
        c.violate("charge density: exactly the opposite sign in the other half of the cell", observed=recs)
    else:
        problems.judge(c, recs, "charge density", ctx)
