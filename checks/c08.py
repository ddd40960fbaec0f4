"""C08: stored fields.  Specification: spec/Fields.tla (model FieldsMC, generator FieldsGen, traces FieldsTrace)."""
import vf, fieldlab


def check(c):
    vf.need("complex", "inv")
    vf.tlc_model(c, "FieldsMC", None if not c.quick else "FieldsMCq")
    n = c.n(40, 400)
    fieldlab.sweep(c, [("complex", "2d", n, 1, "mix"), ("complex", "3d", n, 1, "mix"), ("complex", "1d", n // 2, 1, "mix"),
                       ("inv", "2d", n, 1, "mix"), ("inv", "3d", n, 1, "mix"), ("inv", "1d", n // 2, 1, "mix")])
