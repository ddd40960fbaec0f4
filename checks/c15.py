"""C15: output files.  Specification: spec/Fields.tla (what is written) and spec/Fields.tla (where)."""
import vf, fieldlab


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "FieldsMC", None if not c.quick else "FieldsMCq")
    n = c.n(45, 450)
    fieldlab.sweep(c, [("complex", "2d", n, 1, "write"), ("complex", "3d", n, 1, "write"), ("complex", "1d", n // 2, 1, "write"),
                       ("inv", "2d", n, 1, "write"), ("inv", "3d", n, 1, "write"), ("inv", "1d", n // 2, 1, "write"), ("herm", "2d", n // 2, 1, "write")])
