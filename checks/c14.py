"""C14: point values.  Specification: spec/Fields.tla (interpolation, Bloch phase, integrals and maps of stored fields)."""
import vf, fieldlab


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "FieldsMC", None if not c.quick else "FieldsMCq")
    n = c.n(28, 450)
    fieldlab.sweep(c, [("complex", "2d", n, 1, "pt"), ("complex", "3d", n, 1, "pt"), ("complex", "1d", n // 2, 1, "pt"),
                       ("inv", "2d", n, 1, "pt"), ("inv", "3d", n, 1, "pt"), ("inv", "1d", n // 2, 1, "pt"), ("herm", "3d", n // 2, 1, "pt")])
