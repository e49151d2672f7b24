from core import Context as Ctx  # noqa: F401
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D


def l3(v):
    return [v.x, v.y, v.z]


def l6(v):
    return [v.x, v.y, v.z, v.vx, v.vy, v.vz]


def V3(a, o=0):
    return Vector3D(*a[o:o + 3])


def V6(a, o=0):
    return Vector6D(*a[o:o + 6])


def M3(a, o=0):
    return Matrix3D(V3(a, o), V3(a, o + 3), V3(a, o + 6))


def M36(a, o=0):
    return Matrix3by6(V6(a, o), V6(a, o + 6), V6(a, o + 12))


def M63(a, o=0):
    return Matrix6by3(*[V3(a, o + 3 * i) for i in range(6)])


def M6(a, o=0):
    return Matrix6D(*[V6(a, o + 6 * i) for i in range(6)])


def rows(m):
    out = []
    for i in range(1, 7):
        r = getattr(m, "row%d" % i, None)
        if r is not None:
            out += l6(r) if hasattr(r, "vx") else l3(r)
    return out


def cols(m, n):
    out = []
    for i in range(1, n + 1):
        r = getattr(m, "column_%d" % i)()
        out += l6(r) if hasattr(r, "vx") else l3(r)
    return out


def angle(c, s, a):
    x = V3(a).angle(V3(a, 3))
    return [x, x, x]


def rotate(c, s, a):
    r = V3(a).rotation_about_axis(V3(a, 3), a[6])
    return l3(r) + [r.magnitude()]


OPS = {
    "v3.plus": lambda c, s, a: l3(V3(a).plus(V3(a, 3))),
    "v3.minus": lambda c, s, a: l3(V3(a).minus(V3(a, 3))),
    "v3.dot": lambda c, s, a: [V3(a).dot(V3(a, 3))],
    "v3.cross": lambda c, s, a: l3(V3(a).cross(V3(a, 3))),
    "v3.magnitude": lambda c, s, a: [V3(a).magnitude()],
    "v3.scaled": lambda c, s, a: l3(V3(a).scaled(a[3])),
    "v3.copy": lambda c, s, a: l3(V3(a).copy()),
    "v3.normalized": lambda c, s, a: l3(V3(a).normalized()),
    "v3.angle": angle,
    "v3.rotate": rotate,
    "v3.rotation_matrix": lambda c, s, a: rows(Vector3D.rotation_matrix(V3(a), a[3])),
    "m3.diagonal": lambda c, s, a: l3(M3(a).diagonal()),
    "m3.columns": lambda c, s, a: cols(M3(a), 3),
    "m3.mv": lambda c, s, a: l3(M3(a).multiply_vector(V3(a, 9))),
    "m3.scaled": lambda c, s, a: rows(M3(a).scaled(a[9])),
    "m3.transpose": lambda c, s, a: rows(M3(a).transpose()),
    "m3.plus": lambda c, s, a: rows(M3(a).plus(M3(a, 9))),
    "m3.determinant": lambda c, s, a: [M3(a).determinant()],
    "m3.cofactor": lambda c, s, a: rows(M3(a).cofactor()),
    "m3.adjugate": lambda c, s, a: rows(M3(a).adjugate()),
    "m3.inverse": lambda c, s, a: rows(M3(a).inverse()),
    "m3.mm36": lambda c, s, a: rows(M3(a).multiply_matrix3by6(M36(a, 9))),
    "v6.plus": lambda c, s, a: l6(V6(a).plus(V6(a, 6))),
    "v6.minus": lambda c, s, a: l6(V6(a).minus(V6(a, 6))),
    "v6.dot": lambda c, s, a: [V6(a).dot(V6(a, 6))],
    "v6.copy": lambda c, s, a: l6(V6(a).copy()),
    "v6.from": lambda c, s, a: l6(Vector6D.from_position_and_velocity(V3(a), V3(a, 3))),
    "m36.columns": lambda c, s, a: cols(M36(a), 6),
    "m36.mv": lambda c, s, a: l3(M36(a).multiply_vector(V6(a, 18))),
    "m36.transpose": lambda c, s, a: rows(M36(a).transpose()),
    "m36.mm63": lambda c, s, a: rows(M36(a).multiply_matrix_6by3(M63(a, 18))),
    "m63.columns": lambda c, s, a: cols(M63(a), 3),
    "m63.transpose": lambda c, s, a: rows(M63(a).transpose()),
    "m63.mm3": lambda c, s, a: rows(M63(a).multiply(M3(a, 18))),
    "m63.mv": lambda c, s, a: l6(M63(a).multiply_vector(V3(a, 18))),
    "m63.mm36": lambda c, s, a: rows(M63(a).multiply_matrix3by6(M36(a, 18))),
    "m6.identity": lambda c, s, a: rows(Matrix6D.identity()),
    "m6.diagonal": lambda c, s, a: l6(M6(a).diagonal()),
    "m6.columns": lambda c, s, a: cols(M6(a), 6),
    "m6.transpose": lambda c, s, a: rows(M6(a).transpose()),
    "m6.mv": lambda c, s, a: l6(M6(a).multiply_vector(V6(a, 36))),
    "m6.mm63": lambda c, s, a: rows(M6(a).multiply_matrix_6by3(M63(a, 36))),
    "m6.mm": lambda c, s, a: rows(M6(a).multiply_matrix(M6(a, 36))),
    "m6.plus": lambda c, s, a: rows(M6(a).plus(M6(a, 36))),
    "m6.minus": lambda c, s, a: rows(M6(a).minus(M6(a, 36))),
}
