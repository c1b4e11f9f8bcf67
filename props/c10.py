"""Combined stresses at a node from arbitrary component values."""

from fractions import Fraction as F

from props.common import num

BOUNDS = "two nodes, every component any real in [-10,10]"
COMP = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz",
        "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]


def result(ctx, M, n=2, skip=()):
    sr = M.stress_post.StressResult(num_nodes=n)
    v = {}
    for c in COMP:
        v[c] = [num(ctx, 0) if c in skip else ctx.real(f"{c}_{i}") for i in range(n)]
        setattr(sr, c, ctx.vec(v[c]))
    sr.calculate_combined_stresses()
    return sr, v


def sums(v, i):
    m = v["sig_zz_mxx"][i] + v["sig_zz_myy"][i] + v["sig_zz_m11"][i] + v["sig_zz_m22"][i]
    vx = v["sig_zx_vx"][i] + v["sig_zx_vy"][i]
    vy = v["sig_zy_vx"][i] + v["sig_zy_vy"][i]
    return (m, vx, vy, v["sig_zz_n"][i] + m, v["sig_zx_mzz"][i] + vx, v["sig_zy_mzz"][i] + vy)


def h_linear(ctx, M):
    sr, v = result(ctx, M)
    for i in range(2):
        m, vx, vy, zz, zx, zy = sums(v, i)
        for n, r in (("sig_zz_m", m), ("sig_zx_v", vx), ("sig_zy_v", vy), ("sig_zz", zz),
                     ("sig_zx", zx), ("sig_zy", zy)):
            ctx.eq(f"{n}{i}", getattr(sr, n)[i], r)
        for c in COMP:  # inputs are kept
            ctx.eq(f"{c}{i}", getattr(sr, c)[i], v[c][i])


def h_resultants(ctx, M):
    sr, v = result(ctx, M)
    for i in range(2):
        m, vx, vy, zz, zx, zy = sums(v, i)
        for n, a, b in (("sig_zxy_mzz", v["sig_zx_mzz"][i], v["sig_zy_mzz"][i]),
                        ("sig_zxy_vx", v["sig_zx_vx"][i], v["sig_zy_vx"][i]),
                        ("sig_zxy_vy", v["sig_zx_vy"][i], v["sig_zy_vy"][i]),
                        ("sig_zxy_v", vx, vy), ("sig_zxy", zx, zy)):
            r = getattr(sr, n)[i]
            ctx.eq(f"{n}{i}", r * r, a * a + b * b)
            ctx.true(f"{n}{i}+", r >= 0)


def h_principal(ctx, M):
    sr, v = result(ctx, M)
    for i in range(2):
        m, vx, vy, zz, zx, zy = sums(v, i)
        t2 = zx * zx + zy * zy
        a, b = sr.sig_11[i], sr.sig_33[i]
        # eigenvalues of the stress state (the third is zero)
        ctx.eq(f"trace{i}", a + b, zz)
        ctx.eq(f"det{i}", a * b, -t2)
        ctx.true(f"order{i}", a >= b)
        ctx.eq(f"vm{i}", sr.sig_vm[i] * sr.sig_vm[i], zz * zz + 3 * t2)
        ctx.true(f"vm{i}+", sr.sig_vm[i] >= 0)


def h_fresh(ctx, M):
    """a fresh result holds zeros, separately per field"""
    sr = M.stress_post.StressResult(num_nodes=3)
    x = ctx.real("x", 1, 2)
    for c in COMP:
        a = getattr(sr, c)
        ctx.true(f"len_{c}", len(a) == 3)
        for i in range(3):
            ctx.eq(f"{c}{i}", a[i], 0)
    for c in COMP:
        getattr(sr, c)[0] += x
    for c in COMP:
        ctx.eq(f"own_{c}", getattr(sr, c)[0], x)


def h_axial(ctx, M):
    """pure normal stress: principal and von Mises values are its own magnitude"""
    sr, v = result(ctx, M, 1, [c for c in COMP if c.startswith("sig_z") and c[:6] != "sig_zz"])
    zz = sums(v, 0)[3]
    ctx.eq("vm2", sr.sig_vm[0] * sr.sig_vm[0], zz * zz)
    ctx.true("vm+", sr.sig_vm[0] >= 0)
    ctx.eq("sum", sr.sig_11[0] + sr.sig_33[0], zz)
    ctx.eq("prod", sr.sig_11[0] * sr.sig_33[0], 0)
    ctx.true("s11", sr.sig_11[0] >= 0)
    ctx.true("s33", sr.sig_33[0] <= 0)


HARNESSES = [
    ("linear", h_linear, {}),
    ("resultants", h_resultants, {}),
    ("principal", h_principal, {}),
    ("fresh", h_fresh, {}),
    ("axial", h_axial, {}),
]
