"""What each check runs: suite, worlds (process count, number of cases) in batches that fit 8 cores."""


def W(n7=0, n5=0, n2=0, n1=0, n4=0, n3=0, n11=0, cap=60, deadline=240):
    b = [[(11, n11)], [(7, n7)], [(5, n5), (2, n2), (1, n1)], [(4, n4), (3, n3)]]
    b = [[(p, n) for p, n in x if n] for x in b]
    return {"batches": [x for x in b if x], "cap": cap, "deadline": deadline}


def same(n, k=12, cap=60, n11=None, **kw):
    """n cases in every world for quick; k times as many for thorough."""
    n11 = max(12, n // 12) if n11 is None else n11
    q = W(n, n, n, max(20, n // 3), n, n, n11, cap=cap, deadline=240)
    t = W(n * k, n * k, n * k, max(20, n * k // 3), n * k, n * k, n11 * k, cap=230, deadline=800)
    return dict(quick=q, thorough=t, **kw)


PLAN = {
    "C01": dict(suite="c01_tiling", **same(250)),
    "C02": dict(suite="c02_broadcast", **same(120)),
    "C03": dict(suite="c03_elementwise", **same(200)),
    "C04": dict(suite="c04_value", **same(150)),
    "C05": dict(suite="c05_reduce", **same(250)),
    "C06": dict(suite="c06_mask", **same(120)),
    "C07": dict(suite="c07_ghost", **same(250)),
    "C08": dict(suite="c08_stacked", **same(150)),
    "C09": dict(suite="c09_realign", **same(250)),
    "C10": dict(suite="c10_blockdiag", **same(200)),
    "C11": dict(suite="c11_vstack", **same(200)),
    "C12": dict(suite="c12_first", **same(250)),
    "C13": dict(suite="c13_second", **same(250)),
    "C14": dict(suite="c14_gradlap", **same(150)),
    "C15": dict(suite="c15_fredholm", **same(200)),
    "C16": dict(suite="c16_mdc", **same(120)),
    "C17": dict(suite="c17_algebra", **same(150)),
    "C18": dict(suite="c18_salgebra", **same(120)),
    "C19": dict(suite="c19_adjoint", **same(150)),
    "C20": dict(suite="c20_cg", **same(100)),
    "C21": dict(suite="c21_cgls", **same(100)),
    "C22": dict(suite="c22_report", **same(100)),
    "C23": dict(suite="c23_comm", **same(120)),
    "C24": dict(suite="c24_determinism", **same(60)),
    "C25": dict(suite="c25_invalid", **same(200)),
    "C26": dict(suite="c26_subcomm", **same(160)),
    "C27": dict(suite="c27_pure", **same(58)),
    "C28": dict(suite="c28_dtype", **same(200)),
    "C29": dict(suite="c29_plot", **same(36)),
    "C30": dict(suite="c30_comms", **same(12, 6)),
    "C31": dict(suite="c31_workflow", **same(40)),
}
