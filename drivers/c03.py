from drivers.rotation import SPEC, run_ops, make
from vlib.core import guard
import dolfyn
import numpy as np


def turns(ctx):
    """Matrices of every determinant, applied when set or by the next rotation."""
    tab = ctx.tab
    I = np.eye(3, dtype=int)
    for ci, c in enumerate(tab["cfgs"], 1):
        if c["model"] != "Vector":
            continue
        for j, (m, den) in enumerate([(I, 1), (-I, 1), (np.diag([1, 1, -1]), 1), (I[[1, 0, 2]], 1), (I[[1, 2, 0]], 1),
                                      (2 * I, 1), (I, 2), (0 * I, 1), (np.diag([3, 3, 4]), 3), (np.diag([1, -1, -1]), 1)]):
            for frame in ("inst", "beam", "earth"):
                ds, _ = make(tab, ci)
                if c["start"] != frame:
                    dolfyn.rotate2(ds, frame)
                st, _ = guard(dolfyn.set_inst2head_rotmat, ds, (m / den).tolist())
                if st == "ok" and frame == "beam":
                    st, _ = guard(dolfyn.rotate2, ds, "inst")
                ctx.emit({"k": "turn", "m": m.tolist(), "den": den, "raised": st == "raise"},
                         "turn|%d|%d|%s" % (ci, j, frame))



def run(ctx):
    run_ops(ctx, "C03Ops", [("head", 1)], ctx.pick(3, 4), ctx.pick(6, 40))
    turns(ctx)
