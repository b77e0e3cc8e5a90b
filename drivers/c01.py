from drivers.rotation import SPEC, run_ops


def run(ctx):
    run_ops(ctx, "C01Ops", [("rot", "principal"), ("rot", "ship"), ("rot", "body")],
            ctx.pick(3, 4), ctx.pick(6, 60))
