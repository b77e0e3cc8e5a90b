from drivers.rotation import SPEC, run_ops


def run(ctx):
    run_ops(ctx, "C02Ops", [], ctx.pick(3, 4), ctx.pick(6, 40))
