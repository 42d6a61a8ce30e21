"""P16 turbines: fuel from load, efficiency and heating value; power adjustment; maximum load."""

from __future__ import annotations

from vf import judge, lab
from vf.refmodel import Model

CASES = {"quick": 1000, "thorough": 20000}
RULE = (
    'random models with compressors driven by turbines (random efficiency curves, adjustments on turbine and on compressor-with-turbine, overload) run end to end against an independent reference; distinct by the YAML'
)
MIN_OBS = {'model-result-turbine': 8000, 'validity': 3000}
ASSUMPTIONS = ['operating points on a decision boundary (within rounding) are set aside and counted', 'table values are affine in two and three variables, so that every triangulation interpolates alike']


def capacity(ctx):
    import numpy as np

    from libecalc.common.energy_usage_type import EnergyUsageType
    from libecalc.domain.infrastructure.energy_components.turbine.turbine import Turbine
    from libecalc.domain.process.compressor.core.base import CompressorWithTurbineModel
    from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled

    rng = ctx.rng
    k = rng.choice([2, 3, 5])
    rates = sorted(rng.uniform(1e4, 1e6) for _ in range(k))
    powers = sorted(rng.uniform(2, 40) for _ in range(k))
    loads = [0.0, *sorted(rng.uniform(1, 50) for _ in range(rng.choice([1, 2, 4])))]
    effs = [0.0] + [rng.uniform(0.1, 0.5) for _ in loads[1:]]
    tc, tf = (rng.uniform(0, 2), rng.uniform(0.8, 1.2)) if rng.random() < 0.6 else (0.0, 1.0)
    cc, cf = (rng.uniform(0, 2), rng.uniform(0.8, 1.2)) if rng.random() < 0.6 else (0.0, 1.0)
    ctx.note(rates=rates, powers=powers, loads=loads, effs=effs, turbine=(tc, tf), cwt=(cc, cf))
    model = CompressorWithTurbineModel(
        compressor_energy_function=CompressorModelSampled(
            energy_usage_type=EnergyUsageType.POWER, energy_usage_values=powers, rate_values=rates
        ),
        energy_usage_adjustment_constant=cc, energy_usage_adjustment_factor=cf,
        turbine_model=Turbine(
            loads=loads, lower_heating_value=38.0, efficiency_fractions=effs, energy_usage_adjustment_factor=tf,
            energy_usage_adjustment_constant=tc,
        ),
    )
    n = rng.choice([1, 3])
    ps, pd = np.full(n, 20.0), np.full(n, 80.0)
    # the compressor power at which the turbine is fully loaded
    pmax = (loads[-1] * tf - tc - cc) / cf
    if pmax <= powers[0] * 1.01:
        ctx.obs("set aside: turbine too small for the minimum flow")
        return
    got = list(model.get_max_standard_rate(suction_pressures=ps, discharge_pressures=pd))
    ctx.require(len(got) == n, "maximum-rate", f"{len(got)} maximum rates for {n} operating points")
    limited = pmax < powers[-1]
    for q in got:
        ctx.require(rates[0] * (1 - 1e-9) <= q <= rates[-1] * (1 + 1e-9), "maximum-rate", f"maximum rate {q} outside {rates}")
        p = float(np.interp(q, rates, powers))
        if limited:
            ctx.require(pmax - 0.05 <= p <= pmax + 1e-6, "maximum-rate", f"compressor power {p} at the maximum rate {q}; the turbine allows {pmax}")
        else:
            ctx.close(q, rates[-1], "maximum-rate", "maximum rate where the turbine is large enough")
    model.set_evaluation_input(rate=np.asarray(got), fluid_model=None, suction_pressure=ps, discharge_pressure=pd)
    ok = model.evaluate().get_energy_result().is_valid
    ctx.require(all(ok), "maximum-rate-valid", f"operating at the maximum rate {got} is reported as invalid")
    ctx.obs("turbine limited" if limited else "compressor limited")
    ctx.distinct(repr((rates, loads, tc, cc)))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.2:
        return capacity(ctx)
    g = Model(rng, dated=rng.choice([0.0, 0.0, 0.25]))
    g.p_turbine = 1.0
    g.compose(fuel_kinds=["compressor", "compressor", "system"], n_inst=1, venting=0, gensets=0, fuel_consumers=rng.choice([1, 2]))
    m, files = g.build()
    ctx.note(yaml=lab.dump(m), files=files)
    model, res = lab.run(m, files)
    ex = g.expected()
    if g.ambiguous:
        ctx.obs("set aside: on a decision boundary")
        return
    judge.everything(ctx, model, res, ex)
    ctx.distinct(lab.dump(m))
    ctx.sample({"components": [c.name for c in res.components][:12], "periods": len(ex["days"])})
