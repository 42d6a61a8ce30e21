"""Random compositions, streams and the like for the checks on gas processing."""

from __future__ import annotations

from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel

FIELDS = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]
TYPICAL = dict(water=0.003, nitrogen=0.01, CO2=0.015, methane=0.82, ethane=0.09, propane=0.04, i_butane=0.006, n_butane=0.01, i_pentane=0.003, n_pentane=0.002, n_hexane=0.001)


def random_composition(rng, wet=None) -> FluidComposition:
    """wet: None any, False a gas that stays a gas, True one with heavy components"""
    if wet is None:
        wet = rng.random() < 0.4
    keep = ["nitrogen", "CO2", "methane", "ethane"] if not wet else FIELDS
    d = {k: TYPICAL[k] * rng.uniform(0.3, 2.5) for k in keep if k == "methane" or rng.random() < 0.75}
    if wet:
        for k in rng.sample(["water", "n_butane", "n_pentane", "n_hexane", "propane"], 2):
            d[k] = rng.uniform(0.01, 0.12)
    d["methane"] = max(d.get("methane", 0), 0.3)
    scale = rng.choice([1.0, 1.0, 100.0, 0.013])
    return FluidComposition(**{k: v * scale for k, v in d.items()})


def random_fluid(rng, wet=None, eos=None) -> FluidModel:
    return FluidModel(eos_model=eos or rng.choice(list(EoSModel)), composition=random_composition(rng, wet))
