"""Streams of the gas-processing code as plain numbers, and what each unit of process equipment should do to one."""

from __future__ import annotations

from vf import fakeneqsim as fn

KW = dict(rel=1e-7)


def comp(model):
    """normalised composition"""
    import dataclasses

    d = dataclasses.asdict(model.composition)
    t = sum(d.values())
    return {k: v / t for k, v in d.items()}


class S:
    """a stream: composition by mole fraction (model), pressure, temperature, mass rate"""

    def __init__(self, model, P, T, mass):
        self.model, self.P, self.T, self.mass = model, P, T, mass

    @classmethod
    def of(cls, stream):
        return cls(stream.fluid_model, stream.pressure_bara, stream.temperature_kelvin, stream.mass_rate_kg_per_h)

    @property
    def state(self):
        if not hasattr(self, "_state"):
            self._state = fn.state(self.model, self.P, self.T)
        return self._state

    @property
    def sd(self):
        return fn.standard_density(self.model)

    @property
    def std(self):
        return self.mass / self.sd * 24

    @property
    def actual(self):
        return self.mass / self.state.density

    def but(self, **k):
        d = dict(model=self.model, P=self.P, T=self.T, mass=self.mass)
        d.update(k)
        return S(**d)

    def __str__(self):
        return f"{self.mass:.6g} kg/h at {self.P:.6g} bara, {self.T:.6g} K"


def same_stream(ctx, got, want, mech, text, rel=1e-7, rel_h=1e-5, state=True):
    """got: an eCalc stream; want: S"""
    ctx.close(got.pressure_bara, want.P, mech, f"{text}: pressure", rel=rel)
    ctx.close(got.temperature_kelvin, want.T, mech, f"{text}: temperature", rel=rel)
    ctx.close(got.mass_rate_kg_per_h, want.mass, mech, f"{text}: mass rate", rel=rel, abs_=1e-6)
    a, b = comp(got.fluid_model), comp(want.model)
    for k in a:
        if abs(a[k] - b[k]) > 1e-9:
            ctx.violation(mech, f"{text}: mole fraction of {k} is {a[k]}, expected {b[k]}")
    if got.fluid_model.eos_model != want.model.eos_model:
        ctx.violation(mech, f"{text}: equation of state changed to {got.fluid_model.eos_model}")
    if state:
        consistent(ctx, got, mech, text)


def consistent(ctx, got, mech, text):
    """the properties a stream carries are those of its own composition at its own pressure and temperature"""
    st = fn.state(got.fluid_model, got.pressure_bara, got.temperature_kelvin)
    for k, w, rel in (("density", st.density, 1e-5), ("z", st.z, 1e-5), ("kappa", st.kappa, 1e-5), ("vapor_fraction_molar", st.v, 1e-4), ("molar_mass", st.m, 1e-6), ("standard_density_gas_phase_after_flash", fn.standard_density(got.fluid_model), 1e-6)):
        ctx.close(getattr(got, k), w, mech, f"{text}: {k}", rel=rel, abs_=1e-6)
    ctx.close(got.enthalpy_joule_per_kg, st.h, mech, f"{text}: enthalpy", rel=1e-5, abs_=5.0)
    ctx.close(got.volumetric_rate_m3_per_hour * got.density, got.mass_rate_kg_per_h, mech, f"{text}: actual rate", rel=1e-9)
    ctx.close(got.standard_rate_sm3_per_day * got.standard_density_gas_phase_after_flash, 24 * got.mass_rate_kg_per_h, mech, f"{text}: standard rate", rel=1e-9)


def mixed(streams):
    """the balance of moles, mass and enthalpy over a mixing tee: (composition, pressure, specific enthalpy, mass)"""
    mass = sum(s.mass for s in streams)
    moles = [s.mass / fn.state(s.model, s.P, s.T).m for s in streams]
    tot = sum(moles)
    x = {}
    for s, n in zip(streams, moles):
        for k, v in comp(s.model).items():
            x[k] = x.get(k, 0.0) + n * v / tot
    h = sum(s.mass * s.state.h for s in streams) / mass
    return x, min(s.P for s in streams), h, mass
