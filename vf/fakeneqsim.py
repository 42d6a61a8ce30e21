"""An analytic thermodynamic package with the interface of NeqSim's Java classes.

NeqSim itself (a jar and a JVM) is not available offline. What it answers is not under test here: eCalc's use of the answers
is. This stand-in has everything eCalc relies on: different equations of state, mixtures, two phases, PT and PH flashes,
failures. Its answers are closed-form, so monitors can compute them independently of the wrapper (see `State`).
"""

from __future__ import annotations

import contextlib
import math
from functools import lru_cache
from types import SimpleNamespace
from unittest import mock

from py4j.protocol import Py4JError

import ecalc_neqsim_wrapper.fluid_service as _fs
from ecalc_neqsim_wrapper.cache_service import CacheService
from ecalc_neqsim_wrapper.java_service import NeqsimService

R = 8.31446261815324
T0 = 288.15
P0 = 1.01325

# name: molar mass kg/mol, cp J/mol/K, "boiling temperature" K, non-ideality
COMP = {
    "water": (0.01801534, 34.0, 373.0, 0.55),
    "nitrogen": (0.02801340, 29.1, 20.0, 0.05),
    "CO2": (0.04400995, 37.5, 120.0, 0.35),
    "methane": (0.01604246, 36.0, 60.0, 0.20),
    "ethane": (0.03006904, 53.0, 130.0, 0.45),
    "propane": (0.04409562, 74.0, 190.0, 0.70),
    "i-butane": (0.05812220, 97.0, 222.0, 0.90),
    "n-butane": (0.05812220, 99.0, 232.0, 0.95),
    "i-pentane": (0.07214878, 119.0, 262.0, 1.15),
    "n-pentane": (0.07214878, 120.0, 270.0, 1.20),
    "n-hexane": (0.08617536, 143.0, 305.0, 1.50),
}
EOS = {"SRK": 1.0, "PR": 1.12, "GERG": 0.93}  # how non-ideal each equation of state is
LATENT = 250e3  # J per kg of liquid
ECALC_NAME = {k: k.replace("-", "_") for k in COMP}
NEQSIM_NAME = {v: k for k, v in ECALC_NAME.items()}

COUNT = {"tp": 0, "ph": 0, "systems": 0}


def _saturation(name, T, P):
    """largest mole fraction of the component in the gas"""
    tb = COMP[name][2] * (1 + 0.06 * math.log(max(P, 0.01)))
    return math.exp(min(50.0, (T - tb) / 25.0))


def vapour(comp: tuple, T, P):
    """-> (vapour mole fraction, gas composition, liquid composition)"""
    sat = [(n, x, _saturation(n, T, P)) for n, x in comp]
    v = 1.0
    if all(x <= s for _, x, s in sat):
        return 1.0, comp, ()
    for _ in range(400):
        new = sum(min(x, s * v) for _, x, s in sat)
        if abs(new - v) < 1e-15:
            break
        v = new
        if v < 1e-9:
            return 0.0, (), comp
    gas = tuple((n, min(x, s * v) / v) for n, x, s in sat)
    tot = sum(x for _, x in gas)
    gas = tuple((n, x / tot) for n, x in gas)
    liq = [(n, max(0.0, x - min(x, s * v))) for n, x, s in sat]
    lt = sum(x for _, x in liq)
    return v, gas, tuple((n, x / lt) for n, x in liq)


@lru_cache(maxsize=4096)
def mix(comp: tuple):
    """-> molar mass, cp in J/kg/K, non-ideality of a composition"""
    m = sum(x * COMP[n][0] for n, x in comp)
    cp = sum(x * COMP[n][1] for n, x in comp)
    a = sum(x * COMP[n][3] for n, x in comp)
    return m, cp / m, a


def gas_z(comp, eos, T, P):
    a = mix(comp)[2] * EOS[eos] * 0.012 * (300.0 / T) ** 2
    return 0.35 + 0.65 / (1 + a * P)


def gas_h(comp, eos, T, P):
    _, cp, a = mix(comp)
    return cp * (T - T0) - 700.0 * a * EOS[eos] * P


def gas_kappa(comp, eos, T, P):
    m, cp, a = mix(comp)
    k = cp * m / (cp * m - R)
    return 1.02 + (k - 1) * (0.95 + 4e-4 * P * EOS[eos] - 3e-4 * (T - T0))


class State:
    """The properties of a composition ((neqsim name, mole fraction), ...) at a temperature and a pressure."""

    def __init__(self, comp, eos, T, P):
        comp = tuple(sorted((n, x) for n, x in comp if x > 0))
        tot = sum(x for _, x in comp)
        comp = tuple((n, x / tot) for n, x in comp)
        self.comp, self.eos, self.T, self.P = comp, eos, float(T), float(P)
        self.v, self.gas, self.liq = vapour(comp, T, P)
        self.m = mix(comp)[0]
        main = self.gas or comp
        mg = mix(main)[0]
        self.gas_density = P * 1e5 * mg / (gas_z(main, eos, T, P) * R * T)
        self.liquid_mass = 0.0
        if self.v < 1.0:
            ml = mix(self.liq)[0]
            self.liquid_mass = (1 - self.v) * ml / self.m
        self.density = 1.0 / ((1 - self.liquid_mass) / self.gas_density + self.liquid_mass / 650.0)
        self.h = gas_h(comp, eos, T, P) - LATENT * self.liquid_mass
        self.z = gas_z(comp, eos, T, P) * (1 - 0.5 * self.liquid_mass)
        self.kappa = gas_kappa(comp, eos, T, P)
        if eos == "GERG" and self.v < 1.0 and self.gas:
            g = State(self.gas, eos, T, P)  # eCalc reads the GERG properties of the first phase
            self.density, self.h, self.z, self.kappa = g.density, g.h, g.z, g.kappa


def t_from_ph(comp, eos, P, h):
    """temperature at a pressure and an enthalpy in J/kg"""
    comp = tuple(sorted(comp))
    _, cp, a = mix(comp)
    T = T0 + (h + 700.0 * a * EOS[eos] * P) / cp
    if T > 20 and State(comp, eos, T, P).liquid_mass == 0.0:
        return T
    lo, hi = max(20.0, T - 100), T + LATENT / cp + 100
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if State(comp, eos, mid, P).h < h:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-11:
            break
    return 0.5 * (lo + hi)


def ecalc_comp(composition) -> tuple:
    """eCalc composition -> tuple used here (normalised)"""
    import dataclasses

    d = {NEQSIM_NAME[k]: v for k, v in dataclasses.asdict(composition).items() if v > 0}
    tot = sum(d.values())
    return tuple(sorted((k, v / tot) for k, v in d.items()))


EOS_NAME = {"SRK": "SRK", "PR": "PR", "GERG_SRK": "GERG", "GERG_PR": "GERG"}


@lru_cache(maxsize=1024)
def _standard(comp, eos):
    """density of the gas at standard conditions"""
    s = State(comp, EOS_NAME[eos], T0, P0)
    return State(s.gas, EOS_NAME[eos], T0, P0).density if s.v < 0.9999 else s.density


def standard_density(fluid_model):
    return _standard(ecalc_comp(fluid_model.composition), str(fluid_model.eos_model.value))


def state(fluid_model, P, T):
    return State(ecalc_comp(fluid_model.composition), EOS_NAME[fluid_model.eos_model.value], T, P)


def state_ph(fluid_model, P, h):
    comp, eos = ecalc_comp(fluid_model.composition), EOS_NAME[fluid_model.eos_model.value]
    return State(comp, eos, t_from_ph(comp, eos, P, h), P)


# ---- the Java look-alike ---------------------------------------------------------------------------------------------


class _Phase:
    def __init__(self, system):
        s = system.state("GERG")
        comp = s.gas or s.comp
        self._s = State(comp, "GERG", s.T, s.P)

    def getProperties_GERG2008(self):
        s = self._s
        cp = s.kappa * 8.3144621 / (s.kappa - 1)
        out = [0.0] * 18
        out[1], out[7], out[10] = s.z, s.h * s.m, cp
        return out

    def getDensity_GERG2008(self):
        return self._s.density

    def getMolarMass(self):
        return self._s.m


class _System:
    eos = "SRK"

    def __init__(self, T, P):
        COUNT["systems"] += 1
        self.T, self.P = T, P
        self.components: dict[str, float] = {}
        self._cache = None
        self.flashed = False

    def addComponent(self, name, value):
        if name not in COMP:
            raise Py4JError(f"no component {name}")
        self.components[name] = self.components.get(name, 0.0) + value
        self.flashed = False

    def setTotalFlowRate(self, rate, unit):
        assert unit == "kg/hr"

    def setMixingRule(self, rule):
        pass

    def init(self, n):
        pass

    def initProperties(self):
        pass

    def clone(self):
        c = type(self)(self.T, self.P)
        c.components = dict(self.components)
        c.flashed = self.flashed
        return c

    def _comp(self):
        tot = sum(self.components.values())
        return tuple(sorted((k, v / tot) for k, v in self.components.items()))

    def state(self, eos=None) -> State:
        if not self.flashed:
            raise Py4JError("properties asked for before a flash")
        key = (eos or self.eos, self.T, self.P)
        if self._cache is None or self._cache[0] != key:
            self._cache = (key, State(self._comp(), key[0], self.T, self.P))
        return self._cache[1]

    def phaseToSystem(self, phase):
        s = self.state()
        if not s.gas:
            raise Py4JError("no gas phase")
        c = type(self)(self.T, self.P)
        c.components = dict(s.gas)
        return c

    def setPressure(self, p, unit):
        assert unit == "bara"
        self.P, self.flashed = p, False

    def setTemperature(self, t, unit):
        assert unit == "K"
        self.T, self.flashed = t, False

    def getTemperature(self, unit):
        return {"K": self.T, "C": self.T - 273.15}[unit]

    def getPressure(self, unit):
        return {"bara": self.P}[unit]

    def getDensity(self, unit):
        return {"kg/m3": self.state().density}[unit]

    def getEnthalpy(self, unit):
        return {"J/kg": self.state().h}[unit]

    def getMolarMass(self):
        return mix(self._comp())[0]

    def getZ(self):
        return self.state().z

    def getGamma2(self):
        return self.state().kappa

    def getVolume(self):
        return self.getMolarMass() / self.state().density

    def getMolarComposition(self):
        return [x for _, x in self._comp()]

    def getComponentNames(self):
        return [n for n, _ in self._comp()]

    def getTotalNumberOfMoles(self):
        return 1000 / 3600 / self.getMolarMass()

    def hasPhaseType(self, kind):
        s = self.state()
        return s.v > 0 if kind == "gas" else s.v < 1

    def getPhaseNumberOfPhase(self, kind):
        return {"gas": 0}[kind]

    def getMoleFraction(self, number):
        return [self.state().v, 1 - self.state().v][number]

    def getPhase(self, number):
        assert number == 0
        return _Phase(self)


class _SystemPr(_System):
    eos = "PR"


class _Operations:
    fail = None  # a function(system, kind) -> True to make a flash fail

    def __init__(self, system):
        self.system = system

    def _check(self, kind):
        COUNT[kind] += 1
        s = self.system
        if not (s.P > 0 and math.isfinite(s.P) and s.P < 5000):
            raise Py4JError(f"cannot flash at {s.P} bara")
        if _Operations.fail is not None and _Operations.fail(s, kind):
            raise Py4JError("flash did not converge")

    def TPflash(self):
        self._check("tp")
        if not (self.system.T > 0 and math.isfinite(self.system.T)):
            raise Py4JError(f"cannot flash at {self.system.T} K")
        self.system.flashed = True

    def _ph(self, h, eos):
        self._check("ph")
        T = t_from_ph(self.system._comp(), eos, self.system.P, h)
        if not (T > 25 and T < 5000):
            raise Py4JError(f"PH flash ended at {T} K")
        self.system.T, self.system.flashed = T, True

    def PHflash(self, h, unit):
        assert unit == "J/kg"
        self._ph(h, self.system.eos)

    def PHflashGERG2008(self, h):
        s = self.system
        self._ph(h / (s.getTotalNumberOfMoles() * s.getMolarMass()), "GERG")


MODULE = SimpleNamespace(
    thermo=SimpleNamespace(system=SimpleNamespace(SystemSrkEos=_System, SystemPrEos=_SystemPr)),
    thermodynamicoperations=SimpleNamespace(ThermodynamicOperations=_Operations),
)


class FakeService:
    """Stands in for NeqsimService."""

    @classmethod
    def initialize(cls):
        return contextlib.nullcontext(cls())

    def get_neqsim_module(self):
        return MODULE


_SERVICE = FakeService()


def install():
    """Replace the Java service for the rest of the process (checks run in processes of their own)."""
    NeqsimService.instance = classmethod(lambda cls: _SERVICE)
    NeqsimService.factory = staticmethod(lambda *a, **k: FakeService)


def fresh(config=None):
    """The fluid service with empty caches."""
    _fs.NeqSimFluidService.reset_instance()
    CacheService._caches.clear()
    if config is not None:
        _fs.NeqSimFluidService.configure(config)
    _Operations.fail = None
    return _fs.NeqSimFluidService.instance()


@contextlib.contextmanager
def failing(predicate):
    with mock.patch.object(_Operations, "fail", staticmethod(predicate)):
        yield
