"""Random compressor trains for the process solver, and what they can do."""

from __future__ import annotations

from dataclasses import dataclass, field

from vf import fakeneqsim as fn
from vf.compref import CompRef, chart_data, random_chart
from vf.fluids import random_fluid
from vf.streams import S

TYPES = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]


def stream(service, s: S):
    return service.create_stream_from_mass_rate(fluid_model=s.model, pressure_bara=s.P, temperature_kelvin=s.T, mass_rate_kg_per_h=s.mass)


@dataclass
class Stage:
    T: float
    dp: float
    scrub: bool
    curves: list
    margin: float | None
    offtake: float = 0.0  # Sm3/d taken before the stage (outside its recirculation loop)

    def __post_init__(self):
        self.ref = CompRef(self.curves, self.margin or 0.0)


@dataclass
class Train:
    inlet: S
    stages: list
    control: str
    note: dict = field(default_factory=dict)

    @property
    def speeds(self):
        return max(s.ref.speeds[0] for s in self.stages), min(s.ref.speeds[-1] for s in self.stages)


def random_train(rng, control=None, stages=None, offtakes=True, model=None, size=1.0):
    """size: how much larger the machines are than usual (with a large one most of the flow recirculates)"""
    model = model or random_fluid(rng, wet=False)
    P, T = rng.uniform(8, 60), rng.uniform(290, 320)
    std = 10 ** rng.uniform(5, 6.9)
    s = S(model, P, T, std * fn.standard_density(model) / 24)
    k = stages or rng.choice([1, 1, 2, 2, 3])
    top = rng.uniform(8000, 12000)
    out = []
    p = s.P
    left = std
    for i in range(k):
        dp = rng.choice([0.0, 0.0, rng.uniform(0.1, 0.5)])
        off = left * rng.uniform(0.02, 0.2) if offtakes and i and rng.random() < 0.2 else 0.0
        left -= off
        Ti = rng.uniform(293, 315)
        st = fn.state(model, p - dp, Ti)
        q = left * fn.standard_density(model) / 24 / st.density
        head = rng.uniform(40e3, 90e3)
        curves = random_chart(rng, n_curves=rng.choice([2, 3, 5]), q_design=size * q * rng.choice([rng.uniform(0.9, 1.15), rng.uniform(1.05, 1.4), rng.uniform(1.2, 2.0), rng.uniform(0.6, 1.8)]), h_design=head)
        f = top / curves[-1][0]
        curves = [(n * f, *r) for n, *r in curves]
        out.append(Stage(Ti, dp, rng.random() < 0.5, curves, rng.choice([None, None, rng.uniform(0, 0.2)]), off))
        # pressure after the stage, roughly
        a = (st.kappa - 1) / (st.kappa * 0.7)
        p = (p - dp) * max(1.05, (1 + 0.85 * head * a * st.m / (st.z * 8.314 * Ti))) ** (1 / a)
    t = Train(s, out, control or rng.choice(TYPES))
    t.rough = p
    return t


class System:
    """the train in eCalc's classes, built from scratch"""

    def __init__(self, train: Train, service, shaft=None, compressors=None):
        """shaft, compressors: made (and connected) beforehand"""
        from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
        from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
        from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
        from libecalc.process.process_solver.section_assembly import assemble_process_section
        from libecalc.process.process_solver.solver_assembly import assemble_solver
        from libecalc.process.process_units.compressor import Compressor
        from libecalc.process.process_units.liquid_remover import LiquidRemover
        from libecalc.process.process_units.pressure_dropper import PressureDropper
        from libecalc.process.process_units.splitter import Splitter
        from libecalc.process.process_units.temperature_setter import TemperatureSetter
        from libecalc.process.shaft import VariableSpeedShaft

        self.train, self.service = train, service
        self.shaft = shaft or VariableSpeedShaft()
        units, self.compressors = [], []
        for i, s in enumerate(train.stages):
            if s.offtake:
                units.append(Splitter(service, rate=s.offtake))
            units.append(TemperatureSetter(service, s.T))
            if s.dp:
                units.append(PressureDropper(service, pressure_drop_bara=s.dp))
            if s.scrub:
                units.append(LiquidRemover(service))
            if compressors:
                c = compressors[i]
            else:
                c = Compressor(chart_data(s.curves, s.margin), service)
                self.shaft.connect(c)
            self.compressors.append(c)
            units.append(c)
        common = train.control == "COMMON_ASV"
        section = assemble_process_section(units, AntiSurgeType.COMMON_ASV if common else AntiSurgeType.INDIVIDUAL_ASV, train.control, service)
        self.loops = [h for h in section.configuration_handlers if isinstance(h, RecirculationLoop)]
        chokes = [h for h in section.configuration_handlers if isinstance(h, ChokeConfigurationHandler)]
        self.choke = chokes[0] if chokes else None
        self.units = section.process_units
        self.system = assemble_solver(
            process_units=section.process_units, configuration_handlers=[self.shaft, *section.configuration_handlers], compressors=self.compressors,
            recirculation_loops=self.loops, shaft=self.shaft, pipeline_name="train", pressure_control_type=train.control,
            choke=None, choke_configuration_handler=self.choke,
        )
        self.runner = self.system.runner
        self.solver = self.system.solver
        self.inlet = stream(service, train.inlet)

    # -- driving it by hand ------------------------------------------------------------------------------------------
    def plain(self, configurations):
        """a solution's configurations by role: (speed, [recirculation], choke)"""
        speed, rec, choke = None, [0.0] * len(self.loops), 0.0
        by = {c.configuration_handler_id: c.value for c in configurations}
        assert len(by) == len(list(configurations))
        if self.shaft.get_id() in by:
            speed = by.pop(self.shaft.get_id()).speed
        for i, loop in enumerate(self.loops):
            if loop.get_id() in by:
                rec[i] = by.pop(loop.get_id()).recirculation_rate
        if self.choke is not None and self.choke.get_id() in by:
            choke = by.pop(self.choke.get_id()).delta_pressure
        assert not by, by
        return speed, rec, choke

    def set(self, speed, rec, choke=0.0):
        self.shaft.set_speed(speed)
        for loop, r in zip(self.loops, rec):
            loop.set_recirculation_rate(r)
        if self.choke is not None:
            self.choke._choke.set_pressure_change(choke)

    def at(self, speed, rec, choke=0.0, inlet=None):
        """the streams entering and leaving each compressor and the outlet, or the error"""
        self.set(speed, rec, choke)
        s = inlet or self.inlet
        seen = []
        for u in self.units:
            before = s
            s = u.propagate_stream(s)
            if u in self.compressors:
                seen.append((S.of(before), S.of(s)))
        return seen, S.of(s)

    def least(self, i, speed, s: S):
        """(least, largest) recirculation of stage i with the stream entering its compressor"""
        ref = self.train.stages[i].ref
        k = s.state.density / s.sd * 24
        return max(0.0, ref.qmin(speed) * k + 1e-6 - s.std), max(0.0, ref.qmax(speed) * k - 1e-6 - s.std)

    def individual(self, speed, how, choke=0.0):
        """set each stage's loop by how(i, least, largest, run) in turn; -> recirculation rates"""
        rec = [0.0] * len(self.loops)
        for i in range(len(self.loops)):
            self.set(speed, rec, choke)
            s = S.of(self.runner.run(self.inlet, to_id=self.compressors[i].get_id()))
            lo, hi = self.least(i, speed, s)
            rec[i] = how(i, lo, hi)
        return rec

    def minimum(self, speed, choke=0.0):
        """-> (recirculation rates, streams, outlet) with the least recirculation, raises as the train does"""
        if self.train.control != "COMMON_ASV":
            rec = self.individual(speed, lambda i, lo, hi: lo, choke)
            return (rec, *self.at(speed, rec, choke))
        rec = [self.common_least(speed)]
        return (rec, *self.at(speed, rec, choke))

    def common_least(self, speed):
        """least recirculation over the whole train that keeps every compressor right of its surge line"""
        from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError

        def surges(r):
            try:
                self.at(speed, [r])
            except CompressorSurgeError:
                return True
            except CompressorStonewallError:
                return False
            return False

        if not surges(0.0):
            return 0.0
        self.set(speed, [0.0])
        s = S.of(self.runner.run(self.inlet, to_id=self.compressors[0].get_id()))
        lo, hi = 0.0, max(self.least(0, speed, s)[1], 1.0)
        if surges(hi * (1 - 1e-9)):
            return hi * (1 - 1e-9)
        for _ in range(40):
            mid = 0.5 * (lo + hi)
            if surges(mid):
                lo = mid
            else:
                hi = mid
            if hi - lo < 1e-5 * hi:
                break
        return hi


def on_one_shaft(trains, service):
    """the trains as sections on one shaft"""
    from libecalc.process.process_units.compressor import Compressor
    from libecalc.process.shaft import VariableSpeedShaft

    shaft = VariableSpeedShaft()
    made = [[Compressor(chart_data(s.curves, s.margin), service) for s in t.stages] for t in trains]
    for cs in made:
        for c in cs:
            shaft.connect(c)
    return [System(t, service, shaft, cs) for t, cs in zip(trains, made)]


def split(rng, train, k, controls):
    """cut a train into k sections; the inlet of all but the first is unknown"""
    n = len(train.stages)
    cuts = [0, *sorted(rng.sample(range(1, n), k - 1)), n]
    return [Train(train.inlet, train.stages[a:b], c) for a, b, c in zip(cuts, cuts[1:], controls)]
