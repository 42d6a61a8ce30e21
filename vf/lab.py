"""Run real eCalc models built from plain python dicts (written as YAML + CSV files in a scratch directory)."""

from __future__ import annotations

import contextlib
import datetime as dt
import shutil
import tempfile
from pathlib import Path

import yaml

from ecalc_cli.infrastructure.file_resource_service import FileResourceService
from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
from libecalc.presentation.yaml.model import YamlModel

D = dt.datetime


class _Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def _date_repr(dumper, d):
    text = d.strftime("%Y-%m-%d") if (d.hour, d.minute, d.second) == (0, 0, 0) else d.strftime("%Y-%m-%d %H:%M:%S")
    return dumper.represent_scalar("tag:yaml.org,2002:timestamp", text)


_Dumper.add_representer(dt.datetime, _date_repr)


def dump(model: dict) -> str:
    return yaml.dump(model, Dumper=_Dumper, sort_keys=False, width=10000)


def csv_text(headers, rows) -> str:
    def fmt(v):
        if isinstance(v, dt.datetime):
            return v.strftime("%Y-%m-%d") if (v.hour, v.minute, v.second) == (0, 0, 0) else v.strftime("%Y-%m-%d %H:%M:%S")
        return repr(v) if isinstance(v, float) else str(v)

    return "\n".join([",".join(headers)] + [",".join(fmt(v) for v in r) for r in rows]) + "\n"


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="vf_"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_files(d: Path, model: dict | str, files: dict[str, str], name="model.yaml") -> Path:
    for fn, text in files.items():
        (d / fn).parent.mkdir(parents=True, exist_ok=True)
        (d / fn).write_text(text)
    path = d / name
    path.write_text(model if isinstance(model, str) else dump(model))
    return path


def load(path: Path) -> YamlModel:
    configuration = FileConfigurationService(configuration_path=path).get_configuration()
    resources = FileResourceService(working_directory=path.parent, configuration=configuration)
    return YamlModel(configuration=configuration, resource_service=resources)


def validated(model: dict | str, files: dict[str, str]) -> YamlModel:
    with scratch() as d:
        return load(write_files(d, model, files)).validate_for_run()


def run(model: dict | str, files: dict[str, str]):
    """-> (model, EcalcModelResult)"""
    with scratch() as d:
        m = load(write_files(d, model, files)).validate_for_run()
        m.evaluate_energy_usage()
        return m, get_asset_result(m)


MINIMAL_FUELS = [{"NAME": "fuel_gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.0}]}]


def minimal_model(variables=None, time_series=None, start=D(2020, 1, 1), end=D(2025, 1, 1), **extra) -> dict:
    m: dict = {}
    if time_series:
        m["TIME_SERIES"] = time_series
    m["FUEL_TYPES"] = MINIMAL_FUELS
    if variables:
        m["VARIABLES"] = variables
    m["INSTALLATIONS"] = [
        {
            "NAME": "inst",
            "FUEL": "fuel_gas",
            "FUELCONSUMERS": [
                {"NAME": "flare", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 10}}
            ],
        }
    ]
    if start is not None:
        m["START"] = start
    if end is not None:
        m["END"] = end
    m.update(extra)
    return m


def refused(fn):
    """Call fn: (True, message) when eCalc refuses the input with an error meant for the user, else (False, result)."""
    from libecalc.common.errors.exceptions import EcalcError, IllegalStateException, ProgrammingError

    try:
        return False, fn()
    except EcalcError as e:
        if isinstance(e, (ProgrammingError, IllegalStateException)):
            raise
        return True, str(e)
