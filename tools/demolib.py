"""Run a small eCalc model (dict or YAML text, CSV files as text) in a scratch directory."""

import datetime as dt
import shutil
import tempfile
from pathlib import Path

import yaml

D = dt.datetime


def run(model, files=None):
    from ecalc_cli.infrastructure.file_resource_service import FileResourceService
    from libecalc.presentation.json_result.mapper import get_asset_result
    from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
    from libecalc.presentation.yaml.model import YamlModel

    d = Path(tempfile.mkdtemp(prefix="demo_"))
    try:
        for name, text in (files or {}).items():
            (d / name).write_text(text)
        p = d / "model.yaml"
        p.write_text(model if isinstance(model, str) else yaml.safe_dump(model, sort_keys=False))
        conf = FileConfigurationService(configuration_path=p).get_configuration()
        m = YamlModel(configuration=conf, resource_service=FileResourceService(working_directory=d, configuration=conf))
        m = m.validate_for_run()
        m.evaluate_energy_usage()
        return get_asset_result(m)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def component(res, name):
    return [res.component_result, *res.sub_components][[c.name for c in [res.component_result, *res.sub_components]].index(name)]


def same(a, b, tol=1e-6):
    a, b = list(a), list(b)
    assert len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b)), (a, b)
