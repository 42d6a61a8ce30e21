"""Run the command line program on a model in a scratch directory and hand back the files it wrote."""

from __future__ import annotations

import contextlib
import csv
import io
import json
import logging
from unittest import mock

from typer.testing import CliRunner

import ecalc_cli.main
from ecalc_neqsim_wrapper import NeqsimService
from vf import lab


class _NoJava:
    """Stands in for the thermodynamic package, which is not needed by the models run here (and cannot be started offline)."""

    @classmethod
    def initialize(cls):
        return contextlib.nullcontext()


def run(model, files, args=(), name="model.yaml", prefix=None):
    """-> {file name: text} of the output folder"""
    with lab.scratch() as d:
        path = lab.write_files(d, model, files, name)
        out = d / "out"
        argv = ["--log", "ERROR", "run", str(path), "--output-folder", str(out), *args]
        if prefix is not None:
            argv += ["--name-prefix", prefix]
        with mock.patch.object(NeqsimService, "factory", staticmethod(lambda *a, **k: _NoJava)):
            result = CliRunner().invoke(ecalc_cli.main.app, argv, catch_exceptions=False)
        logging.disable(logging.CRITICAL)
        if result.exit_code != 0:
            raise RuntimeError(f"ecalc run exited with {result.exit_code}: {result.output[-2000:]}")
        return {p.name: p.read_text() for p in out.iterdir()}


DATE = {0: "%Y-%m-%d %H:%M:%S", 1: "%Y%m%d %H:%M:%S", 2: "%d.%m.%Y %H:%M:%S"}


def read_csv(text, sep=","):
    """-> header, rows (all text, stripped)"""
    rows = [[c.strip() for c in r] for r in csv.reader(io.StringIO(text), delimiter=sep)]
    return rows[0], rows[1:]


def read_json(text):
    return json.loads(text)
