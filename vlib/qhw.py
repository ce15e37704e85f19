"""A cluster with one module of every kind, and helpers to compile device-level schedules for it."""
from __future__ import annotations

import copy
import warnings

# port, clock -> (module, channel, kind)
PORTS = {
    ("q0:fl", "cl0.baseband"): (1, "real_output_0", "real"),
    ("q1:fl", "cl0.baseband"): (1, "real_output_1", "real"),
    ("c0:mw", "c0.if"): (1, "complex_output_1", "complex"),
    ("q0:mw", "q0.01"): (2, "complex_output_0", "rf"),
    ("q1:mw", "q1.01"): (2, "complex_output_1", "rf"),
    ("b0:res", "b0.ro"): (3, "complex_output_0", "complex-ro"),
    ("q0:res", "q0.ro"): (4, "complex_output_0", "rf-ro"),
    ("d0:out", "digital"): (5, "digital_output_0", "digital-out"),
    ("d4:in", "digital"): (5, "digital_input_4", "digital-in"),
    ("t0:in", "cl0.baseband"): (6, "real_input_0", "ttl"),
}
CLOCKS = {"q0.01": 4.95e9, "q0.12": 4.7e9, "q1.01": 5.1e9, "q0.ro": 7.3e9, "c0.if": 120e6, "b0.ro": 60e6}
TYPES = {1: "QCM", 2: "QCM_RF", 3: "QRM", 4: "QRM_RF", 5: "QTM", 6: "QRM"}


def config(**options):
    graph = []
    for (port, clock), (mod, ch, kind) in PORTS.items():
        graph.append([f"cluster0.module{mod}.{ch}", port])
    opts = {
        "modulation_frequencies": {
            "q0:mw-q0.01": {"interm_freq": 50e6}, "q0:mw-q0.12": {"interm_freq": -200e6},
            "q1:mw-q1.01": {"lo_freq": 5.0e9}, "q0:res-q0.ro": {"lo_freq": 7.2e9},
            "c0:mw-c0.if": {"interm_freq": 120e6}, "b0:res-b0.ro": {"interm_freq": 60e6},
        },
    }
    for k, v in options.items():
        if isinstance(v, dict) and isinstance(opts.get(k), dict):
            opts[k] = {**opts[k], **v}
        else:
            opts[k] = v
    return {
        "config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
        "hardware_description": {"cluster0": {
            "instrument_type": "Cluster", "ref": "internal",
            "modules": {str(k): {"instrument_type": v} for k, v in TYPES.items()}}},
        "hardware_options": opts,
        "connectivity": {"graph": graph},
    }


def modify(cfg, **kw):
    """module options etc.: modify(cfg, m2={"rf_output_on": False})"""
    cfg = copy.deepcopy(cfg)
    for k, v in kw.items():
        if k.startswith("m") and k[1:].isdigit():
            cfg["hardware_description"]["cluster0"]["modules"][k[1:]].update(v)
    return cfg


_n = [0]


def compiler_config(hw, elements=()):
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice

    _n[0] += 1
    qd = QuantumDevice(f"qd_vc_{_n[0]}")
    try:
        qd.hardware_config(hw)
        for e in elements:
            qd.add_element(e)
        return qd.generate_compilation_config()
    finally:
        qd.close()


def compile_(sched, hw, keep=True, config_=None):
    from quantify_scheduler.backends import SerialCompiler

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cfg = config_ or compiler_config(hw)
        return SerialCompiler("vc").compile(sched, cfg)


def new_schedule(name="s", repetitions=1):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource

    s = Schedule(name, repetitions=repetitions)
    for c, f in CLOCKS.items():
        s.add_resource(ClockResource(c, f))
    return s


def sequencers(compiled):
    """(module, seq) -> settings object for every sequencer program"""
    out = {}
    for mod, prog in compiled.compiled_instructions.get("cluster0", {}).items():
        if not isinstance(prog, dict) or "sequencers" not in prog:
            continue
        for name, seq in prog["sequencers"].items():
            out[(mod, name)] = seq
    return out


def module_of(compiled, mod):
    return compiled.compiled_instructions["cluster0"][mod]
