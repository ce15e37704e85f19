"""C25: the instruments hold what was compiled for them."""
from __future__ import annotations

from engine.core import Fake, unit

Q = "quantify_scheduler.instrument_coordinator.components.qblox"
T = "quantify_scheduler.backends.types.qblox"
E = "quantify_scheduler.backends.qblox.enums"
KINDS = ["QCM", "QCMRF", "QRM", "QRMRF", "QRC"]
OUTPUTS = {"QCM": 4, "QCMRF": 2, "QRM": 2, "QRMRF": 1, "QRC": 6}
SEQS = {"QCM": 6, "QCMRF": 6, "QRM": 6, "QRMRF": 6, "QRC": 12}
OPTIONAL = {"mixer_corr_phase_offset_degree": "mixer_corr_phase_offset_degree", "mixer_corr_gain_ratio": "mixer_corr_gain_ratio"}
READOUT = {"integration_length_acq": "integration_length_acq", "ttl_acq_auto_bin_incr_en": "ttl_acq_auto_bin_incr_en",
           "ttl_acq_threshold": "ttl_acq_threshold", "ttl_acq_input_select": "ttl_acq_input_select",
           "thresholded_acq_rotation": "thresholded_acq_rotation", "thresholded_acq_threshold": "thresholded_acq_threshold",
           "thresholded_acq_trigger_write_address": "thresholded_acq_trigger_address"}
MODULE = {  # setting -> parameter
    "QCM": {"offset_ch0_path_I": "out0_offset", "offset_ch0_path_Q": "out1_offset", "offset_ch1_path_I": "out2_offset",
            "offset_ch1_path_Q": "out3_offset"},
    "QRM": {"offset_ch0_path_I": "out0_offset", "offset_ch0_path_Q": "out1_offset", "in0_gain": "in0_gain", "in1_gain": "in1_gain"},
    "QCMRF": {"offset_ch0_path_I": "out0_offset_path0", "offset_ch0_path_Q": "out0_offset_path1", "offset_ch1_path_I": "out1_offset_path0",
              "offset_ch1_path_Q": "out1_offset_path1", "out0_att": "out0_att", "out1_att": "out1_att", "lo0_freq": "out0_lo_freq",
              "lo1_freq": "out1_lo_freq"},
    "QRMRF": {"offset_ch0_path_I": "out0_offset_path0", "offset_ch0_path_Q": "out0_offset_path1", "out0_att": "out0_att",
              "in0_att": "in0_att", "lo0_freq": "out0_in0_lo_freq"},
    "QRC": {**{f"out{i}_att": f"out{i}_att" for i in range(6)},
            **{f"lo{i}_freq": f"out{i}_in{i}_lo_freq" if i < 2 else f"out{i}_lo_freq" for i in range(6)}},
}
LO_CAL = {"QCMRF": {0: ("out0_lo_freq", "out0_lo_cal"), 1: ("out1_lo_freq", "out1_lo_cal")}, "QRMRF": {0: ("out0_in0_lo_freq", "out0_in0_lo_cal")}}


def expected(kind, s):
    """the parameters of a sequencer with settings s"""
    out = {"sync_en": s.sync_en, "sequence": s.sequence}
    if kind == "QTM":
        return out
    out.update(offset_awg_path0=s.init_offset_awg_path_I, offset_awg_path1=s.init_offset_awg_path_Q,
               gain_awg_path0=s.init_gain_awg_path_I, gain_awg_path1=s.init_gain_awg_path_Q)
    if s.nco_en:
        out["nco_freq"] = s.modulation_freq
    if kind != "QRC":
        out["mod_en_awg"] = s.nco_en
        if kind.startswith("QRM"):
            out["demod_en_acq"] = s.nco_en
    mode, outs, ins = s.channel_name.split("_")[0], tuple(s.connected_output_indices), tuple(s.connected_input_indices)
    for i in range(OUTPUTS[kind]):
        v = "off"
        if kind in ("QCM", "QRM"):
            if i in outs and mode != "digital":
                v = "Q" if mode == "complex" and i % 2 else "I"
        elif outs == (2 * i, 2 * i + 1) and mode != "digital":
            v = "IQ"
        out[f"connect_out{i}"] = v
    if kind == "QRM":
        out.update({f"connect_acq_{'IQ'[i]}": f"in{i}" if i in ins else "off" for i in range(2)})
    elif kind in ("QRMRF", "QRC"):
        out["connect_acq"] = {(0, 1): "in0", (2, 3): "in1" if kind == "QRC" else "off"}.get(ins, "off")
    if kind[0:3] != "QCM":
        out.update({p: getattr(s, n) for n, p in READOUT.items() if getattr(s, n) is not None})
        if s.thresholded_acq_trigger_write_en is not None:
            out["thresholded_acq_trigger_en"] = s.thresholded_acq_trigger_write_en
            out["thresholded_acq_trigger_invert"] = s.thresholded_acq_trigger_write_invert
    for address, t in s.thresholded_acq_trigger_read_settings.items():
        if t.thresholded_acq_trigger_invert is not None:
            out[f"trigger{address}_threshold_invert"] = t.thresholded_acq_trigger_invert
        if t.thresholded_acq_trigger_count is not None:
            out[f"trigger{address}_count_threshold"] = t.thresholded_acq_trigger_count
    if kind.endswith("RF") or kind == "QRC":
        out["marker_ovr_en"] = False
    return out


def timetag(s):
    """the parameters of the channel of a QTM sequencer with settings s"""
    out = {"forward_trigger_en": False, "binned_acq_on_invalid_time_delta": "record_0"}
    out.update({f"thresholded_acq_trigger_address_{n}": getattr(s, f"thresholded_acq_trigger_write_address_{n}")
                for n in ("high", "mid", "low", "invalid")})
    for n, p in (("analog_threshold", "analog_threshold"), ("thresholded_acq_trigger_write_en", "thresholded_acq_trigger_en")):
        if getattr(s, n) is not None:
            out[p] = getattr(s, n)
    if s.scope_trace_type is not None:
        out["scope_trigger_mode"] = "sequencer"
        out["scope_mode"] = {"scope": "scope", "timetag": "timetags-windowed"}[s.scope_trace_type.value]
    if s.time_source is not None:
        out["binned_acq_time_source"] = str(s.time_source)
    if s.time_ref is not None:
        r = str(s.time_ref)
        out["binned_acq_time_ref"] = {"timestamp": "sequencer", "port": f"first{s.time_ref_channel}"}.get(r, r)
    return out


def filters(kind, dcs):
    out = {}
    for o, dc in enumerate(dcs[:OUTPUTS[kind]] if kind in ("QCM", "QRM") else ()):
        for f in ("exp0", "exp1", "exp2", "exp3", "fir"):
            x = getattr(dc, f)
            out[f"out{o}_{f}_config"] = x.config.value
            if kind == "QCM":
                out[f"marker{o}_{f}_config"] = x.marker_delay.value
                if x.coeffs is not None and f == "fir":
                    out[f"out{o}_fir_coeffs"] = x.coeffs
                elif x.coeffs is not None:
                    out[f"out{o}_{f}_time_constant"], out[f"out{o}_{f}_amplitude"] = x.coeffs
    return out


class Held(Fake):
    """a parameter of an instrument: what the driver believes it holds"""

    def __init__(self, vc, name, value, valid):
        self.vc, self.value, self.valid, self.sent = vc, value, valid, []

    @property
    def cache(self):
        par = self

        class Cache(Fake):
            valid = par.valid

            def __call__(self):
                return par.value

        return Cache()

    def __call__(self, value):
        self.value, self.valid = value, True
        self.sent.append(value)

    set = __call__


class Instrument(Fake):
    def __init__(self, vc, name, held=()):
        self.name, self.submodules, self.functions, self.calls = name, {}, {}, []
        self.parameters = {n: Held(vc, n, vc.real(f"{name} {n} before"), True) for n in held}

    def sideband_cal(self):
        self.calls.append("sideband_cal")

    def out0_lo_cal(self):
        self.calls.append("out0_lo_cal")

    def out1_lo_cal(self):
        self.calls.append("out1_lo_cal")

    def out0_in0_lo_cal(self):
        self.calls.append("out0_in0_lo_cal")


class Filter(Fake):
    def __init__(self, name, fir, coeffs):
        class Value(Fake):
            def __init__(self, v):
                self.value = v

        self.config, self.marker_delay = Value(f"{name} config"), Value(f"{name} delay")
        self.coeffs = None if not coeffs else f"{name} coeffs" if fir else [f"{name} time", f"{name} amplitude"]


class Distortion(Fake):
    def __init__(self, vc, o):
        for f in ("exp0", "exp1", "exp2", "exp3", "fir"):
            setattr(self, f, Filter(f"{o} {f}", f == "fir", o != 1))


class Settings(Fake):
    """of a module"""

    def __init__(self, **k):
        self.__dict__.update(k)


def component(vc, kind):
    """a component without instrument, that records what it sets (C25.parameter is the contract of setting)"""
    c = object.__new__(vc.fn(f"{Q}:_{kind}Component"))
    held = {n for n, _ in LO_CAL.get(kind, {}).values()} | ({"out0_lo_freq"} if kind == "QRC" else set())
    mod = Instrument(vc, "module", sorted(held))
    mod.sequencers = [Instrument(vc, f"sequencer{i}", ["nco_freq"] if i in (0, 3) else []) for i in range(SEQS.get(kind, 8))]
    mod.io_channels = [Instrument(vc, f"channel{i}") for i in range(8)]
    c._instrument_module = mod
    c._seq_name_to_idx_map = {f"seq{i}": i for i in range(SEQS.get(kind, 8))}
    c._program, c._nco_frequency_changed, c._acquisition_manager = {}, {5: True}, None
    got = {}

    def record(instrument, parameter_name, val):
        got.setdefault(instrument.name, {})[parameter_name] = val

    c._set_parameter = record
    return c, mod, got


CHANNELS = {"QCM": [("complex_output_0", (0, 1), ()), ("complex_output_1", (2, 3), ()), ("real_output_0", (0,), ()), ("real_output_3", (3,), ()),
                    ("digital_output_1", (1,), ())],
            "QRM": [("complex_output_0", (0, 1), (0, 1)), ("real_output_1", (1,), (1,)), ("real_input_0", (), (0,)), ("complex_input_0", (), (0, 1)),
                    ("digital_output_0", (0,), ())],
            "QCMRF": [("complex_output_0", (0, 1), ()), ("complex_output_1", (2, 3), ()), ("digital_output_1", (1,), ())],
            "QRMRF": [("complex_output_0", (0, 1), (0, 1)), ("complex_input_0", (), (0, 1)), ("digital_output_0", (0,), ())],
            "QRC": [("complex_output_0", (0, 1), (0, 1)), ("complex_output_1", (2, 3), (2, 3)), ("complex_output_4", (8, 9), ()),
                    ("complex_output_2", (4, 5), ())]}
PREPARED = [f"{Q}:_{k}Component.{m}" for k, m in (
    ("QCM", "prepare"), ("QCM", "_configure_sequencer_settings"), ("QCM", "_configure_global_settings"), ("AnalogModule", "_configure_sequencer_settings"),
    ("AnalogModule", "_determine_channel_map_parameters"), ("AnalogModule", "_determine_output_channel_map_parameters"),
    ("AnalogModule", "_configure_nco_mixer_calibration"), ("ModuleBase", "_configure_sequencer_settings"), ("AnalogReadout", "prepare"),
    ("AnalogReadout", "_configure_global_settings"), ("AnalogReadout", "_configure_sequencer_settings"),
    ("AnalogReadout", "_determine_channel_map_parameters"), ("AnalogReadout", "_determine_input_channel_map_parameters"), ("QRM", "prepare"),
    ("QRM", "_configure_sequencer_settings"), ("RF", "prepare"), ("RF", "_configure_sequencer_settings"),
    ("RF", "_determine_output_channel_map_parameters"), ("RF", "_get_connected_lo_idx_for_sequencer"), ("QCMRF", "_configure_global_settings"),
    ("QCMRF", "_configure_lo_settings"), ("QRMRF", "_configure_global_settings"), ("QRMRF", "_configure_lo_settings"),
    ("QRMRF", "_determine_input_channel_map_parameters"), ("QRC", "prepare"), ("QRC", "_configure_global_settings"), ("QRC", "_configure_lo_settings"),
    ("QRC", "_determine_input_channel_map_parameters"), ("QRC", "_configure_sequencer_settings"))]
PREPARED = [p.replace("_ModuleBaseComponent", "_ModuleComponentBase") for p in PREPARED]


def sequencer(vc, kind, name, unset, first):
    from quantify_scheduler.backends.qblox.enums import SidebandCalEnum
    from quantify_scheduler.backends.types.qblox import AnalogSequencerSettings, ThresholdedAcqTriggerReadSettings

    ch, outs, ins = vc.choice(f"{name} channel", CHANNELS[kind]) if first else CHANNELS[kind][0]
    names = [*OPTIONAL, *READOUT, "thresholded_acq_trigger_write_en"]
    v = {n: None if unset == "all" or n == unset else vc.real(f"{name} {n}", -1000, 1000) for n in names}
    nco = kind == "QRC" or not first or bool(vc.bool(f"{name} modulated"))
    return AnalogSequencerSettings(
        sync_en=vc.real(f"{name} sync_en"), channel_name=ch, channel_name_measure=None, connected_output_indices=outs, connected_input_indices=ins,
        sequence={"program": name}, nco_en=nco, modulation_freq=vc.real(f"{name} freq", -500e6, 500e6),
        init_offset_awg_path_I=vc.real(f"{name} offset I", -1, 1), init_offset_awg_path_Q=vc.real(f"{name} offset Q", -1, 1),
        init_gain_awg_path_I=vc.real(f"{name} gain I", -1, 1), init_gain_awg_path_Q=vc.real(f"{name} gain Q", -1, 1),
        auto_sideband_cal=vc.choice(f"{name} calibration", [SidebandCalEnum.OFF, SidebandCalEnum.ON_INTERM_FREQ_CHANGE]) if first else SidebandCalEnum.OFF,
        thresholded_acq_trigger_write_invert=vc.real(f"{name} invert"),
        thresholded_acq_trigger_read_settings={
            1: ThresholdedAcqTriggerReadSettings(thresholded_acq_trigger_invert=vc.real(f"{name} i1"), thresholded_acq_trigger_count=None),
            7: ThresholdedAcqTriggerReadSettings(thresholded_acq_trigger_invert=None, thresholded_acq_trigger_count=vc.real(f"{name} c7"))}, **v)


@unit("C25.prepare", "C25", modes=("prove", "fuzz"), fuzz=300, targets=PREPARED, budget=200, shards=5,
      assumptions=["absent settings: none, one or all of the optional ones", "the instrument is a stand-in that records what is set"])
def prepare(vc):
    """after prepare every sequencer and the module have the parameters of their settings, for all values of the settings"""
    from quantify_scheduler.backends.qblox.enums import LoCalEnum

    kind = vc.choice("kind", KINDS)
    unset = vc.choice("unset", [None, "all", "mixer_corr_gain_ratio", "integration_length_acq", "ttl_acq_auto_bin_incr_en", "ttl_acq_threshold",
                                "thresholded_acq_rotation", "thresholded_acq_trigger_write_en"])
    c, mod, got = component(vc, kind)
    seqs = {"seq3": sequencer(vc, kind, "a", unset, True)}
    if unset is None:
        seqs["seq0"] = sequencer(vc, kind, "b", "all", False)
    cal = vc.choice("lo calibration", list(LoCalEnum)) if kind in LO_CAL and unset in (None, "all") else LoCalEnum.OFF
    absent = vc.choice("unset of the module", [None, *MODULE[kind]]) if unset == "all" and cal == LoCalEnum.OFF else None
    values = {n: None if n == absent else vc.real(f"module {n}", 0, 1e9) for n in MODULE[kind]}
    settings = vc.fn(f"{T}:RFModuleSettings" if kind.endswith("RF") or kind == "QRC" else f"{T}:AnalogModuleSettings")(**values)
    settings.distortion_corrections = [Distortion(vc, o) for o in range(4)]
    settings.out0_lo_freq_cal_type_default = settings.out1_lo_freq_cal_type_default = cal
    nco = {i: mod.sequencers[i].parameters["nco_freq"].value for i in (0, 3)}
    o = vc.run(c.prepare, {"sequencers": seqs, "settings": settings}, {}, 3)
    vc.prove("what was compiled can be prepared", o.ok, repr(o.exc)[:300])
    if not o.ok:
        return
    changed = {}
    for name, s in seqs.items():
        i = int(name[3:])
        want, have = expected(kind, s), got.get(f"sequencer{i}", {})
        changed[i] = vc.And(s.nco_en, vc.Not(vc.eq(nco[i], s.modulation_freq)))
        if kind != "QRC":
            calibrated = s.auto_sideband_cal.value == "on_interm_freq_change" and bool(vc.is_true(changed[i]))
            vc.prove("sideband calibration when the frequency changes", mod.sequencers[i].calls == ["sideband_cal"] * calibrated, kind)
            if not calibrated:
                want.update({p: getattr(s, n) for n, p in OPTIONAL.items() if getattr(s, n) is not None})
        for p, v in want.items():
            vc.prove("a parameter of a sequencer is its setting", p in have and vc.eq(have[p], v), (kind, name, p, v, have.get(p, "not set")))
        vc.prove("nothing else of a sequencer is set", set(have) <= set(want), (kind, name, set(have) - set(want)))
    for i in range(SEQS[kind]):
        if f"seq{i}" not in seqs:
            vc.prove("other sequencers do not take part in synchronisation", got.get(f"sequencer{i}", {}) == {"sync_en": False}, (kind, i))
    want = {p: values[n] for n, p in MODULE[kind].items() if values[n] is not None}
    want.update(filters(kind, settings.distortion_corrections))
    have = got.get("module", {})
    for p, v in want.items():
        vc.prove("a parameter of a module is its setting", p in have and vc.eq(have[p], v), (kind, p, v, have.get(p, "not set")))
    rest = {p: v for p, v in have.items() if p not in want}
    scope = {f"scope_acq_{a}_path{i}": v for i in range({"QRC": 4, "QRM": 2, "QRMRF": 2}.get(kind, 0))
             for a, v in (("trigger_mode", "sequencer"), ("avg_mode_en", True))}
    vc.prove("scope acquisitions are triggered by sequencers, and averaged; nothing else of a module is set", rest == scope, (kind, rest))
    for lo, (par, call) in LO_CAL.get(kind, {}).items():
        moved = vc.Not(vc.eq(mod.parameters[par].value, want[par])) if par in want else False
        conn = [changed[int(n[3:])] for n, s in seqs.items() if "digital" not in s.channel_name and tuple(s.connected_output_indices) == (2 * lo, 2 * lo + 1)]
        due = {"off": False, "on_lo_freq_change": moved, "on_lo_interm_freq_change": vc.Or(moved, *conn)}[cal.value]
        vc.prove("LO calibration when its frequency, or that of a sequencer at it, changes", vc.eq(call in mod.calls, due), (kind, lo, cal, mod.calls))


@unit("C25.timetag", "C25", modes=("prove", "fuzz"), fuzz=200,
      targets=[f"{Q}:_QTMComponent.prepare", f"{Q}:_QTMComponent._configure_io_channel_settings", f"{Q}:_ModuleComponentBase._configure_sequencer_settings"],
      assumptions=["the instrument is a stand-in that records what is set"])
def timetags(vc):
    """after prepare the sequencers and channels of a QTM have the parameters of their settings"""
    from quantify_scheduler.backends.qblox.enums import TimetagTraceType
    from quantify_scheduler.backends.types.qblox import TimetagSequencerSettings
    from quantify_scheduler.enums import TimeRef, TimeSource

    c, mod, got = component(vc, "QTM")
    i = vc.choice("channel", [0, 5])
    way = vc.choice("way", ["input", "output"])
    opt = lambda n: vc.real(n, -5, 5) if vc.bool(f"{n} given") else None  # noqa: E731
    s = TimetagSequencerSettings(
        sync_en=True, channel_name=f"digital_{way}_{i}", channel_name_measure=None, connected_output_indices=(i,) if way == "output" else (),
        connected_input_indices=(i,) if way == "input" else (), sequence={"program": "a"}, analog_threshold=opt("threshold"),
        time_source=vc.choice("source", [None, *TimeSource]), time_ref=vc.choice("ref", [None, *TimeRef]), time_ref_channel=vc.choice("ref channel", [0, 6]),
        scope_trace_type=vc.choice("trace", [None, *TimetagTraceType]), thresholded_acq_trigger_write_en=opt("trigger"),
        **{f"thresholded_acq_trigger_write_address_{n}": vc.int(f"address {n}", 0, 15) for n in ("high", "mid", "low", "invalid")})
    o = vc.run(c.prepare, {"sequencers": {f"seq{i}": s}}, {}, 2)
    vc.prove("what was compiled can be prepared", o.ok, repr(o.exc)[:300])
    if not o.ok:
        return
    for n, want in ((f"sequencer{i}", expected("QTM", s)), (f"channel{i}", {**timetag(s), "mode": way})):
        have = got.get(n, {})
        for p, v in want.items():
            vc.prove("a parameter is its setting", p in have and vc.eq(have[p], v), (n, p, v, have.get(p, "not set")))
        vc.prove("nothing else is set", set(have) <= set(want), (n, set(have) - set(want)))
    vc.prove("other sequencers do not take part in synchronisation",
             {n: h for n, h in got.items() if n not in (f"sequencer{i}", f"channel{i}")} == {f"sequencer{k}": {"sync_en": False} for k in range(8) if k != i}, got)


@unit("C25.parameter", "C25", modes=("prove", "fuzz"), fuzz=60,
      targets=[f"{Q}:_ModuleComponentBase._set_parameter", "quantify_scheduler.instrument_coordinator.utility:lazy_set",
               "quantify_scheduler.instrument_coordinator.utility:parameter_value_same_as_cache",
               "quantify_scheduler.instrument_coordinator.utility:search_settable_param"],
      assumptions=["the driver's cache is right where it is valid"])
def parameter(vc):
    """whatever a parameter held, known or not, it holds the new value afterwards; no other parameter changes"""
    c = object.__new__(vc.fn(f"{Q}:_QCMComponent"))
    mod = Instrument(vc, "module")
    known = bool(vc.bool("known"))
    before, new = vc.real("before"), vc.real("new")
    mod.parameters = {"p": Held(vc, "p", before, known), "q": Held(vc, "q", before, known)}
    force = vc.bool("force")
    c.force_set_parameters = lambda: force
    c._instrument_module = mod
    o = vc.run(c._set_parameter, mod, "p", new)
    vc.prove("a parameter can be set", o.ok, repr(o.exc)[:300])
    p, q = mod.parameters["p"], mod.parameters["q"]
    vc.prove("it holds the new value", vc.And(vc.eq(p.value, new), p.valid))
    vc.prove("nothing else changes", not q.sent)
    o = vc.run(c._set_parameter, mod, "absent", new)
    vc.prove("what does not exist is not set silently", not o.ok)


@unit("C25.delays", "C25", modes=("prove",), targets=["quantify_scheduler.backends.qblox.analog:AnalogModuleCompiler._configure_dc_latency_comp_for_output",
                                                      "quantify_scheduler.backends.qblox.analog:BasebandModuleCompiler._configure_dc_latency_comp_for_marker"])
def delays(vc):
    """the delay of a filter is compensated if and only if the flag of that filter is set, on the given output only"""
    A = "quantify_scheduler.backends.qblox.analog"
    flags = [bool(vc.bool(f)) for f in ("exp0", "exp1", "exp2", "exp3", "fir")]
    comp = sum(2 ** (i + 1) for i, f in enumerate(flags) if f)
    o = vc.choice("output", [0, 3])
    marker = bool(vc.bool("marker"))
    name = "marker" if marker else "output"
    from quantify_scheduler.backends.types.qblox import DistortionSettings

    s = Settings(distortion_corrections=[DistortionSettings() for _ in range(4)])
    cls = vc.fn(f"{A}:AnalogModuleCompiler")
    vc.call(getattr(cls, f"_configure_dc_latency_comp_for_{name}"), Settings(_settings=s), o, comp)
    for k in range(4):
        for f, on in zip(("exp0", "exp1", "exp2", "exp3", "fir"), flags):
            x = getattr(s.distortion_corrections[k], f)
            on &= k == o
            vc.prove("the delay is compensated where the flag is set", x.config.value == ("delay_comp" if on and not marker else "bypassed"), (k, f))
            vc.prove("the marker is delayed where the flag is set", x.marker_delay.value == ("delay_comp" if on and marker else "bypassed"), (k, f))
            vc.prove("no coefficients", x.coeffs is None)


FILTERS = ("exp0", "exp1", "exp2", "exp3", "fir")
ANALOG = {("q0:fl", "cl0.baseband"): "real_output_0", ("q1:fl", "cl0.baseband"): "real_output_1", ("q2:fl", "cl0.baseband"): "real_output_2",
          ("q3:fl", "cl0.baseband"): "real_output_3", ("c0:mw", "c0.if"): "complex_output_0", ("c0:mw", "c0.too"): "complex_output_0",
          ("c1:mw", "c1.if"): "complex_output_1", ("c1:mw", "c1.too"): "complex_output_1"}
I = "quantify_scheduler.backends.qblox.instrument_compilers"  # noqa: E741


def indices(channel):
    mode, _, k = channel.split("_")
    return (2 * int(k), 2 * int(k) + 1) if mode == "complex" else (int(k),)


def correction(vc):
    """-> one hardware correction, whether a coefficient is out of range"""
    out, bad = {}, False
    for f in FILTERS:
        if vc.bool(f"{f} configured"):
            wrong = vc.int("out of range", 0, 30) == 0
            bad |= wrong
            if f == "fir":
                v = [vc.choice("tap", [-2, 0.5, 0, 1.999]) for _ in range(32)]
                if wrong:
                    v[vc.choice("place", [0, 13, 31])] = vc.choice("wrong tap", [-2.01, 2, 5.5])
            else:
                v = [vc.choice("time", [6, 200, 31000.5]), vc.choice("amplitude", [-1, -0.1, 0.99])]
                if wrong:
                    v = vc.choice("wrong", [[5.9, 0.1], [6, -1.1], [6, 1]])
            out[f"{f}_coeffs"] = v
    return out, bad


@unit("C25.filters", "C25", modes=("fuzz",), fuzz=300, shards=3, budget=100,
      targets=[f"{I}:QCMCompiler._configure_hardware_distortion_corrections", f"{I}:QCMCompiler._get_distortion_configs_per_output",
               f"{I}:QCMCompiler._configure_filter",
               "quantify_scheduler.backends.qblox.analog:AnalogModuleCompiler._configure_distortion_correction_latency_compensations"],
      assumptions=["bounded: random configurations of a QCM"])
def real_time(vc):
    """every output of a QCM has exactly the filters, and the delays in place of filters, that are configured for its port-clock"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_library import IdlePulse, MarkerPulse, SquarePulse
    from quantify_scheduler.resources import ClockResource

    from vlib import qhw

    shapes = [vc.choice(f"outputs {2 * k} and {2 * k + 1}", ["real", "complex", "real and complex"]) for k in range(2)]
    used = [pc for pc, ch in ANALOG.items() if ch.split("_")[0] in shapes[indices(ch)[0] // 2] and vc.bool(f"{pc} is used")]
    vc.assume(0 < len(used) <= 6)
    markers = [o for o in range(4) if vc.int(f"marker {o}", 0, 3) == 0][:6 - len(used)]
    channels = list(dict.fromkeys([ANALOG[pc] for pc in used] + [f"digital_output_{o}" for o in markers]))
    module, want, config, reasons = {"instrument_type": "QCM"}, {}, {}, []
    for ch in [*channels, "real_output_3"]:
        shared = "digital" not in ch and " and " in shapes[indices(ch)[0] // 2]  # whose description counts is not defined
        if ch not in module and not shared and vc.bool(f"{ch} described"):
            delays = vc.bool("delays")
            d = {"distortion_correction_latency_compensation": sum(2 ** (i + 1) for i in range(5) if delays and vc.bool("delay"))}
            if "digital" not in ch:
                d["marker_debug_mode_enable"] = vc.int("debug", 0, 2) == 0
            module[ch] = d
    for o in range(4):
        for f in FILTERS:
            want[o, f] = ["bypassed", "bypassed", None]
    for ch in channels:
        d = module.get(ch)
        if d is None:
            continue
        for o in indices(ch):
            for i, f in enumerate(FILTERS):
                v = "delay_comp" if d["distortion_correction_latency_compensation"] & 2 ** (i + 1) else "bypassed"
                if "digital" in ch or d["marker_debug_mode_enable"]:
                    want[o, f][1] = v
                if "digital" not in ch:
                    want[o, f][0] = v
            if d.get("marker_debug_mode_enable") and o in markers:
                reasons.append("the marker is used")
    order = list(ANALOG)
    for i in range(len(order) - 1, 0, -1):
        j = vc.int("swap", 0, i)
        order[i], order[j] = order[j], order[i]
    taken = set()
    for pc in order:
        if pc not in used or vc.int("corrected", 0, 2) == 0:
            continue
        ch = ANALOG[pc]
        cs = [correction(vc) for _ in indices(ch)]
        config[f"{pc[0]}-{pc[1]}"] = [c for c, _ in cs] if len(cs) == 2 else cs[0][0]
        if taken & set(indices(ch)):
            reasons.append("an output is corrected twice")
        taken |= set(indices(ch))
        for o, (c, bad) in zip(indices(ch), cs):
            if bad:
                reasons.append("out of range")
            for f in FILTERS:
                if f"{f}_coeffs" in c:
                    want[o, f][0], want[o, f][2] = "enabled", c[f"{f}_coeffs"]
                    if module.get(ch, {}).get("marker_debug_mode_enable"):
                        want[o, f][1] = "delay_comp"
    s = Schedule("s")
    for c in ("c0.if", "c0.too", "c1.if", "c1.too"):
        s.add_resource(ClockResource(c, 120e6))
    for pc in used:
        s.add(SquarePulse(amp=0.1, duration=40e-9, port=pc[0], clock=pc[1]))
    for o in markers:
        s.add(MarkerPulse(duration=40e-9, port=f"m{o}:sw"))
    s.add(IdlePulse(100e-9))
    ports = dict.fromkeys((pc[0], ANALOG[pc]) for pc in used)
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {"1": module}}},
          "hardware_options": {"modulation_frequencies": {f"{p}-{c}": {"interm_freq": 120e6} for p, c in used if c != "cl0.baseband"},
                               "distortion_corrections": config},
          "connectivity": {"graph": [[f"cluster0.module1.{ch}", p] for p, ch in ports] +
                           [[f"cluster0.module1.digital_output_{o}", f"m{o}:sw"] for o in markers]}}
    r = vc.run(qhw.compile_, s, hw)
    if not r.ok:
        vc.prove("a configuration is rejected with a reason", isinstance(r.exc, ValueError) and bool(reasons), (repr(r.exc)[:300], reasons, config))
        return
    vc.prove("what a QCM cannot do is rejected", not reasons, (reasons, config))
    got = r.value.compiled_instructions["cluster0"]["cluster0_module1"]["settings"].distortion_corrections
    for (o, f), w in want.items():
        x = getattr(got[o], f)
        vc.prove("a filter has its coefficients", x.coeffs == w[2], (o, f, x, w, config))
        vc.prove("a filter is enabled where configured, delays where its delay is to be compensated, else bypassed", x.config.value == w[0], (o, f, x, w, config, module))
        vc.prove("a marker is delayed with its output", x.marker_delay.value == w[1], (o, f, x, w, config, module))


@unit("C25.programs", "C25", modes=("fuzz",), fuzz=160, shards=4, budget=100,
      targets=[f"{Q}:ClusterComponent.prepare", f"{Q}:_QTMComponent.prepare", f"{Q}:_AnalogReadoutComponent.prepare"],
      assumptions=["the driver's dummy cluster", "bounded: random schedules"])
def programs(vc):
    """whatever was prepared before, after prepare every sequencer holds the program and settings compiled for it"""
    import contextlib
    import io

    from vlib import qasm, qhard, qhw
    from vlib.qgen import ACQ_KINDS
    from vlib.qprop import Case

    comp = qhard.component()
    opts = {"output_att": {"q0:mw-q0.01": vc.choice("att", [0, 10, 30])}, "input_att": {"q0:res-q0.ro": vc.choice("in att", [0, 6])},
            "mixer_corrections": {"q1:mw-q1.01": {"dc_offset_i": vc.choice("dc I", [-0.0051, 0.0, 0.007]), "dc_offset_q": 0.003, "amp_ratio": vc.choice("ratio", [0.9, 1.0]),
                                                  "phase_error": vc.choice("phase", [-7.0, 0.0])}}}
    for _ in range(2):
        c = Case(vc, hw_options=opts, kinds=("anyacq", "anyacq", "pulse", "nested"), ports=[*ACQ_KINDS, ("q0:mw", "q0.01"), ("q1:mw", "q1.01"), ("q0:fl", "cl0.baseband")],
                 max_slots=3, big=False, long_ok=False, min_slot=12, reps=(1, 3), grid=4)
        if c.compiled is None or "cluster0" not in c.compiled.compiled_instructions:
            return
        compiled = c.compiled.compiled_instructions["cluster0"]
        with contextlib.redirect_stdout(io.StringIO()), qasm.somewhere():
            comp.prepare(compiled)
        kinds = {"QCM_RF": "QCMRF", "QRM_RF": "QRMRF"}
        for m, t in qhw.TYPES.items():
            if f"cluster0_module{m}" not in compiled:
                continue
            kind, prog, mod = kinds.get(t, t), compiled[f"cluster0_module{m}"], comp._cluster_modules[f"cluster0_module{m}"].instrument
            for i, q in enumerate(mod.sequencers):
                s = prog["sequencers"].get(f"seq{i}")
                want = {"sync_en": False} if s is None else expected(kind, s)
                if s is not None and kind not in ("QTM", "QRC"):
                    want.update({p: getattr(s, n) for n, p in OPTIONAL.items() if getattr(s, n) is not None})
                for p, v in want.items():
                    vc.prove("a sequencer holds its program and settings", q.parameters[p].cache() == v, (t, i, p, v, q.parameters[p].cache()))
            if kind == "QTM":
                for n, s in prog["sequencers"].items():
                    for p, v in timetag(s).items():
                        x = mod.io_channels[int(n[3:])].parameters[p].cache()
                        vc.prove("a channel holds its settings", x == v, (n, p, v, x))
                continue
            want = {p: getattr(prog["settings"], n) for n, p in MODULE[kind].items() if getattr(prog["settings"], n) is not None}
            for p, v in {**want, **filters(kind, prog["settings"].distortion_corrections)}.items():
                vc.prove("a module holds its settings", mod.parameters[p].cache() == v, (t, p, v, mod.parameters[p].cache()))
            hwset = {2: {"out0_att": opts["output_att"]["q0:mw-q0.01"], "out1_offset_path0": 1000 * opts["mixer_corrections"]["q1:mw-q1.01"]["dc_offset_i"]},
                     4: {"in0_att": opts["input_att"]["q0:res-q0.ro"]}}.get(m, {})
            named = {"out0_att": "complex_output_0", "in0_att": "complex_output_0", "out1_offset_path0": "complex_output_1"}
            for p, v in hwset.items():
                if any(s.channel_name == named[p] for s in prog["sequencers"].values()):
                    vc.prove("a module holds the options of its channels", mod.parameters[p].cache() == v, (t, p, v, mod.parameters[p].cache()))
