"""Small helpers to build recordings without using the code under test."""
import hashlib
import pathlib

import h5py
import numpy as np

DSETS = ("time", "current", "voltage")


def make(path, t, v, c, *, mode="harvester", datatype="ivsample", window=0, cal=None, hostname="host",
         config=None, attrs=None, gpio=None, comp=None, logs=None):
    """Write a recording directly with h5py; cal = {dset: (gain, offset)}."""
    cal = {"time": (1e-9, 0.0), "voltage": (3e-9, 0.0), "current": (250e-12, 0.0), **(cal or {})}
    with h5py.File(path, "w") as fd:
        if mode is not None:
            fd.attrs["mode"] = mode
        if hostname is not None:
            fd.attrs["hostname"] = hostname
        if config is not None:
            import yaml
            fd.attrs["config"] = yaml.safe_dump(config, default_flow_style=False, sort_keys=False)
        for k, val in (attrs or {}).items():
            fd.attrs[k] = val
        g = fd.create_group("data")
        if datatype is not None:
            g.attrs["datatype"] = datatype
        if window is not None:
            g.attrs["window_samples"] = window
        for name, data, dt, unit in (("time", t, "u8", "s"), ("current", c, "u4", "A"), ("voltage", v, "u4", "V")):
            d = g.create_dataset(name, data=np.asarray(data, dtype=dt), maxshape=(None,), chunks=(10_000,), compression=comp)
            d.attrs["gain"], d.attrs["offset"] = cal[name]
            d.attrs["unit"] = unit
            d.attrs["description"] = {"time": "system time [s] = value * gain + (offset)", "current": "current [A] = value * gain + offset",
                                      "voltage": "voltage [V] = value * gain + offset"}[name]
        if gpio is not None:
            gt, gv, desc = gpio
            gg = fd.create_group("gpio")
            gg.create_dataset("time", data=np.asarray(gt, dtype="u8"), maxshape=(None,))
            gg["time"].attrs["unit"] = "ns"
            gg["time"].attrs["description"] = "system time [ns]"
            gg.create_dataset("value", data=np.asarray(gv, dtype="u2"), maxshape=(None,))
            gg["value"].attrs["unit"] = "n"
            gg["value"].attrs["description"] = desc
        for name, (lt, level, msg) in (logs or {}).items():
            lg = fd.create_group(name)
            lg.create_dataset("time", data=np.asarray(lt, dtype="u8"), maxshape=(None,))
            lg["time"].attrs["description"] = "system time [ns]"
            if level is not None:
                lg.create_dataset("level", data=np.asarray(level, dtype="u1"), maxshape=(None,))
                lg["level"].attrs["description"] = "from logging-module, debug=10, info=20, warning=30, .."
            lg.create_dataset("message", data=np.asarray(msg, dtype=h5py.string_dtype()), maxshape=(None,))
            lg["message"].attrs["description"] = "message"
    return pathlib.Path(path)


def ramp(n, t0=0, step=10_000):
    i = np.arange(n, dtype="u8")
    return np.uint64(t0) + i * np.uint64(step), (i * 7919 + 5) % 2**31, (i * 104729 + 11) % 2**31


def digest(path) -> str:
    path = pathlib.Path(path)
    if path.is_dir():
        return "dir:" + ",".join(sorted(p.name for p in path.iterdir()))
    return hashlib.sha1(path.read_bytes()).hexdigest()


def snapshot(d) -> dict:
    d = pathlib.Path(d)
    return {str(p.relative_to(d)): digest(p) for p in sorted(d.rglob("*"))}
