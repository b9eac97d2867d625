import json
import os
import pathlib
import struct
import datetime

import pywr
from pywr import pywr as ext


def chain(e):
    out = []
    while e is not None:
        text = e.args[0] if isinstance(e, KeyError) and e.args else str(e)
        out.append([type(e).__name__, str(text)])
        e = e.__cause__
    return out


def attempt(f):
    try:
        return {"ok": f()}
    except Exception as e:
        return {"err": chain(e)}
    except BaseException as e:
        return {"panic": repr(e)}


def bits(x):
    assert type(x) is float
    return struct.pack(">d", x).hex()


def files(d):
    out = {}
    for n in os.listdir(d):
        if n.endswith(".csv"):
            with open(os.path.join(d, n), newline="", encoding="utf-8") as f:
                out[n] = f.read()
    return out


def path(p):
    return None if p is None else pathlib.Path(p)


def results(r, names):
    r.__repr__()
    return {
        "names": r.output_names(),
        "values": {n: attempt(lambda n=n: bits(r.aggregated_value(n))) for n in r.output_names() + ["no such output"]},
    }


def model(job):
    out = {"runs": []}
    cls = pywr.MultiNetworkModelSchema if job["many"] else pywr.ModelSchema
    keep = []

    def read():
        if job.get("text") is not None:
            s = cls.from_json_string(job["text"])
        else:
            s = cls.from_path(path(job["path"]))
        keep.append(s)
        return s.to_json_string()

    out["schema"] = attempt(read)
    if not keep:
        return out
    schema = keep[0]
    if job["again"]:
        schema = cls.from_json_string(schema.to_json_string())

    def build():
        if job["keywords"]:
            keep.append(schema.build(data_path=path(job["data"]), output_path=path(job["out"])))
        else:
            keep.append(schema.build(path(job["data"]), path(job["out"])))
        return True

    out["build"] = attempt(build)
    if len(keep) < 2:
        return out
    m = keep[1]
    assert type(m) is (pywr.MultiNetworkModel if job["many"] else pywr.Model)
    for solver, kwargs in job["runs"]:
        one = {}
        kept = []

        def run():
            if kwargs is None:
                r = m.run(solver)
            elif job["keywords"]:
                r = m.run(solver_name=solver, solver_kwargs=kwargs)
            else:
                r = m.run(solver, kwargs)
            kept.append(r)
            if job["many"]:
                v = {n: results(r.network_results(n), job) for n in job["nets"]}
                v["no such network"] = attempt(lambda: r.network_results("no such network"))
                return v
            return {"": results(r.network_result, job)}

        one["result"] = attempt(run)
        one["kwargs"] = kwargs
        if kept:
            t = kept[0].timings
            repr(t), repr(kept[0])
            one["timings"] = t.total_duration >= 0.0 and t.speed >= 0.0
            one["files"] = files(job["folder"])
            one["files"].update({"results/" + n: c for n, c in files(os.path.join(job["folder"], "results")).items()})
        out["runs"].append(one)
    return out


def v1(job):
    out = {}

    def convert():
        schema, errors = pywr.convert_model_from_v1_json_string(job["text"])
        assert type(schema) is pywr.ModelSchema
        out["errors"] = []
        for e in errors:
            v = {"type": type(e).__name__, "is": isinstance(e, pywr.ComponentConversionError)}
            assert v["is"]
            for k in ("attr", "name", "from_node", "to_node"):
                if hasattr(e, k):
                    v[k] = getattr(e, k)
            out["errors"].append(v)
        return schema.to_json_string()

    out["schema"] = attempt(convert)
    return out


def metric(job):
    def convert():
        m = pywr.convert_metric_from_v1_json_string(job["text"])
        assert isinstance(m, pywr.Metric)
        return m.to_json_string()

    return {"metric": attempt(convert)}


def new(job):
    cls = pywr.MultiNetworkModelSchema if job["many"] else pywr.ModelSchema

    def make():
        start, end = datetime.datetime(*job["start"]), datetime.datetime(*job["end"])
        return cls(job["title"], start, end).to_json_string()

    pywr.export_schema(path(job["schema"]))
    return {
        "schema": attempt(make),
        "nowhere": attempt(lambda: pywr.export_schema(path(job["schema"]) / "nowhere" / "schema.json")),
    }


def run(job):
    kw = {k + "_path": path(job[k]) for k in ("data",) if job[k] is not None}
    if job["out"] is not None:
        kw["output_path"] = path(job["out"])
    return {"result": attempt(lambda: pywr.run_from_path(path(job["path"]), solver="highs", **kw))}


def cli(job):
    import logging
    import sys

    site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if site not in sys.path:
        sys.path.append(site)
    try:
        from click.testing import CliRunner
        from pywr.cli import cli as command
    except ImportError as e:
        return {"absent": str(e)}
    log = logging.getLogger("pywr")
    before, level = list(log.handlers), log.level
    try:
        r = CliRunner().invoke(command, job["args"])
    finally:
        log.handlers[:] = before
        log.setLevel(level)
    e = r.exception
    return {"code": r.exit_code, "err": None if e is None else chain(e), "output": r.output}


OPS = {"cli": cli, "model": model, "v1": v1, "metric": metric, "new": new, "run": run}


def go(text):
    job = json.loads(text)
    return json.dumps(OPS[job["op"]](job))
