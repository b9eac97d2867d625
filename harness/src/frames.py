"""What pywr-schema uses of pandas and polars, which are not installed here.

A file NAME has a description NAME.json: the arguments that must arrive, how to read the file, and what the result looks like."""
import csv
import json
from datetime import datetime
from pathlib import Path


class Frame:
    def __init__(self, index, columns):
        self.index, self.columns = index, columns


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def _read(how, path, index_col, kwargs):
    about = json.loads(Path(str(path) + ".json").read_text("utf-8"))
    if how != about["how"]:
        raise RuntimeError(f"read with {how}")
    if not same(kwargs, about["kwargs"]):
        raise RuntimeError(f"arguments {kwargs!r}, not {about['kwargs']!r}")
    lines = Path(path).read_text("utf-8").split("\n")[about["skip"] :]
    rows = [r for r in csv.reader(lines, delimiter=about["sep"]) if r]
    head, rows = rows[0], rows[1:]
    if how == "hdf":
        at = about["index"]
    elif type(index_col) is int:
        at = index_col
    else:
        at = head.index(index_col)
    unit = about["unit"]
    scale = {"ns": 10**9, "us": 10**6, "ms": 10**3}[unit]
    zero = datetime(1970, 1, 1)

    def stamp(text):
        d = datetime.fromisoformat(text) - zero
        return (d.days * 86400 + d.seconds) * scale

    columns = []
    for k, name in enumerate(head):
        values = [r[k] for r in rows]
        if k == at:
            index = (name, unit, [stamp(v) for v in values])
        elif all(v.lstrip("-").isdigit() for v in values):
            columns.append((name, "i", [int(v) for v in values]))
        else:
            columns.append((name, "f", [float(v) for v in values]))
    return Frame(index, columns)


def read_csv(path, *, index_col, parse_dates, **kwargs):
    if parse_dates is not True:
        raise RuntimeError("dates are not to be parsed")
    return _read("csv", path, index_col, kwargs)


def read_excel(path, *, index_col, **kwargs):
    return _read("excel", path, index_col, kwargs)


def read_hdf(path, **kwargs):
    return _read("hdf", path, None, kwargs)


class Inner:
    def __init__(self, column):
        self.column = column

    def _export(self, address):
        export_series(*self.column, address)  # noqa: F821


class Series:
    def __init__(self, column):
        self._s = Inner(column)


class DataFrame:
    def __init__(self, columns):
        self.columns, self.width = columns, len(columns)

    def get_columns(self):
        return [Series(c) for c in self.columns]


def from_pandas(frame, *, include_index=False):
    return DataFrame(([frame.index] if include_index else []) + frame.columns)
