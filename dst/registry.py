"""Property id -> simulation."""
import importlib

MODULES = {"C01": "trainer", "C02": "trainer", "C03": "loader", "C04": "loader", "C05": "trainer", "C06": "trainer",
           "C07": "trainer", "C08": "scraper", "C09": "archive", **{f"C{i}": "games" for i in range(10, 20)}, "C22": "games"}


def get(propid):
    if propid not in MODULES:
        raise SystemExit(f"no check for {propid}")
    return getattr(importlib.import_module("dst." + MODULES[propid]), propid)()
