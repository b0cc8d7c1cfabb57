"""Synthetic observation/downlink tables for the table-processing monitors."""
from datetime import datetime, timedelta, timezone

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely.geometry import Point as P

from . import work as W


def gen_points(rng, n):
    ids = [int(x) for x in rng.choice(5000, size=n, replace=False)]
    return [{"id": i, "lon": W.r(rng.uniform(-179.5, 179.5), 3), "lat": W.r(rng.uniform(-89, 89), 3),
             "z": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(-100, 3000), 1)} for i in ids]


def gen_spans(rng, n, horizon=20000):
    """start/end seconds with nested, touching, identical and disjoint spans."""
    out = []
    style = rng.random()
    for _ in range(n):
        u = rng.random()
        if out and u < 0.15:  # identical
            out.append(list(out[int(rng.integers(len(out)))]))
        elif out and u < 0.3:  # touching
            a = out[int(rng.integers(len(out)))]
            d = int(rng.integers(1, 900))
            out.append([a[1], a[1] + d] if rng.random() < 0.5 else [a[0] - d, a[0]])
        elif out and u < 0.45:  # nested
            a = out[int(rng.integers(len(out)))]
            x, y = sorted(rng.uniform(a[0], a[1], 2))
            out.append([float(np.round(x, 3)), float(np.round(y, 3))])
        elif out and u < 0.55:  # almost touching
            a = out[int(rng.integers(len(out)))]
            out.append([round(a[1] + float(rng.choice([-1e-3, 1e-3, 1e-6])), 6), round(a[1] + float(rng.integers(1, 500)), 3)])
        else:
            a = rng.uniform(0, horizon)
            d = rng.exponential(400 if style < 0.5 else 3000) + 1
            if rng.random() < 0.5:
                a, d = np.round(a), np.round(d) + 1
            out.append([W.r(a, 3), W.r(a + d, 3)])
    return out


def T(s):
    return pd.Timestamp(W.EPOCH) + pd.Timedelta(microseconds=int(round(s * 1e6)))


def observations(rows, points, alt=True):
    """rows: [point index, satellite, instrument, start, end, epoch-fraction, el, az]"""
    rec = [{"point_id": points[r[0]]["id"], "geometry": P(points[r[0]]["lon"], points[r[0]]["lat"], points[r[0]]["z"]),
            "satellite": r[1], "instrument": r[2], "start": T(r[3]), "end": T(r[4]),
            "epoch": T(r[3] + (r[4] - r[3]) * r[5]), "sat_alt": r[6], "sat_az": r[7]} for r in rows]
    return gpd.GeoDataFrame(rec, crs="EPSG:4326")


def downlinks(rows, stations):
    rec = [{"station": stations[r[0]]["name"], "geometry": P(stations[r[0]]["lon"], stations[r[0]]["lat"], 0.0),
            "satellite": r[1], "start": T(r[2]), "end": T(r[3]), "epoch": T((r[2] + r[3]) / 2)} for r in rows]
    return gpd.GeoDataFrame(rec, crs="EPSG:4326")


def snapshot(df):
    """value snapshot of a frame, for mutation checks"""
    return (list(map(str, df.columns)), list(df.index), [[str(v) for v in row] for row in df.itertuples(index=False)],
            [str(t) for t in df.dtypes])


def shuffle(df, seed, keep_index=True):
    g = np.random.default_rng(seed)
    out = df.iloc[g.permutation(len(df))]
    return out if keep_index else out.reset_index(drop=True)
