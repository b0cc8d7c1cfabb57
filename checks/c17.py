"""C17: two-line elements are accepted iff well formed, and read back faithfully."""
from datetime import datetime, timedelta, timezone

import numpy as np
from pydantic import ValidationError
from sgp4.api import Satrec

from vp import core, oracle as O, work as W

PROPERTY = "C17"
RULE = "a case counts when one list of lines was offered to TwoLineElements and the verdict (and, when accepted, every accessor of every set) was compared with an independent column-by-column reading"
CASES = {"quick": 12000, "thorough": 150000}
REQUIRED_EVENTS = ["accepted", "rejected", "multi", "alpha5", "blank_padded", "blank_eccentricity", "negative_bstar", "negative_nddot", "negative_ndot", "century_1900",
                   "corrupt_layout", "corrupt_checksum", "corrupt_neutral_ok", "unchronological", "equal_epochs", "odd", "wrong_length", "swapped_lines", "not_text"]
ASSUMPTIONS = ["fields with blanks between digits or with nothing but blanks are only checked to give a clean verdict", "catalogue numbers that differ between the two lines are not judged"]

UTC = timezone.utc
D = " 0123456789"
A5 = D + "ABCDEFGHJKLMNPQRSTUVWXYZ"
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


def cols(spec):
    out = []
    for chars, n in spec:
        out += [chars] * n
    return out


L1 = cols([("1", 1), (" ", 1), (A5, 1), (D, 4), (UP, 1), (" ", 1), (D, 5), (" " + UP, 3), (" ", 1), (D, 5), (".", 1), (D, 8), (" ", 1),
           (None, 10), (" ", 1), (" +-", 1), (D, 5), ("+-", 1), (D, 1), (" ", 1), (" +-", 1), (D, 5), ("+-", 1), (D, 1), (" ", 1), (D, 1), (" ", 1), (D, 4), (DIG, 1)])
L2 = cols([("2", 1), (" ", 1), (A5, 1), (D, 4), (" ", 1), (D, 3), (".", 1), (D, 4), (" ", 1), (D, 3), (".", 1), (D, 4), (" ", 1), (D, 7), (" ", 1),
           (D, 3), (".", 1), (D, 4), (" ", 1), (D, 3), (".", 1), (D, 4), (" ", 1), (D, 2), (".", 1), (D, 13), (DIG, 1)])
assert len(L1) == len(L2) == 69


def layout_ok(line, table):
    if not isinstance(line, str) or len(line) != 69:
        return False
    for ch, allowed in zip(line, table):
        if allowed is not None and ch not in allowed:
            return False
    if table is L1:
        f = line[33:43]
        a = f[0] in " 0+-" and f[1] == "." and all(x in D for x in f[2:])
        b = f[0] == " " and f[1] in " +-" and f[2] == "." and all(x in D for x in f[3:])
        if not (a or b):
            return False
    return True


def epoch_of(l1):
    yy, dd = int(l1[18:20]), float(l1[20:32])
    y = 1900 + yy if yy >= 57 else 2000 + yy
    return datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=dd - 1)


def verdict(lines):
    """True: must be accepted, False: must be rejected, None: not judged."""
    if not isinstance(lines, list) or not all(isinstance(x, str) for x in lines):
        return False
    if len(lines) < 2 or len(lines) % 2:
        return False
    for i in range(0, len(lines), 2):
        for l, t in ((lines[i], L1), (lines[i + 1], L2)):
            if not layout_ok(l, t) or W.checksum(l) != l[68]:
                return False
    for i in range(0, len(lines), 2):
        l1, l2 = lines[i], lines[i + 1]
        if l1[2:7] != l2[2:7]:
            return None
        fields = [l1[2:7], l1[18:20], l1[20:32], l1[33:43].replace("+", "").replace("-", ""), l1[45:50], l1[51], l1[54:59], l1[60],
                  l2[8:16], l2[17:25], l2[34:42], l2[43:51], l2[52:63], l2[26:33]]
        if any(f.strip() == "" or " " in f.strip() or f[-1] == " " for f in fields):
            return None
        if " " in l1[18:20] or any(" " in f for f in (l1[45:50], l1[54:59])):
            return None
        if not 1 <= float(l1[20:32]) < 366 or l1[20] == " " and l1[20:23].strip() == "":
            return None
        if not sane(l2):
            return None
    ep = [epoch_of(lines[i]) for i in range(0, len(lines), 2)]
    for a, b in zip(ep, ep[1:]):
        if a > b:
            if a - b < timedelta(microseconds=600):
                return None
            return False
    return True


def sane(l2):
    return 0.05 < float(l2[52:63]) < 17.5


def sexp(f):
    return (-1 if f[0] == "-" else 1) * int(f[1:6]) * 1e-5 * 10.0 ** int(f[6:8])


def cat(f):
    if f[0].isalpha():
        return ("ABCDEFGHJKLMNPQRSTUVWXYZ".index(f[0]) + 10) * 10000 + int(f[1:])
    return int(f)


def install():
    pass


def readings(c, o, lines):
    c.check(o.get_tle_count() == len(lines) // 2, "wrong number of element sets", sig="count")
    c.check(list(o.tle) == list(lines), "element lines changed", sig="lines")
    for i in range(len(lines) // 2):
        l1, l2 = lines[2 * i], lines[2 * i + 1]
        s = Satrec.twoline2rv(l1, l2)
        n = float(l2[52:63])

        def eq(name, got, want, tol=0.0, **kw):
            ok = got == want if tol == 0 else abs(got - want) <= tol
            c.check(ok, f"{name} differs from the columns", sig=name, got=str(got), want=str(want), lines=[l1, l2], i=i)

        k = {"tle_i": i} if i else ({} if len(lines) == 2 else {"tle_i": 0})
        if l1[2].isalpha():
            c.event("alpha5")
        if " " in l1[2:7] + l1[62] + l1[64:68] + l2[63:68] + l2[8:25]:
            c.event("blank_padded")
        for e, col in (("negative_bstar", 53), ("negative_nddot", 44)):
            if l1[col] == "-":
                c.event(e)
        if "-" in l1[33:43]:
            c.event("negative_ndot")
        if int(l1[18:20]) >= 57:
            c.event("century_1900")
        eq("catalog number", o.get_catalog_number(**k), cat(l1[2:7]))
        eq("classification", o.get_classification(**k), l1[7])
        if l1[9:11].isdigit():
            y = ("20" if int(l1[9:11]) < 57 else "19") + l1[9:11]
            eq("international designator", o.get_international_designator(**k), f"{y}-{l1[11:17]}".strip())
        ep = epoch_of(l1)
        eq("epoch", (o.get_epoch(**k) - ep) / timedelta(seconds=1), 0.0, 4e-4)
        eq("epoch of propagator", (s.jdsatepoch - 2451544.5) + s.jdsatepochF - (o.get_epoch(**k) - datetime(2000, 1, 1, tzinfo=UTC)) / timedelta(days=1), 0.0, 1e-8)
        nd = float(l1[33:43].replace(" ", ""))
        eq("first derivative of mean motion", o.get_first_derivative_mean_motion(**k), nd, 1e-12)
        eq("first derivative of the propagator", o.get_first_derivative_mean_motion(**k), s.ndot * 1440 * 1440 / (2 * np.pi), 1e-12)
        w = sexp(l1[44:52])
        eq("second derivative of mean motion", o.get_second_derivative_mean_motion(**k), w, 1e-12 * max(1e-300, abs(w)) + 1e-300)
        eq("second derivative of the propagator", o.get_second_derivative_mean_motion(**k), s.nddot * 1440 ** 3 / (2 * np.pi), 1e-9 * abs(w) + 1e-30)
        w = sexp(l1[53:61])
        eq("drag term", o.get_b_star(**k), w, 1e-12 * abs(w) + 1e-300)
        eq("drag term of the propagator", o.get_b_star(**k), s.bstar, 1e-9 * abs(w) + 1e-30)
        eq("ephemeris type", o.get_ephemeris_type(**k), int(l1[62].strip() or 0))
        eq("element set number", o.get_element_set_number(**k), int(l1[64:68].strip() or 0)) if " " not in l1[64:68].strip() else None
        eq("inclination", o.get_inclination(**k), float(l2[8:16]), 1e-9)
        eq("inclination of the propagator", o.get_inclination(**k), np.degrees(s.inclo), 1e-7)
        eq("node", o.get_right_ascension_ascending_node(**k), float(l2[17:25]), 1e-9)
        eq("node of the propagator", O.angdiff(o.get_right_ascension_ascending_node(**k), np.degrees(s.nodeo)), 0.0, 1e-7)
        e = int(l2[26:33]) * 1e-7
        if l2[26] == " ":
            c.event("blank_eccentricity")
        eq("eccentricity", o.get_eccentricity(**k), e, 1e-12)
        eq("eccentricity of the propagator", o.get_eccentricity(**k), s.ecco, 1e-12)
        eq("perigee", o.get_perigee_argument(**k), float(l2[34:42]), 1e-9)
        eq("perigee of the propagator", O.angdiff(o.get_perigee_argument(**k), np.degrees(s.argpo)), 0.0, 1e-7)
        m = float(l2[43:51])
        eq("mean anomaly", o.get_mean_anomaly(**k), m, 1e-9)
        eq("mean anomaly of the propagator", O.angdiff(o.get_mean_anomaly(**k), np.degrees(s.mo)), 0.0, 1e-7)
        eq("mean motion", o.get_mean_motion(**k), n, 1e-10)
        eq("mean motion of the propagator", o.get_mean_motion(**k), s.no_kozai * 720 / np.pi, 1e-7)
        eq("period", o.get_orbit_period(**k).total_seconds(), 86400 / n, 1e-5)
        eq("revolution number", o.get_revolution_number_at_epoch(**k), int(l2[63:68].strip() or 0)) if " " not in l2[63:68].strip() else None
        a = (3.986004418e14 / (n * 2 * np.pi / 86400) ** 2) ** (1 / 3)
        eq("semimajor axis", o.get_semimajor_axis(**k), a, 1e-6 * a)
        eq("altitude", o.get_altitude(**k), a - O.R_MEAN, 1e-6 * a)
        if e < 0.1:
            M, E = np.radians(m), np.radians(m)
            for _ in range(60):
                E = M + e * np.sin(E)
            nu = 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))
            eq("true anomaly", O.angdiff(o.get_true_anomaly(**k), np.degrees(nu)), 0.0, np.degrees(12 * e ** 4) + 1e-6)
    c.state("sets", len(lines) // 2)


def post_accept(lines, c):
    from tatc.schemas import TwoLineElements
    want = verdict(lines)
    try:
        o = TwoLineElements(tle=lines)
    except ValidationError:
        c.event("rejected")
        c.check(want is not True, "a well-formed element list is rejected", sig="rejected", lines=lines)
        return
    except Exception as exc:  # noqa: BLE001
        c.fail(f"not a validation error: {type(exc).__name__}", sig="raise:" + type(exc).__name__, lines=lines)
        return
    c.event("accepted")
    c.check(want is not False, "a malformed element list is accepted", sig="accepted", lines=lines)
    if want:
        readings(c, o, lines)


def run(case, c):
    for e in case.get("tags", []):
        c.event(e)
    post_accept(case["lines"], c)


def one(rng, epoch):
    sgn = lambda: str(rng.choice(list(" +-")))
    z = rng.random() < 0.3
    ndot = f"{sgn()}.{int(rng.integers(0, 10**8)):08d}" if rng.random() < 0.8 else f" {sgn()}.{int(rng.integers(0, 10**7)):07d}"
    if rng.random() < 0.1:
        ndot = "0" + ndot[1:] if ndot[1] == "." else ndot

    def exp():
        if z:
            return " 00000" + str(rng.choice(["-0", "+0"]))
        return f"{sgn()}{int(rng.integers(0, 10**5)):05d}{str(rng.choice(['-', '-', '+']))}{int(rng.integers(0, 10))}"
    if rng.random() < 0.35:
        sat = str(rng.choice(list("ABCDEFGHJKLMNPQRSTUVWXYZ"))) + f"{int(rng.integers(0, 10000)):04d}"
    else:
        v = int(rng.integers(1, 100000)) if rng.random() < 0.6 else int(rng.integers(1, 1000))
        sat = f"{v:05d}" if rng.random() < 0.6 else f"{v:5d}"
    piece = str(rng.choice(["A", "B", "AB", "ZZZ", "I", "O", ""]))
    intl = f"{int(rng.choice([0, 5, 24, 56, 57, 58, 98, 99])):02d}{int(rng.integers(1, 1000)):03d}{piece}" if rng.random() < 0.9 else " " * 8
    el = int(rng.integers(0, 10000))
    rev = int(rng.integers(0, 100000))
    l = W.tle_text(
        epoch, W.r(rng.uniform(0, 180), 4), W.r(rng.uniform(0, 360), 4) % 360,
        W.r(rng.uniform(0, 0.05) if rng.random() < 0.8 else rng.uniform(0, 0.8), 7), W.r(rng.uniform(0, 359.9), 4), W.r(rng.uniform(0, 359.9), 4),
        W.r(rng.uniform(0.9, 16.5), 8), bstar=exp(), ndot=ndot, nddot=exp(), sat=sat, cls=str(rng.choice(list("UCS"))), intl=f"{intl:<8}",
        elset=f"{el:4d}" if rng.random() < 0.7 else f"{el:04d}" if rng.random() < 0.7 else "    ",
        rev=f"{rev:05d}" if rng.random() < 0.6 else f"{rev % 100:5d}" if rng.random() < 0.7 else "     ", etype=str(rng.choice(["0", " ", "2"])))
    if rng.random() < 0.2:  # zero-padded angles
        l[1] = l[1][:8] + f"{float(l[1][8:16]):08.4f}" + " " + f"{float(l[1][17:25]):08.4f}" + l[1][25:68]
        l[1] += W.checksum(l[1])
    if rng.random() < 0.15 and l[1][26] == "0" and l[1][26:33].strip("0"):  # eccentricity padded with blanks
        e = l[1][26:33].lstrip("0").rjust(7)
        l[1] = l[1][:26] + e + l[1][33:68]
        l[1] += W.checksum(l[1])
    return l


def gen_ep(rng):
    y = int(rng.choice([1957, 1958, 1980, 1999, 2000, 2001, 2020, 2024, 2055, 2056])) if rng.random() < 0.6 else int(rng.integers(1958, 2057))
    return datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=float(rng.uniform(0, 364.99)) if rng.random() < 0.9 else 0.0)


def fix(line):
    return line[:68] + W.checksum(line)


def gen(rng, i):
    k = 1 if rng.random() < 0.6 else int(rng.integers(2, 6))
    eps = sorted(gen_ep(rng) for _ in range(k))
    tags = ["multi"] if k > 1 else []
    u = rng.random()
    if k > 1 and rng.random() < 0.25:
        j = int(rng.integers(1, k))
        eps[j] = eps[j - 1]
        eps = sorted(eps)
        tags.append("equal_epochs")
    if k > 1 and rng.random() < 0.25:
        j = int(rng.integers(1, k))
        if rng.random() < 0.5:
            eps[j] = eps[j - 1] - timedelta(seconds=float(10 ** rng.uniform(-2, 7)))
        else:
            eps[j], eps[j - 1] = eps[j - 1], eps[j]
        if any(a > b for a, b in zip(eps, eps[1:])):
            tags.append("unchronological")
    if any(not 1957 <= e.year <= 2056 for e in eps):
        eps = sorted(gen_ep(rng) for _ in range(k))
        tags = [t for t in tags if t == "multi"]
    lines = [l for e in eps for l in one(rng, e)]
    if u < 0.40:
        return {"kind": "valid", "lines": lines, "tags": tags}
    j = int(rng.integers(0, len(lines)))
    if u < 0.85:
        p = int(rng.integers(0, 69))
        if rng.random() < 0.75:  # a character of another class, or the nearest legal-looking one
            ch = str(rng.choice(list(" 0+-.AIOUaz9\t\u0663\u00b2/_,")))
        else:
            ch = str(rng.choice(list(DIG + UP)))
        new = lines[j][:p] + ch + lines[j][p + 1:]
        if rng.random() < 0.7 and p < 68:
            new = fix(new) if all(ord(x) < 128 for x in new) else new
        if new != lines[j]:
            t = L1 if j % 2 == 0 else L2
            tags.append("corrupt_layout" if not layout_ok(new, t) else "corrupt_checksum" if W.checksum(new) != new[68] else "corrupt_neutral_ok")
        lines[j] = new
    elif u < 0.88:
        lines = lines[:j] + lines[j + 1:]
        tags.append("odd")
    elif u < 0.92:
        v = rng.random()
        lines[j] = lines[j][:-1] if v < 0.3 else lines[j] + str(rng.choice([" ", "0", "\n"])) if v < 0.6 else "" if v < 0.7 else " " + lines[j] if v < 0.85 else lines[j][1:]
        tags.append("wrong_length")
    elif u < 0.95:
        q = 2 * (j // 2)
        lines[q], lines[q + 1] = lines[q + 1], lines[q]
        tags.append("swapped_lines")
    elif u < 0.97:
        lines[j] = None if rng.random() < 0.5 else 12345
        tags.append("not_text")
    else:
        p = int(rng.integers(0, 68))
        d = lines[j][68]
        lines[j] = lines[j][:68] + str((int(d) + int(rng.integers(1, 10))) % 10)
        tags.append("corrupt_checksum")
    return {"kind": "random", "lines": lines, "tags": tags}


def fixed_cases():
    l = W.ISS
    blank = ["1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
             "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667"]
    return [{"lines": x} for x in ([], l[:1], l, l + l, l[::-1], [l[0].lower(), l[1]], blank, blank + l, l + blank, [fix(l[0].replace("U", "u")), l[1]])]
