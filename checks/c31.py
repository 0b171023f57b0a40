"""C31 EDI data blocks written and read again"""
import numpy as np

PROPERTY = "C31"
IMPORTS = ["mt_metadata.transfer_functions.io.edi", "mt_metadata.transfer_functions.io.edi.edi", "mt_metadata.transfer_functions.io.edi.metadata",
           "mt_metadata.transfer_functions.io.tools"]
OPTS = {"budget_s": 200, "timeout_ms": 15000, "time_s": 100}
ASSUMPTIONS = ["the file is kept in memory (the module's open() is replaced); its text is built and parsed by the code",
               "printed values are compared to half a unit of their last printed digit",
               "the sign of every value is fixed per instance, magnitudes are symbolic",
               "a value equal to the header's empty value (1e32) is the mark of a missing one"]
COMPS = {"z": ((0, 0), (0, 1), (1, 0), (1, 1)), "t": ((0, 0), (0, 1))}
TOL = 6e-7


def BOUNDS(tier):
    return ("%s frequencies, falling or rising, magnitudes of one quantity at a time (every impedance or tipper part, every error, the frequencies, the rotation angles) within 1e-9..1e9 "
            "with positive, negative and alternating signs; impedance, tipper or both; blocks with other spacing, case, line lengths and order, missing and unreadable entries"
            % ("1 to 3 and 7" if tier == "quick" else "1 to 8"))


class Path_(object):
    """a path whose file is kept in memory"""

    def __init__(self, text=""):
        self.text = text

    def exists(self):
        return True

    def __str__(self):
        return "a01.edi"


class Open(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        lines = self.path.text.split("\n")
        return [x + "\n" for x in lines[:-1]] + lines[-1:]

    def write(self, text):
        self.path.text = self.path.text + text


def written(edi, **kw):
    """the text the object writes"""
    from mt_metadata.transfer_functions.io.edi import edi as module
    path = Path_()
    module.open = lambda fn, *a, **k: Open(path)
    try:
        edi.write("/nonexistent/a01.edi", **kw)
    finally:
        del module.open
    return path.text


def read(text):
    from mt_metadata.transfer_functions.io.edi import edi as module
    path = Path_(text)
    module.open = lambda fn, *a, **k: Open(path)
    try:
        out = module.EDI()
        out._fn = path
        out.read()
        return out
    finally:
        del module.open


def sign(kind, k):
    return 1 if kind == "+" else -1 if kind == "-" else (1 if k % 2 == 0 else -1)


def magnitude(ctx, name, signs, k, lo=1e-9, hi=1e9):
    v = ctx.real(name, lo, hi)
    return v if sign(signs, k + k // 3) > 0 else -v


FREQS = {1: (4.0,), 2: (8.0, 0.5), 3: (320.0, 8.0, 0.00125), 4: (320.0, 8.0, 0.5, 0.00125), 5: (320.0, 8.0, 4.0, 0.5, 0.00125), 6: (320.0, 20.0, 8.0, 4.0, 0.5, 0.00125),
         7: (320.0, 20.0, 8.0, 4.0, 2.0, 0.5, 0.00125), 8: (320.0, 20.0, 8.0, 4.0, 2.0, 1.0, 0.5, 0.00125)}


def made(ctx, n, have, free, signs, rising=False):
    """an object of n frequencies; free: what is symbolic"""
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    edi = EDI()
    edi.Header.dataid = "a01"
    fs = list(FREQS[n])
    if free == "freq":
        fs = [ctx.real(f"f{k}", 1e-6, 1e6) for k in range(n)]
        for a, b in zip(fs, fs[1:]):
            ctx.assume(a > b * 1.01)
    if rising:
        fs = fs[::-1]
    want = {"freq": fs, "rot": [0.0] * n}
    edi.frequency = np.array(fs)
    for q in ("z", "t"):
        if q not in have:
            continue
        rows = 2 if q == "z" else 1
        v, e = np.zeros((n, rows, 2), dtype=complex), np.zeros((n, rows, 2), dtype=float)
        for k in range(n):
            for m, (i, j) in enumerate(COMPS[q]):
                if free == q or free == f"{q}{i}{j}":
                    x = magnitude(ctx, f"{q}{k}{i}{j}.re", signs, 2 * m + k) + 1j * magnitude(ctx, f"{q}{k}{i}{j}.im", signs, 2 * m + k + 1)
                else:
                    x = (k + 1) * complex(1.5 + m, -0.25 - 2 * m)
                s = ctx.real(f"{q}{k}{i}{j}.err", 1e-6, 1e6) if free == f"{q}_err" else 0.5 * (m + 1) + k
                want[q, k, i, j] = (x, s)
                v[k, i, j] = x
                e[k, i, j] = s
        if q == "z":
            edi.z, edi.z_err = v, e
        else:
            edi.t, edi.t_err = v, e
    if free == "rot":
        want["rot"] = [magnitude(ctx, f"rot{k}", signs, k, 1e-6, 360) for k in range(n)]
        edi.rotation_angle = np.array(want["rot"])
    elif rising or free == "fixed rot":
        want["rot"] = [10.0 * k - 5 for k in range(n)]
        edi.rotation_angle = np.array(want["rot"])
    return edi, want


def judge(ctx, out, want, n, have, rising=False, free=""):
    place = [n - 1 - k if rising else k for k in range(n)]
    ctx.check(out.frequency.size == n and out.z.shape == (n, 2, 2) and out.z_err.shape == (n, 2, 2) and out.t.shape == (n, 1, 2) and out.t_err.shape == (n, 1, 2), "one row for every frequency")
    for k in range(n):
        at = place[k]
        ctx.close(out.frequency[at], want["freq"][k], "frequency", rtol=TOL, atol=0)
        ctx.close(out.rotation_angle[at], want["rot"][k], "rotation angle of the frequency", rtol=TOL, atol=0)
        for q in ("z", "t"):
            for i, j in COMPS[q]:
                v = out.z[at, i, j] if q == "z" else out.t[at, i, j]
                e = out.z_err[at, i, j] if q == "z" else out.t_err[at, i, j]
                name = "impedance" if q == "z" else "tipper"
                if q not in have:
                    ctx.check((v.real == 0) & (v.imag == 0) & (e == 0), "absent " + name + " stays absent")
                    continue
                x, s = want[q, k, i, j]
                ctx.close(v.real, x.real, name + ", real part", rtol=TOL, atol=0)
                ctx.close(v.imag, x.imag, name + ", imaginary part", rtol=TOL, atol=0)
                ctx.check(e >= 0, "error not negative")
                if free == q + "_err":
                    ctx.close(e * e, s * s, name + " error", rtol=TOL, atol=0)
                else:
                    ctx.close(e, s, name + " error", rtol=TOL, atol=0)


def whole(ctx, n, have, free, signs="+-", rising=False, longitude="LON", latlon="dms"):
    """an object written and read"""
    edi, want = made(ctx, n, have, free, signs, rising)
    ctx.trust_roots()
    text = written(edi, longitude_format=longitude, latlon_format=latlon)
    ctx.check(text.startswith(">HEAD") and text.endswith(">END"), "first and last section")
    out = read(text)
    judge(ctx, out, want, n, have, rising, free)


def zeros(ctx, n):
    """values of zero stay zero"""
    edi, want = made(ctx, n, "zt", "", "+-")
    for q, k, i, j in ((q, k, i, j) for q in ("z", "t") for k in range(n) for i, j in COMPS[q]):
        if ctx.bool(f"zero.{q}{k}{i}{j}"):
            part = ctx.choice(f"part.{q}{k}{i}{j}", ["re", "im", "err"])
            x, s = want[q, k, i, j]
            x = complex(0.0 if part == "re" else x.real, 0.0 if part == "im" else x.imag)
            s = 0.0 if part == "err" else s
            want[q, k, i, j] = (x, s)
            if q == "z":
                edi.z[k, i, j], edi.z_err[k, i, j] = x, s
            else:
                edi.t[k, i, j], edi.t_err[k, i, j] = x, s
            break
    judge(ctx, read(written(edi)), want, n, "zt")


def angle(ctx, n):
    """one rotation angle for all frequencies"""
    edi, want = made(ctx, n, "zt", "", "+-")
    a = magnitude(ctx, "rot", ctx.choice("sign", ["+", "-"]), 0, 1e-6, 360)
    edi.rotation_angle = a
    want["rot"] = [a] * n
    judge(ctx, read(written(edi)), want, n, "zt")


# --- files of other programs -------------------------------------------------------------------------------------------------------
HEAD = [">HEAD\n", "DATAID=\"a01\"\n", "LAT=10:00:00\n", "LONG=20:00:00\n", "ELEV=5\n", "EMPTY=1.0E+32\n", "\n", ">INFO MAXINFO=1000\n", "\n", ">=DEFINEMEAS\n", "MAXCHAN=5\n", "\n", ">=MTSECT\n",
        "SECTID=\"a01\"\n", "NFREQ=2\n", "\n"]
KEYS = {"z": [("ZXX", 0, 0), ("ZXY", 0, 1), ("ZYX", 1, 0), ("ZYY", 1, 1)], "t": [("TX", 0, 0), ("TY", 0, 1)]}


def block(key, values, per_line, lower, note):
    out = [">" + (key.lower() if lower else key) + note + "\n"]
    for k in range(0, len(values), per_line):
        out.append("  ".join([v if isinstance(v, str) else "%.6E" % v for v in values[k:k + per_line]]) + "\n")
    return out


def foreign(ctx, n, have, q, per_line, lower=False, note=" ROT=ZROT //2", order=1, errors=True, bad=None, rising=False):
    """blocks as other programs write them: order of blocks, spacing, case, entries that cannot be read (taken as zero)"""
    fs = list(FREQS[n])
    if rising:
        fs = fs[::-1]
    blocks = [("FREQ", fs)]
    blocks.append(("ZROT", [7.0 + k for k in range(n)]))
    want = {"freq": fs, "rot": [7.0 + k for k in range(n)]}
    for r in have:
        for m, (key, i, j) in enumerate(KEYS[r]):
            re = [magnitude(ctx, f"{key}{k}.re", "+-", m + k) if r == q else 1.5 + m + k for k in range(n)]
            im = [magnitude(ctx, f"{key}{k}.im", "+-", m + k + 1) if r == q else -0.25 * m - k - 0.5 for k in range(n)]
            er = [0.25 * (m + 1) * (k + 1) for k in range(n)]
            sq = [e * e for e in er]
            if bad is not None and r == q and m == bad[0]:
                re[bad[1]], im[bad[1]], sq[bad[1]] = "*****", "1.000000E+32", "1.0E32"
            names = ("R", "I", ".VAR") if r == "z" else ("R.EXP", "I.EXP", "VAR.EXP")
            blocks += [(key + names[0], re), (key + names[1], im)]
            if errors:
                blocks.append((key + names[2], sq))
            for k in range(n):
                gone = bad is not None and r == q and m == bad[0] and k == bad[1]
                want[r, k, i, j] = (0j, 0.0) if gone else (re[k] + 1j * im[k], er[k] if errors else 0.0)
    blocks = blocks[::order]
    text = HEAD + [x for key, vs in blocks for x in block(key, vs, per_line, lower, note) + [">!****" + key + "****!\n"]] + [">END\n"]
    judge(ctx, read("".join(text)), want, n, have, rising)


def instances(tier):
    out = []
    ns = (1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)
    for n in ns:
        for have in ("zt", "z", "t"):
            for rising in (False, True) if n > 1 else (False,):
                tag = f"{n}:{have}:{'rising' if rising else 'falling'}"
                if n <= 3 or tier == "thorough":
                    for q in have:
                        for signs in (("+-",) if n > 2 else ("+-", "+", "-")):
                            if n > 2 and q == "z":
                                for i, j in COMPS[q]:
                                    out.append((f"values:{tag}:{q}{i}{j}:{signs}", whole, dict(n=n, have=have, free=f"{q}{i}{j}", signs=signs, rising=rising)))
                            else:
                                out.append((f"values:{tag}:{q}:{signs}", whole, dict(n=n, have=have, free=q, signs=signs, rising=rising)))
                        out.append((f"errors:{tag}:{q}", whole, dict(n=n, have=have, free=q + "_err", rising=rising)))
                elif n == 7 and have == "zt":
                    for c in ("z01", "z10", "t01"):
                        out.append((f"values:{tag}:{c}", whole, dict(n=n, have=have, free=c, rising=rising)))
                if have == "zt":
                    out.append((f"frequencies:{tag}", whole, dict(n=n, have=have, free="freq", rising=rising)))
                    for signs in ("+-", "-"):
                        out.append((f"rotation:{tag}:{signs}", whole, dict(n=n, have=have, free="rot", signs=signs, rising=rising)))
    for latlon, longitude in (("dd", "LONG"), ("dms", "LONG"), ("dd", "LON")):
        out.append((f"format:{latlon}:{longitude}", whole, dict(n=2, have="zt", free="t", longitude=longitude, latlon=latlon)))
    for n in (1, 2):
        out.append((f"zeros:{n}", zeros, dict(n=n)))
        out.append((f"angle:{n}", angle, dict(n=n)))
    for n in (1, 2, 3):
        for have in ("z", "zt"):
            for q in have:
                for per_line, lower, note, order in ((1, False, "", 1), (2, True, " //2", -1), (5, False, " ROT=NONE  // 3", 1)):
                    out.append((f"foreign:{n}:{have}:{q}:{per_line}", foreign, dict(n=n, have=have, q=q, per_line=per_line, lower=lower, note=note, order=order)))
    out.append(("foreign:no-errors", foreign, dict(n=2, have="zt", q="z", per_line=5, errors=False)))
    out.append(("foreign:rising", foreign, dict(n=3, have="zt", q="t", per_line=2, rising=True)))
    for m in range(4):
        out.append((f"foreign:unreadable:{m}", foreign, dict(n=2, have="zt", q="z", per_line=5, bad=(m, m % 2))))
    out.append(("foreign:unreadable:t", foreign, dict(n=2, have="zt", q="t", per_line=5, bad=(1, 0))))
    return out
