"""C33 EDI spectra give the transfer functions they were made from"""
import numpy as np

PROPERTY = "C33"
IMPORTS = ["mt_metadata.transfer_functions.io.edi", "mt_metadata.transfer_functions.io.edi.edi", "mt_metadata.transfer_functions.io.edi.metadata",
           "mt_metadata.transfer_functions.io.tools"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["exact arithmetic; numpy's matrix product, inverse and determinant are modelled by their formulas (cofactors)",
               "the printed spectra carry every digit",
               "no element of the spectra is exactly zero or the header's empty value (the code takes those for missing)"]


def BOUNDS(tier):
    return ("every transfer function (parts within +-100), three sets of source fields and remotes (exact cross-powers), 3 to 7 channels, %s, 1 to 3 frequencies in any order, "
            "every complex noise of the output channels" % ("the standard and 12 other channel orders" if tier == "quick" else "every channel order of 4, 5 and 6 channels"))


# amplitudes of the magnetic field in each source (hx, hy), and the remote as a mixture of them plus a source of its own;
# the determinants of the cross-powers are powers of two, so that the arithmetic on them is exact
SOURCES = [([[1.0, 1.0, 1.0, 0.0], [1.0, -1j, 0.0, 0.0]], [[2.0, 1.0], [1.0, 1.0]], [0.5, 0.25j]),
           ([[1.0, 1.0, 1.0, 0.0], [1.0, 1.0, -1.0, 0.0]], [[1.0, 1j], [1j, 1.0]], [1.0, 0.5 + 0.25j]),
           ([[1.0, 1j, 1.0, 0.0], [1j, -1.0, -1j, 0.0]], [[1.0, -2.0], [1j, 0.5j]], [0.25j, 1.0])]


def cross(X, Y):
    """sum over the sources of x times conjugate y"""
    return sum(X[k] * np.conj(Y[k]) for k in range(len(X)))


def spectra(ctx, comps, T, src, remote, noise=None):
    """the square of numbers of a file: powers on the diagonal, real parts below, imaginary parts (of the conjugate) above"""
    H, M, N = src
    field = {"hx": H[0], "hy": H[1]}
    for o in ("hz", "ex", "ey"):
        if o in comps:
            field[o] = [T[o, "hx"] * H[0][k] + T[o, "hy"] * H[1][k] for k in range(4)]
            if noise is not None:
                field[o] = field[o] + [noise[o]]
    if noise is not None:
        field["hx"], field["hy"] = field["hx"] + [0.0], field["hy"] + [0.0]
    if remote:
        field["rhx"] = [M[0][0] * H[0][k] + M[0][1] * H[1][k] + (N[0] if k == 3 else 0.0) for k in range(4)]
        field["rhy"] = [M[1][0] * H[0][k] + M[1][1] * H[1][k] + (N[1] if k == 3 else 0.0) for k in range(4)]
    if remote and noise is not None:
        field["rhx"], field["rhy"] = field["rhx"] + [0.0], field["rhy"] + [0.0]
    rows = [[None] * len(comps) for _ in comps]
    for i, a in enumerate(comps):
        for j, b in enumerate(comps):
            if i == j:
                c = cross(field[a], field[a])
                rows[i][i] = c.real
            elif i < j:
                c = cross(field[a], field[b])
                rows[j][i] = c.real
                rows[i][j] = -c.imag
    for i in range(len(comps)):
        for j in range(i + 1):
            ctx.assume((rows[i][j] != 0) | (rows[j][i] != 0))
    return rows


def lines(freq, avgt, rows, n):
    out = [f">SPECTRA  FREQ={freq} ROTSPEC=0 BW=0.1 AVGT={avgt} // {n * n}\n"]
    for r in rows:
        out.append(" " + " ".join([f"{v}" for v in r]) + "\n")
    return out


def judge(ctx, edi, comps, T, n):
    for a, o in enumerate(("ex", "ey")):
        for b, i in enumerate(("hx", "hy")):
            if o in comps:
                ctx.close(edi.z[n, a, b].real, T[o, i].real, "impedance, real part", rtol=1e-6, atol=1e-6)
                ctx.close(edi.z[n, a, b].imag, T[o, i].imag, "impedance, imaginary part", rtol=1e-6, atol=1e-6)
    for b, i in enumerate(("hx", "hy")):
        if "hz" in comps:
            ctx.close(edi.t[n, 0, b].real, T["hz", i].real, "tipper, real part", rtol=1e-6, atol=1e-6)
            ctx.close(edi.t[n, 0, b].imag, T["hz", i].imag, "tipper, imaginary part", rtol=1e-6, atol=1e-6)


def load(ctx, edi, text, comps, how):
    if how == "direct":
        edi._read_spectra(text, comp_list=list(comps))
    else:
        edi._edi_lines = text
        edi.Data._line_num = 0
        edi.Data._data_type_in = "spectra"
        edi.Data.nchan = len(comps)
        edi._read_data()


def recover(ctx, comps, which, srcs, how="direct", order=None):
    """every transfer function, some source fields and remotes"""
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    comps = list(comps) if order is None else list(order)
    outs = [c for c in ("ex", "ey", "hz") if c in comps]
    T, text = [], []
    freqs = (8.0, 0.5, 30.0)[:len(srcs)]
    for n, f in enumerate(freqs):
        T.append({(o, i): (ctx.complex(f"t{n}{o}{i}", lo=-100, hi=100) if n == which else complex(1 + n + outs.index(o), 2.5 if i == "hx" else -0.5)) for o in outs for i in ("hx", "hy")})
        text += lines(f, 100.0 + n, spectra(ctx, comps, T[n], SOURCES[srcs[n]], "rhx" in comps), len(comps))
    edi = EDI()
    load(ctx, edi, text, comps, how)
    down = sorted(freqs, reverse=True)
    ctx.check(edi.frequency.tolist() == down, "frequencies, highest first")
    for n, f in enumerate(down):
        judge(ctx, edi, comps, T[list(freqs).index(f)], n)
    if "ex" not in comps:
        ctx.check(bool(np.all(edi.z == 0)), "no impedance without electric channels")
    if "hz" not in comps:
        ctx.check(bool(np.all(edi.t == 0)), "no tipper without a vertical channel")


def noisy(ctx, comps, src):
    """noise of the output channels does not change the transfer function; errors are those of the residuals"""
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    outs = [c for c in ("ex", "ey", "hz") if c in comps]
    T = {(o, i): complex(2 + outs.index(o), 2.5 if i == "hx" else -0.5) for o in outs for i in ("hx", "hy")}
    noise = {o: ctx.complex(f"noise {o}", lo=0.125, hi=10) for o in outs}
    edi = EDI()
    ctx.trust_roots()
    # another period without that noise stands before or behind the one in question
    text = lines(4.0, 128.0, spectra(ctx, comps, T, SOURCES[src], "rhx" in comps, noise), len(comps))
    other = lines((16.0, 1.0)[src % 2], 8.0, spectra(ctx, comps, T, SOURCES[src], "rhx" in comps), len(comps))
    load(ctx, edi, text + other if src % 2 == 0 else other + text, comps, "direct")
    at = edi.frequency.tolist().index(4.0)
    judge(ctx, edi, comps, T, at)
    sig = edi.signal_inverse_power
    for a, o in enumerate(outs):
        p = (noise[o].real ** 2 + noise[o].imag ** 2) / 128
        ctx.close(edi.residual_covariance[at, a, a].real, p, "residual power is that of the noise", rtol=1e-5, atol=1e-6)
        for b in range(2):
            e = edi.t_err[at, 0, b] if o == "hz" else edi.z_err[at, a, b]
            ctx.check(e >= 0, "error not negative")
            ctx.close(e * e, p * np.abs(sig[at, b, b]), "error of the noise and the signal", rtol=1e-4, atol=1e-6)


STANDARD = {5: ("hx", "hy", "hz", "ex", "ey"), 4: ("hx", "hy", "ex", "ey"), 6: ("hx", "hy", "ex", "ey", "rhx", "rhy"),
            7: ("hx", "hy", "hz", "ex", "ey", "rhx", "rhy"), 3: ("hx", "hy", "hz")}


ORDERS = [("hx", "hy", "ex", "ey", "hz"), ("ex", "ey", "hx", "hy", "hz"), ("hy", "hx", "hz", "ey", "ex"), ("hz", "ey", "hy", "ex", "hx"),
          ("hy", "ex", "hx", "ey"), ("ex", "ey", "hx", "hy"), ("rhx", "rhy", "hx", "hy", "hz", "ex", "ey"), ("ey", "rhy", "hx", "ex", "rhx", "hy"),
          ("hx", "rhy", "hz", "ex", "hy", "rhx", "ey"), ("hz", "hy", "hx"), ("hx", "hz", "hy"), ("hx", "hy", "hz", "rhx", "rhy")]


def instances(tier):
    out = []
    for n, comps in STANDARD.items():
        for k in range(3):
            out.append((f"standard:{n}:{k}", recover, dict(comps=comps, which=0, srcs=(k,))))
        if n > 3:
            for which in (0, 1) if tier == "quick" else (0, 1, 2):
                out.append((f"periods:{n}:{which}", recover, dict(comps=comps, which=which, srcs=(which, 2 - which, 1), how="file")))
        for k in range(2 if tier == "quick" else 3):
            out.append((f"noise:{n}:{k}", noisy, dict(comps=comps, src=k)))
    for comps in ORDERS:
        out.append((f"order:{'-'.join(comps)}", recover, dict(comps=comps, which=0, srcs=(1,))))
    if tier == "thorough":
        import itertools
        for n in (4, 5, 6):
            for comps in itertools.permutations(STANDARD[n]):
                out.append((f"order:{'-'.join(comps)}", recover, dict(comps=comps, which=0, srcs=(0,))))
    return out
