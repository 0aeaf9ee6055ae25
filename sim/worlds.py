"""Generated worlds: payload descriptions, data files, stellar models, maps and
target lists.  Everything is written by hand, with fixed bytes for a spec."""
import gzip
import io
import json
import math
import os
import re

ALL_CH = ("A", "B", "S", "T")
NAMES = {"A": "Phot", "B": "Vis", "S": "Spec", "T": "Nir"}
ALT = {"A": "zPhot", "B": "aVis", "S": "aSpec", "T": "zNir"}
# names that begin with one another, hold a space, a dot or a dash
ODD = {"A": "Ch1", "B": "Ch1.b", "S": "Ch10", "T": "Ch1 - 2"}


# less usual parts of a description
EXTRAS = ("elements", "circled", "native", "resolution", "front", "window", "angle", "psf", "psfs", "pixels", "paos", "pickle")


def ch_name(p, k):
    return {2: ODD, True: ALT}.get(p.get("alt") or 0, NAMES)[k]


# --------------------------------------------------------------------------
# generators (pure functions of the rng)
# --------------------------------------------------------------------------
def gen_payload(rng, rich=True, R=None, src=None, max_ch=3):
    n = rng.choice([1, 2, 2, 2, 3] if max_ch >= 3 else [1, 2, 2][:max_ch + 1])
    n = min(n, max_ch)
    chs = rng.sample(ALL_CH, n)
    frg = []
    if rng.random() < 0.85:
        frg = rng.sample(["zodi", "skyA", "skyB"], rng.choice([1, 1, 2, 2, 3]))
        if "zodi" in frg and rng.random() < 0.35:
            frg[frg.index("zodi")] = "zmap"
    p = dict(
        R=R if R is not None else rng.choice([120, 150, 180]),
        chs=chs,
        frg=frg,
        src=src or rng.choice(["planck", "planck", "custom", "phoenix"]),
        cn=rng.choice([0, 0, 1, 2]),
        ccn=rng.choice([0, 0, 1, 2]),
        nx=rng.choice([None, 0.4, 0.1]),
        ft=rng.choice([None, None, None, 12.5]),
        mm=rng.choice([None, None, 4]),
        ndr=rng.choice([0.0, 0.0, 5.0]),
        fwd=rng.choice([1.0, 0.8]),
        force=rng.random() < 0.8,
        alt=_alt(rng.random()),
        cfg=rng.choice(["in", "in", "in2"]),
        x=sorted(rng.sample(EXTRAS, rng.choice([1, 1, 2, 3]))) if rng.random() < 0.35 else [],
        ene=rng.choice([None, None, 0.88, 0.93]),
    )
    if not rich:
        p.update(cn=0, ccn=0, ft=None, mm=None, ndr=0.0, alt=False, cfg="in", x=[])
    return p


def _alt(r):
    return True if r < 0.2 else 2 if r < 0.45 else False


STARS = ("alpha", "beta", "gamma", "delta", "eps", "zeta", "HD 209458", "GJ-12", "GJ-1214", "WASP 12.b", "alphaB", "β Pic")


# some of them near one another
POINTINGS = [(90, 18), (90.5, 18.25), (97, 20), (331, 19), (180, -45), (10, 60), (10.25, 60)]


def gen_targets(rng, n, same=0.4, kind="csv"):
    """Targets sharing temperatures and positions now and then."""
    out = []
    magk = rng.random() < 0.5
    coord = rng.random() < 0.7
    names = rng.sample(STARS, n) if n <= len(STARS) else ["t%d" % i for i in range(n)]
    if rng.random() < 0.1:
        # names read as numbers
        names = [str(rng.choice([100, 1000]) + 7 * i) for i in range(n)]
    for i in range(n):
        t = dict(name=names[i], M=round(rng.uniform(0.6, 1.6), 2), Teff=rng.choice([4800, 5000, 5200, 5600, 6000, 3500]),
                 R=round(rng.uniform(0.6, 1.5), 2), D=round(rng.uniform(8, 40), 1))
        if out and rng.random() < same:
            o = rng.choice(out)
            for k in rng.sample(["Teff", "R", "M", "D"], rng.choice([1, 2, 3])):
                t[k] = o[k]
        if magk:
            t["magk"] = round(rng.uniform(2, 9), 2)
        if coord:
            t["ra"], t["dec"] = rng.choice(POINTINGS)
        out.append(t)
    # the kinds of lists that are read; planets may share a star
    r = rng.random()
    if r > 0.65:
        fmt = "planets" if r < 0.77 else "mrs" if r < 0.89 else "xlsx"
        hosts = rng.random() < 0.6
        for t in out:
            t["fmt"] = fmt
            if fmt != "mrs" or hosts:
                t["host"] = rng.choice(["Sol", "Sol", "Tau Ceti", t["name"]])
    return out


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
def _ecsv(cols, units, rows, delim=","):
    out = ["# %ECSV 0.9", "# ---", "# datatype:"]
    for c, un in zip(cols, units):
        out.append("# - {name: %s, %sdatatype: float64}" % (c, "unit: %s, " % un if un else ""))
    out.append("# delimiter: '%s'" % delim)
    out.append("# schema: astropy-2.0")
    out.append(delim.join(cols))
    for r in rows:
        out.append(delim.join("%.10g" % x for x in r))
    return "\n".join(out) + "\n"


def sky_file(kind, variant=0):
    a, b = (0.9, 3e-9) if kind == "skyA" else (0.75, 9e-9)
    if variant:
        a, b = a - 0.2, b * 3
    rows = []
    for i in range(60):
        wl = 0.4 + i * 0.032
        rows.append((wl, a + 0.08 * math.sin(5 * wl), b * (1 + 0.3 * math.cos(3 * wl))))
    return _ecsv(["Wavelength", "Transmission", "Radiance"], ["micron", "", "W / (m2 micron sr)"], rows)


def element_file(variant=0):
    rows = []
    for i in range(50):
        wl = 0.4 + i * 0.04
        rows.append((wl, (0.85 if not variant else 0.7) + 0.05 * math.sin(4 * wl), 0.8 + 0.03 * math.cos(3 * wl), 0.03 + 0.01 * math.sin(wl)))
    return _ecsv(["Wavelength", "Transmission", "reflectivity", "Emissivity"], ["micron", "", "", ""], rows)


def circled_file(variant=0):
    return _ecsv(["Wavelength", "EE"], ["micron", ""], [(0.4 + i * 0.1, (1.2 if not variant else 1.6) + 0.02 * i) for i in range(20)])


def resolution_file(variant=0):
    return "W\tR\n" + "".join("%s\t%s\n" % (0.5 + 0.1 * i, (15 if not variant else 25) + i) for i in range(20))


def _fits(image, **head):
    from astropy.io import fits

    hdu = fits.PrimaryHDU(image)
    hdu.header.update(head)
    buf = io.BytesIO()
    fits.HDUList([hdu]).writeto(buf)
    return buf.getvalue()


def _spot(n, width):
    import numpy as np

    x = np.arange(n) - n // 2
    im = np.exp(-(x[None, :] ** 2 + 1.3 * x[:, None] ** 2) / (2.0 * width**2))
    return im / im.sum()


def psf_bytes(width, wl=None):
    """A spot sampled in units of F-lambda."""
    n = 96
    return _fits(_spot(n, width * 16), CDELT1=0.08, CDELT2=0.08, CRPIX1=n / 2.0, CRPIX2=n / 2.0, **(dict(WAVELEN=wl) if wl else {}))


def pixel_bytes(width, wl=None):
    return _fits(_spot(24, width * 2), **(dict(WAVELEN=wl) if wl else {}))


def write_paos(path, variant=0):
    import h5py

    from astropy.io import fits  # noqa

    with h5py.File(path, "w") as f:
        f.create_group("info")["generated"] = 1
        for wl in (0.5, 1.0, 2.2):
            g = f.create_group(str(wl))
            for key in ("S01", "S02"):
                h = g.create_group(key)
                n = 64
                h["amplitude"] = _spot(n, (14 if not variant else 18) * (1 + wl / 4)) ** 0.5
                h["dx"] = 4.5e-6 * wl
                h["dy"] = 4.5e-6 * wl
                h["extent"] = [-n / 2 * 4.5e-6 * wl, n / 2 * 4.5e-6 * wl, -n / 2 * 4.5e-6 * wl, n / 2 * 4.5e-6 * wl]
                h["fratio"] = 20.0


def write_extras(p, d, put, variant):
    x = p.get("x") or []
    if "elements" in x:
        put("element.csv", element_file(variant))
    if "circled" in x:
        put("circled.csv", circled_file(variant))
    if "resolution" in x:
        put("resolution.dat", resolution_file(variant))

    def raw(name, data):
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path):
            with open(path, "wb") as f:
                f.write(data)

    w = 1.0 + 0.5 * variant
    if "psf" in x:
        raw("psf.fits", psf_bytes(w))
    if "psfs" in x:
        for wl in (0.55, 0.8, 1.2, 1.8):
            raw("psfs/%s.fits" % wl, psf_bytes(w * (1 + wl / 5), wl))
    if "pixels" in x:
        for wl in (0.55, 0.8, 1.2, 1.8):
            raw("pixels/%s.fits" % wl, pixel_bytes(w * (1 + wl / 5), wl))
    if "paos" in x and not os.path.exists(os.path.join(d, "paos.h5")):
        write_paos(os.path.join(d, "paos.h5"), variant)


def _psf(p, k):
    """One shape of the spots for each channel that has one."""
    x = p.get("x") or []
    forms = {"psf": "<PSF>__ConfigPath__/psf.fits</PSF>", "psfs": "<PSF>__ConfigPath__/psfs/</PSF>", "pixels": "<PSF>__ConfigPath__/pixels/<format>pixel_based</format></PSF>",
             "paos": "<PSF>__ConfigPath__/paos.h5<format>paos</format></PSF>"}
    have = [forms[q] for q in ("psf", "psfs", "pixels", "paos") if q in x]
    return have["ABST".index(k) % len(have)] if have else ""


def write_pickle(path, text):
    """A table of a data file, as a dictionary file holds it."""
    import pickle

    from astropy.io import ascii

    if not os.path.exists(path):
        with open(path, "wb") as f:
            pickle.dump(ascii.read(text, format="ecsv"), f)


def sed_file(variant=0):
    rows = []
    for i in range(80):
        wl = 0.3 + i * 0.03
        rows.append((wl, (2e7 if not variant else 5e6) * math.exp(-((wl - 0.9) ** 2) / 0.8)))
    return _ecsv(["Wavelength", "Sed"], ["micron", "W / (m2 micron)"], rows)


def wlsol_file(kind, scale=1300.0):
    rows = []
    lo, hi, sign = (0.8, 2.3, -1) if kind == "S" else (0.6, 2.3, 1)
    for i in range(60):
        wl = lo + i * (hi - lo) / 59.0
        rows.append((wl, sign * (wl - 1.5) * scale + 20 * math.sin(wl)))
    return _ecsv(["Wavelength", "x"], ["micron", "micron"], rows)


def phoenix_bytes(T, scale=1.0):
    import numpy as np
    from astropy.io import fits

    wl = np.linspace(0.3, 3.0, 240)
    h = 1.43877e4 / (wl * T * 100.0)
    fx = scale * 3.74e8 / wl**5 / np.expm1(h)
    fx[40:60] *= 0.8
    c1 = fits.Column(name="Wavelength", format="D", array=wl, unit="um")
    c2 = fits.Column(name="Flux", format="D", array=fx, unit="W / (m2 um)")
    hdu = fits.BinTableHDU.from_columns([c1, c2])
    hdu.header["PHXLUM"] = 1.0e26 * scale
    buf = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(buf)
    out = io.BytesIO()
    with gzip.GzipFile(fileobj=out, mode="wb", mtime=0, filename="") as g:
        g.write(buf.getvalue())
    return out.getvalue()


# 52 and 50 are equally distant from 5100 K, as are the two metallicities from 0
PHOENIX = [(35, "4.5", "0.0"), (48, "4.5", "0.0"), (50, "4.5", "0.0"), (52, "4.5", "0.0"), (56, "4.5", "0.0"), (60, "4.5", "0.0"), (60, "4.0", "0.0")]


def phoenix_name(T, g, z):
    return "lte%03d-%s-%s.BT-Settl.spec.fits.gz" % (T, g, z)


_PHX = {}


def write_phoenix(d):
    os.makedirs(d, exist_ok=True)
    for i, (T, g, z) in enumerate(PHOENIX):
        key = (T, g, z)
        if key not in _PHX:
            _PHX[key] = phoenix_bytes(T, 1.0 + 0.01 * i)
        with open(os.path.join(d, phoenix_name(T, g, z)), "wb") as f:
            f.write(_PHX[key])


ZODI_ROWS = [(90.0, 18.0, 2.1), (331.0, 19.0, 1.3), (180.0, -45.0, 0.9), (10.0, 60.0, 1.7), (90.5, 18.3, 3.0), (97.0, 19.0, 0.6), (10.3, 60.0, 0.4)]


def write_zodimap(path):
    import numpy as np
    from astropy.io.misc.hdf5 import write_table_hdf5
    from astropy.table import Table

    t = Table(np.array(ZODI_ROWS), names=["ra_icrs", "dec_icrs", "zodi_coeff"])
    write_table_hdf5(t, path, path="table", overwrite=True)


# --------------------------------------------------------------------------
# payload description
# --------------------------------------------------------------------------
def _surface(n, T, key="transmission", val=0.9, em=0.03, more=""):
    return more and "<opticalElement>%s<type>surface</type><temperature unit='K'>%s</temperature>%s</opticalElement>" % (n, T, more) or "<opticalElement>%s<type>surface</type><temperature unit='K'>%s</temperature><emissivity>%s</emissivity><%s>%s</%s></opticalElement>" % (n, T, em, key, val, key)


def _box(n, kind, T):
    return "<opticalElement>%s<type>%s</type><temperature unit='K'>%s</temperature><emissivity>1</emissivity></opticalElement>" % (n, kind, T)


def _custom(n, base):
    return "".join("<customNoise>%d<name>%s%d</name></customNoise>" % (base + i, "gain c" if base > 10 else "gain ", i) for i in range(n))


def _detector(p, k, qe):
    x = [
        '<delta_pix unit="micron">18.0</delta_pix><read_noise unit="count">15</read_noise>',
        '<dark_current unit="count/s">%s</dark_current><well_depth unit="count">100000</well_depth>' % (1 if k in "AS" else 0.5),
        '<f_well_depth unit="">%s</f_well_depth>' % p["fwd"],
        '<qe unit="">%s</qe>' % qe,
        '<wl_min unit="micron">0.4</wl_min><cut_off unit="micron">2.2</cut_off>',
        '<freqNDR unit="Hz">%s</freqNDR>' % p["ndr"],
    ]
    if p.get("ft"):
        x.append('<frame_time unit="s">%s</frame_time>' % p["ft"])
    if p.get("mm"):
        x.append('<multiaccumM>%d</multiaccumM>' % p["mm"])
    return "<detector>" + "".join(x) + "</detector>"


def _channel(p, k):
    name = ch_name(p, k)
    nx = '<NoiseX unit="">%s</NoiseX>' % p["nx"] if p.get("nx") is not None else ""
    cn = _custom(p.get("ccn", 0), 20)
    if k in "AB":
        lo, hi, fx, fy = (0.5, 0.6, 30, 50) if k == "A" else (0.7, 0.9, 20, 30)
        if k == "A":
            aper = '<radius unit="">9.24</radius><apertureCorrection unit="">0.91</apertureCorrection>'
        else:
            aper = '<EnE unit="">%s</EnE>' % (p.get("ene") or 0.8)
        optics = (
            _surface("M3" + k, 60, "reflectivity")
            + '<opticalElement>D%s<type>filter</type><wl_min unit="micron">%s</wl_min><wl_max unit="micron">%s</wl_max><reflectivity>0.8</reflectivity><emissivity>0.03</emissivity><temperature unit=\'K\'>60</temperature><use>reflectivity</use></opticalElement>' % (k, lo, hi)
            + _box("optics", "optics box", 60) + _box("detector", "detector box", 42)
        )
        qe = "0.55" if k == "A" else "<datafile>__ConfigPath__/QE.csv</datafile>"
        return ('<channel>%s<channelClass>Photometer</channelClass><wl_min unit="micron">%s</wl_min><wl_max unit="micron">%s</wl_max>'
                '<Fnum_x unit="">%s</Fnum_x><Fnum_y unit="">%s</Fnum_y>%s%s<aperture>%s</aperture>%s<optics>%s</optics>%s</channel>'
                % (name, lo, hi, fx, fy, nx, _psf(p, k), aper, cn, optics, _detector(p, k, qe)))
    lo, hi, fx, fy = (1.1, 1.95, 20, 30) if k == "S" else (0.95, 1.3, 25, 25)
    slit = '<opticalElement>S%s<type>slit</type><width unit="mm">0.381</width></opticalElement>' % k if k == "S" else ""
    optics = (
        _surface("M5" + k, 60)
        + '<opticalElement>D%s<type>filter</type><wl_min unit="micron">%s</wl_min><wl_max unit="micron">%s</wl_max><transmission>0.9</transmission><emissivity>0.00</emissivity><temperature unit=\'K\'>60</temperature><use>transmission</use></opticalElement>' % (k, lo, hi)
        + slit + _surface("M6" + k, 60) + _box("optics", "optics box", 60) + _box("detector", "detector box", 42)
    )
    qe = "<datafile>__ConfigPath__/QE.csv</datafile>" if k == "S" else "0.6"
    extra = '<window_spatial_scale> 1 </window_spatial_scale><targetR unit="">20.0</targetR>' if k == "S" else '<window_spatial_pixel>3</window_spatial_pixel><targetR unit="">15.0</targetR>'
    x = p.get("x") or []
    if k == "T" and "native" in x:
        extra = extra.replace(' unit="">15.0<', '>native<')
    elif k == "S" and "resolution" in x:
        extra = re.sub("<targetR.*", "<targetR><data>__ConfigPath__/resolution.dat</data></targetR>", extra)
    if k == "S" and "circled" in x:
        extra += "<EncESolution><datafile>__ConfigPath__/circled.csv</datafile></EncESolution>"
    if "front" in x:
        extra += '<WFErms unit="micron">0.08</WFErms>'
    if "window" in x and k == "S":
        extra += "<window_spectral_pixel>4</window_spectral_pixel>"
    return ('<channel>%s<channelClass>Spectrometer</channelClass><wl_min unit="micron">%s</wl_min><wl_max unit="micron">%s</wl_max>'
            '<Fnum_x unit="">%s</Fnum_x><Fnum_y unit="">%s</Fnum_y>%s<wlSolution><datafile>__ConfigPath__/wlsol%s.csv</datafile></wlSolution>%s%s%s<optics>%s</optics>%s</channel>'
            % (name, lo, hi, fx, fy, nx, k + "n" if k == "T" and "native" in x else k, _psf(p, k), extra, cn, optics, _detector(p, k, qe)))


def _second(p):
    x = p.get("x") or []
    if not {"elements", "angle"} & set(x):
        return ""
    out = "<solid_angle unit='sr'>0.2</solid_angle>" if "angle" in x else ""
    out += "<emissivity>0.03</emissivity><transmission>0.9</transmission>"
    if "elements" in x:
        out += "<datafile>__ConfigPath__/element.csv</datafile>" + ("<use>reflectivity</use>" if "angle" in x else "")
    return out


def payload_xml(p, root):
    cfg = os.path.join(root, p["cfg"])
    com = []
    if p.get("R"):
        com.append("<working_R> %d </working_R>" % p["R"])
    com.append("<sourceSpectrum>%s<StellarModels>__ConfigPath__/phx</StellarModels><CustomSed>__ConfigPath__/sed.csv</CustomSed></sourceSpectrum>" % p["src"])
    com.append('<wl_min unit="micron">0.45</wl_min><wl_max unit="micron">2.2</wl_max>')
    for f in p["frg"]:
        if f in ("zodi", "zmap"):
            m = "True" if f == "zmap" else "False"
            cm = "<custom_map_file>__ConfigPath__/zodimap.hdf5</custom_map_file>" if f == "zmap" else ""
            com.append("<foreground>zodiacal<zodiacFactor>2.5</zodiacFactor><zodiacalMap> %s </zodiacalMap>%s</foreground>" % (m, cm))
        else:
            what = "<datadict>__ConfigPath__/%s.pickle</datadict>" if "pickle" in (p.get("x") or []) else "<datafile>__ConfigPath__/%s.csv</datafile>"
            com.append("<foreground>%s%s</foreground>" % (f, what % f))
    com.append(_custom(p.get("cn", 0), 3))
    opt = '<ForceChannelWlEdge>%s</ForceChannelWlEdge><Atel unit="m**2">%s</Atel>' % (bool(p["force"]), p.get("atel", 0.5)) + _surface("M1", 80) + _surface("M2", 70, more=_second(p))
    text = ("<root>\n<ConfigPath> %s\n</ConfigPath>\n<fileName>generated</fileName>\n<common>\n%s\n</common>\n<optics>%s</optics>\n%s\n</root>\n"
            % (cfg, "\n".join(com), opt, "\n".join(_channel(p, k) for k in p["chs"])))
    # every element of a description carries text
    return re.sub(r"(<[A-Za-z][^<>]*>)(?=<[A-Za-z])", r"\1\n", text)


def write_payload(p, root, fname):
    """Writes the description and the data files it names; returns its path."""
    d = os.path.join(root, p["cfg"])
    variant = 0 if p["cfg"] == "in" else 1
    os.makedirs(d, exist_ok=True)

    def put(name, text):
        path = os.path.join(d, name)
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write(text)

    with open(os.path.join(d, "QE.csv"), "w") as f:
        f.write(qe_both(variant))
    for k in p["chs"]:
        if k in "ST":
            put("wlsol%s.csv" % k, wlsol_file(k))
            if k == "T" and "native" in (p.get("x") or []):
                put("wlsolTn.csv", wlsol_file(k, 400.0))
    for s in p["frg"]:
        if s in ("skyA", "skyB"):
            if "pickle" in (p.get("x") or []):
                write_pickle(os.path.join(d, s + ".pickle"), sky_file(s, variant))
            else:
                put(s + ".csv", sky_file(s, variant))
        if s == "zmap" and not os.path.exists(os.path.join(d, "zodimap.hdf5")):
            write_zodimap(os.path.join(d, "zodimap.hdf5"))
    if p["src"] == "custom":
        put("sed.csv", sed_file(variant))
    if p["src"] == "phoenix" and not os.path.isdir(os.path.join(d, "phx")):
        write_phoenix(os.path.join(d, "phx"))
    write_extras(p, d, put, variant)
    path = os.path.join(root, "in", fname)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(payload_xml(p, root))
    return path


def qe_both(variant):
    """One quantum efficiency file for all the sets of channel names."""
    names = sorted(list(NAMES.values()) + list(ALT.values()) + list(ODD.values()))
    rows = []
    for i in range(40):
        wl = 0.35 + i * 0.05
        rows.append([wl] + [(0.5 if not variant else 0.3) + 0.02 * j + 0.1 * math.sin(2 * wl) for j in range(len(names))])
    return _ecsv(["Wavelength"] + names, ["micron"] + [""] * len(names), rows)


COLS = [("name", "star name"), ("M", "star M [M_sun]"), ("Teff", "star Teff [K]"), ("R", "star R [R_sun]"), ("D", "star D [pc]"), ("magk", "star magk"), ("ra", "star ra [deg]"), ("dec", "star dec [deg]")]


MRS = dict(name="Star Name", M="Star Mass [Ms]", Teff="Star Temperature [K]", R="Star Radius [Rs]", D="Star Distance [pc]", magk="Star magK", ra="Star RA [deg]", dec="Star Dec [deg]")
PLANET = [("M", "M", "M_earth", 3.5), ("R", "R", "R_earth", 1.5), ("T", "T", "K", 900), ("P", "P", "day", 4.25), ("a", "a", "AU", 0.05)]


def targets_ext(targets):
    return ".xlsx" if targets and targets[0].get("fmt") == "xlsx" else ".csv"


def write_targets(targets, path):
    fmt = targets[0].get("fmt") if targets else None
    if fmt == "xlsx":
        return write_xlsx(targets, path)
    cols = [(k, h) for k, h in COLS if any(k in t for t in targets) or not targets]
    if fmt:
        # the name of a target is the one of its planet
        mrs = fmt == "mrs"
        planets = "host" in targets[0]
        head = [MRS[k] if mrs else h for k, h in cols]
        if planets:
            head += ["Planet Name", "Planet Radius [Re]", "Planet Radius Error Upper [Re]", "Planet Period [days]"] if mrs else ["planet name"] + ["planet %s [%s]" % (k, un) for k, _, un, _ in PLANET]
        with open(path, "w") as f:
            f.write(",".join(head) + "\n")
            for i, t in enumerate(targets):
                row = [str(t["host"] if k == "name" and planets else t.get(k, "")) for k, _ in cols]
                if planets:
                    row += [t["name"]] + (["1.5", "0.1", "4.25"] if mrs else [str(v) for _, _, _, v in PLANET])
                f.write(",".join(row) + "\n")
        return path
    with open(path, "w") as f:
        f.write(",".join(h for _, h in cols) + "\n")
        for t in targets:
            f.write(",".join(str(t.get(k, "")) for k, _ in cols) + "\n")
    return path


def write_xlsx(targets, path, sheet="Sheet1"):
    """A spreadsheet with the layout that is read: names in the third row, units in
    the fourth, stars in columns B..G, planets in I..S, visits in U."""
    import zipfile

    rows = {2: {1: "Star", 2: "M", 3: "Teff", 4: "R", 5: "D", 6: "magk", 8: "Planet", 20: "N"}, 3: {2: "[M_sun]", 3: "[K]", 4: "[R_sun]", 5: "[pc]", 6: ""}}
    for j in range(10):
        k, _, un, _ = PLANET[j] if j < len(PLANET) else ("p%d" % j, "", "", 0)
        rows[2][9 + j], rows[3][9 + j] = k, "[%s]" % un if un else ""
    for i, t in enumerate(targets):
        r = rows[4 + i] = {1: t["host"], 2: t["M"], 3: t["Teff"], 4: t["R"], 5: t["D"], 6: t.get("magk", 5.5), 8: t["name"], 20: 2}
        for j in range(10):
            r[9 + j] = PLANET[j][3] if j < len(PLANET) else j
    out = []
    for r in sorted(rows):
        cells = ""
        for c in sorted(rows[r]):
            ref, v = "%s%d" % (chr(65 + c), r + 1), rows[r][c]
            if isinstance(v, str):
                cells += '<c r="%s" t="inlineStr"><is><t>%s</t></is></c>' % (ref, v) if v else ""
            else:
                cells += '<c r="%s"><v>%s</v></c>' % (ref, v)
        out.append('<row r="%d">%s</row>' % (r + 1, cells))
    ns = "http://schemas.openxmlformats.org/"
    head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
    parts = {
        "[Content_Types].xml": '<Types xmlns="%spackage/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/worksheets/sheet1.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/></Types>' % ns,
        "_rels/.rels": '<Relationships xmlns="%spackage/2006/relationships"><Relationship Id="rId1" Type="%sofficeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>' % (ns, ns),
        "xl/workbook.xml": '<workbook xmlns="%sspreadsheetml/2006/main" xmlns:r="%sofficeDocument/2006/relationships"><sheets><sheet name="%s" sheetId="1" r:id="rId1"/></sheets></workbook>' % (ns, ns, sheet),
        "xl/_rels/workbook.xml.rels": '<Relationships xmlns="%spackage/2006/relationships"><Relationship Id="rId1" Type="%sofficeDocument/2006/relationships/worksheet" Target="worksheets/sheet1.xml"/></Relationships>' % (ns, ns),
        "xl/worksheets/sheet1.xml": '<worksheet xmlns="%sspreadsheetml/2006/main"><sheetData>%s</sheetData></worksheet>' % (ns, "".join(out)),
    }
    with zipfile.ZipFile(path, "w") as z:
        for n in parts:
            z.writestr(zipfile.ZipInfo(n), head + parts[n])
    return path


def key(*objs):
    import hashlib

    return hashlib.sha256(json.dumps(objs, sort_keys=True).encode()).hexdigest()[:20]


# --------------------------------------------------------------------------
# targets made through the API
# --------------------------------------------------------------------------
def api_target(t):
    """A Target as the list readers build it, possibly incomplete (t['bad'])."""
    import astropy.units as u

    from exorad.models.target import Target

    x = Target()
    x.star = Target()
    units = dict(M=u.M_sun, Teff=u.K, R=u.R_sun, D=u.pc, ra=u.deg, dec=u.deg)
    for k in ("name", "M", "Teff", "R", "D", "magk", "ra", "dec"):
        if k in t:
            setattr(x.star, k, t[k] * units[k] if k in units else t[k])
    x.name = t["name"]
    bad = t.get("bad")
    if bad == "noTeff":
        del x.star.Teff
    elif bad == "unitless":
        x.star.D = float(t["D"])
    elif bad == "noD":
        del x.star.D
    elif bad == "nostar":
        del x.star
    elif bad == "wrongunit":
        x.star.R = 1.0 * u.s
    return x
