"""Independent readings of the shipped tables, for comparison."""
import os
import re
from symx.ctx import REPO

SYMBOLS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe "
    "Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr "
    "Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
).split()
NO_ABUNDANCE = ["Tc", "Pm", "Po", "At", "Rn", "Fr", "Ra", "Ac"]

_NUM = re.compile(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?")


def number(text):
    m = _NUM.match(text.strip())
    return float(m.group(0)) if m else None


def isotopes():
    """[(Z, symbol, A, mass, abundance or 0)] in file order and {Z: standard atomic weight}"""
    out, weight = [], {}
    with open(os.path.join(REPO, "ries/constituents/nist_elements/elements.txt"), encoding="utf-8") as f:
        text = f.read()
    for block in re.split(r"\n\s*\n", text):
        d = dict(re.findall(r"^([A-Z][A-Za-z ]*?) = ?(.*)$", block, re.M))
        if "Atomic Number" not in d:
            continue
        Z = int(d["Atomic Number"])
        out.append((Z, d["Atomic Symbol"].strip(), int(d["Mass Number"]), number(d["Relative Atomic Mass"]), number(d["Isotopic Composition"]) or 0.0))
        w = d.get("Standard Atomic Weight", "").strip()
        if w.startswith("["):
            lims = [float(x) for x in _NUM.findall(w)]
            if len(lims) == 2:
                weight[Z] = tuple(lims)
        elif number(w) is not None:
            weight[Z] = (number(w), number(w))
    return out, weight


def densities():
    out = {}
    with open(os.path.join(REPO, "ries/constituents/geant4_densities/element_densities.txt"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"([A-Z][a-z]?)\s+(\S+)\s*$", line)
            if m:
                out[m.group(1)] = float(m.group(2))
    return out


def attenuation(Z):
    rows = []
    with open(os.path.join(REPO, "ries/nonresonant/nist_xrmac/%02d.txt" % Z), encoding="utf-8") as f:
        for line in f:
            v = re.findall(r"\d\.\d+E[-+]\d\d", line)
            if v:
                rows.append([float(x) for x in v])
    return rows


# Debye temperatures at room temperature in K, transcribed from the table at the pinned commit (with
# the corrected symbols Mn and V); the cited compilation itself is not available offline
DEBYE = {}
for _line in (
    "Ag:221 Al:390 Am:- Ar:- As:275 Au:178 B:1362 Ba:116 Be:1031 Bi:116",
    "C:1550 Ca:230 Cd:221 Ce:138 Cm:- Co:386 Cr:424 Cs:43 Cu:310 Dy:158",
    "Er:163 Eu:- Fe:373 Fr:- Ga:240 Gd:155 Ge:403 H:- Hf:213 Hg:92",
    "Ho:161 I:- In:129 Ir:228 K:100 Kr:- La:135 Li:448 Lu:116 Mg:330",
    "Mn:363 Mo:377 Na:155 Nb:260 Nd:148 Ne:- Ni:345 Np:163 Os:400 P:576",
    "Pa:262 Pb:87 Pd:275 Pr:138 Pt:225 Pu:176 Ra:- Rb:59 Re:275 Rh:350",
    "Ru:415 S:527 Sb:200 Sc:476 Se:- Si:692 Sm:184 Sn:254 Sr:148 Ta:225",
    "Tb:158 Tc:422 Te:- Th:100 Ti:380 Tl:96 Tm:167 U:300 V:390 W:312",
    "Xe:- Y:214 Yb:- Zn:237 Zr:250",
):
    for _x in _line.split():
        _k, _v = _x.split(":")
        DEBYE[_k] = None if _v == "-" else float(_v)
