#!/usr/bin/env python3
"""Build the reduced data set used by the simulation (committed in sim/data).

The shell data are columns and rows of the files distributed with fisx. The
EPDL97 cross sections are not distributed with the repository, they are
replaced by a synthetic table following the EADL97 binding energies.
Usage: gen_dataset.py <directory with the fisx data> <output directory>
"""
import os
import sys

SRC, OUT = sys.argv[1], sys.argv[2]
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]


def read(name):
    scans = []
    for line in open(os.path.join(SRC, name), errors="replace"):
        line = line.rstrip("\r\n")
        if line.startswith("#S"):
            scans.append([line.split(None, 2)[2], None, []])
        elif line.startswith("#L"):
            scans[-1][1] = [x for x in line[2:].strip().split("  ") if x]
            scans[-1][1] = [x.strip() for x in scans[-1][1]]
        elif scans and line and not line.startswith("#"):
            scans[-1][2].append(line.split())
    return scans


def fmt(x):
    if isinstance(x, str):
        v = float(x)
        if v == int(v) and abs(v) < 1000 and "E" not in x and "." not in x:
            return "%d" % v
    else:
        v = x
    if v == 0:
        return "0"
    return ("%.5g" % v).replace("e", "E").replace("E-0", "E-").replace("E+0", "E+")


def write(name, scans, title):
    with open(os.path.join(OUT, name), "w", newline="\n") as f:
        f.write("#F %s\n#U00 %s\n" % (name, title))
        for i, (t, labels, rows) in enumerate(scans):
            f.write("\n#S %d %s\n#N %d\n#L %s\n" % (i + 1, t, len(labels), "  ".join(labels)))
            for row in rows:
                f.write(" ".join(fmt(x) for x in row) + "\n")


def select(scans, keep):
    out = []
    for t, labels, rows in scans:
        idx = [i for i, l in enumerate(labels) if keep(l)]
        out.append([t, [labels[i] for i in idx], [[r[i] for i in idx] for r in rows]])
    return out


os.makedirs(OUT, exist_ok=True)
TITLE = "reduced copy of the fisx file of the same name, for simulation"

keepShell = SHELLS + ["N1", "N2", "N3", "N4", "N5", "N6", "N7", "O1", "O2", "O3"]
be = select(read("EADL97_BindingEnergies.dat"),
            lambda l: l == "Z" or l.split("(")[0] in keepShell)
write("EADL97_BindingEnergies.dat", be, TITLE)
write("BindingEnergies.dat", select(read("BindingEnergies.dat"),
                                    lambda l: l == "Z" or l in keepShell), TITLE)
for m in "KLM":
    write("EADL97_%sShellConstants.dat" % m, read("EADL97_%sShellConstants.dat" % m), TITLE)
    write("%sShellConstants.dat" % m, read("%sShellConstants.dat" % m), TITLE)

    def keepRad(l):
        if l in ("Z", "TOTAL"):
            return True
        rest = l[1:] if l[0] == "K" else l[2:]
        return rest in ("L2", "L3", "M2", "M3", "M1", "M4", "M5", "N1", "N3", "N5", "N2", "N4", "N6", "O", "N67", "L1")

    def keepNon(l):
        if l in ("Z", "TOTAL"):
            return True
        a, b = l.split("-")
        d1, d2 = b[:2], b[2:4]
        if a == "K":
            return d1[0] in "L" and d2 in ("L1", "L2", "L3", "M1", "M3")
        if a[0] == "L":
            if d1[0] == "L":
                return d2 in ("M1", "M3", "M5", "N2")
            return d1 in ("M1", "M3", "M5") and d2 in ("M1", "M3", "M5", "N2")
        if d1[0] == "M":
            return d2 in ("N1", "N3", "N5")
        return d1 in ("N2", "N5") and d2 in ("N2", "N5", "O1")
    write("EADL97_%sShellRadiativeRates.dat" % m,
          select(read("EADL97_%sShellRadiativeRates.dat" % m), keepRad), TITLE)
    write("EADL97_%sShellNonradiativeRates.dat" % m,
          select(read("EADL97_%sShellNonradiativeRates.dat" % m), keepNon), TITLE)
    write("%sShellRates.dat" % m, select(read("%sShellRates.dat" % m), keepRad), TITLE)

# XCOM: a part of the rows, the edges are kept
xcom = read("XCOM_CrossSections.dat")
for scan in xcom:
    rows = scan[2]
    keep = []
    for i, r in enumerate(rows):
        e = float(r[0])
        edge = (i and float(rows[i - 1][0]) == e) or (i + 1 < len(rows) and float(rows[i + 1][0]) == e)
        if edge and e > 0.8:
            keep.append(r)
        elif e in (0.1, 1.0, 3.0, 6.0, 10.0, 20.0, 40.0, 100.0, 500.0):
            keep.append(r)
    scan[2] = keep
write("XCOM_CrossSections.dat", xcom, TITLE)

# synthetic EPDL97
labels = ["PhotonEnergy[keV]", "Rayleigh(coherent)[cm2/g]", "Compton(incoherent)[cm2/g]",
          "CoherentPlusIncoherent[cm2/g]", "Photoelectric[cm2/g]", "PairProduction[cm2/g]",
          "TotalCrossSection[cm2/g]"] + [s + "[cm2/g]" for s in SHELLS] + ["AllOther[cm2/g]"]
frac = {"K": 1.0, "L1": .07, "L2": .05, "L3": .09, "M1": .02, "M2": .015, "M3": .025, "M4": .02, "M5": .03}
bl = [l.split("(")[0] for l in be[0][1]]
scans = []
for row in be[0][2]:
    z = int(float(row[0]))
    b = dict((l, float(v)) for l, v in zip(bl, row))
    a = 2.0 * z + 0.006 * z * z + (1 if z == 1 else 0)
    grid = [0.05, 0.4, 1.0, 3.0, 8.0, 20.0, 60.0, 200.0]
    edges = sorted(set(float(fmt(b[s])) for s in ("K", "L1", "L2", "L3", "M1", "M3", "M5") if b.get(s, 0) > 0.06))
    points = [(e, None) for e in grid if e not in edges]
    for e in edges:
        points += [(e, False), (e, True)]
    points.sort(key=lambda p: (p[0], bool(p[1])))
    out = []
    for e, after in points:
        vals = {}
        for s in SHELLS:
            edge = float(fmt(b.get(s, 0.0)))
            excited = edge > 0 and (e > edge or (e == edge and after is not False))
            vals[s] = 23.0 * z ** 4.1 / a * frac[s] * e ** -2.85 if excited else 0.0
        coh = 0.9 * z ** 1.6 / a * (1 + e / 3.0) ** -1.4
        com = 0.38 * z / a * e / (e + 6.0) / (1 + e / 300.0)
        other = 0.0
        if z > 18:
            other = 23.0 * z ** 4.1 / a * 0.01 * e ** -2.6
        vals = dict((k, float(fmt(v))) for k, v in vals.items())
        coh, com, other = float(fmt(coh)), float(fmt(com)), float(fmt(other))
        photo = sum(vals.values()) + other
        out.append([e, coh, com, coh + com, photo, 0.0, photo + coh + com] +
                   [vals[s] for s in SHELLS] + [other])
    scans.append(["Z=%d" % z, labels, out])


def writeEPDL():
    name = "EPDL97_CrossSections.dat"
    with open(os.path.join(OUT, name), "w", newline="\n") as f:
        f.write("#F %s\n#U00 synthetic values, not EPDL97 data\n" % name)
        for i, (t, labels, rows) in enumerate(scans):
            f.write("\n#S %d %s\n#N %d\n#L %s\n" % (i + 1, t, len(labels), "  ".join(labels)))
            for row in rows:
                f.write(" ".join(("%.9g" % x if j in (4, 6) else fmt(x)) for j, x in enumerate(row)) + "\n")


writeEPDL()
