GROUPS = {
    "basis": ["source/basis/**/*.cpp"],
    "integration": ["source/integration/**/*.cpp"],
    "shape": ["source/shape/**/*.cpp"],
    "pre": ["source/preprocessor/**/*.cpp"],
    "stepper": ["source/simulation/stepper/*.cpp"],
    "swe": ["source/problem/SWE/**/*.cpp"],
    "comm": ["source/communication/*.cpp"],
    "part": ["partitioner/*.cpp", "partitioner/problem/*.cpp"],
}
GEO = ["basis", "integration", "shape"]
MESH = GEO + ["pre", "stepper", "swe"]
SPECS = {}
SPECS["P01"] = dict(runs=[dict(h="quad", name="quad1d", defs=["-DONED"], link=["integration"]),
                          dict(h="quad", name="quad2d", link=["integration"])])
SPECS["P02"] = dict(runs=[dict(h="basis", name="basis_" + d.lower(), defs=["-D" + d], link=["basis", "integration"])
                          for d in ("MASS", "GRAD", "VERT", "LIN")])
SPECS["P03"] = dict(runs=[dict(h="shape", link=GEO)])
SPECS["P06"] = dict(runs=[dict(h="llf")])
SPECS["P15"] = dict(runs=[dict(h="mass_rk", link=MESH), dict(h="mass_rk", name="mass_rk_p2", defs=["-DPORD=2"], link=MESH), dict(h="mass_rk", name="mass_rk_dry", params=["DRY"], link=MESH),
                          dict(h="mass_rk", name="mass_eh", defs=["-DDISC=EHDG"], params=["DRY"], btime=1, qtime=5, link=MESH)])
SPECS["P04"] = dict(runs=[dict(h="elem", name="elem_p%d" % p, defs=["-DELEM", "-DPORD=%d" % p], link=MESH) for p in (1, 2, 3)])
SPECS["P05"] = dict(runs=[dict(h="elem", name="face_p%d" % p, defs=["-DFACE", "-DORIENT", "-DPORD=%d" % p], link=MESH) for p in (1, 2)])
SPECS["P07"] = dict(runs=[dict(h="elem", name="skel_p%d" % p, defs=["-DSKEL", "-DORIENT", "-DPORD=%d" % p], link=MESH) for p in (1, 2)])
SPECS["P17"] = dict(runs=[dict(h="rk", link=["stepper"])])
SPECS["P20"] = dict(runs=[dict(h="jac", name="flux", defs=["-DFLUX"])])
SPECS["P21"] = dict(runs=[dict(h="jac", name="eigen", defs=["-DEIG"])] +
                    [dict(h="jac", name=n, defs=["-DDA=%d" % i]) for i, n in enumerate(("dA", "dabsA", "dAplus", "dAminus"))])
SPECS["P09"] = dict(runs=[dict(h="bound", name="land" + n, defs=["-DLAND"] + d, link=MESH)
                          for n, d in (("", []), ("_along", ["-DALONG"]), ("_sp", ["-DSPLO=0.5"]), ("_sp_along", ["-DSPLO=0.5", "-DALONG"]))])
SPECS["P11"] = dict(runs=[dict(h="bound", name=n.lower() + ("_ramp" if r else ""), defs=["-D" + n] + r, link=MESH)
                          for n, r in (("TIDE", []), ("TIDE", ["-DRAMP"]), ("FLOW", []), ("FLOW", ["-DRAMP"]), ("FUNC", []))])
SPECS["P11"]["runs"] += [dict(h="hdg", name=x.lower() + "_" + n.lower().replace(" ", "_"), params=n.split(), defs=["-DUSE_IHDG"] if x == "IHDG" else [], link=MESH)
                          for x in ("EHDG", "IHDG") for n in ("TIDE", "TIDE RAMP", "FLOW", "FLOW RAMP", "FUNC")]
SPECS["P16"] = dict(runs=[dict(h="hdg", name="exchange", params=["EXCH"], link=MESH), dict(h="hdg", name="wall", params=["WALL"], link=MESH)])
SPECS["P23"] = dict(runs=[dict(h="newton", name=n.lower().replace(" ", "_").replace("=", ""), params=n.split(), defs=["-DUSE_IHDG"], link=MESH)
                          for n in ("REST", "REST ORD=2", "MQ", "MQ ORD=2 FRIC", "MQ MANNING FUNCB", "MH", "MH ORD=2 FUNCB", "THETA FRIC", "THETA ORD=2", "CONS", "CONS ORD=2", "WALL", "SOLVE")])
SPECS["P08"] = dict(runs=[dict(h="iface", name="wetdry", link=MESH)])
SPECS["P10"] = dict(runs=[dict(h="iface", name="levee_closed", defs=["-DLEVEE=1"], link=MESH), dict(h="iface", name="levee_over", defs=["-DLEVEE=2"], link=MESH)])
SPECS["P14"] = dict(runs=[dict(h="lake", name="lake_%s_p%d" % (d.lower(), p), defs=["-DDISC=" + d, "-DPORD=%d" % p], link=MESH)
                          for d in ("RKDG", "EHDG") for p in (1, 2)] +
                    [dict(h="lake", name="lake_sp", defs=["-DSPLO=0.5"], link=MESH)]+
                    [dict(h="lake", name="lake_open", defs=["-DOPEN"], link=MESH), dict(h="lake", name="lake_wd", defs=["-DWD", "-DMESHN=mesh4"], link=MESH)])
SPECS["P18"] = dict(runs=[dict(h="wetdry", name="wetdry_p%d" % p, defs=["-DPORD=%d" % p], link=MESH) for p in (1, 2)] +
                    [dict(h="wetdry", name="wetdry_init", defs=["-DINIT"], link=MESH)])
SPECS["P22"] = dict(runs=[dict(h="source", name="source_rkdg", defs=["-DOWN_FUNCTIONS"], link=MESH),
                          dict(h="source", name="source_rkdg_sp", defs=["-DOWN_FUNCTIONS", "-DSPLO=0.5"], link=MESH),
                          dict(h="source", name="source_ehdg", defs=["-DOWN_FUNCTIONS", "-DDISC=EHDG"], link=MESH),
                          dict(h="source", name="source_ihdg", defs=["-DOWN_FUNCTIONS", "-DUSE_IHDG"], link=MESH)])
SPECS["P19"] = dict(runs=[dict(h="limiter", name="limit_" + n.lower().replace(" ", "_").replace("=", ""), params=n.split(), btime=1, qtime=5, defs=["-DPORD=%d" % p], link=MESH)
                          for n, p in (("LIN", 1), ("LIN P2", 2), ("DRY", 1), ("TVB", 1), ("FLAT", 1), ("MEAN ONE", 1), ("MEAN T=1 FAMS=2", 1), ("MEAN T=3 P2 FAMS=1", 2))])

SPECS["P24"] = dict(runs=[dict(h="prep", name="prep_nodes", defs=["-DOWN_FUNCTIONS"], params=["NODES"], link=MESH)] +
                    [dict(h="prep", name="prep_%s_p%d" % (d.lower(), p), defs=["-DOWN_FUNCTIONS", "-DDISC=" + d, "-DPORD=%d" % p], link=MESH) for d, p in (("RKDG", 1), ("RKDG", 2), ("EHDG", 1))])

STUB = ["-I" + __file__.rsplit("/engine/", 1)[0] + "/harness/stub"]
PARITY = [("RKDG", "K=2 FULL"), ("RKDG", "K=1 ONE"), ("RKDG", "K=2 L=2 ST=2 ONE FEW"), ("RKDG", "K=2 L=2 ST=2 FULL PHASES FEW"),
          ("RKDG", "K=3 R=2 OPEN FULL EAGER"), ("RKDG", "K=3 L=2 OPEN FULL EAGER"), ("RKDG", "K=2 L=2 SL LIM ONE PLANE STILL AMP=0.001"),
          ("RKDG", "K=2 LEVEE FULL EAGER"), ("RKDG", "K=2 L=2 ST=2 LEVEE FULL PHASES FEW EAGER"), ("RKDG", "K=2 L=2 WD FULL EAGER"), ("EHDG", "K=2 L=2 WD FULL EAGER"),
          ("EHDG", "K=2 FULL"), ("EHDG", "K=2 L=2 ST=2 FULL PHASES FEW"), ("EHDG", "K=2 L=2 SL LIM ONE PLANE STILL AMP=0.001 EAGER"),
          ("RKDG", "K=2 L=2 PHYS FULL EAGER FEW"), ("EHDG", "K=2 L=2 PHYS FULL EAGER FEW")]
PARITY_DEEP = [("RKDG", "K=2 L=2 ST=3 FULL PHASES"), ("RKDG", "K=3 L=2 OPEN FULL"), ("RKDG", "K=3 L=3 OPEN FULL"), ("RKDG", "K=4 L=3 OPEN FULL EAGER"), ("EHDG", "K=2 L=2 ST=2 FULL PHASES")]
SPECS["P12"] = dict(runs=[dict(h="parity", name="parity_" + d.lower() + "_" + n.lower().replace(" ", "_").replace("=", ""), params=n.split(), defs=["-DPORD=1", "-DDISC=" + d], flags=STUB, libdefs=["-Dic_q=repo_ic_q"],
                               link=MESH + ["comm", "part"], btime=2, qtime=2, **({"thorough": True} if (d, n) in PARITY_DEEP else {})) for d, n in PARITY + PARITY_DEEP])

REAL = "double arithmetic is exact real arithmetic"
B = {
    "P24": "p=1,2; nodes: longitudes -180..180, latitudes -80..80, radius 1..10, all symbolic; mesh of two skewed elements whose inner edge may be cut between submeshes, radius 8 and 50, reference latitude -60..60, bed 1..10 per node, linear initial state and true solution with coefficients in [-1,1]",
    "P12": "p=1; the four element mesh cut into 1..3 submeshes in every possible way on 1..2 localities and 1..2 ranks each (thorough: 4 submeshes, 3 localities), eager and rendezvous sends, both scheduling directions; 36 symbolic modal coefficients of amplitude 1/64 around states whose upwind directions are fixed (limiter: one symbol); first stage of a run, a levee on one edge closed or overtopped either way (explicit solver), spherical coordinates with Chezy or Manning friction and a user source, wetting/drying switched on, and single stages from arbitrary states with one element dry",
    "P19": "p=1,2; centre and border elements of a four element mesh; own slopes, jumps to the neighbours and linear gradients vary over 1..2-parameter families of directions (amplitudes symbolic in [-1,1]); nu=1.5, M=0 or 100; away from 1e-6 neighbourhoods of the switching points where compared with the reference limiter",
    "P01": "1D degrees 0..65 (every monomial), 2D degrees 1..20; coefficients in [-1,1]; tolerance for the printed table digits",
    "P02": "mass/linear maps p<=7 (thorough 8); gradients p<=4 (thorough 6) at every point with z2<=0.999, limits at the collapsed vertex p<=5",
    "P03": "vertex coordinates in [-10,10], twice the area >= 1",
    "P04": "p=1,2,3; one skewed mesh of two elements; coefficients in [-1,1] (the operators are linear)",
    "P05": "p=1,2; one skewed mesh of two elements in all 9 relative orientations; coefficients in [-1,1]",
    "P06": "bed and depth up to 1e4, speed up to 50, sp in [0.5,2]; both states wet",
    "P07": "p=1,2; one skewed mesh of two elements in all 9 relative orientations",
    "P15": "p=1 (every set of dry elements, both explicit solvers) and p=2 (all wet); two elements, first stage, ze mean in [-1,1], discharges up to 10; land walls all round",
    "P16": "one interface and one wall; bed -1..5, depths 0.05..8, speed components up to 4, g 1..20, all unit normals, every wet/dry combination",
    "P17": "all 12 (stages, order) pairs the stepper offers; order conditions up to the scheme's order",
    "P20": "depth 0.25..4, speed components up to 3, g 1..20, all unit normals; |un|>1e-6 for the derivatives of the stabilisation",
    "P21": "depth 0.25..4, speed components up to 3, g 1..20, all unit normals; derivatives off the 1e-3 neighbourhood of the sign switches",
    "P14": "p=1,2; level in [-1,3] over bed depths 2..10 symbolic per node, g 1..20; skewed meshes of two and four elements; unit and 0.5 map projection; tide and flow boundaries at rest",
    "P18": "p=1,2; elements of a four element mesh; vertex depths -0.25..1 around the wet/dry threshold, discharges up to 1, higher modes up to 0.25; initial levels -8..-5 over the sloping bed",
    "P22": "p=1; one skewed element, depth >= 4.5, discharges up to 12 with linear variation; friction none, constant, Manning file, Manning with floor; linear user source; two stages",
    "P23": "p=1, two elements, first and second order scheme; |ze|<=0.25, discharges up to 5 over depth 6..8; one trace at a time; land walls and a prescribed state",
    "P08": "bed up to 100, depths 0.01..100 (dry side below the wet/dry threshold), speeds up to 5 m/s, all unit normals; every wet/dry combination and flux direction",
    "P09": "bed up to 100, water depth >= 1, velocities up to 5 m/s; unit and non-unit (sp 0.5) map projection; concrete skewed mesh normals",
    "P10": "one levee edge, crest and coefficients symbolic per node, water levels up to 5 m either side of the crest; discharge regimes sub- and supercritical, both directions",
    "P11": "two forcing constituents, symbolic amplitudes, phases, frequencies, nodal factors and time; two boundary nodes per edge; p=1",
}
for k, v in B.items():
    SPECS[k].setdefault("bounds", v)
    SPECS[k].setdefault("assumptions", [REAL])
