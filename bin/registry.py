"""What each check consists of (see check.py)."""
CONTOUR = ("one case per discretisation: all sign patterns of one and two elements, sampled (thorough: all) patterns of 2x2 elements, "
           "random fields with masks, fixed domains, targets and extreme magnitudes, and fields reached by real histories")
FMM = [dict(module="FMM", min_states=1000), dict(module="FMM", cfg="FMMAll.cfg", min_states=1000, thorough=True)]
BAND = [dict(module="Band", min_states=100), dict(module="Band", cfg="BandLate.cfg", refuted="ContourInBand"), dict(module="Band", cfg="BandBlind.cfg", refuted="SidesRight"),
        dict(module="Band", cfg="BandAll.cfg", min_states=500, thorough=True)]
SHAPES = [dict(module="Shapes", min_states=1000), dict(module="Shapes", cfg="ShapesAll.cfg", min_states=10000, thorough=True)]
CHECKS = {
    "C01": dict(driver=["c01.cpp"], trace="MeshTrace", design=[dict(module="MeshTopo", min_states=1000)],
                rule="one case per mesh; all sizes up to 7x7 (thorough 12x12) and random larger ones; every node and element is a record"),
    "C02": dict(driver=["c02.cpp"], trace="LocateTrace", design=[dict(module="Locate", min_states=1000)],
                rule="one case per mesh; all lattice points of small meshes, random points and points at grid and half lines of larger ones"),
    "C03": dict(driver=["c03.cpp"], trace="HeapTrace", history=True, design=[dict(module="HeapImpl", min_states=1000)],
                rule="one case per operation history: all short histories over small alphabets, random long ones with ties, misuse in child processes"),
    "C09": dict(driver=["c09.cpp"], trace="ContourTrace", tracecfg="ContourTraceC09.cfg", rule=CONTOUR,
                design=[dict(module="Contour", cfg="ContourPts.cfg", min_states=1000), dict(module="Contour", cfg="ContourPtsAll.cfg", min_states=1000, thorough=True)]),
    "C10": dict(driver=["c09.cpp"], trace="ContourTrace", tracecfg="ContourTraceC10.cfg", rule=CONTOUR,
                design=[dict(module="Contour", cfg="ContourSegs.cfg", min_states=1000), dict(module="Contour", cfg="ContourSegsAll.cfg", min_states=1000, thorough=True)]),
    "C11": dict(driver=["c09.cpp"], trace="ContourTrace", tracecfg="ContourTraceC11.cfg", rule=CONTOUR,
                design=[dict(module="Contour", cfg="ContourArea.cfg", min_states=1000), dict(module="Contour", cfg="ContourAreaAll.cfg", min_states=1000, thorough=True)]),
    "C12": dict(driver=["c09.cpp"], trace="ContourTrace", tracecfg="ContourTraceC12.cfg", rule=CONTOUR,
                design=[dict(module="Normals", min_states=1000), dict(module="Normals", cfg="NormalsAll.cfg", min_states=1000, thorough=True)]),
    "C13": dict(driver=["c09.cpp"], trace="ContourTrace", tracecfg="ContourTraceC13.cfg", rule=CONTOUR, design=[dict(module="Limits", min_states=1000)]),
    "C04": dict(driver=["c05.cpp"], trace="ReinitTrace", design=FMM,
                rule="one case per field or history of masks, updates and reinitialisations; every reinitialisation is a record"),
    "C05": dict(driver=["c05.cpp"], trace="FMMTrace", design=FMM, history=True,
                rule="one case per march (every acceptance is a record) or symmetry pair"),
    "C06": dict(driver=["c06.cpp"], trace="ExtTrace", history=True,
                design=[dict(module="Extension", min_states=1000), dict(module="Extension", cfg="ExtensionAll.cfg", min_states=1000, thorough=True)],
                rule="one case per extension (every acceptance is a record) or triple of extensions compared for linearity"),
    "C07": dict(driver=["c07.cpp"], trace="BandTrace", tracecfg="BandTraceC07.cfg", history=True, design=BAND, rule="one case per history of builds, updates and other operations; every operation is a record"),
    "C08": dict(driver=["c07.cpp"], trace="BandTrace", tracecfg="BandTraceC08.cfg", history=True, design=BAND, rule="one case per history; updates on dyadic values are exact"),
    "C24": dict(driver=["c07.cpp"], trace="BandTrace", tracecfg="BandTraceC24.cfg", history=True, design=BAND, rule="one case per evolution with steps within the move limit; every update is a record"),
    "C14": dict(driver=["c14.cpp"], trace="MaskTrace", history=True, design=[dict(module="Mask", min_states=100)] + SHAPES, rule="one case per history of masks and other operations, each a record"),
    "C15": dict(driver=["c14.cpp"], trace="ShapeTrace", design=SHAPES, rule="one case per construction; shapes with coordinates in eighths of a cell"),
    "C16": dict(driver=["c16.cpp"], trace="StoreTrace", history=True, design=[dict(module="Store", min_states=100)], rule="one case per history of changes, saves and loads of two level sets; files are read back after each"),
    "C17": dict(driver=["c17.cpp"], trace="RngTrace", history=True, rule="one case per interleaving of seeds, copies and draws of up to three generators, or long run",
                design=[dict(module="Rng", min_states=500), dict(module="Rng", cfg="RngKeep.cfg", refuted="SeedFixesStream"), dict(module="Rng", cfg="RngAll.cfg", min_states=5000, thorough=True)]),
    "C18": dict(driver=["c18.cpp"], trace="NoiseTrace", history=True, design=[dict(module="Noise", min_states=200)], rule="one case per shape and generator; one record per stochastic extension"),
    "C19": dict(driver=["c19.cpp"], trace="SensTrace", rule="one case per sensitivity or Ito correction; callbacks record where they are called",
                design=[dict(module="Sens", min_states=1000), dict(module="Sens", cfg="SensUnbound.cfg", min_states=1000),
                        dict(module="Sens", cfg="SensDrift.cfg", refuted="PointsRestored"), dict(module="Sens", cfg="SensBroken.cfg", refuted="AgainstUndisplaced")]),
    "C20": dict(driver=["c20.cpp"], lib=["Optimise"], stub=True, trace="OptTrace", rule="one case per solve: random points, sensitivities, constraints and solver answers",
                design=[dict(module="Opt", min_states=1000), dict(module="Opt", cfg="OptLoose.cfg", refuted="WithinMaximum"), dict(module="Opt", cfg="OptAll.cfg", min_states=10000, thorough=True)]),
    "C21": dict(driver=["c21.cpp"], trace="WenoTrace", rule="one case per field, image of a field under a symmetry of the grid, plane or evolution",
                design=[dict(module="Weno", min_states=1000), dict(module="Weno", cfg="WenoAll.cfg", min_states=10000, thorough=True)]),
    "C23": dict(driver=["c23.cpp"], lib=["Optimise"], stub=True, trace="RefuseTrace", rule="one case per program of requests, run in a process of its own",
                design=[dict(module="Refuse", min_states=1000), dict(module="Refuse", cfg="RefuseUnchecked.cfg", refuted="HeapWithinCapacity"), dict(module="Refuse", cfg="RefuseAll.cfg", min_states=10000, thorough=True)]),
    "C22": dict(driver=["c22.cpp"], trace="HistTrace", history=True,
                plans=[dict(module="Usage", cfg="Usage.cfg", min=3000, take=dict(quick=300)), dict(module="Usage", cfg="UsageLong.cfg", min=50000, take=dict(thorough=6000), thorough=True)], rule="one case per history of operations on two level sets and two boundaries, each operation repeated on objects made for it",
                design=[dict(module="History", min_states=1000), dict(module="History", cfg="HistoryStale.cfg", refuted="Functional"),
                        dict(module="History", cfg="HistoryShared.cfg", refuted="Functional"), dict(module="History", cfg="HistoryAll.cfg", min_states=10000, thorough=True)]),
    "C25": dict(driver=["c25.cpp"], trace="EvolveTrace", history=True, rule="one case per evolution of a disc or rectangle with a uniform velocity; one record per update or reinitialisation",
                design=[dict(module="Evolve", min_states=500), dict(module="Evolve", cfg="EvolveStale.cfg", refuted="WhereItShouldSteady"), dict(module="Evolve", cfg="EvolveAll.cfg", min_states=5000, thorough=True)]),
    "C26": dict(driver=["c26.cpp"], trace="ImageTrace", history=True, rule="one case per scene and image (turned over or moved); one record per operation performed on both",
                design=[dict(module="Images", min_states=1000), dict(module="Images", cfg="ImagesMoved.cfg", min_states=1000), dict(module="Images", cfg="ImagesTilted.cfg", refuted="SegmentsMoved"),
                        dict(module="Images", cfg="ImagesAll.cfg", min_states=10000, thorough=True), dict(module="Images", cfg="ImagesMovedAll.cfg", min_states=10000, thorough=True)]),
}
