"""What each property's check explores and which respects of the behaviour count for it.

A plan entry is (profile or family of the specification, first unit, units, further cases per
unit). Facets are the respects in which conform.py compares the code with the specification."""

BASE = {"panic", "load", "compile"}
READ = {"accept", "value"}
ALLDOC = READ | {"reject", "error", "encode", "roundtrip", "value.lax", "lenient"}

# fam: every index of the family in the thorough tier, `n` of them (spread by the seed) in the quick one
PROPS = {
    "P01": dict(facets=BASE | READ | {"value.lax"},
                quick=[("big", 16, 0), ("general", 80, 6), ("lits", 16, 6), ("attrs", 20, 6), ("choice", 30, 6), ("occurs", 30, 6),
                       ("allgrp", 20, 6), ("extend", 20, 6), ("nspace", 20, 6), ("enums", 10, 6), ("compose", 10, 6),
                       ("wide", 20, 6), ("deep", 20, 6), ("chain", 16, 6), ("many", 8, 6), ("strings", 10, 6)],
                thorough=[("big", 48, 1), ("general", 600, 8), ("lits", 120, 8), ("attrs", 160, 8), ("choice", 160, 8),
                          ("occurs", 160, 8), ("allgrp", 100, 8), ("extend", 160, 8), ("nspace", 160, 8),
                          ("enums", 80, 8), ("compose", 100, 8),
                          ("wide", 150, 8), ("deep", 150, 8), ("chain", 120, 8), ("many", 60, 8)], nexpr=1),
    "P02": dict(facets=BASE | {"encode"},
                quick=[("big", 16, 0), ("general", 70, 5), ("lits", 16, 5), ("attrs", 24, 5), ("choice", 26, 5), ("occurs", 20, 5),
                       ("allgrp", 12, 5), ("extend", 20, 5), ("nspace", 26, 5), ("enums", 10, 5), ("compose", 10, 5),
                       ("wide", 16, 5), ("deep", 16, 5), ("chain", 14, 5), ("many", 8, 5), ("strings", 10, 5)],
                thorough=[("big", 48, 1), ("general", 500, 8), ("lits", 120, 8), ("attrs", 160, 8), ("choice", 160, 8),
                          ("occurs", 160, 8), ("allgrp", 100, 8), ("extend", 160, 8), ("nspace", 200, 8),
                          ("enums", 80, 8), ("compose", 100, 8),
                          ("wide", 150, 8), ("deep", 150, 8), ("chain", 120, 8), ("many", 60, 8)], nexpr=5),
    "P03": dict(facets=BASE | {"roundtrip"},
                quick=[("big", 16, 0), ("general", 70, 5), ("lits", 24, 5), ("strings", 16, 5), ("attrs", 20, 5), ("choice", 26, 5),
                       ("occurs", 24, 5), ("allgrp", 12, 5), ("extend", 20, 5), ("nspace", 20, 5), ("enums", 12, 5),
                       ("wide", 16, 5), ("deep", 16, 5), ("chain", 12, 5), ("many", 8, 5)],
                thorough=[("big", 48, 1), ("general", 500, 8), ("lits", 160, 8), ("strings", 80, 8), ("attrs", 160, 8),
                          ("choice", 160, 8), ("occurs", 160, 8), ("allgrp", 100, 8), ("extend", 160, 8),
                          ("nspace", 160, 8), ("enums", 80, 8),
                          ("wide", 150, 8), ("deep", 150, 8), ("chain", 120, 8), ("many", 60, 8)], nexpr=5),
    "P04": dict(facets=BASE | {"reject", "error"},
                quick=[("lit", 16, 0), ("general", 70, 9), ("lits", 20, 9), ("attrs", 24, 9), ("choice", 24, 9), ("occurs", 24, 9),
                       ("allgrp", 16, 9), ("extend", 16, 9), ("nspace", 14, 9), ("enums", 14, 9),
                       ("wide", 16, 9), ("deep", 16, 9), ("chain", 10, 9), ("many", 6, 9)],
                thorough=[("general", 500, 14), ("lits", 120, 14), ("attrs", 160, 14), ("choice", 160, 14),
                          ("occurs", 160, 14), ("allgrp", 100, 14), ("extend", 160, 14), ("nspace", 100, 14),
                          ("enums", 80, 14), ("wide", 150, 14), ("deep", 150, 14), ("chain", 120, 14), ("many", 60, 14)], nexpr=0, bad=True),
    "P05": dict(facets=BASE | ALLDOC,
                quick=[("big", 16, 0), ("chm", 150, 0), ("choice", 50, 6), ("wide", 14, 6), ("deep", 14, 6)],
                thorough=[("big", 48, 1), ("chm", 1200, 0), ("choice", 300, 10), ("wide", 100, 10), ("deep", 100, 10)]),
    "P06": dict(facets=BASE | ALLDOC,
                quick=[("big", 16, 0), ("ocm", 150, 0), ("occurs", 50, 6), ("wide", 20, 6)],
                thorough=[("big", 48, 1), ("ocm", 1200, 0), ("occurs", 300, 10), ("wide", 200, 10)]),
    "P07": dict(facets=BASE | ALLDOC,
                quick=[("big", 16, 0), ("alm", 30, 2), ("allgrp", 60, 8), ("wide", 24, 8)],
                thorough=[("big", 48, 1), ("alm", 30, 20), ("allgrp", 400, 12), ("wide", 200, 10)]),
    "P08": dict(facets=BASE | ALLDOC,
                quick=[("big", 16, 0), ("form", 48, 2), ("nspace", 60, 6), ("many", 20, 6), ("chain", 14, 6)],
                thorough=[("big", 48, 1), ("form", 48, 20), ("nspace", 500, 10), ("compose", 100, 6), ("many", 150, 8), ("chain", 100, 8)]),
    "P09": dict(facets=BASE | {"surface", "accept", "value", "encode", "schema.accepted", "schema.error", "schema.where"},
                quick=[("big", 16, 0), ("graph", 150, 2), ("compose", 70, 4), ("many", 30, 4), ("gflt", 500, 0)],
                thorough=[("big", 48, 1), ("graph", 1000, 2), ("compose", 500, 6), ("many", 200, 6), ("gflt", 5000, 0)]),
    "P10": dict(facets=BASE | {"surface"},
                quick=[("ident", 110, 1), ("names", 80, 2), ("general", 50, 1), ("docs", 16, 1), ("wide", 16, 1), ("deep", 16, 1),
                       ("chain", 16, 1), ("many", 10, 1), ("choice", 20, 1), ("facet", 12, 0)],
                thorough=[("ident", 110, 6), ("names", 400, 3), ("general", 500, 1), ("docs", 80, 1),
                          ("compose", 100, 1), ("extend", 100, 1), ("choice", 100, 1), ("attrs", 100, 1),
                          ("wide", 100, 1), ("deep", 100, 1), ("chain", 100, 1), ("many", 60, 1)]),
    "P11": dict(facets=BASE | ALLDOC | {"str", "surface"},
                quick=[("big", 16, 0), ("enumset", 80, 4), ("enums", 50, 6)],
                thorough=[("big", 48, 1), ("enumset", 600, 4), ("enums", 300, 8)]),
    "P12": dict(facets={"panic", "load", "surface", "schema.accepted", "schema.error", "schema.where"},
                quick=[("flt", 15000, 0), ("fault", 1000, 0)],
                thorough=[("flt", 30000, 0), ("fault", 12000, 0)], loadonly=True),
    "P15": dict(facets=BASE | ALLDOC,
                quick=[("big", 16, 0), ("attr", 80, 1), ("attrs", 40, 6), ("wide", 14, 6), ("chain", 14, 6)],
                thorough=[("big", 48, 1), ("attr", 80, 20), ("attrs", 400, 10), ("wide", 100, 10), ("chain", 100, 10)]),
    "P16": dict(facets=BASE | ALLDOC | {"surface"},
                quick=[("big", 16, 0), ("ext", 126, 4), ("extend", 50, 6), ("chain", 40, 6)],
                thorough=[("big", 48, 1), ("ext", 252, 20), ("extend", 400, 8), ("chain", 300, 8)]),
    "P17": dict(facets=BASE | ALLDOC | {"str"},
                quick=[("lit", 16, 60), ("lits", 30, 8), ("strings", 16, 8)],
                thorough=[("lit", 16, 400), ("lits", 300, 10), ("strings", 100, 8)]),
    "P18": dict(facets={"panic", "accept", "value", "reject", "value.lax", "lenient"}, all_styles=True,
                quick=[("general", 50, 5), ("strings", 24, 5), ("nspace", 20, 5), ("attrs", 20, 5), ("choice", 14, 5),
                       ("occurs", 14, 5), ("lits", 14, 5), ("many", 6, 5), ("wide", 10, 5)],
                thorough=[("general", 300, 8), ("strings", 100, 8), ("nspace", 100, 8), ("attrs", 100, 8),
                          ("choice", 100, 8), ("occurs", 100, 8), ("lits", 100, 8), ("many", 60, 8), ("wide", 60, 8),
                          ("deep", 60, 8)], nexpr=0),
    "P19": dict(facets={"panic", "load", "closure"},
                quick=[("big", 16, 0), ("closure", 250, 0), ("compose", 80, 0), ("general", 150, 0), ("extend", 60, 0), ("many", 60, 0), ("chain", 60, 0),
                       ("choice", 60, 0), ("attrs", 30, 0)],
                thorough=[("big", 48, 0), ("closure", 1200, 0), ("compose", 400, 0), ("general", 800, 0), ("extend", 300, 0), ("many", 400, 0), ("chain", 300, 0),
                          ("choice", 300, 0), ("attrs", 300, 0)],
                loadonly=True),
    "P21": dict(facets={"panic", "load", "docs"},
                quick=[("ann", 1020, 0), ("docs", 400, 0), ("general", 80, 0)],
                thorough=[("ann", 6800, 0), ("docs", 2500, 0), ("general", 500, 0)], loadonly=True),
    "P22": dict(facets={"panic", "load", "model"}, crate="model", loadonly=True,
                quick=[("big", 16, 0), ("facet", 300, 0), ("general", 160, 0), ("wide", 60, 0), ("deep", 60, 0), ("chain", 60, 0), ("many", 40, 0),
                       ("attrs", 60, 0), ("extend", 60, 0), ("nspace", 60, 0), ("enums", 40, 0), ("docs", 60, 0), ("compose", 60, 0),
                       ("graph", 60, 0), ("form", 48, 0), ("ext", 126, 0), ("attr", 80, 0), ("gflt", 150, 0), ("fault", 150, 0)],
                thorough=[("big", 48, 0), ("facet", 3000, 0), ("general", 1200, 0), ("wide", 500, 0), ("deep", 500, 0), ("chain", 500, 0), ("many", 400, 0),
                          ("attrs", 500, 0), ("extend", 500, 0), ("nspace", 500, 0), ("enums", 300, 0), ("docs", 500, 0), ("compose", 500, 0),
                          ("graph", 600, 0), ("form", 48, 0), ("ext", 252, 0), ("attr", 80, 0), ("gflt", 2000, 0), ("fault", 2000, 0)]),
    "P23": dict(facets=BASE | ALLDOC | {"schema.accepted", "schema.error", "schema.where"},
                quick=[("wf", 12, 900), ("gflt", 300, 0)],
                thorough=[("wf", 12, 6000), ("gflt", 3000, 0)]),
}
# everything at once, thinly (for development: tools/mutants.py)
PROPS["P99"] = dict(
    facets=BASE | ALLDOC | {"surface", "docs", "closure", "str", "schema.accepted", "schema.error", "schema.where"},
    quick=[("wide", 12, 5), ("deep", 12, 5), ("chain", 10, 5), ("many", 6, 5),
           ("general", 24, 5), ("lits", 6, 5), ("attrs", 10, 5), ("choice", 10, 5), ("occurs", 10, 5), ("allgrp", 8, 5),
           ("extend", 10, 5), ("nspace", 14, 5), ("enums", 6, 5), ("compose", 10, 5), ("strings", 3, 5), ("names", 10, 1),
           ("chm", 16, 0), ("ocm", 16, 0), ("alm", 6, 1), ("form", 6, 1), ("graph", 16, 1), ("gflt", 80, 0),
           ("ident", 20, 1), ("enumset", 12, 2), ("ann", 170, 0), ("ext", 16, 2), ("attr", 8, 1),
           ("lit", 16, 4), ("closure", 10, 0), ("docs", 20, 0), ("wf", 6, 60)], thorough=[])
PROPS["P96"] = dict(facets=PROPS["P99"]["facets"],
    quick=[("general", 10, 4), ("nspace", 6, 4), ("compose", 5, 4), ("chm", 5, 0), ("ocm", 5, 0), ("gflt", 40, 0), ("ann", 60, 0),
           ("ext", 4, 2), ("attr", 4, 1), ("lits", 4, 4), ("enums", 3, 3), ("graph", 6, 1), ("names", 4, 1), ("docs", 6, 0)], thorough=[])
PROPS["P98"] = dict(facets=PROPS["P12"]["facets"], quick=[("flt", 4000, 0), ("fault", 400, 0)], thorough=[], loadonly=True)
PROPS["P97"] = dict(facets=BASE | ALLDOC | {"surface", "closure"}, quick=[("big", 16, 0)], thorough=[("big", 48, 1)])
# families that are swept completely; the others are visited from an index that depends on the seed
WHOLE = {"form": 48, "attr": 80, "ext": 252, "lit": 16, "wf": 12, "ident": 110, "alm": 30}

import cursor  # noqa: E402
import macro  # noqa: E402
import writer  # noqa: E402

DRIVERS = {"P13": cursor.check, "P14": writer.check, "P20": macro.check}    # property -> function(report, tier, seed, work): checks with specifications of their own
