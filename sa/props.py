"""The properties: which comparisons and rules decide each."""
from .run import compare
from .evalf import Model
from .effects import errorexit, hiddenstate, verbosity

GN = dict(spec="gridnodes_spec.c", others=["gucommon.c"], keep={"gu_alloc2d", "gu_free2d", "gu_fopen", "gridmap_build", "gridmap_destroy", "gridmap_fij2xy", "kd_create", "kd_destroy", "kd_insertnode", "kd_findnearestnode", "kd_getnodecoords"}, models={"gridmap_fij2xy": Model(outs=(3, 4))})
XY = {("F", "gridnodes", 16): ("F", "gridnodes", 8)}

CELL = {3: "i32", 4: "i32"}
PURE = Model()
GM = dict(spec="gridmap_spec.c", others=["gridbmap.c", "gridkmap.c", "gridnodes.c"], keep={"gridbmap_xy2ij", "gridkmap_xy2ij", "gridbmap_build", "gridkmap_build", "gridbmap_destroy", "gridkmap_destroy"},
          models={"gridbmap_xy2ij": Model(outs=(3, 4), sets=CELL), "gridkmap_xy2ij": Model(outs=(3, 4), sets=CELL)})

PO = dict(spec="poly_spec.c", others=["gucommon.c"], keep=set())

# the tree: parts stay calls of each other, boundaries are opaque
BM = dict(spec="gridbmap_spec.c", others=["gucommon.c"], keep={"gridbmap_subdivide", "subgrid_destroy"},
          models={"poly_findindex": PURE, "poly_containspoint": PURE, "poly_isclosed": PURE})

KD = dict(spec="kdtree_spec.c", others=[], keep=set())
KM = dict(spec="gridkmap_spec.c", others=[], keep=set())
PB = dict(spec="poly_spec.c", others=["gucommon.c"], keep={"poly_create", "poly_addpoint", "poly_close"})

GU = dict(spec="gucommon_spec.c", others=[], keep={"gu_alloc2d", "gu_free2d", "gu_fopen"}, flags=dict(stderr=1))

GA = dict(spec="gucommon_spec.c", others=[], keep=set(), flags=dict(stderr=1))

AV = dict(spec="gridaverager_spec.c", others=[], keep=set(), models={"gridmap_getnce1": PURE, "gridmap_getnce2": PURE, "gridmap_xy2ij": Model(outs=(3, 4), sets=CELL)})

# the programs: the library stays opaque, calls see everything stored before them
OBJ = Model(world="proj", alloc=True, sees=True)
DO = Model(world="proj", sees=True)
END = Model(release=True)
LIB = {"gridnodes_read": OBJ, "gridnodes_create": Model(alloc=True), "gridnodes_write": DO, "gridnodes_destroy": END, "gridnodes_subgrid": OBJ, "gridnodes_transform": OBJ,
       "gu_readmask": OBJ, "gu_free2d": END, "gridnodes_calcstats": DO, "gridmap_build": Model(world="proj", alloc=True, sees=True, keeps=(2, 3)), "gridmap_destroy": END, "gu_fopen": OBJ,
       "poly_formbound": OBJ, "poly_formboundij": OBJ, "poly_compact": DO, "poly_write": DO, "poly_destroy": END,
       "gridmap_fij2xy": Model(outs=(3, 4)), "gridmap_xy2fij": Model(outs=(3, 4))}
for _n in ("gridnodes_validate", "gridnodes_applymask"):
    LIB[_n] = Model(world="proj", sees=True, clob=True)
for _n in ("nx", "ny", "nce1", "nce2", "x", "y"):
    LIB["gridnodes_get" + _n] = PURE
IG = dict(spec="insertgrid_spec.c", others=[], keep=set(), models=LIB)
SB = dict(spec="setbathy_spec.c", others=[], keep=set(), models=LIB)
XI = dict(spec="xy2ij_spec.c", others=[], keep=set(), models=LIB)
GT = dict(spec="getnodes_spec.c", others=[], keep=set(), models=LIB)
GB = dict(spec="getbound_spec.c", others=[], keep=set(), models=LIB)
SG = dict(spec="subgrid_spec.c", others=[], keep=set(), models=LIB)


def cmp_(grp, *names, **kw):
    def step(rep):
        for n in names:
            d = dict(grp)
            d.update(kw)
            compare(rep, d.pop("spec"), n, **d)
    return step


TV = "gated value numbering of the clang IR, congruence against reference transformers"
NOTE = ("Every externally visible memory region, the return value, the streams read and written and the error-exit conditions of the compared "
        "functions are value-numbered from the current source and must be congruent, modulo exact algebra and branch structure, to a reference written "
        "in the rule files; all inputs satisfying the written premise are covered at once, with no bound on sizes. Floating-point arithmetic is treated "
        "as real algebra; behaviour that is undefined in C is outside the comparison.")


def TVP(*steps, note=""):
    return dict(level="translation_validation", technique=TV, note=NOTE + (" " + note if note else ""), steps=list(steps))


LIBNOTE = "The library functions the program calls are opaque here; the other properties are about them."

PROPS = {
    "P01": TVP(cmp_(GN, "validate_dd", "validate_cor", "validate_other", nanpair=XY)),
    "P02": TVP(cmp_(GN, "dd2cor", "dd2cen", "copy", "same", "notype", "validatefirst", "same_cor_raw", "same_cen_raw", nanpair=XY)),
    "P03": TVP(cmp_(GN, "cor2cen", "cor2dd", "cor2cen_raw", "cor2dd_raw", nanpair=XY)),
    "P04": TVP(cmp_(GN, "cen2cor", "cen2dd", "cen2cor_raw", "cen2dd_raw", nanpair=XY)),
    "P05": TVP(cmp_(GN, "mask_dd", "mask_cen", "mask_refuse", nanpair=XY)),
    "P06": TVP(cmp_(GN, "subgrid", nanpair=XY)),
    "P07": TVP(cmp_(IG, *[n + "=code_main" for n in ("within", "wider", "higher", "beyond")]),
               note="The library's readers, writers and object functions are opaque here: P08, P09, P33 and P01 are about them."),
    "P08": TVP(cmp_(GN, "read_stdin", "read_dash", "read_file", nanpair=XY)),
    "P09": TVP(cmp_(GN, "write_xy", "write_x", "write_y", nanpair=XY)),
    "P10": TVP(cmp_(GM, "fij2xy_tree", "fij2xy_kd")),
    "P11": TVP(cmp_(GM, "xy2ij_tree", "xy2ij_kd", "xy2fij_tree", "xy2fij_kd")),
    "P12": TVP(cmp_(BM, *[n + "=gridbmap_subdivide" for n in ("leaf", "wide_shut", "wide_open", "tall_shut", "tall_open")], flags=dict(mallocok=1)), cmp_(BM, "buildtree", "find", "release", "releasesub=subgrid_destroy", "extentof", "cells1", "cells2", "xnodes", "ynodes")),
    "P13": TVP(cmp_(PO, "contains", "isclosed", "findindex")),
    "P14": TVP(cmp_(KD, "bulk_order", "bulk_shuffled", flags=dict(mallocok=1)), cmp_(KD, "create", "destroy", "destroy_empty", "insert", "nearest", "nearstep=_kd_findnearestnode", "range", "rangestep=_kd_findnodeswithinrange", "read", "drop", "count", "size", "coords", "orig", "box")),
    "P15": TVP(cmp_(KM, "knit", "unknit", "locate", "kcells1", "kcells2", "kxnodes", "kynodes")),
    "P16": TVP(cmp_(PB, "bound", "boundij")),
    "P17": TVP(cmp_(PO, "create", "add", "addat", "append", "area", "clear", "copypoly", "close", "delete", "destroypoly", "resample", "despike", "reverse", "writepoly", "readpoly", "compact")),
    "P18": TVP(cmp_(AV, "newavg", "dropavg", "addpoints", "average"), note="The position-to-cell search is opaque here: P11, P12 and P15 are about it."),
    "P19": TVP(cmp_(SB, "setbathy=code_main")),
    "P20": TVP(cmp_(XI, "convert=code_main"), note=LIBNOTE),
    "P21": TVP(cmp_(GT, "unfold", "plain=code_main", "polar=code_main"), note=LIBNOTE),
    "P22": TVP(cmp_(GB, "boundary=code_main"), note=LIBNOTE),
    "P23": TVP(cmp_(SG, "window=code_main"), note=LIBNOTE),
    "P27": TVP(*[cmp_(g, "cli") for g in (IG, SB, XI, GT, GB, SG)]),
    "P24": dict(level="other", technique="information-flow (taint and control dependence) rule over the IR of all library sources", note="Every instruction that runs, and every value computed, depending on gu_verbose has no effect but text on stderr, on all paths of every library function. What the C library does is taken from its documentation. The programs' own use of verbose mode is covered by the properties on them.", steps=[verbosity]),
    "P25": dict(level="other", technique="effect rule (writes to static storage, calls that observe the surroundings, must-dataflow of the seed) over the IR of all sources", note="No path of any library function writes static storage or hands out its address, none asks clock, environment or process, and on every path a constant seed precedes every drawn number. Values of uninitialised storage and addresses are not tracked.", steps=[hiddenstate]),
    "P26": dict(level="other", technique="call-graph effect rule over the IR of all library sources, and congruence of the handlers with reference rules", note="No other function than the initial handler of gu_quit ends the process, nobody but gu_setquitfn changes it, the handler and the setter are congruent to their rules, and every format fits its operands. Functions of the C library are taken to do what their names say; what a handler set by the user does is outside.", steps=[errorexit]),
    "P31": TVP(cmp_(GA, "matrix", "dropmatrix", "open")),
    "P33": TVP(cmp_(GN, "newnodes", "wrapnodes", "nextpoint", "columns", "rows", "xnodes", "ynodes", "maptype", "usemap", "cellsacross", "cellsup", "drop", nanpair=XY)),
    "P28": TVP(cmp_(GN, "stats_cor", "stats_again", "stats_first", "stats_refuse", "stats_dd", "said_cor", "said_other", nanpair=XY, flags=dict(mallocok=1, stderr=1)),
               note="Text printed to stderr is part of this comparison; storage requests are taken to succeed."),
    "P29": TVP(cmp_(GU, "mask_stdin", "mask_dash", "mask_file")),
    "P30": TVP(cmp_(GM, "build", "build2", "nce1_tree", "nce1_kd", "nce2_tree", "nce2_kd", "destroy_tree", "destroy_kd")),
}
