"""Which models, schedules and drivers decide which property."""

RULES = ("a case is one driven history of the real code (a replayed TLC schedule or a seeded workload), recorded event by "
         "event; it counts as distinct when its recording differs from all others, and every case makes at least one "
         "judged observation of the code")

ASSUMPTIONS = [
    "SHA-256 (evaluated in TLC by java.security.MessageDigest) has no collisions within the run",
    "the drivers record faithfully what the public API returned (an altered record is rejected by TLC)",
    "bounds: small scopes are exhaustive in the models, larger ones are seeded samples on the real code",
]

BIN = [("MC_Binary", "MC_Binary.cfg"), ("MC_Binary", "MC_Binary_forks.cfg")]
BINX = BIN + [("MC_Binary", "MC_Binary_deep.cfg")]
SP = [("MC_Sparse", "MC_Sparse_quick.cfg"), ("MC_Sparse", "MC_Sparse_quick2.cfg")]
SPX = SP + [("MC_Sparse", c) for c in ("MC_Sparse_faults.cfg", "MC_Sparse.cfg", "MC_Sparse_store.cfg", "MC_Sparse_deep.cfg", "MC_Sparse_vals.cfg")]
SUM = [("MC_Sum", "MC_Sum.cfg")]
POS = [("MC_Position", "MC_Position.cfg")]
SHARE = [("MC_Readers", "MC_Readers.cfg"), ("MC_Forest", "MC_Forest.cfg")]
GB = [("GenBinary", "GenBinary.cfg")]
GS = [("GenSparse", "GenSparse.cfg"), ("GenSparse", "GenSparse_vals.cfg")]
GF = [("GenSparse", "GenSparse_faults.cfg")]
GFX = [("GenSparse", "GenSparse_faults3.cfg")]


def b(models, deep, gens=None, gens_deep=None, **kw):
    d = {"models": models, "models_deep": deep}
    if gens:
        d["gens"] = gens
        d["gens_deep"] = gens_deep or gens
    d.update(kw)
    return d


FOUR = [("debug", []), ("release", ["--release"]), ("debug-nostd", ["--no-default-features"]),
        ("release-nostd", ["--release", "--no-default-features"])]

PROPS = {
    "B01": b(BIN, BINX),
    "B02": b(BIN, BINX),
    "B03": b(BIN, BINX),
    "B04": b(BIN, BINX, GB),
    "B05": b(BIN, BINX),
    "B06": b(BIN, BINX, GB),
    "B07": b(BIN, BINX),
    "B08": b(BIN, BINX, GB),
    "P01": b(POS, POS),
    "P02": b(POS, POS),
    "S01": b(SP, SPX, GS),
    "S02": b(SP, SPX, GS),
    "S03": b(SP, SPX, GS),
    "S04": b(SP, SPX, GS),
    "S05": b(SP, SPX, GF, GFX),
    "S06": b(SP, SPX),
    "S07": b(SP, SPX, GF, GFX),
    "S08": b(SP, SPX, GS),
    "M01": b(SUM, SUM),
    "M02": b(SUM, SUM),
    "M03": b(SUM, SUM),
    "K01": b([("MC_Map", "MC_Map.cfg")], [("MC_Map", "MC_Map.cfg")]),
    "H01": b([("MC_Inject", "MC_Inject.cfg")], [("MC_Inject", "MC_Inject.cfg")]),
    "V01": b([("MC_Verify", "MC_Verify.cfg")], [("MC_Verify", "MC_Verify.cfg")], crate="harness-th"),
    "V02": b([("MC_Ref", "MC_Ref.cfg")], [("MC_Ref", "MC_Ref.cfg")], crate="harness-th"),
    "V03": b([("MC_Verify", "MC_Verify.cfg")], [("MC_Verify", "MC_Verify.cfg")], crate="harness-th"),
    "V04": b([("MC_Verify", "MC_Verify.cfg")], [("MC_Verify", "MC_Verify.cfg")], crate="harness-th",
             tool=("fuel-merkle-test-helpers", "write-bmt-test-suite")),
    "T01": b([], []),
    "T02": b(SHARE + [("MC_SumPair", "MC_SumPair.cfg")], SHARE + [("MC_SumPair", "MC_SumPair_deep.cfg"), ("MC_Forest", "MC_Forest_deep.cfg"),
             ("MC_Forest", "MC_Forest_faults.cfg")]),
    "Q01": b([("MC_Binary", "MC_Binary.cfg"), ("MC_Sparse", "MC_Sparse_quick.cfg"), ("MC_Sum", "MC_Sum.cfg")],
             [("MC_Binary", "MC_Binary_deep.cfg"), ("MC_Sparse", "MC_Sparse_deep.cfg"), ("MC_Sum", "MC_Sum.cfg")]),
    "C01": b([], [], builds=FOUR, compare="ALL"),
}
