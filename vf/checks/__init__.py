"""property id -> (module, minimal number of obligations on any healthy tree)"""
REGISTRY = {
    "C01": ("effects", 30), "C02": ("effects", 40), "C03": ("draws", 20), "C04": ("guards", 20), "C05": ("guards", 15),
    "C06": ("guards", 20), "C07": ("state", 25), "C08": ("tablerules", 10), "C09": ("tablerules", 20), "C11": ("guards", 25), "C14": ("sampling", 10), "C15": ("guards", 20), "C16": ("permuting", 20), "C23": ("draws", 20), "C24": ("effects", 40),
    "C25": ("calls", 25), "C17": ("measures", 10), "C18": ("measures", 8), "C19": ("measures", 6), "C20": ("trees", 3), "C26": ("trees", 3), "C12": ("batches", 4), "C13": ("filing", 6), "C22": ("comparing", 6), "C29": ("comparing", 2), "C10": ("drawing", 10), "C21": ("naming", 10),
}
# checks whose undecided obligations are tried again on the paths where a gating condition holds / does not hold
PATHWISE = {"C08", "C09", "C10", "C14", "C16", "C17", "C18", "C19", "C22", "C25", "C26", "C29"}
TECH = {
    "C01": "alias and mutation effect analysis (abstract interpretation)",
    "C02": "alias and mutation effect analysis of fitted state",
    "C03": "provenance of random draws and hash-order taint",
    "C04": "value-flow of predict calls under partially evaluated guards",
    "C05": "guard domination of every use of a supplied calculator",
    "C06": "guard domination / typestate of the fitted state",
    "C07": "stale-state taint over refits, must-assign analysis",
    "C08": "structural analysis of result table construction",
    "C09": "sort key and direction analysis against the declared direction",
    "C10": "relational value-flow of drawing calls",
    "C11": "exhaustive guard evaluation over the plot type table",
    "C12": "inductive lock-step loop invariant over the batch state",
    "C13": "role tagging of cache keys, columns and axes",
    "C14": "row selector provenance for data and target",
    "C15": "write-before-raise ordering and guard evaluation",
    "C16": "dirty-column analysis of the frames reaching the model",
    "C17": "shift/scale abstract domain over result terms",
    "C18": "affine coefficient analysis of result terms",
    "C19": "sign analysis of result terms per metric class",
    "C20": "left/right isomorphism of tree traversal effects",
    "C21": "injectivity analysis of name-derived keys",
    "C22": "symmetry of lookups and wiring of comparator axes",
    "C23": "taint of the progress flag",
    "C24": "shared mutable state and class/global write effects",
    "C25": "call/signature binding against installed library stubs",
    "C26": "column-set flow of the unified tree table",
    "C29": "alignment and name-taint analysis of rank correlations",
}
