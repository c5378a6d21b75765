"""writes tools/levels.json: level and technique per property"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contracts on the functions of /repo, obligations generated from the current source by symbolic execution (loop invariants, "
        "callee contracts), discharged for all inputs by canonical forms of real terms and z3; failing obligations replayed on the real code")
NOTE = {
 "C01": "every Gram builder and updater; any number of rows and columns",
 "C02": "inverse Gram builders and updaters; any number of rows and columns; matrix inverse by its defining contract",
 "C03": "while and for loop contracts; any number of coordinates and sweeps",
 "C05": "fit and updates of the scaler with the discounted power sums as ghost state",
 "C06": "transform, inverse transform, frame conditions",
 "C04": "path function for grids of any length, its callers, the zero solution at the largest strength; np.geomspace by contract",
 "C14": "histories of fit and updates by induction over uninterpreted state; collaborators by the contracts proved in C01, C02, C05, C06, C13",
 "C15": "histories of fit and updates by induction over uninterpreted state; any path-based method; criteria by the contract proved in C12",
 "C07": "every link function; reals for floats",
 "C08": "17 distributions; the density itself is under contract as well (closed form per law)",
 "C09": "17 distributions, second, cross and link-scale derivatives, expected-information identities assumed where integrals are needed (see DESIGN.md)",
 "C10": "17 distributions; scipy/numpy special functions by contract",
 "C11": "17 distributions; scipy optimiser by contract",
 "C12": "all functions and criteria",
 "C13": "all functions; loop invariant for arrays of any length",
 "C16": "one visit of one parameter from an arbitrary state, any number of inner iterations; K up to 3 parameters; pointwise family and estimation method uninterpreted",
 "C17": "one update from an arbitrary history; K up to 3 parameters; collaborators by the contracts proved in C01-C06, C12, C13",
 "C18": "every prediction method from an arbitrary fitted model; K up to 4 parameters, every kind of equation",
 "C19": "arbitrary support and responses; K up to 4 parameters",
 "C20": "outer loop with inferred loop invariant for every limit, tolerance and sequence of deviances, every order for up to 3 parameters; inner limit at every statistics call",
 "C21": "option forms (value, mapping, partial mapping) for K up to 3 parameters; sessions of partial fits and predictions",
 "C22": "selection at fit and update for path length, design and history of any size; both measures; K up to 3 parameters",
}
ok = {}
for i, n in NOTE.items():
    ok[i] = {"technique": TECH, "level": "proof", "note": n + "; machine arithmetic as mathematical; trusted base in DESIGN.md and the evidence file"}
json.dump(ok, open(ROOT + "/tools/levels.json", "w"), indent=1)
