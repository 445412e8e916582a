"""Write known_findings.json (run by hand after a fix; checks never write it)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = {
 "Angle between lines lies in (-pi, pi]": (["C05", "C01"], "the angle between two lines left (-pi, pi] (values up to 2 pi), so an angle constraint could be non-zero on lines at the requested angle"),
 "Axis label coordinates are relative to the figure's corner": (["C16"], "labels were placed relative to figure coordinates shifted by the frame's corner"),
 "Find the axes of an axis thickness constraint below the top level": (["C17"], "refreshing thicknesses failed or picked the wrong axes for axes nested below the top level"),
 "Restore the axis label's visibility when measuring fails": (["C17"], "an error while measuring an axis left its label invisible"),
 "Label rotation of lines pointing down": (["C22"], "labels of lines with a downward direction were rotated to the wrong direction"),
 "Evaluate both operands of a sum on their own primitives": (["C06"], "nested children of the second operand of a sum were evaluated on the first operand's primitives"),
 "Products of a scalar with a number or another scalar": (["C06"], "Scalar() * 2 and Scalar() * Scalar() failed"),
 "Products of numpy scalars with constructions": (["C06"], "np.float64(2) * construction failed"),
 "Division by numpy integer parameters": (["C06"], "a construction over Scalar() failed with a numpy integer parameter"),
 "Partial application of no parameters": (["C07"], "transform_partial(c) without frozen parameters dropped every parameter"),
 "Scalar targets of numpy and jax types": (["C07"], "numpy/jax scalar targets of compound constraints were not spread over the children"),
 "Targets of nested constructions": (["C07"], "target vectors of constructions nested two or more levels deep were cut at the wrong places"),
 "Reject nested parameters of the wrong number before changing the layout": (["C10", "C21"], "a constraint whose nested parameters had the wrong number was half added or evaluated with dropped parameters"),
 "Primitives built from the same array are independent": (["C11", "C20"], "two points built from the same array shared their unknowns"),
 "Solve layouts without constraints": (["C13"], "solve failed on a layout without constraints"),
 "Report constraint error norms of the minimizing solver": (["C14"], "the minimizing solver reported norms that are not those of the constraint errors"),
 "Membership of missing and empty keys": (["C18"], "'x/y' in node raised for a missing x, and '' in node was wrong"),
 "Set children below a child with an empty name": (["C18"], "setting a key below a child with an empty name replaced the child"),
 "Keep the child order through jax's pytree functions": (["C19"], "jax tree operations reordered children whose names do not sort"),
 "Reject primitives with too many or too few parts": (["C20"], "a Line of one or three points was accepted"),
 "Reject primitive values of more than one dimension": (["C20"], "a Point with a (1, 2) value was accepted"),
 "Declared size of the coincident lines constraint": (["C21"], "CoincidentLines declared 2 values and returned 4"),
 "Reject constructions indexing the wrong number of child primitives": (["C21"], "the check of child primitive counts tested the keys and never rejected"),
 "Reject child parameters for too few of the children": (["C21"], "child_params returning too few entries shifted parameters between constructions"),
 "Reject constructions with the wrong number of child keys": (["C21"], "child constructions without a key were dropped silently"),
 "Layouts refreshed from drawn axes grow separately": (["C24"], "constraints and primitives added to a refreshed layout also went into the layout it was made from, whose constraints and parameters then no longer matched"),
 "Reject target vectors of the wrong size": (["C21"], "target vectors longer than the construction's value were cut silently"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
out, seen = [], set()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    key = next((k for k in WHAT if s[5:] == k), None)
    if key is None:
        print("no entry for:", s)
        continue
    seen.add(key)
    for p in WHAT[key][0]:
        out.append({"status": "fixed", "property": p, "commit": h, "text": f"fixed: property={p} {h} {WHAT[key][1]}"})
print("unused:", set(WHAT) - seen)
json.dump(out, open(f"{here}/known_findings.json", "w"), indent=1)
