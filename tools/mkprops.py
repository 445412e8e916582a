"""Writes properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
S='src/mpllayout/'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
      mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe,hook_needed=None)))

p('C01','Point and line constraints vanish exactly on their documented relation',
 "For all real coordinates and target values (lines of non-zero length where a direction is needed), the residual of every point and line constraint is zero if and only if the documented relation holds: fixed position; directed, x and y distance; coincidence; length, directed, x and y length; vertical, horizontal; relative length; midpoint x/y distance; orthogonal, parallel, collinear; coincident lines (both orientations); point-on-line, point-to-line and fractional point-on-line distance (both orientations). Signs, argument order and orientation are the documented ones, and the angle constraint is satisfied exactly when the counter-clockwise angle from the first to the second line, in (-pi, pi], equals the target.",
 ['inputs'],'all real coordinates and parameters of every point/line constraint, both orientation flags',
 'Tests feed one random satisfying configuration, all coordinates in the unit square, and look only at "residual close to 0": they never try a violating configuration, a negative distance, or another quadrant.',
 ['constraints.py','constructions.py'],[('Fix..RelativePointOnLineDistance classes','constraints.py:29-455'),('transform_constraint','constructions.py:1491')],
 ['return value of constraint(prims, *params)'])
p('C02','Quadrilateral constraints vanish exactly on their documented relation',
 "For all quadrilaterals and target values, the residual of each quadrilateral constraint is zero if and only if the documented relation holds: box (bottom and top horizontal, left and right vertical), width, height, aspect ratio (bottom length over right-side length), inner and outer margin on each of the four sides, row and column alignment, and coincident outward faces on each of the four sides. Sides are always line 0 = bottom, 1 = right, 2 = top, 3 = left, and margins are positive when the quadrilaterals are separated (outer) or nested (inner) in the documented sense.",
 ['inputs','configurations'],'all real vertex coordinates and targets, every side and both alignment directions',
 'Tests use one random pair of boxes per side and only check that the computed margin gives a zero residual; non-box quadrilaterals and violating configurations are never tried.',
 ['constraints.py','constructions.py'],[('Box, Width, Height, AspectRatio, OuterMargin, InnerMargin, Align, CoincidentOutwardFaces','constraints.py:460-960'),('Margin, RectangleDim','constructions.py:1164')],
 ['return value of constraint(prims, *params)'])
p('C03','Grid constraints vanish exactly on the specified grid',
 "For every grid shape and all non-degenerate boxes given row by row from the top left, the rectilinear grid residual is zero if and only if all boxes of a row share bottom and top lines and all boxes of a column share left and right lines. The dimensioned grid residual is zero if and only if, in addition, column widths and row heights relative to the first column and row and the gaps between successive columns (left to right) and rows (top to bottom) equal the given values; an array of outer margins is zero if and only if each successive pair has its own margin.",
 ['inputs','configurations'],'all grid shapes up to the stated bound, all box positions, sizes, relative sizes and margins',
 'Tests check four shapes up to 2x2 with one size ratio and one margin per direction, and only satisfied grids; wrong routing of an index shows only for larger or non-square shapes and unequal values.',
 ['constraints.py','constructions.py'],[('RectilinearGrid, Grid, OuterMarginArray, idx_1d','constraints.py:790-1130'),('transform_map','constructions.py:1527')],
 ['return value of constraint(prims, *params)'])
p('C04','Axes constraints place axes, labels and thicknesses as documented',
 "For all axes geometry, positioning the x or y axis on a side is satisfied if and only if the axis quadrilateral's facing side coincides with that side of the frame (and, with a twin, the twin axis lies on the opposite side). Positioning an axis label is satisfied if and only if the selected (primary or twin) label anchor projects to the given fraction of the frame width (x, from the left) or height (y, from the bottom); an axis thickness constraint is satisfied if and only if the axis quadrilateral's height (x) or width (y) equals the measured thickness, or 0 when no axis is given.",
 ['inputs','configurations'],'all frame, axis and label coordinates, every axis/side/twin combination, every thickness',
 'Tests use frames anchored at the origin with satisfied constraints only, so a constraint attached to the wrong child or side that happens to coincide there is not seen.',
 ['constraints.py'],[('PositionAxis, PositionAxisLabel, AxisThickness','constraints.py:690-770,1130-1356')],
 ['return value of constraint(prims, *params)'])
p('C05','Constructions return the documented geometric quantity',
 "For all inputs every geometric construction returns the documented quantity: coordinates, directed/x/y distances, line vector and unit vector, lengths, directed lengths, midpoints and midpoint distances, point-on-line, point-to-line (counter-clockwise positive) and fractional distances in both orientations, rectangle width and height, aspect ratio, and inner and outer margins per side. The angle between two lines is the counter-clockwise rotation from the first to the second and lies in (-pi, pi].",
 ['inputs','configurations'],'all real coordinates (non-zero length lines where a direction is needed), directions, flags and sides',
 'Tests compare a handful of constructions on one random input each, in one quadrant; the angle, midpoint and point-line constructions have no direct test.',
 ['constructions.py'],[('leaf constructions','constructions.py:690-1090'),('Angle','constructions.py:967')],
 ['return value of construction(prims, *params)'])
p('C06','Arithmetic on constructions is pointwise arithmetic on their values',
 "Negating, adding, scaling, dividing and raising constructions to powers gives a construction whose value, node by node for arbitrarily nested constructions, is the same arithmetic applied to the operands' own values. Each operand is evaluated on exactly its own primitives and parameters, in operand order, and scalar operands may be constants or additional trailing parameters, on either side of a product.",
 ['inputs','programs'],'all operand values, for expressions over leaf, compound and doubly nested constructions up to the stated size',
 'Tests apply each operator once to a two-value leaf construction; compound operands, several parameters and nested expressions are never combined.',
 ['constructions.py'],[('transform_sum, transform_scalar_mul, transform_scalar_div, transform_scalar_pow, operators','constructions.py:440-470,1620-1810'),('concatenate_construction_inputs','constructions.py:1401')],
 ['value of the combined construction called on concatenated primitives and parameters'])
p('C07','Mapped, partially applied and target-valued constructions agree with direct use',
 "Mapping a construction over a list of primitives returns, in order, its values on each leading primitive with the trailing extra primitives held fixed and each application given its own parameters; freezing any number (including none) of trailing parameters gives the same value as supplying them. Turning a construction into a constraint returns its value minus the target for a target given as any kind of scalar (applied to every output) or as a vector, for any nesting of constructions.",
 ['inputs','programs','configurations'],'all coordinates, parameters and targets; map lengths and nesting up to the stated bound; all scalar kinds',
 'Tests map two points, freeze one parameter and derive two flat constraints; frozen counts of zero, vector targets over compound constructions, nesting and other numeric kinds are not reached.',
 ['constructions.py'],[('transform_map, transform_partial, transform_constraint, Vector','constructions.py:575,1491,1527,1810')],
 ['value of the derived construction'])
p('C08','Compound constraints evaluate their parts on the addressed sub-primitives',
 "Evaluating a compound construction through the key and parameter trees a layout stores gives the same values as calling it directly on the primitives, whatever names and nesting depth the user chose for the primitives and however many primitives it takes. Flattened constraints, primitive keys and parameters stay one-to-one in the same depth-first order.",
 ['inputs','programs'],'all primitive names (any text without a slash, nested up to the stated depth) and all coordinates and parameters, for every compound construction within the size bound',
 'Tests address primitives only by a few fixed names, and check the result only on calls that bypass the stored key trees.',
 ['constructions.py','layout.py','solver.py'],[('child_prim_keys, root_prim_keys, root_params, assem_from_tree','constructions.py:190-400'),('flat_constraints','layout.py:97'),('assem_constraint_residual','solver.py:250')],
 ['solver.assem_constraint_residual(root_prim, *layout.flat_constraints())'])
p('C09','A layout assembles exactly the constraints that were added',
 "After any sequence of adding primitives and constraints, the flattened constraints, keys and parameters contain every added constraint exactly once, in order, with the primitives and parameters it was added with. The residual assembled for the layout is the concatenation of what each added constraint returns on its own primitives and parameters.",
 ['histories','inputs'],'all add sequences up to the stated length over a mix of leaf and compound constraints, all coordinates and parameters, all names',
 'The one layout test prints the flattened lists without asserting anything; no history is compared with what was added.',
 ['layout.py','solver.py','containers.py'],[('Layout.add_prim, add_constraint, flat_constraints','layout.py:97-230'),('assem_constraint_residual','solver.py:250')],
 ['layout.flat_constraints()','solver.assem_constraint_residual'],[('root_constraint/root_prim_keys/root_param','three parallel trees','layout.py:80')])
p('C10','Constraint keys are unique and rejected additions change nothing',
 "Automatically generated constraint keys never collide with any existing key, whether generated or chosen by the user, and reusing an existing key for a constraint or primitive is rejected instead of replacing it. An addition that is rejected, for whatever reason, leaves the layout's primitives, constraints, keys and parameters exactly as they were.",
 ['histories','inputs'],'all user-chosen key texts, all prior counter states and key sets up to the stated size, all rejection causes in add_prim/add_constraint',
 'No test mixes user-chosen and generated keys or inspects a layout after a failed addition.',
 ['layout.py','containers.py'],[('ItemCounter.add_item_to_nodes','containers.py:275'),('Layout.add_constraint','layout.py:155'),('Node.add_child','containers.py:105')],
 ['keys of the layout trees after each call'],[('category_counts','count per constraint type','containers.py:215')])
p('C11','Solving unknowns follow primitive identity and keep the tree intact',
 "Primitives shared between parents (such as polygon corners) are represented by one set of unknowns and stay shared in the solution, while independently created primitives always have independent unknowns. Extracting unknowns and rebuilding with new values reproduces the same tree of keys, order and types, puts each value at every place its primitive occurs, and leaves the original tree untouched.",
 ['inputs','programs'],'all coordinate values; trees and sharing patterns up to the stated size',
 'The only test replaces values in one tree and asserts nothing about sharing, placement or the original.',
 ['primitives.py','solver.py','containers.py'],[('filter_unique_values_from_prim, build_prim_from_unique_values','primitives.py:565-648'),('prim_idx_bounds slicing','solver.py:104')],
 ['filter_unique_values_from_prim / build_prim_from_unique_values results','primitives returned by solve'])
p('C12','The Newton solver takes Newton steps and reports them truthfully',
 "Each iteration moves the unknowns by a least-squares Newton step of the layout's residual at the current iterate, and the recorded absolute errors are the 2-norms of that residual at successive iterates with relative errors taken against the first. Iteration stops exactly when a tolerance is met or the iteration limit is reached, and the returned primitives are the last iterate; the layout passed in is not changed.",
 ['inputs','configurations'],'all residual values, tolerances and starting coordinates for the stated layouts, iteration limits up to the stated bound, any least-squares answer allowed by its contract',
 'test_solve prints the result and asserts nothing; no test looks at the reported errors or the stopping condition.',
 ['solver.py'],[('solve, solve_newton','solver.py:29-150')],
 ['solve(layout) return values'])
p('C13','Solving affine layouts satisfies every constraint',
 "For layouts made of boxes, widths, heights, fixed points, coincidences, x/y lengths and distances and inner/outer margins that have a solution, the Newton solver returns primitives that satisfy every constraint, from any starting geometry and for any targets. A layout whose constraints (of any kind) already hold is returned geometrically unchanged, and a layout without constraints is returned as it is.",
 ['inputs','programs'],'all starting coordinates and target values for the stated families of layouts (figure with axes, nested and chained margins, shared corners), exact real arithmetic',
 'test_solve runs one layout per method and asserts nothing about the solved geometry.',
 ['solver.py','layout.py','constraints.py','primitives.py'],[('solve_newton','solver.py:75'),('Layout','layout.py:22')],
 ['primitives returned by solve(layout)'])
p('C14','The minimizing solver minimizes and reports the constraint error',
 "The minimizing method hands the optimizer an objective that is, up to scale, the sum of squares of the layout's constraint residuals, with its derivative, starting at the layout's primitives and limited to the requested iterations, and returns primitives at the optimizer's answer. Reported absolute errors are the 2-norms of the residual at the optimizer's iterates, relative errors are relative to the error of the initial primitives, and iteration is stopped as soon as a tolerance is met.",
 ['inputs','configurations'],'all coordinates and parameters for the stated layouts, all iterate sequences up to the stated length, all tolerances',
 'test_solve with the minimize method asserts nothing; the callback and its error histories are never examined.',
 ['solver.py'],[('solve_minimize, MinHistory','solver.py:153-245')],
 ['arguments given to the optimizer, solve(..., method="minimize") return values'])
p('C15','Matplotlib figure and axes match the solved geometry',
 "Created or updated figures have exactly the width and height of the figure quadrilateral, and each axes is placed so that its frame's distances from the figure's lower-left corner, in inches, equal those of the frame primitive, wherever the figure quadrilateral lies in the plane. Without explicit keys, axes are created for exactly the top-level primitives whose key contains 'Axes', in order, each under its own key; with explicit keys, for exactly those.",
 ['inputs','configurations'],'all figure and frame boxes (positive size) and all axes keys, up to the stated number of axes',
 'No test calls subplots or update_subplots at all.',
 ['matplotlibutils.py'],[('subplots, update_subplots, rect_from_box, width_and_height_from_quad','matplotlibutils.py:20-226')],
 ['set_size_inches / set_position / add_axes calls, returned dict'])
p('C16','Axis labels and ticks follow the label anchors and axis boxes',
 "When a layout's axes contain a label anchor, the matplotlib axis label is put at the anchor's position relative to the figure's lower-left corner and size, for figures anywhere in the plane, and otherwise is left alone. When they contain an axis box lying against a side of the frame, ticks are put on exactly that side (bottom or top for x, left or right for y), and a box not aligned with any side produces a warning.",
 ['inputs','configurations'],'all figure, frame, axis box and anchor coordinates with positive sizes; every presence combination of x/y axes',
 'No test calls update_subplots or find_axis_position.',
 ['matplotlibutils.py','constraints.py'],[('update_subplots, find_axis_position','matplotlibutils.py:68-165')],
 ['set_label_coords / set_ticks_position calls'])
p('C17','Axis thickness is measured and refreshed faithfully',
 "The measured thickness of a matplotlib axis is how far, in inches, its tick area (label excluded) reaches beyond its axes on the side where its ticks are, 0 if it draws nothing, and measuring leaves the label's visibility as it was. Refreshing a layout with plotted axes gives every x/y axis thickness constraint the axis of the matplotlib axes it belongs to, leaves every other parameter, constraint, key and primitive equal, and does not modify the layout passed in.",
 ['inputs','configurations','histories'],'all bounding boxes, figure sizes and label states for all four sides; all layouts mixing thickness and other constraints up to the stated size, all axes names',
 'Tests compare the constraint with its own measurement function; update_layout_constraints is never called.',
 ['constraints.py','layout.py'],[('get_axis_thickness','constraints.py:638'),('update_layout_constraints, update_root_param','layout.py:232-295')],
 ['return values, layout trees before and after'])
p('C18','Slash-separated keys address tree nodes consistently',
 "For every tree and key, looking up 'a/b/c' returns the node reached by successively taking children a, b and c and fails with a key error if any is missing; membership is true exactly when lookup succeeds and never raises. Adding puts a new child exactly at its key and rejects an existing key or missing parent, setting replaces exactly an existing child and rejects a missing key, both leave all other nodes and the child order alone, and integer and slice access, iteration, length and height follow child order.",
 ['inputs','histories'],'all key texts and all trees up to the stated depth and width, sequences of operations',
 'Tests only check the height of three trees and print others; lookups of missing or nested keys, set and add are not tested.',
 ['containers.py'],[('Node.get_child, add_child, __contains__, __setitem__, __getitem__, node_height','containers.py:60-205')],
 ['Node methods'])
p('C19','Flattening, mapping and accumulating trees loses nothing',
 "Flattening a tree lists every node exactly once, parents before children in child order, under its full path, and unflattening gives back an equal tree of the same node types, keys, key order and values; the same holds for a round trip through jax's pytree functions for nodes and all primitives. Mapping applies the function once to every value and keeps the shape, copying gives an independent equal tree, and accumulating gives each node the combination of its own and all descendants' values, a leaf's value being combined with the initial one.",
 ['inputs','programs'],'all key texts and values, all tree shapes up to the stated size, all node types',
 'Tests use three trees of height one and compare printed text; jax round trips of trees whose keys are not in sorted order are not tried.',
 ['containers.py','primitives.py'],[('iter_flat, flatten, unflatten, map, accumulate, copy, _make_flatten_unflatten','containers.py:125,300-527'),('pytree registration','primitives.py:535')],
 ['results of the container functions and jax.tree_util'])
p('C20','Primitives are built with the documented parts, order and sharing',
 "A polygon through N points has N lines, line i running from point i to the next point and the last line closing to the first, with neighbouring lines sharing their corner; a quadrilateral's lines are bottom, right, top and left of its default unit square; a default polygon is regular around the unit circle. Points keep the given coordinates for any array-like input, axes have exactly the parts requested by their x/y axis and twin flags under the documented names and types, and construction with wrong child types, counts or value size is rejected.",
 ['inputs','configurations'],'all coordinates, polygon sizes up to the stated bound, all 16 axes flag combinations',
 'Tests construct four default primitives without asserting anything.',
 ['primitives.py'],[('Point, Line, Polygon, Quadrilateral, Axes, PrimitiveNode.__init__, validate_prims','primitives.py:24-530')],
 ['children, keys and values of constructed primitives'])
p('C21','Constructions enforce and honour their declared signatures',
 "Calling a construction or adding it to a layout with the wrong number or types of primitives or the wrong number of parameters, including per-row/column grid parameters of the wrong length, is rejected with an error, never evaluated with shifted or dropped parameters. With matching inputs it is accepted and returns exactly the declared number of values, and defining a construction whose child argument lists do not match its children is rejected.",
 ['inputs','configurations'],'every exported construction and constraint; every primitive type combination and parameter count within the stated bound, all values',
 'One test checks three wrong calls of one construction; parameter counts, declared sizes and grid parameter lengths are not tested.',
 ['constructions.py','constraints.py','layout.py'],[('validate_prims, validate_params, ConstructionNode.__init__, init_signature','constructions.py:125-300'),('Layout.add_constraint','layout.py:155')],
 ['exceptions raised, size of returned arrays'])
p('C22','Drawn previews show the primitives where they are',
 "Previewing draws every point at its coordinates, every non-degenerate line between its end points, and every polygon through its corners in order, for every primitive nested at any level, with opacity between the documented limits: what is previewed is opaque, its parts less so the deeper they are. Line labels sit at the line's midpoint and are rotated to the direction of the line in every quadrant. Points are labelled at their coordinates and polygons at their first corner, each label showing the primitive's own key, for all primitives down to the maximum label depth and none below it; the preview figure has the requested size and tick intervals and equal scales on both axes.",
 ['inputs','programs'],'all coordinates (every direction), all primitive kinds and nestings within the stated bound',
 'Tests call plot_prims once for its side effect and never inspect what is drawn; rotation_from_line is only reached for axis-aligned lines.',
 ['ui.py'],[('plot_point, plot_line, plot_polygon, plot_prim, rotation_from_line','ui.py:20-205')],
 ['calls to ax.plot / annotate / add_patch'])
p('C23','The documented workflow yields the requested figure and keeps up with drawn axis',
 "For a figure of given width and height with rectangular axes in a row, positioned by margins, gaps and widths, with x and y axis boxes on any sides whose thickness follows the drawn axis: solving the layout and creating the matplotlib figure gives a figure of exactly the requested size whose axes lie at the rectangles implied by the margins with thickness zero and whose ticks are on the requested sides, whatever the starting geometry and wherever the figure's corner is. Refreshing the layout from the drawn axes, solving again and updating the same figure moves every axes to the rectangle implied by the measured thicknesses; the figure and axes objects are kept, and refreshing again changes nothing.",
 ['inputs','configurations','history'],'all sizes, margins, gaps, widths and drawn thicknesses, every axis side, one or two axes, both orders of adding',
 'No test runs solve, subplots, update_layout_constraints and update_subplots after one another; each part passes its tests while an inconsistency between them (key conventions, sides, units) misplaces the axes.',
 ['layout.py','solver.py','matplotlibutils.py','constraints.py'],[('update_layout_constraints','layout.py:215'),('solve','solver.py:25'),('subplots, update_subplots','matplotlibutils.py:20-120')],
 ['figure size, axes rectangles and tick sides after each step'])
p('C24','Results depend on what is passed in alone, and inputs stay as they were',
 "Solving, evaluating constraints, refreshing parameters, creating or updating figures and drawing previews leave the layout, its trees, values and parameters, and earlier results, as they were. Newton-solving a layout again gives the same answer, and the answer is that of a freshly made layout with the same contents, whatever was solved, extended or created before, also when layouts share primitives, constraints or parameters. New layouts and default primitives start on their own, a layout refreshed from drawn axes and the one it was made from grow separately, and a construction or constraint keeps its value and structure when others of its class with other options are created, combined or used.",
 ['inputs','programs','history'],'all values and parameters; every class with options against every other option; sequences of solves, extensions and updates within the stated bound',
 'Tests run each operation once on objects of their own; caches, shared defaults and mutated inputs only show when an operation is repeated or interleaved.',
 ['solver.py','layout.py','constructions.py','constraints.py','primitives.py','matplotlibutils.py','ui.py'],
 [('solve_newton, solve_minimize, assem_constraint_residual','solver.py:25-330'),('Layout, update_layout_constraints','layout.py:24-270'),('Construction.__init__, transforms','constructions.py:320,1180-1700'),('Primitive.__init__','primitives.py:150')],
 ['layout trees, solutions, construction values and figures before and after'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
