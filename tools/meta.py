#!/usr/bin/env python3
"""Single place for the metadata: writes properties.jsonl, MANIFEST.json and checks/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/DynamicObstacleAvoidance/"
S = "src/"
OB = [H + "Obstacle/Obstacle.hpp", S + "Obstacle/Obstacle.cpp"]
EL = [H + "Obstacle/Ellipsoid.hpp", S + "Obstacle/Ellipsoid.cpp"]
AG = [H + "Obstacle/Aggregate.hpp", S + "Obstacle/Aggregate.cpp"]
HU = [H + "Obstacle/StarShapeHull.hpp", S + "Obstacle/StarShapeHull.cpp"]
EN = [H + "Environment.hpp", S + "Environment.cpp"]
MO = [H + "Modulation.hpp", S + "Modulation.cpp"]
AT = [H + "Agent.hpp", S + "Agent.cpp"]
PO = [H + "State/Pose.hpp", H + "State/State.hpp"]
MT = [H + "Utils/MathTools.hpp", S + "Utils/MathTools.cpp"]
AGG = [H + "Utils/ObstacleGeneration/Aggregation.hpp", S + "Utils/ObstacleGeneration/Aggregation.cpp"]
PL = [H + "Utils/Plotting/PlottingTools.hpp", S + "Utils/Plotting/PlottingTools.cpp"]

P = []
def p(i, title, statement, over, text, tests, files, mech, rule, assumptions=()):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, rule=rule, assumptions=list(assumptions)))

FLOAT = "values between the points of the alphabets are not visited; comparisons with the long double reference use stated tolerances"

p("C01", "Poses compose, invert and act as rigid motions",
  "Composing poses, inverting them and applying them to points obeys the laws of rigid motions: composition is associative and agrees with applying one pose after the other, the default pose is neutral, the inverse undoes the pose on both sides, and distances and handedness are kept. This holds for poses obtained by any chain of operations, assignments and setters, and for the in-place transformation of poses, states, agents and obstacles, which also leaves every other attribute as it was.",
  ["inputs", "histories"], "all triples of 13 poses (including both quaternions of one rotation, half turns, large and tiny translations) and all sequences of pose operations up to the depth",
  "The tests check a handful of products and inverses at random poses; they never chain operations nor compare against independent rigid-motion algebra.",
  PO, [("composition, inverse, action", H + "State/Pose.hpp operator*, inverse, transform"), ("carriers", H + "Agent.hpp transform; " + H + "Obstacle/Obstacle.hpp")],
  "every triple of poses and every sequence of {compose, invert, assign, set} up to depth 5 (quick 4), each compared with rotation matrices in long double; non-trivial: poses are distinct by construction", [FLOAT])
p("C02", "Every stored orientation is a unit quaternion of the rotation given",
  "Whatever way an orientation enters the library (constructors, setters, assignment, transformation, copies), and whatever its norm, the stored orientation is a unit quaternion that represents the same rotation. Everything computed from it is therefore a rigid motion and does not depend on the norm or the sign of the quaternion that was given.",
  ["inputs", "histories"], "all entry points times quaternions of norms 1e-3..1e3 and both signs, all sequences of entries up to the depth, and the geometric answers downstream",
  "The tests only use unit quaternions and few of the entry points.",
  PO + AT + OB, [("normalisation", H + "State/Pose.hpp constructors, set_orientation"), ("delegation", H + "State/State.hpp, " + H + "Agent.hpp, " + H + "Obstacle/Obstacle.hpp")],
  "every entry point x rotation x norm x sign, then every sequence of two or three entries; the stored quaternion is compared with the rotation matrix of the given one", [FLOAT, "the zero quaternion is not a rotation and is excluded"])
p("C03", "Attributes read back as set, and nothing else changes",
  "A freshly built object has every attribute initialised as its constructor documents, in particular the reference position of an obstacle is its position unless one is given. A setter changes exactly the attribute it names, by value or by coordinates, and every reader of that attribute agrees; copies and assignments carry all attributes and are independent of the original afterwards.",
  ["inputs", "histories"], "all constructors with full argument alphabets, all setter sequences up to depth 4 (quick 3), copies taken at every point of them",
  "The tests call a few getters after a few constructors; uninitialised members and cross-talk between setters need every constructor and every order of setters.",
  OB + EL + AG + HU + AT + PO, [("constructors and setters", H + "Obstacle/Obstacle.hpp, " + H + "Obstacle/Ellipsoid.hpp"), ("copy", S + "Obstacle/Ellipsoid.cpp Ellipsoid(const Ellipsoid&)")],
  "every constructor x argument alphabet and every setter sequence up to the depth against a plain record of the attributes; memory is pre-filled so that uninitialised members show", ["a moved obstacle keeps its reference position: the header documents the reference as a separate attribute"])
p("C04", "The look-ahead envelope always follows the agent",
  "At every moment the look-ahead envelope of an agent is the ellipsoid, turned along its heading, that spans from the agent to one unit ahead (just the agent if it rests), enlarged all around by its safety margin (at least 0.1), with no margin of its own. It is exact after construction and after every change of position, orientation, velocity or margin, in any order, for every copy.",
  ["inputs", "histories"], "all sequences of agent changes up to depth 6 (quick 5), all headings and margins of the alphabet",
  "The tests never look at the envelope; a stale envelope needs a particular order of setters.",
  AT, [("update of the envelope", S + "Agent.cpp update_envelope")],
  "every sequence of agent modifications up to the depth, envelope compared with its definition after each one", [FLOAT, "the horizon of 0.5 and the least width of 0.1 are constants of the library"])
p("C05", "Agents never share state",
  "Any number of agents made from each other by copy construction or assignment, including self-assignment and assignment in rings, stay independent: a change to one is visible in that one only, and each one's look-ahead envelope describes that agent alone. Destroying an agent leaves all others intact.",
  ["histories"], "all sequences of set, copy, assign and destroy over 2 and 3 agents up to depth 5 (quick 4), all sequences of 3-4 constructions (every constructor, same and different places), long chains of copies",
  "The tests use a single agent at a time; sharing shows only in histories that modify one agent and look at another.",
  AT, [("copy and assignment", S + "Agent.cpp Agent(const Agent&), operator=")],
  "every history of {modify one agent, copy, assign, re-create} over 2 or 3 agents, all agents compared with a value model after every step")
p("C06", "The environment is a registry of obstacles by name",
  "Adding registers an obstacle under its name unless that name is taken, removing unregisters it, and a refused addition or removal is reported by the documented exception and changes nothing. A lookup gives the registered obstacle itself, or the group of that name if the last update formed it, and otherwise the documented exception with the name; the published list changes only on an update.",
  ["histories"], "all sequences of add, remove, update and switching of aggregation over 4-5 names up to depth 6 (quick 5), with lookups of all names at the end of each; registries of up to 300, clusters of up to 60",
  "The tests run three short scripts; stale lookups and half-done failures show only in particular histories.",
  EN + [H + "Exceptions/ObstacleAlreadyExistsException.hpp", H + "Exceptions/ObstacleNotInEnvironmentException.hpp"], [("registry", S + "Environment.cpp add_obstacle, remove_obstacle, operator[]")],
  "every history up to the depth against a map model; all names (registered, removed, groups, unknown) are looked up", ["renaming an obstacle after it was registered is outside the property"])
p("C07", "An update groups obstacles exactly by overlap",
  "After an update, with aggregation on, the published list has exactly one entry per connected component of overlapping obstacles (margins included): the obstacle itself if it is alone, otherwise one group of all the members, named after them in order and centred on the mean of their positions, which is then the reference position of all of them. With aggregation off every obstacle is listed by itself, in any order of registration and for any names.",
  ["inputs", "configurations"], "all placements of 5-6 discs on a line, all orders of 6 names on 5 layouts, all triples of 5 shapes in 3 places, nestings of groups within rings, name sets, chains and scatters of up to 300 obstacles",
  "The tests aggregate three obstacles once; merging of clusters that grow together depends on the order in which overlaps are found.",
  AGG + EN + AG, [("clustering", S + "Utils/ObstacleGeneration/Aggregation.cpp aggregate_obstacles"), ("update", S + "Environment.cpp update")],
  "every placement / order / shape combination, list compared with the components of a reference overlap graph; layouts with a pair within 3 % of touching are skipped", ["pairs within 3 % of touching are not judged here (C12 judges them to 0.2 %)"])
p("C08", "An update depends on the present obstacles only",
  "The result of an update (list, groups, reference positions, and every geometric answer of the list) is a function of the obstacles present and their attributes at that moment, not of earlier updates, groupings, additions or removals. An obstacle that leaves a group has the reference position it would have had without the group, and a second update changes nothing.",
  ["histories"], "all histories of add, remove, move, resize, toggle and update up to depth 6 (quick 4-5), including homonyms, dissolving chains and registered groups, compared with a fresh environment in the same state",
  "The tests update each environment once; residues of former groups need at least move-update-move-update.",
  EN + AGG + AG + OB, [("update", S + "Environment.cpp update"), ("reference positions", H + "Obstacle/Obstacle.hpp, " + S + "Obstacle/Aggregate.cpp set_reference_position")],
  "every history up to the depth, then list and geometry compared with those of an environment built afresh", ["an obstacle with an individual reference position that leaves a group gets its position as reference (documented limit)"])
p("C09", "Distance to an ellipsoid is its generalised ellipse equation",
  "The distance of a point or agent to an ellipsoidal obstacle is the sum of its coordinates in the frame of the obstacle divided by axis length plus both safety margins, to the power of twice the curvature: one on the surface, growing without bound outwards along every ray from the centre, zero at the centre, the same for every rigid motion of both. A direction without any extent counts by its plain coordinate.",
  ["inputs", "histories"], "all combinations of 8 axis sets, 4 margins, 5 curvatures, rotations and positions, at 32 directions and several levels; obstacles modified through setters up to depth 4",
  "The tests evaluate a few points around unit-like ellipsoids with curvature one.",
  EL, [("distance", S + "Obstacle/Ellipsoid.cpp compute_distance_to_point")],
  "every attribute combination and every setter sequence, at points built to lie on chosen levels", [FLOAT])
p("C10", "The normal is the outward unit gradient of the distance",
  "The surface normal an ellipsoidal obstacle reports for an agent is the unit gradient, in the frame of the obstacle, of the distance the same obstacle reports at that agent, pointing outwards, for every curvature, margin, axis and pose. Moving along it increases the distance; moving across it does not change it to first order.",
  ["inputs", "histories"], "as for the distance: all attribute combinations, directions and levels, and setter sequences",
  "The tests check the direction for a few positions with curvature one; other curvatures and margins change the gradient.",
  EL, [("normal", S + "Obstacle/Ellipsoid.cpp compute_normal_to_agent")],
  "every attribute combination against the analytic gradient and against finite differences of the library's own distance", [FLOAT])
p("C11", "Membership in an ellipsoid agrees with its outline",
  "A point is reported inside an ellipsoidal obstacle exactly when it lies within its outline in the plane, axis lengths plus safety margin, in the frame of the obstacle. For elliptical outlines this is the same as a distance below one.",
  ["inputs", "histories"], "all attribute combinations and planar poses with points just inside and just outside the outline in 16 directions, far and near; tilted poses; setter sequences",
  "The tests query a few points.",
  EL, [("membership", S + "Obstacle/Ellipsoid.cpp point_is_inside")],
  "every attribute combination x points at levels 0.1 .. 30 around the outline, including 1 -+ 1e-4", [FLOAT, "membership is defined in the plane of the obstacle, and on the plain ellipse also for higher curvatures"])
p("C12", "Two obstacles intersect exactly when their footprints overlap",
  "Two obstacles, single or grouped, are reported as intersecting exactly when their planar footprints including safety margins share a point: also when one contains the other, when one is very thin or very small, whichever of the two is asked, and wherever the pair is moved or turned. A list or group intersects exactly when one of its members does.",
  ["inputs", "histories"], "all pairs of 6 shapes with 12 relative orientations, 8 directions, 8 separations from concentric to apart (0.99 and 1.01 of touching), in 3 places; wandering obstacles, lists and groups of up to hundreds of members",
  "The tests use five pairs; missed overlaps need particular elongations, containments or orders.",
  EL + OB + AG, [("ellipsoid against ellipsoid", S + "Obstacle/Ellipsoid.cpp is_intersecting_ellipsoid"), ("dispatch", H + "Obstacle/Obstacle.hpp is_intersecting")],
  "every pair x orientation x direction x separation against a reference overlap test by minimisation over the boundary", ["pairs within 0.2 % of touching are not judged", FLOAT])
p("C13", "Outline samples and area of an ellipsoid are true to its shape",
  "Sampling an ellipsoidal obstacle yields the requested number of points, all on its outline (with or without the safety margin, as asked), spaced evenly in the parameter once around and closed. Its area is the surface of the ellipsoid within the 1.3 % error of the formula, grows with every axis and with the margin, scales with the square of the size and does not depend on pose or on the order of the axes.",
  ["inputs", "histories"], "all attribute combinations, sample counts, margin flags and setter sequences",
  "The tests print or sum a few values.",
  EL, [("samples", S + "Obstacle/Ellipsoid.cpp sample_from_parameterization"), ("area", S + "Obstacle/Ellipsoid.cpp area")],
  "every attribute combination; samples checked against the outline equation, areas against numerical integration of the surface", [FLOAT])
p("C14", "Chords and heading references of an ellipsoid lie on the line and outline",
  "A line meets the outline of an ellipsoidal obstacle exactly when the query says so, and then the two reported points lie on both the line and the outline (margin included), whatever the slope of the line and the pose of the obstacle. The reference position derived from the heading of an agent is the middle of that chord, and stays as it was when there is none.",
  ["inputs", "histories"], "all attribute combinations with planar poses, lines through and past the obstacle in 16 directions incl. along both axes, agents with headings all around, setter sequences",
  "The tests use a few lines with finite slope; vertical lines in the frame of the obstacle are special.",
  EL + OB, [("chord", S + "Obstacle/Ellipsoid.cpp compute_interesection_points"), ("reference", S + "Modulation.cpp planar modulation")],
  "every attribute combination x line x heading against the quadratic solved in long double", [FLOAT])
p("C15", "Hulls follow the outlines of their members seen from the centre",
  "In every direction from its centre a hull is as far as the furthest (outer hull) or nearest (inner hull) member outline in that direction, and at least the least radius, up to its angular resolution; membership, distance with the agent's margin and unit normal in every direction, also across the wrap of the angle, are those of that outline. It is closed exactly when no range of directions is left at the least radius, and recomputing it for other members or another centre forgets the former ones.",
  ["inputs", "histories"], "8 sets of members x 4 centres x inner/outer x 3 resolutions x 2 places, 18 directions x 5 radii x 2 margins, and reuse sequences",
  "The tests build one or two hulls and look at a few points.",
  HU + MT, [("hull", S + "Obstacle/StarShapeHull.cpp compute_from_primitives"), ("lookup", S + "Utils/MathTools.cpp find_closest_points")],
  "every set x centre x direction against interval bounds of the exact outline over +-3.2 samples", ["interval oracle: radii are judged up to the angular resolution and smoothing of the hull", "members at the same height (the hull is planar)"])
p("C16", "A group behaves as the union of its members",
  "A group of obstacles, built at once or member by member in any order, is inside exactly where a member is or where its members enclose, has its centre at their mean, and hands every new reference position to all of them. Its distance, normal and closedness are those of the outer outline from outside and of the inner outline from inside, and refreshing it after the members were moved gives the group built afresh.",
  ["inputs", "histories"], "sets of members x ways of building x orders x moved centres, and all sequences of move, refresh, add and re-reference up to the depth",
  "The tests build a group of two or three and compare few numbers.",
  AG + HU, [("group", S + "Obstacle/Aggregate.cpp"), ("refresh", H + "Obstacle/Aggregate.hpp update_hull")],
  "every construction and history against the hull model and the members' own outlines", ["members at the same height", "interval oracle as in C15"])
p("C17", "Obstacle weights are a partition of unity led by the nearest",
  "The weights of any number of obstacles are non-negative, sum to one and never increase with distance; at equal distances they are equal, and reordering the obstacles reorders the weights. Obstacles at or below the critical distance share the whole weight, and as an obstacle approaches it continuously its weight tends to the whole.",
  ["inputs"], "all vectors of up to 4-5 distances from a 13-value alphabet (below, at, just above and far from critical), critical distances and powers, plus far-away vectors, approach sequences and long vectors of distances",
  "The tests use one vector of distances.",
  MO, [("weights", S + "Modulation.cpp weight_obstacles")],
  "every distance vector up to length 5 x critical distance x power against the definition", [FLOAT])
p("C18", "The modulation matrix has the prescribed eigenstructure",
  "The modulation of a single obstacle scales the direction away from its reference position by one minus the inverse distance, and every direction tangent to its surface by one plus it; on the surface the first vanishes. It is the identity in the limit of far obstacles, invertible outside, and the distance it reports is that of the obstacle to the agent.",
  ["inputs", "histories"], "all ellipsoid attribute combinations x directions x levels, references off the centre, hulls and groups, reactivity factors, setter sequences",
  "The tests multiply the factors for a few agents.",
  MO + EL, [("matrix", S + "Modulation.cpp compute_modulation_matrix, compute_basis_matrices, compute_diagonal_eigenvalues")],
  "every attribute combination and agent position: eigen-relations checked on reference direction and two independent tangents, and bases checked orthonormal", ["reference directions nearly tangent to the surface (alignment below 0.05) amplify rounding and are skipped", FLOAT])
p("C19", "Velocities are modulated in the frame of moving obstacles",
  "The velocity the obstacles impose on an agent is the weighted sum of the velocity of each obstacle's material point at the agent (linear plus angular), fading with distance. Adding a common velocity to agent and touched obstacle adds it to the result, and obstacles at rest impose none; the attributes of the obstacles are not altered.",
  ["inputs", "histories"], "up to 3 obstacles x linear/angular velocities x weights x agent positions, obstacles in groups, and sequences of changes of velocities",
  "The tests use one moving obstacle in one configuration.",
  MO, [("relative velocity", S + "Modulation.cpp compute_relative_velocities")],
  "every combination against a coordinate-free reference in long double", [FLOAT])
p("C20", "The commanded velocity is the modulation the method prescribes",
  "The velocity returned for an agent among any obstacles equals the prescribed combination: the command relative to the moving obstacles is modulated by each obstacle, the directions are averaged by their angles to the command and the magnitudes linearly, both by the weights, and the obstacle velocity is added back. This holds for one obstacle, several, and groups, for all critical distances and weight powers, and in planar mode with the reference positions derived from the heading.",
  ["inputs", "histories", "configurations"], "all ellipsoid attribute combinations singly; all subsets of 5 obstacles (moving, curved, own references) x 121 positions x 10 commands x 4 parameter sets; groups; planar sequences; crowds of up to 70",
  "The tests assert no velocity values for several obstacles, only that a simulation ends.",
  MO, [("modulation", S + "Modulation.cpp modulate_velocity")],
  "every configuration x position x command against a coordinate-free reference that uses no bases or matrices", ["nearly tangent references (alignment below 0.05) and agents within 1e-6 of the critical distance are skipped", FLOAT])
p("C21", "No velocity into an obstacle that is touched",
  "For an agent on the surface of an obstacle enlarged by both safety margins, or slightly inside it, the returned velocity relative to the obstacle's own motion there has no component along the surface normal, whatever is commanded. This holds with other obstacles around that are not touched as well, and for groups from inside and outside.",
  ["inputs"], "surface points of all ellipsoid attribute combinations in 32 directions x 18 commands; two touching or nearby obstacles; crowds; groups along their whole outline",
  "The tests simulate a few trajectories and never examine contact.",
  MO + EL + AG, [("vanishing eigenvalue at the surface", S + "Modulation.cpp compute_diagonal_eigenvalues")],
  "every obstacle x surface point x command; component along the reference normal", [FLOAT, "an agent in contact with two obstacles at once is not judged (they share the weight)"])
p("C22", "In closed loop obstacles are not entered and goals are reached",
  "An agent that always follows the returned velocity in small steps does not enter an obstacle, get deeper into the margin it keeps from one, or leave a closed room, whatever sequence of commands it is given. Heading for a goal past a single convex obstacle it arrives, unless it starts exactly behind it.",
  ["histories", "schedules"], "adversary: all sequences of 8 commands at every decision point up to depth 4-6 (3-5 for groups) in 10 scenes; skirting: 4 obstacles x 5 levels around the surface x 8 places x all sequences of 7 commands; convergence: 24-48 starts x 3 goals x 3 obstacles x margins x local mode",
  "The tests run four fixed simulations without checking penetration.",
  MO + EL + AG + EN, [("modulation", S + "Modulation.cpp modulate_velocity")],
  "bounded adversary: every sequence of commands, obstacle clearance checked after every integration step", ["integration step 0.02; penetration tolerance of a few percent of the distance function for the discretisation"])
p("C23", "The returned velocity is always finite and rest stays at rest",
  "For every arrangement of obstacles and agents, including agents at the centre, on the surface, deep inside, very far away, with zero or huge commands, overlapping, flat, tiny or huge obstacles and no obstacles at all, the returned velocity consists of numbers, in every mode. An agent commanded to rest among obstacles at rest stays at rest.",
  ["inputs", "configurations"], "all subsets of a pool of ordinary and extreme obstacles x agent positions incl. singular ones x commands x margins x modes; crowds",
  "The tests place the agent at generic points only.",
  MO + EL + AG + HU, [("finite check", S + "Modulation.cpp modulate_velocity")],
  "every subset x singular or generic position x command x mode", [FLOAT])
p("C24", "The returned velocity does not depend on frame, units, names or order",
  "Translating, turning or mirroring the whole scene, changing the unit of length or of time, renaming the obstacles or registering them in another order transforms the returned velocity in the same way and changes nothing else.",
  ["inputs", "configurations"], "all subsets of 4 obstacles x 6 positions x 3 commands x 9 transformations (speeds from 2e-6 to 4e5 of the usual); all 24 orders and names; groups on a 12x12 grid; crowds",
  "The tests use one frame, one unit and one order per scene.",
  MO + EN + EL + AGG, [("modulation", S + "Modulation.cpp"), ("order", S + "Environment.cpp update")],
  "every scene x transformation, both runs on the real code (metamorphic)", ["group hulls are sampled in fixed directions: for groups only translations and time scaling are judged", FLOAT])
p("C25", "Local mode reacts exactly when an obstacle meets the look-ahead",
  "In local mode the command is returned unchanged when no obstacle meets the present look-ahead envelope of the agent, and otherwise the result is that of the full mode. Without any obstacle the command is returned unchanged in every mode.",
  ["inputs", "histories"], "7 scenes up to the size of 60, 169 positions x 6 commands x 3 margins x repulsion, crowds of up to 130 with the one that is met anywhere in the list, and all sequences of 8 changes up to depth 5 (quick 4)",
  "The tests run local mode in one simulation.",
  MO + AT + EL, [("local test", S + "Modulation.cpp modulate_velocity is_local")],
  "every scene x position x command against reference overlap of envelope and obstacles", ["envelopes within 0.2 % of touching are not judged beyond being one of the two answers"])
p("C26", "Repulsion pushes a too-close agent back where it belongs",
  "The repulsion of an obstacle is zero from 1.1 times its surface on, and below that points from its reference position to the agent, growing as the distance shrinks; for groups it points back to the middle for an agent enclosed by them. Added to the modulated velocity it is the sum over the obstacles that are too close, and it leads an agent that is inside an obstacle out of it.",
  ["inputs", "histories"], "all ellipsoid attribute combinations x 16 directions x 7 levels x thresholds; all subsets of 4 obstacles x 441 positions; groups of one, two and four x 729 positions x margins; crowds; closed-loop escapes",
  "The tests never switch repulsion on with a checked result.",
  OB + EL + AG + MO, [("repulsion", S + "Obstacle/Obstacle.cpp generate_repulsion, get_repulsion_factor; " + S + "Obstacle/Aggregate.cpp compute_repulsion_vector")],
  "every configuration against the definition of the repulsion", [FLOAT])
p("C27", "A path exists exactly when no closed outline separates agent and target",
  "A target is reported reachable exactly when, for every obstacle whose outline is closed, agent and target are both inside or both outside of it. An agent is reported to be in an obstacle exactly when a disc of its safety margin (at least 0.1) around it overlaps the footprint of the obstacle including its margin.",
  ["inputs", "histories"], "5 scenes x 3 sizes x 2 places x all 81x81 pairs of agent and target, direct lists and environments; occupancy around all obstacles in 3 sizes; lists of up to 200; sessions in which a wall of a room opens and closes",
  "The tests ask one or two targets.",
  AT + AG + HU, [("reachability", S + "Agent.cpp exist_path, in_obstacle"), ("closedness", S + "Obstacle/StarShapeHull.cpp is_closed")],
  "every pair of grid points in every scene against the hull model", ["points within the resolution of a hull are not judged"])
p("C28", "The numerical tools compute what they document",
  "Linear and grid spacings contain the end points and the requested number of evenly spaced points, and too few points are refused by an exception; cartesian and polar coordinates are inverse to each other, also at the origin and on the axes. Sorting the columns by angle permutes them into ascending order, the neighbours found for an angle are the first sample not below it and the one after that, cyclically, and random numbers stay within their bounds.",
  ["inputs"], "all small integer sizes and end points of the alphabets, all 26 lattice directions and special angles, all permutations of up to 5-6 columns, all queries around up to 8 samples, all answers of the random source at its extremes",
  "The tests print or compare one example each.",
  MT, [("tools", S + "Utils/MathTools.cpp")],
  "every argument tuple of the alphabets; the random source is replaced by choices of the explorer", [FLOAT])
p("C29", "Queries change nothing and answer from the present state only",
  "Asking anything of obstacles, groups, environments, agents or the modulation (except planar mode, which moves reference positions on purpose) changes no attribute of any of them. The same question in the same state has the same answer, whatever was asked or changed before, in this or in another environment with the same names.",
  ["histories"], "all sequences of 14 kinds of queries alternating between two environments up to depth 3 (quick 2), all histories of queries and 9 kinds of changes up to depth 4 (quick 3), and all changes of one coordinate of one attribute by much or little after everything was asked, compared with fresh worlds",
  "The tests ask each question once on a fresh object.",
  MO + EN + EL + AG + AT + HU, [("const queries", "all of include/"), ("static data", S)],
  "every sequence of queries and changes; attributes compared bitwise, answers with those of a world nobody asked before")
p("C30", "Drawings show everything where it is",
  "Drawing obstacles, groups, agents and trajectories in one of the two planes issues exactly the curves and marks of the things given, at their present places: closed outlines, margins around them, names, references, hulls of groups, agent, goal and path, in the documented colours. A figure is opened first and closed last, saved exactly when a file name is given and shown exactly when asked, with one panel per plane.",
  ["inputs", "configurations"], "8 obstacles x planes x colours x changes; lists of up to 8 obstacles with any two neighbours grouped; all flags of the three kinds of figures x list sizes x path lengths (up to 5000 points)",
  "The tests call the plotting functions only with the display disabled, or not at all, and cannot see what was drawn.",
  PL + EL + AG + HU, [("drawing", S + "Obstacle/Ellipsoid.cpp draw; " + S + "Obstacle/StarShapeHull.cpp draw"), ("figures", S + "Utils/Plotting/PlottingTools.cpp")],
  "every combination; the repository's plotting front end runs for real and its calls are recorded where they arrive in Python, recorded calls are matched as a set per panel with the outlines of the reference", ["curves of tilted obstacles (projections) are judged only when the plane contains the section drawn"])
p("C31", "Printed descriptions show the present attributes",
  "Printing a pose, state, agent, obstacle or group writes its type, name and every attribute with its present value, and for groups those of every member, to the given stream and nothing more. The angle and axis shown for an orientation are those of that orientation.",
  ["inputs", "histories"], "all poses, velocities and rotations of the alphabets, all setter sequences up to depth 4-5 (quick 3-4), all groups of up to 3 members in every order",
  "The tests print to the console and assert nothing.",
  PO + AT + OB + EL + AG, [("printing", H + "Obstacle/Obstacle.hpp print; " + H + "Obstacle/Ellipsoid.hpp print; " + H + "State/Pose.hpp operator<<")],
  "every object and history; the text is parsed and its numbers compared", ["numbers are compared to the six digits printed by default"])

p("C32", "Obstacles live exactly as long as someone holds them",
  "An obstacle stays alive and valid as long as the caller, an environment it is registered in, the list of that environment's last update, a list the caller has kept, or a group holds it, and is destroyed, once and as what it is, as soon as none of them does. Groups made by an update disappear with the next update unless someone keeps them. Nothing accumulates over any number of updates, copies, queries and turnovers of the obstacles of an environment.",
  ["histories"], "all sequences of add, remove, let go, ask back, update, switch aggregation, copy, destroy, keep and forget over 3 obstacles and 2 environments up to depth 5-6; every kind of handle to every kind of obstacle; lists and groups that outlive what they came from; turnovers of up to hundreds of obstacles; bytes in use over 240 (thorough: 1200) cycles of ten kinds of work, every cycle with other names and places",
  "The tests keep every obstacle until the end of the program.",
  OB + EN + AG + AGG, [("shared ownership", H + "Environment.hpp add_obstacle, operator[], remove_obstacle, get_obstacle_list"), ("destruction through the base", H + "Obstacle/Obstacle.hpp destructor")],
  "every history against a record of who holds what; destructors count, weak handles watch, bytes in use are compared", ["handles are shared pointers, as everywhere in the interface"])
p("C33", "Obstacles of a user's own kind count by their own answers",
  "An obstacle kind that a user derives from the general obstacle, or from the ellipsoid, takes part in modulation, repulsion, planar references, paths, groups and printing by its own answers, exactly as a built-in one that gives the same answers would. A bare obstacle without geometry contains nothing, intersects nothing, repels nothing, has a zero normal, and leaves the answers about the others as they are.",
  ["inputs", "configurations"], "all mixtures of own and built-in kinds over 3-4 places x positions x commands x modes; kinds that override some answers or all; half planes, rooms with a say on whether they are closed, cages that answer as a group; members of groups; bare obstacles next to all others",
  "The tests use the built-in kinds only.",
  OB + EL + MO + HU, [("virtual interface", H + "Obstacle/Obstacle.hpp"), ("consumers", S + "Modulation.cpp; " + S + "Obstacle/Obstacle.cpp generate_repulsion, shift_reference_point")],
  "every configuration in twin worlds: own kind against the built-in one, or against the reference model fed with its answers", ["intersection with kinds derived from the general obstacle is not implemented by the library, so local mode and grouping are judged for kinds derived from the ellipsoid only"])
p("C34", "A failure in the middle of an operation is reported and leaves nothing half done",
  "When memory runs out in the middle of an operation, or an obstacle of the user's own throws while it is asked, the operation reports that very failure. Additions, removals, lookups, queries, constructions and assignments of agents then have changed nothing, and a failed update leaves the registry and the former list in place. Repeating an operation that failed, however often, gives what it gives without failures, and no memory is lost.",
  ["fault_sequences"], "34 operations x up to 6 worlds x every allocation they make and every call to a user's obstacle, failing once, and again at every point of the repetition where these are at most 60 (thorough: 130)",
  "The tests never run out of memory.",
  EN + AT + OB + EL + HU + AG + MO, [("order of effects", S + "Environment.cpp, " + S + "Agent.cpp operator="), ("consumers", S + "Modulation.cpp, " + S + "Obstacle/StarShapeHull.cpp")],
  "every operation is counted once without failure, then run with each of its allocations (operator new, and the malloc of Eigen) or calls to the user's obstacle failing; everything observable is compared before and after, and after the repetition with the undisturbed run", ["assignments of environments, refreshed groups and recomputed hulls need only give the proper result when repeated"])
p("C35", "Computations in different threads do not affect each other",
  "Threads may put any queries to the same environment, obstacles and agents at the same time, as long as none of them changes these, and may work with environments, obstacles and agents of their own without any regard to other threads. Each obtains exactly what it would obtain alone, whatever the interleaving; no two of them ever access the same memory, one of them writing, without synchronisation.",
  ["schedules", "configurations"], "all ordered pairs of 24 scripts (all queries, copies, constructions, updates of one's own world) on 3 shared worlds, in both orders and with a switch at selected accesses; two switches; scripts of two operations",
  "The tests have a single thread, and a race would show in few of their runs if they had more.",
  EN + OB + EL + AG + HU + AT + MO + MT, [("no state besides the objects", S + "Modulation.cpp, " + S + "Utils/MathTools.cpp, " + S + "Obstacle/Ellipsoid.cpp"), ("shared ownership", H + "Environment.hpp get_obstacle_list")],
  "the library is compiled with the compiler's thread instrumentation and linked with the explorer's own entry points, which see every access and switch threads at chosen ones; a pair whose serial run has no unordered conflicting accesses is equivalent to all its interleavings (partial order reduction), the chosen switches are run as well and compared with the threads alone", ["accesses inside the compiled C and C++ libraries are not seen, templates of the C++ library are compiled along and seen", "the random source and drawing are left out: they are shared by nature"])


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["tests"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None},
            }) + "\n")
    checks = []
    for q in P:
        checks.append({
            "property": q["id"],
            "quick_cmd": "python3 run.py " + q["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + q["id"],
            "evidence_file": "evidence/" + q["id"] + ".json",
            "technique": "stateless explicit-state model checking of the real code: exhaustive bounded enumeration of choice sequences against a reference model",
            "level": "model_checking",
            "level_note": "Every execution within the bounds (" + q["text"] + ") runs on the library compiled from the working tree and is compared with an independent reference model; nothing is sampled or capped."
                + (" Assumes: " + "; ".join(q["assumptions"]) + "." if q["assumptions"] else ""),
        })
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: the checks use the public API. Repairs of defects are the fix: commits listed in known_findings.txt."}, f, indent=1)
        f.write("\n")
    with open(V + "/checks/checks.json", "w") as f:
        json.dump({q["id"]: {"harness": q["id"].lower() + ".cpp", "rule": q["rule"], "assumptions": q["assumptions"], "shadow_plot": q["id"] == "C30", **({"ldflags": LDFLAGS[q["id"]]} if q["id"] in LDFLAGS else {}), **({"cflags": CFLAGS[q["id"]]} if q["id"] in CFLAGS else {}), **({"no_sanitize": True} if q["id"] in ("C34", "C35") else {}), **({"deep": True} if q["id"] in DEEP else {})} for q in P}, f, indent=1)
        f.write("\n")

LDFLAGS = {"C34": ["-Wl,--wrap=malloc"],
           "C35": ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split())]}
# deep bounds cheap enough to be the ones run on every change
DEEP = set("C01 C02 C03 C04 C05 C06 C09 C10 C11 C12 C13 C14 C15 C17 C18 C19 C20 C21 C23 C24 C25 C26 C27 C28 C31".split())
CFLAGS = {"C35": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]}
ORACLE = {
 "C01": "rotation matrices and translations in long double; laws checked on the library's own products as well",
 "C02": "Rodrigues matrix of the given axis and angle; norm of the stored quaternion to 1e-9",
 "C03": "a record of all attributes; bitwise equality where the library only stores",
 "C04": "centre, half axes and yaw from the definition; also the margin, reference and neutral state of the envelope",
 "C05": "one value record per agent; all agents compared after each step, from memory filled with a pattern",
 "C06": "std::map of names and the published list of the last update; exception type and name in the message",
 "C07": "connected components by union-find over the reference overlap test; names, centre, members, order of the list",
 "C08": "a fresh environment filled with clones in the present state (metamorphic), incl. distances, normals, hull radii",
 "C09": "the closed formula in the frame of the obstacle, at points constructed to lie on a level (inverse problem)",
 "C10": "analytic gradient of the reference and central differences of the library's own distance",
 "C11": "planar quadratic form; points at levels 1 -+ 1e-4",
 "C12": "minimum of one quadratic form over the boundary of the other (dense start, Newton), containment both ways",
 "C13": "outline equation; surface by numerical integration, with the published 1.061 % error of the formula plus rounding",
 "C14": "quadratic equation of the line in the scaled frame",
 "C15": "for each direction the extreme of the exact outlines over +-3.2 samples (interval), smoothing included",
 "C16": "the hull model of C15 twice (outer, inner), the members' own outlines, mean of the positions",
 "C17": "definition in long double, permutation and monotonicity on pairs of entries",
 "C18": "eigen-relations M r = (1 - 1/G) r, M t = (1 + 1/G) t on the reference direction and tangents from the reference normal",
 "C19": "sum of weighted material point velocities in long double",
 "C20": "coordinate-free modulation: v - 2 (n.v)/(n.r) r/G + ..., log map of directions as vectors, weighted, exp map back",
 "C21": "component of the relative velocity along the reference normal",
 "C22": "distance of the reference at every step of a 0.02 Euler integration; arrival within the horizon",
 "C23": "isfinite; zero for zero",
 "C24": "the transformed answer of the first run against the answer in the transformed world",
 "C25": "reference overlap of the envelope and the obstacles chooses command or full mode",
 "C26": "definition of the factor and direction; closed-loop escapes end outside",
 "C27": "hull model for membership and closedness; disc against footprint for occupancy",
 "C28": "definitions; rand() is interposed and answered by the explorer",
 "C29": "bitwise comparison of all attributes before and after; answers of a world nobody asked",
 "C30": "the repository's own matplotlibcpp runs and embeds Python; a stand-in for the Python package matplotlib (shadow/py) records every call; expected curves from the reference outlines",
 "C32": "a record of holders per obstacle; counting destructors, weak handles, bytes in use",
 "C33": "the built-in kind with the same answers, or the reference modulation fed with the answers of the own kind",
"C35": "the answers of each thread alone; the accesses of both threads, their locks and atomics",
 "C34": "the same world before the operation; the same operation without failures",
 "C31": "the text is parsed; numbers, names and types compared with the record",
}
COST = {}
if os.path.exists(V + "/tools/cost.json"):
    COST = json.load(open(V + "/tools/cost.json"))


def design():
    out = open(V + "/tools/design_head.md").read() + "## The properties\n\n"
    for q in P:
        c = COST.get(q["id"], {})
        out += "### %s %s\n\n" % (q["id"], q["title"])
        out += q["statement"] + "\n\n"
        out += "- *Enumerated:* %s.\n" % q["text"]
        out += "- *Decided by:* %s.\n" % q["rule"]
        out += "- *Oracle:* %s.\n" % ORACLE[q["id"]]
        if q["assumptions"]: out += "- *Not judged / assumed:* %s.\n" % "; ".join(q["assumptions"])
        out += "- *Why beyond tests:* %s\n" % q["tests"]
        for t in ("quick", "thorough"):
            if t in c: out += "- *Cost, %s:* %s.\n" % (t, c[t])
        out += "- *Anchors:* %s; harness `checks/%s.cpp`.\n\n" % (", ".join("`%s`" % f for f in q["files"]), q["id"].lower())
    out += open(V + "/tools/design_tail.md").read() + "\n" + open(V + "/tools/design_seeded.md").read()
    with open(V + "/DESIGN.md", "w") as f:
        f.write(out.rstrip() + "\n")


if __name__ == "__main__":
    main()
    design()
