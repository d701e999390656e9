"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Decision logic means what its Python text says",
  "For every decision logic in the supported Python subset and every concrete state of all agents, the set of discrete transitions (destination modes together with reset continuous values) that simulation offers an agent is exactly the set given by the documented reading of the program text: every branch whose conditions hold contributes its assignments, branches over the same variable are alternatives, and assignments to different variables combine. This includes comparisons (chained too), and/or/not, any/all and sum over other agents, nested if/elif/else, local definitions and helper functions. No branch is lost, invented, or evaluated with another branch's values.",
  ["programs", "inputs"], "all programs of the supported subset x all concrete states, modes and numbers of other agents",
  "Tests run a few fixed controllers end to end and look at no transition; the claim is over all programs and states.",
  ["verse/parser/parser.py", "verse/parser/astunparser.py", "verse/analysis/simulator.py", "verse/sensor/base_sensor.py", "verse/utils/utils.py"],
  [("parsing into guarded assignments", "verse/parser/parser.py ControllerIR.parse, proc, ModePath/appendVal"),
   ("evaluation of guards and values on a state", "verse/analysis/simulator.py check_sim_transitions, pack_env")])

p("C02", "A simulation tree is exactly the hybrid execution",
  "For every scenario, the tree returned by simulation is the execution of the hybrid automaton: each agent follows its mode's flow from its initial state, a transition is taken at the first sampled instant where some agent's guard holds and not before or after, the child starts at that instant in the destination modes from the reset state, agents that do not jump carry on along their trajectories unchanged, and every combination of enabled alternatives gets its own child. Sampled times are evenly spaced from 0 to the horizon along every branch, and the transition limit is respected exactly.",
  ["programs", "inputs", "configurations"], "all scenarios (agents, modes, flows, decision logics, initial states, horizons, steps, transition limits)",
  "Tests only run a few scenarios and check nothing about the tree; wrong first-hit index, dropped child, shared mutable state or shifted time would pass.",
  ["verse/analysis/simulator.py", "verse/analysis/analysis_tree.py", "verse/scenario/scenario.py"],
  [("simulation loop", "verse/analysis/simulator.py simulate, simulate_one, proc_result, get_transition_simulate"),
   ("root construction", "verse/scenario/scenario.py simulate")])

p("C03", "Simple simulation agrees with running the decision logic in Python",
  "For every decision logic, the simple simulation mode produces the trajectory obtained by calling the user's decision function on the sensed state at every sampled instant, jumping at the first instant it returns something different from the ego state, to exactly the modes and continuous values it returned, and stopping where it raises an assertion. For decision logics that are deterministic, this trajectory coincides with the one computed by the full simulation.",
  ["programs", "inputs"], "all executable decision logics and initial states",
  "Tests never call the simple simulator nor compare the two.",
  ["verse/analysis/simulator.py", "verse/scenario/scenario.py", "verse/utils/utils.py"],
  [("simple simulation", "verse/analysis/simulator.py simulate_simple, get_transition_simulate_simple, convertStrToEnum"), ("parsed simulation", "verse/analysis/simulator.py simulate")])

p("C04", "Safety assertions are reported exactly where they are violated",
  "Simulation reports, for each agent, exactly the labels of the safety assertions that fail (their enclosing conditions hold and the assertion does not) at the first sampled instant where any fails, and the branch stops there unless told to continue; a branch in which no assertion ever fails reports none. Verification reports an assertion whenever some state of the computed reachable set violates it, never reports one that every state of the reachable set satisfies, and does not explore past the first step where one is reported.",
  ["programs", "inputs", "configurations"], "all decision logics with assertions (top-level or nested in conditions), all agents, all initial states and initial sets",
  "Tests never look at the assert results; a missed assertion is a false proof of safety.",
  ["verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/automaton/guard.py", "verse/parser/parser.py"],
  [("assert checking in simulation", "verse/analysis/simulator.py check_sim_transitions, get_transition_simulate"),
   ("assert checking in verification", "verse/analysis/verifier.py get_transition_verify"), ("assert extraction", "verse/parser/parser.py")])

p("C05", "Guards over sets of states: no enabled transition is missed",
  "During verification, an agent's transition is considered possible at a step whenever some state inside the step's bounding box enables it, impossible when no state in the box enables it, and unavoidable exactly when every state in the box enables it. This holds for arithmetic comparisons over own and other agents' variables, mode tests, and/or/not, any/all and sum over other agents. Tests relative to a road map's lanes never miss a transition enabled in the box either, and a single such test on a lane of one segment is decided exactly.",
  ["programs", "inputs"], "all guard formulas of the supported language x all boxes (degenerate ones included) x mode valuations x numbers of other agents",
  "Tests verify three scenarios and never check which transitions were possible; a missed one silently drops reachable states.",
  ["verse/automaton/guard.py", "verse/analysis/verifier.py", "verse/sensor/base_sensor.py", "verse/parser/parser.py"],
  [("guard evaluation", "verse/automaton/guard.py GuardExpressionAst.evaluate_guard_disc/_cont/_hybrid, parse_any_all_new"),
   ("use of the verdict", "verse/analysis/verifier.py get_transition_verify")])

p("C06", "Resets over sets of states enclose every possible result",
  "When verification takes a transition from a box of states, the initial set of the successor contains the state that the reset assigns for every point of that box (of every agent the reset reads), keeps the variables that are not assigned within their box, and goes to the destination modes the program names. When several assignments may be enabled by the box, there is one successor for every combination of them that some state of the box enables, including the combinations in which other variables stay unassigned, and none for a combination that no state enables. Resets are polynomials of degree at most one in each variable (the form the verifier documents); where each variable occurs at most once in them, each bound of the successor's box is actually attained.",
  ["programs", "inputs"], "all (multi)affine reset expressions and mode assignments x all boxes",
  "Tests never examine the initial set after a jump.",
  ["verse/analysis/verifier.py", "verse/parser/parser.py", "verse/utils/utils.py"],
  [("reset on boxes", "verse/analysis/verifier.py apply_reset / apply_cont_var_updates"), ("combination of assignments", "verse/analysis/verifier.py get_transition_verify")])

p("C07", "The verified reachable set contains every simulation",
  "For every scenario in which one agent takes transitions and the other agents are stationary or not read by its decisions, and whose flows are enclosed by the tube computation, every simulation that starts inside the initial set is covered by the reach-tube tree: the mode sequence it takes exists in the tree, at every sampled instant the agent's state lies in a box reported for that branch within the window in which the branch can be entered, and the other agents' states lie in the boxes reported for that time. Hence a verification without reported assertions means that no such simulation violates one.",
  ["programs", "inputs", "histories"], "all scenarios with one jumping agent and any number of other agents, all initial sets and all points in them, all horizons and transition limits",
  "Tests only run verification; the inclusion is over all initial points and branches.",
  ["verse/analysis/verifier.py", "verse/analysis/simulator.py", "verse/analysis/dryvr.py", "verse/automaton/guard.py", "verse/scenario/scenario.py"],
  [("verification loop", "verse/analysis/verifier.py compute_full_reachtube, proc_result"), ("simulation loop", "verse/analysis/simulator.py")])

p("C08", "Reach-tube trees are well formed",
  "In every verification result each agent's tube in each node is a gap-free sequence of boxes with lower bound at most upper bound, consecutive boxes covering consecutive time steps from the node's start time to its end; a child starts at a time inside its parent's tube, one transition deeper, by a transition of one agent, and agents that did not jump continue with exactly the boxes of the parent. Node identifiers are unique, branches end at the horizon, at an assertion or at the transition limit, and the tree enumerates every node exactly once. The summaries of a tree (its leaves, its height, each agent's first transition) are those of its nodes.",
  ["programs", "inputs", "configurations"], "all scenarios, horizons, steps, transition limits",
  "Tests never inspect the structure; plotting hides gaps, and the bound on transitions is never exercised.",
  ["verse/analysis/verifier.py", "verse/analysis/analysis_tree.py"],
  [("node construction", "verse/analysis/verifier.py proc_result; verse/analysis/analysis_tree.py AnalysisTreeNode.new_child, AnalysisTree")])

p("C09", "A computed tube encloses the trajectories of its initial set",
  "For every initial box, flow whose distance between trajectories never grows faster than the sampled ones show, bloating method and horizon, the tube computed from simulations encloses the trajectory from every sampled training state at every sampled time, encloses the initial box, and covers the horizon with evenly spaced time steps; for flows that preserve distances it encloses the trajectory from every point of the box.",
  ["inputs", "configurations"], "all boxes (degenerate dimensions included), flows from the stated class, both bloating methods, steps and horizons",
  "Tests run one bloating configuration and never compare with an exact trajectory.",
  ["verse/analysis/dryvr.py", "verse/analysis/verifier.py"],
  [("tube computation", "verse/analysis/dryvr.py calc_bloated_tube, bloat_to_tube, get_reachtube_segment, global/piecewise discrepancy")])

p("C10", "Discrete-time reachability methods enclose every discrete execution",
  "The discrete sampling method returns one box per sample time that contains the state at that time of every sampled execution, and of every execution that spreads no faster than the sampled ones. The mixed-monotone methods (discrete and continuous time; decomposition function, Jacobian or program text given) return boxes, one per step, that contain the states at both ends of the step of every execution from the initial set under every admissible uncertain parameter, provided the decomposition is correct (or the map monotone in each variable); for monotone flows these bounds are attained.",
  ["inputs", "configurations"], "all initial boxes, linear/monotone discrete maps, horizons, steps and uncertain-parameter ranges",
  "No test uses these methods.",
  ["verse/analysis/dryvr_disc.py", "verse/analysis/mixmonotone.py", "verse/analysis/verifier.py"],
  [("discrete tube", "verse/analysis/dryvr_disc.py"), ("mixed monotone decomposition", "verse/analysis/mixmonotone.py")])

p("C11", "Incremental analysis gives the same answer as a fresh one",
  "With incremental mode on, after any history of earlier simulations or verifications of the same scenario with edited initial states or decision logic, the tree returned is the same (simulation) or covers the same branches and states (verification), with the same assertions, as the tree returned by a fresh non-incremental run of the current scenario.",
  ["histories", "programs", "configurations"], "all histories of edits of initial states, horizons and decision logics followed by a run",
  "No test runs twice with edits between; a stale cache entry needs a particular history.",
  ["verse/analysis/incremental.py", "verse/analysis/simulator.py", "verse/analysis/verifier.py"],
  [("caches", "verse/analysis/incremental.py SimTraceCache, TubeCache, TransCache, convert_reach_trans, path diffs")])

p("C12", "Parallel analysis gives the same answer as sequential analysis",
  "With parallel execution on, simulation and verification return the same tree (same branches in structure, modes, traces and assertions, up to the order of siblings) as with it off, for every scenario, every task look-ahead and every order in which tasks complete (verification in incremental mode, where the answer may depend on which cached tube is reused, excepted).",
  ["schedules", "programs", "configurations"], "all scenarios x look-ahead settings x completion orders of the tasks",
  "Tests do not compare the two modes.",
  ["verse/analysis/simulator.py", "verse/analysis/verifier.py"],
  [("task dispatch", "verse/analysis/simulator.py simulate; verse/analysis/verifier.py compute_full_reachtube")])

p("C13", "Partitioned verification covers everything",
  "For every partition count and choice of partitioned dimensions, with or without partitioning the initial set, verification by partitions covers every simulation from the initial set and every branch such a simulation takes (for the scenarios in which ordinary verification does, see C07). Each box is no wider than the hull of the boxes computed for the pieces on their own, so with one partition, or for flows on which cutting a box gains nothing, the tree agrees with that of ordinary verification.",
  ["inputs", "configurations"], "all initial boxes, partition counts, dimension choices, decision logics",
  "No test uses partitioned verification.",
  ["verse/analysis/verifier.py", "verse/scenario/scenario.py"],
  [("partitioning", "verse/analysis/verifier.py compute_full_reachtube_partitioned, partition helpers")])

p("C14", "A saved analysis tree loads back unchanged",
  "Saving any analysis tree to a file and loading it yields a tree with the same shape, and for every node the same identifiers, initial sets, modes, traces, start times, assertion results and type; saving the loaded tree again gives the same content.",
  ["inputs", "histories"], "all trees produced by simulation and verification (with and without assertions, transition limits and branching)",
  "No test saves or loads trees.",
  ["verse/analysis/analysis_tree.py"],
  [("dump/load", "verse/analysis/analysis_tree.py AnalysisTree.dump/load, AnalysisTreeNode.to_dict/from_dict")])

p("C15", "Tree comparison is a containment order",
  "Comparing trees for containment is reflexive and never fails on computed trees. For reach-tube trees it answers yes exactly when, at every time step of the second tree and for each of its agents and state variables, the values in the second tree's boxes lie in the union of the first tree's boxes widened by the tolerance. For simulation trees it answers yes exactly when the trees have the same branches, in any order of siblings, and the states of corresponding traces differ by less than the tolerance. Strict comparison requires the same agents, the other one that the first tree has all agents of the second; equality is containment both ways.",
  ["inputs", "histories"], "all pairs of trees related by widening, shifting, dropping or adding branches",
  "No test compares trees.",
  ["verse/analysis/analysis_tree.py"],
  [("comparison", "verse/analysis/analysis_tree.py AnalysisTree.contains, is_equal")])

p("C16", "Sensors report exactly the agents' states",
  "The default sensor gives each agent its own state under ego and every other agent's state (continuous values, intervals in verification, modes and static parameters) under the matching parameter, each other agent exactly once, in a fixed order, never swapping agents or lower and upper bounds and never altering the states it was given.",
  ["inputs", "programs"], "all numbers of agents, state layouts, argument lists of the decision logic, points and boxes",
  "Tests use the sensor only implicitly.",
  ["verse/sensor/base_sensor.py", "verse/sensor/example_sensor"],
  [("sense", "verse/sensor/base_sensor.py BaseSensor.sense"), ("packing", "verse/utils/utils.py / simulator.py pack_env")])

p("C17", "Planar lane coordinates are a faithful change of coordinates",
  "For every straight, circular and composite planar lane, converting a lane position (longitudinal, lateral) to Cartesian and back returns it, the direction of the centreline is the reported heading, the lane reports membership exactly for points within its width and its length (with one vehicle length past both ends), and a composite lane or map chooses the nearest segment and its longitudinal, lateral and heading queries agree with that segment. A lane rebuilt from its own configuration is the same lane.",
  ["inputs"], "all lane parameters and positions on or near the lane",
  "Tests only build maps; no query is compared.",
  ["verse/map/lane_segment.py", "verse/map/lane.py", "verse/map/lane_map.py"],
  [("coordinate maps", "verse/map/lane_segment.py StraightLane, SineLane, CircularLane"), ("selection", "verse/map/lane.py, verse/map/lane_map.py")])

p("C18", "Three-dimensional lane coordinates are a faithful change of coordinates",
  "For every straight and circular three-dimensional lane, whether an arc is given by its centre or by its ends, converting a lane position (longitudinal, lateral, angle) to Cartesian and back returns it, the centreline runs through the given ends with the reported direction, membership holds exactly for points inside the lane's cross-section and length (with one vehicle length past both ends), a lane rebuilt from its configuration is the same lane, composite lanes and maps choose the nearest segment beside the point, and waypoints handed to vehicles lie ahead on the lane at the distance travelled.",
  ["inputs"], "all 3-D lane parameters and positions",
  "No test covers them.",
  ["verse/map/lane_segment_3d.py", "verse/map/lane_3d.py", "verse/map/lane_map_3d.py"],
  [("coordinate maps", "verse/map/lane_segment_3d.py"), ("selection", "verse/map/lane_3d.py, verse/map/lane_map_3d.py")])

p("C19", "Map transition tables follow the road geometry",
  "For every road map shipped or loaded from OpenDRIVE, a lane change is offered exactly to the geometrically adjacent lane on the named side and never off the road or to a non-existing lane, ending it leads to the lane the vehicle is then in, and every lane and track named by the map exists in it and lies where its description puts it. Analyses take a transition that changes both the agent mode and the track only as the map's table lists it, and one that the map refuses does not affect the others.",
  ["inputs", "configurations"], "all tracks and mode pairs of all example maps and of generated multi-lane roads and intersections",
  "Tests look at one map's table only.",
  ["verse/map/example_map", "verse/map/lane_map.py", "verse/map/opendrive_parser.py"],
  [("transition tables", "verse/map/lane_map.py h, h_exist; verse/map/example_map/*.py"), ("OpenDRIVE import", "verse/map/opendrive_parser.py")])

p("C20", "Agent flows start at the given state and follow their equations",
  "Every shipped agent's trajectory starts exactly at the given state, is sampled at evenly spaced times from 0 through the horizon, satisfies the agent's published equations of motion (including saturation of steering, speed and acceleration) up to integration accuracy, and simulating twice for half the time from the reached state gives the same result as simulating once.",
  ["inputs"], "all initial states, modes, lanes, horizons and steps for every shipped agent",
  "Tests simulate one or two fixed initial states.",
  ["verse/agents/base_agent.py", "verse/agents/example_agent"],
  [("flows", "verse/agents/base_agent.py TC_simulate and verse/agents/example_agent/*.py")])

p("C21", "Star-set operations compute the set they name",
  "For every star set, affine images, intersection with half-spaces, membership, containment, emptiness, maximization, bounding boxes and conversions from polytopes or boxes denote exactly the set operation they are named for: each agrees with a direct computation of the same set; a star that combines or fits several sets or points contains them all; every point sampled from the set is a member of it; and verification with star sets encloses every execution from the initial star set.",
  ["inputs"], "all bounded non-degenerate star sets (any dimension and number of predicates) and points, matrices and half-spaces",
  "The star tests in the repository do not run at all.",
  ["verse/stars/starset.py"],
  [("set operations", "verse/stars/starset.py StarSet")])

p("C22", "Printing and re-reading program text preserves its meaning",
  "Every expression and statement of the decision logic language, printed as text by the tool, reads back as the same syntax tree, so that a decision logic loaded from its printed form behaves as the original.",
  ["programs"], "all expressions and statements of the Python subset with all operator nestings",
  "No test prints programs with nested operators.",
  ["verse/parser/astunparser.py", "verse/parser/parser.py"],
  [("unparser", "verse/parser/astunparser.py")])

p("C23", "Analyses are reproducible and leave the scenario untouched",
  "Running simulation or verification does not change the scenario (initial sets, modes, agents, maps) or the caller's objects, so repeating a run, after any other runs, gives the same result. Sampled initial states lie inside the initial set, the same seed always gives the same sample and run, and wrongly sized initial states are rejected.",
  ["histories", "inputs", "configurations"], "all sequences of runs on one scenario and all seeds and initial sets",
  "Tests run each scenario once.",
  ["verse/scenario/scenario.py", "verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/utils/utils.py"],
  [("scenario API", "verse/scenario/scenario.py set_init, simulate, simulate_multi, verify"), ("sampling", "verse/utils/utils.py sample_rect")])

p("C24", "Plots show exactly the computed data",
  "The plots, animations and tree graphs of a simulation or verification result show, for each agent, each node and the chosen dimensions, the data in the tree: every simulated point lies on the drawn trajectory, every reachable box is drawn with its bounds (also as star sets, in three dimensions, combined, sampled, or restricted to a slice of time, as asked for), no other agent data is drawn, nothing of an earlier plot is shown, and the tree is not changed by plotting it. An animation shows at each time the states or boxes of that time. A drawn map shows each lane's boundary; the graph of a tree has the tree's nodes and edges.",
  ["inputs"], "all trees, maps and choices of plotted dimensions, sample rates, slices and colours",
  "Tests call the plotter and look at nothing.",
  ["verse/plotter/plotter2D.py", "verse/plotter/plotter3D_new.py", "verse/plotter/plotterStar.py", "verse/analysis/analysis_tree.py"],
  [("figure construction", "verse/plotter/plotter2D.py reachtube_tree, reachtube_anime, simulation_tree, simulation_anime, draw_map"), ("star plots", "verse/plotter/plotterStar.py"), ("3-d plots", "verse/plotter/plotter3D_new.py"), ("tree graphs", "verse/analysis/analysis_tree.py visualize, visualize_dot")])

p("C25", "Fixed-point checks are sound",
  "The fixed-point test on a reach-tube tree answers yes only if the states reached late in the tree are contained, mode by mode, in states reached earlier, so that further exploration adds nothing; it answers no whenever some late state lies outside every earlier one in the same mode.",
  ["inputs", "histories"], "all reach-tube trees",
  "No test covers fixed points.",
  ["verse/utils/fixed_points.py"],
  [("fixed points", "verse/utils/fixed_points.py")])

p("C26", "Geometry and list utilities meet their definitions",
  "Angle wrapping gives the equivalent angle in the principal range, de-duplication keeps exactly one representative of every key in first-seen order, merging of boxes gives the smallest enclosing box, and distances, corner and containment tests for rectangles, circles and polygons agree with the analytic definition.",
  ["inputs"], "all finite inputs",
  "The existing tests do not call them directly.",
  ["verse/utils/utils.py"],
  [("utilities", "verse/utils/utils.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
