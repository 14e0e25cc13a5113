#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that anchors and wording are edited in one place).
import json, os
DT='src/dynamic_trajectory.cpp'; DTH='include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
DW='src/dynamic_waypoint.cpp'; DWH='include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
TST='include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'
MOD='include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'
M='subpackages/mav_trajectory_generation/'
MI=M+'include/mav_trajectory_generation/'
MS=M+'src/'
LIN=MI+'impl/polynomial_optimization_linear_impl.h'
NL=MI+'impl/polynomial_optimization_nonlinear_impl.h'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':state,'meaning':'state the property is about','where':files[0]}]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Shared planner state is free of data races',
  'While control calls (setWaypoints, appendWaypoint, modifyWaypoint(s), setSpeed, updateVehiclePosition, the status getters) come from any threads, and one thread at a time evaluates (evaluateTrajectory, getMaxTime/getMinTime, getDynamicWaypoints), those threads, the planner\'s worker thread and its asynchronous computation never access the same non-atomic planner state concurrently with one of them writing. Every shared member is atomic, is accessed under one common mutex wherever two threads may meet, or is handed over through the "computing" flag and the future; no public call hands out a reference or pointer into that state.',
  ['schedules'],'every interleaving of the control, evaluating, worker and asynchronous computation threads',
  'A test runs a few interleavings; a missing or misplaced lock only misbehaves in schedules the test does not hit.',
  [DT,DTH,TST],[('mutexes and atomics of DynamicTrajectory',DTH),('todoThreadLoop',DT),('computeTrajectory',DT),('checkTrajectoryGenerated/swapTrajectory',DT),('ThreadSafeTrajectory locks',TST)],
  'members of DynamicTrajectory and ThreadSafeTrajectory')
p('C02','Planner locks are always released and never deadlock',
  'Every mutex a planner function acquires is released on every way out of it, including when a call in between throws; no thread acquires a mutex it already holds, and no two threads can acquire the planner\'s mutexes in opposite orders. No thread waits for the asynchronous computation (or joins the worker) while holding a mutex that the awaited thread needs.',
  ['schedules'],'every interleaving and every exceptional exit',
  'Deadlocks and leaked locks need a specific interleaving or a throwing call that tests do not produce.',
  [DT,DTH,TST],[('lock_guard and manual lock/unlock regions',DT),('swapTrajectory: future.get under future_mutex_',DT),('ThreadSafeTrajectory locks',TST)])
p('C03','A regeneration request is never lost',
  'After setWaypoints, appendWaypoint, modifyWaypoints or modifyWaypoint with regeneration returns, a new trajectory that takes that command into account is going to be generated: the request stays raised until the worker has taken the queued command out of the queues in the same critical section. A request is never withdrawn by the adoption of an older trajectory, by a concurrent command, by a modification that asks for no regeneration, or by the worker finishing or skipping an earlier generation.',
  ['schedules','histories'],'every interleaving of commands with the worker\'s and the evaluator\'s steps',
  'The loss needs a command to arrive inside a short window of the worker or of the adoption, which a test does not control.',
  [DT,DTH],[('generate_new_traj_ writes',DT),('generateWaypointsForTheNextTrajectory critical section',DT)],'generate_new_traj_ and the three command queues')
p('C04','Queued waypoint commands are consumed whole, each exactly once',
  'The waypoints of the next trajectory are the waypoints given to the last setWaypoints (or, when there was none, the not yet passed active ones re-based on their current positions), followed by the appended ones in order, with the last queued position of every modified name applied; each queue is emptied in the same critical section in which it was read, so that no command is dropped or applied twice. setWaypoints replaces everything queued before it with all waypoints it is given in their order, appendWaypoint adds its waypoint at the end, and modifyWaypoint(s) keeps the latest position per name, for every entry it is given.',
  ['schedules','histories'],'every sequence of set/append/modify calls and every interleaving with the worker',
  'Tests exercise one or two command sequences; the guarantee is about every history and about commands landing during a drain.',
  [DT],[('setWaypoints/appendWaypoint/modifyWaypoint(s)',DT),('generateWaypointsForTheNextTrajectory',DT),('todoThreadLoop live modification branch',DT)],'waypoints_to_be_set_, waypoints_to_be_added_, waypoints_to_be_modified_')
p('C05','A finished trajectory is adopted whole, once, and only when ready',
  'An evaluation adopts a computed trajectory only after its computation has finished; it then always installs the trajectory, the parameters it was generated with, and its waypoints together, and only afterwards lets the worker start another generation. The worker starts a generation only when none is in progress, marks it in progress before launching it, and launches it only after its waypoints, parameters and start time have been stored.',
  ['schedules','histories'],'every interleaving of generation, adoption and evaluation',
  'Partial or premature adoption shows only when the computation finishes, or the worker runs, at a particular instruction of the evaluator.',
  [DT],[('checkTrajectoryGenerated',DT),('swapTrajectory/swapDynamicWaypoints',DT),('generateTrajectory',DT),('todoThreadLoop',DT)],'traj_, future_traj_, parameters_, new_parameters_, dynamic_waypoints_, next_trajectory_waypoint_, computing_new_trajectory_')
p('C06','The regeneration notice is raised for every change and read exactly once',
  'getWasTrajectoryRegenerated returns true exactly once after each change: the notice is raised whenever a new trajectory is adopted and whenever a queued modification changes an active waypoint, after the change is in place, and it is lowered only by being reported to a caller. Concurrent readers never both receive, nor lose, the same notice.',
  ['schedules','histories'],'every interleaving of changes with readers of the notice',
  'A read-then-clear window loses a notice only for one interleaving.',
  [DT],[('getWasTrajectoryRegenerated',DT),('swapTrajectory',DT),('applyWaypointModification',DT)],'trajectory_regenerated_')
p('C07','Destroying a planner stops and waits for all its background work',
  'Destroying a DynamicTrajectory at any moment asks the worker to stop, waits for the worker and for any computation in progress, and only then releases the state they use; the worker terminates promptly from every state because every loop it can be in observes the stop request. The worker and the computation are never detached.',
  ['schedules','crash_points'],'destruction at any point of the worker\'s loop or of an asynchronous computation',
  'Use after destruction needs the destructor to run while a computation is in flight.',
  [DTH,DT],[('~DynamicTrajectory',DTH),('todoThreadLoop',DT),('future_traj_ member order',DTH)],'stop_process_, worker thread, future_traj_')
p('C08','Plotting evaluations leave no trace; control evaluations move the clock',
  'evaluateTrajectory with for_plotting changes none of the times the planner uses as "now" for stitching, waypoint filtering and modifications, while without it both the global and the corresponding local time of the evaluation are always recorded together, before the time compensation is added. Times handed in are global: they are converted with the start time of the trajectory in use.',
  ['inputs','histories'],'every evaluation time, flag combination and planner state',
  'Needs plotting calls interleaved with regenerations at chosen times; tests only look at returned samples.',
  [DT],[('evaluateTrajectory',DT),('convertFromGlobalTime/convertIntoGlobalTime',DT)],'parameters_.last_global_time_evaluated, parameters_.last_local_time_evaluated')
p('C09','Trajectories are only evaluated inside their time span',
  'Whatever time the user asks for, the planner evaluates the polynomial trajectory at a time clamped to [0, end of that trajectory]: before the start it yields the initial state, after the end the final one. The trajectory container reports a failure for times past its end, and every range or whole-trajectory sampler touches only existing segments and times inside the requested span.',
  ['inputs'],'every evaluation time, trajectory and sampling interval',
  'Boundary times and odd sampling intervals are infinitely many; tests sample the interior.',
  [DT,MS+'trajectory.cpp',MS+'trajectory_sampling.cpp'],[('evaluateModifiedTrajectory',DT),('Trajectory::evaluate/evaluateRange',MS+'trajectory.cpp'),('sampleTrajectoryInRange',MS+'trajectory_sampling.cpp')])
p('C10','References are consistent derivatives of one motion',
  'The position, velocity and acceleration an evaluation returns are the zeroth, first and second derivative of the same trajectory at the same instant, and, at positive global times, each includes the compensation of every named waypoint, of the same derivative order; the velocity and acceleration compensations are the first and second time derivatives of the position compensation.',
  ['inputs'],'every time, trajectory and set of modified waypoints',
  'A wrong derivative order or formula is only visible near modified waypoints at particular times.',
  [DT,MOD,DW],[('getReferences',DT),('evaluateModifiedTrajectory',DT),('GaussianModifier::operator()',MOD),('trajectoryCompensation',DW)])
p('C11','Generated trajectories start at the current state and end at rest',
  'A trajectory planned from scratch starts at the last reported vehicle position with zero velocity and acceleration; one stitched to the trajectory in use starts with the position, velocity and acceleration of that trajectory at the compensated time of the last evaluation. Every planned trajectory ends at its last waypoint with zero velocity and zero acceleration.',
  ['inputs','histories'],'every vehicle position, evaluation time and waypoint list',
  'The tests check none of the boundary derivatives; a mismatch is a jump in the command at one instant.',
  [DT],[('appendDronePositionWaypoint',DT),('stitchActualTrajectoryWithNewWaypoints',DT),('extractVerticesFromWaypoints',DT)])
p('C12','The commanded speed and the acceleration limit reach every optimisation',
  'Every trajectory is computed with the speed most recently set when its computation starts and with the fixed acceleration limit: both are used to allocate the segment times and both are imposed on the optimiser as maximum velocity and maximum acceleration before it runs. A speed set at any moment stays in effect: neither an ongoing generation nor the adoption of a trajectory reverts it.',
  ['inputs','schedules'],'every speed and every moment at which it is set',
  'The tests set the speed once before planning; losing it needs setSpeed during a generation.',
  [DT],[('computeTrajectory',DT),('setSpeed/getSpeed',DT),('swapTrajectory: parameters_ = new_parameters_',DT)],'parameters_.speed, new_parameters_.speed')
p('C13','Adopted waypoints carry the index and arrival time of their trajectory',
  'When a trajectory is adopted, every waypoint it was computed from carries its position in the sequence as index and, as time, the start time of that trajectory plus the sum of the durations of exactly the segments that precede it; its modifiers are centred on that same time. The waypoints are given to the optimiser in their order, one vertex each.',
  ['inputs'],'every waypoint list and segment-time allocation',
  'Tests look at the final trajectory, not at every waypoint time; an off-by-one shifts one waypoint only.',
  [DT,DWH],[('computeTrajectory: setIndex/setTime loop',DT),('getCummulativeTime',DT),('DynamicWaypoint::setTime',DWH)])
p('C14','A modification reaches exactly the waypoints of its name, coherently',
  'Modifying a name changes every waypoint that carries it and no other one; unnamed waypoints are never changed by a modification. A live modification adds one compensation per axis from the previous current position to the new one, centred on the waypoint\'s time, and updates the position constraint and the current position together; re-basing a waypoint makes original, current and constraint positions equal and drops its compensations.',
  ['inputs','histories'],'every name, position and history of modifications',
  'Tests modify one uniquely named waypoint; collisions, repeated and unnamed modifications are not sampled.',
  [DT,DW,DWH],[('applyWaypointModification',DT),('resetWaypointThroughDeque',DT),('DynamicWaypoint::setCurrentPosition/resetWaypoint',DW)])
p('C15','Copies preserve the complete state',
  'Copying or assigning a waypoint, a vertex, a segment, a polynomial, a trajectory or a thread-safe trajectory yields an object that is indistinguishable from its source: every data member is carried over, and equality comparison takes every member that defines the value into account.',
  ['inputs'],'every object state',
  'A dropped member is only visible for states in which it differs from its default.',
  [DW,DWH,TST,MI+'segment.h',MI+'vertex.h',MI+'trajectory.h',MI+'polynomial.h'],[('DynamicWaypoint copy constructor',DW),('ThreadSafeTrajectory copy/move/assign',TST),('Segment::operator==, Trajectory::operator=',MI)])
p('C16','No result depends on uninitialised memory',
  'Every scalar or fixed-size vector member of the planner, its waypoints, references, modifiers, segments, trajectories and optimisers has a defined value when construction finishes, and every public result (including references the caller did not ask for) is fully defined whatever the call order.',
  ['inputs','histories'],'every constructor and every order of public calls',
  'Uninitialised memory often happens to be zero in a test process.',
  [DTH,DWH,MI+'segment.h',MI+'extremum.h',MI+'trajectory.h'],[('DynamicTrajectory members',DTH),('DynamicWaypoint constructors',DW),('References',DTH)])
p('C17','A trajectory lasts exactly as long as its segments',
  'After any operation on a Trajectory its duration equals the sum of the durations of its segments and its dimension and polynomial degree are those of its segments: no operation changes the segments without recomputing the duration. Operations that combine trajectories or change dimensions refuse incompatible dimensions or degrees and leave no partially updated result.',
  ['inputs','programs'],'every sequence of trajectory operations',
  'Tests build trajectories one way; a stale duration needs a particular mutator sequence.',
  [MI+'trajectory.h',MS+'trajectory.cpp'],[('setSegments/addSegments/clear',MI+'trajectory.h'),('addTrajectories, getTrajectoryWith*, scaleSegmentTimes*',MS+'trajectory.cpp')],'Trajectory::segments_, max_time_, D_, N_')
p('C18','Derived segments and trajectories keep timing and degree',
  'Extracting one dimension, appending a dimension, offsetting or time-scaling a segment or a trajectory keeps every segment\'s duration consistent with its polynomials: the extracted, appended or offset object keeps the duration of its source, and time scaling multiplies the duration by the factor while reparametrising every polynomial by its inverse, once each. Appending polynomials of different degree pads both sides to the same degree.',
  ['inputs'],'every segment, dimension and scaling factor',
  'The helpers are used in few configurations by the tests.',
  [MS+'segment.cpp',MS+'trajectory.cpp',MI+'segment.h'],[('Segment::getSegmentWith*',MS+'segment.cpp'),('Trajectory::getTrajectoryWith*',MS+'trajectory.cpp'),('scaleSegmentTimes*, offsetTrajectory',MS+'trajectory.cpp')])
p('C19','Velocity and acceleration limits are found over the whole trajectory',
  'Looking for an extremum of a segment considers both ends of the time interval and every interior candidate, and looking for the maximum over a trajectory considers every segment and reports the largest candidate together with its segment; the velocity-feasibility scaling evaluates both limits and only ever stretches time.',
  ['inputs'],'every segment list and derivative',
  'An extremum at an interval end or in one particular segment is not sampled by the tests.',
  [MS+'segment.cpp',MS+'polynomial.cpp',MS+'trajectory.cpp',NL],[('selectMinMaxMagnitudeFromCandidates',MS+'segment.cpp'),('selectMinMaxFromRoots',MS+'polynomial.cpp'),('computeMaxVelocityAndAcceleration, scaleSegmentTimesToMeetConstraints',MS+'trajectory.cpp'),('computeMaximumOfMagnitude',NL)])
p('C20','YAML files read back under the keys and units they were written with',
  'The segment and trajectory writers and readers agree on every key, on the nesting and on the time unit, so that each value is read back from exactly the key and conversion under which it was written; all dimensions and all segments are written and read in order.',
  ['inputs'],'every trajectory',
  'Only numeric examples can be round-tripped by a test; agreement of the two sides is a property of the code.',
  [MS+'io.cpp'],[('segmentToYaml/segmentFromYaml',MS+'io.cpp'),('trajectoryToFile/trajectoryFromFile',MS+'io.cpp')])
p('C21','Malformed input files are rejected without touching the result',
  'A segments file that cannot be opened, parsed, or that lacks a key makes the reader return false rather than throw or crash, and the caller\'s output is only replaced after everything was read successfully; a segment whose coefficient lists do not match its declared sizes is rejected. Writers report false when the file cannot be written.',
  ['inputs','fault_sequences'],'every file content and I/O failure',
  'Malformed inputs are unbounded; tests use none.',
  [MS+'io.cpp'],[('segmentsFromYaml/segmentsFromFile/trajectoryFromFile',MS+'io.cpp'),('segmentsToFile/trajectoryToFile',MS+'io.cpp')])
p('C22','Failures inside the computation are never silently used',
  'A computation that fails produces no trajectory: the results of the solver, of the constraint set-up, of root finding and of extremum search are checked by every caller, and a failure is reported or propagated instead of using the output that was not produced.',
  ['inputs','fault_sequences'],'every failing optimisation, root search or set-up',
  'Failures of the solver cannot be provoked by ordinary test inputs.',
  [DT,MS+'segment.cpp',NL,LIN],[('computeTrajectory',DT),('computeMinMaxMagnitudeCandidates',MS+'segment.cpp'),('Polynomial::getRoots users',MS+'polynomial.cpp')])
p('C23','Sampled states hold the derivative their field names',
  'Every flat-state sampler fills each field of the state (position, velocity, acceleration, jerk, snap, orientation, angular velocity and acceleration) from the derivative of that name of the trajectory, at one and the same time, which is also recorded as the state\'s time; all samplers agree, and a whole-trajectory sample covers the trajectory from its start to its end.',
  ['inputs'],'every trajectory, dimension (3 or 4) and sampling interval',
  'Swapped fields are only visible for trajectories in which the derivatives differ.',
  [MS+'trajectory_sampling.cpp',M+'include/mav_msgs/eigen_mav_msgs.hpp'],[('sampleTrajectoryAtTime',MS+'trajectory_sampling.cpp'),('sampleTrajectoryInRange/sampleWholeTrajectory',MS+'trajectory_sampling.cpp'),('sampleFlatStateAtTime',MI+'trajectory_sampling.h')])
p('C24','The linear optimiser never solves with stale matrices',
  'Whenever segment times, vertices or free constraints of a polynomial optimisation change, everything derived from them is recomputed before a cost, a solution, a segment or a trajectory is produced from it: changing the times refreshes the per-segment cost and mapping matrices, and every solution refreshes the segments.',
  ['programs','histories'],'every order of set-up, time update and solve calls',
  'A stale cache is only visible in call orders the tests do not use.',
  [LIN,NL],[('updateSegmentTimes',LIN),('solveLinear/updateSegmentsFromCompactConstraints',LIN),('setFreeConstraints',LIN),('objectiveFunction*',NL)],'segment_times_, cost_matrices_, inverse_mapping_matrices_, segments_')
p('C25','The optimiser rejects invalid problems',
  'Setting up an optimisation with mismatching numbers of vertices and segment times, vertices of the wrong dimension, a derivative that the polynomial degree cannot represent, or a non-positive segment time is refused before any matrix is computed, instead of producing garbage.',
  ['inputs'],'every vertex list, segment-time list and derivative',
  'Invalid inputs are unbounded and not part of the tests.',
  [LIN,NL],[('setupFromVertices',LIN),('updateSegmentTimes/computeCostMatrices',LIN)])
p('C26','Every time-allocation method is handled end to end',
  'Each time-allocation method that the optimisation parameters can name sets up the number of variables, initial steps, bounds and objective that belong to that method, and after optimising the result of that method is installed as segment times and free constraints; an unknown method is rejected. The order of variables is the same when packing them for the solver and when unpacking them in the objective.',
  ['configurations'],'every value of the time-allocation and solver options',
  'The tests use a subset of the methods.',
  [NL,MI+'polynomial_optimization_nonlinear.h'],[('optimize, optimizeTime*, optimizeTimeAndFreeConstraints',NL),('objectiveFunctionTimeAndConstraints',NL)])
p('C27','Polynomial and vertex algebra respects sizes and orders',
  'Polynomial operations never read or write outside their coefficient vectors for any admissible degree and derivative order, derivatives above the degree are zero, and the derivative-name, constraint-order and base-coefficient tables agree with one another for every order the library names.',
  ['inputs'],'every degree, derivative order and constraint order',
  'Index arithmetic fails only for particular degree/order combinations.',
  [MI+'polynomial.h',MS+'polynomial.cpp',MS+'motion_defines.cpp',MS+'vertex.cpp'],[('Polynomial::evaluate/getCoefficients/computeBaseCoefficients',MI+'polynomial.h'),('positionDerivativeToString/ToInt',MS+'motion_defines.cpp')])
p('C28','The root finder stays inside its buffers and frees them',
  'Finding the roots of a polynomial of any degree never accesses the fixed-size work arrays out of bounds: a degree that does not fit is rejected before anything is copied. Every work array is released on every way out, and a failure is reported as failure to the caller.',
  ['inputs'],'every coefficient vector',
  'Tests use low degrees only.',
  [MS+'rpoly/rpoly_ak1.cpp',MI+'rpoly/rpoly_ak1.h'],[('findRootsJenkinsTraub/rpoly_ak1',MS+'rpoly/rpoly_ak1.cpp')])
p('C29','Independent planners do not interfere',
  'Two planners, or a planner and any other user of the library in the same process, can run at the same time: no library function reachable from planning or evaluation writes process-wide or function-static state without synchronisation.',
  ['schedules'],'every interleaving of calls on distinct objects',
  'Tests use one planner at a time.',
  [MS+'timing.cpp',MI+'timing.h',NL],[('timing::Timing singleton',MS+'timing.cpp'),('timing::Timer in optimizeTime*',NL)],'timing registry and other static state')
p('C30','Time-feasible trajectories pass numerically through the given waypoints',
  'The trajectory computed for a list of waypoints passes through each waypoint position at its arrival time and is continuous up to the required derivative, and its actual velocity and acceleration peaks respect the limits up to the optimiser\'s tolerance.',
  ['inputs'],'every waypoint list, speed and limit',
  'Numeric behaviour of an optimisation over a continuum of inputs.',
  [DT,LIN,NL],[('computeTrajectory',DT),('solveLinear',LIN)])
p('C31','Written trajectories read back numerically equal',
  'A trajectory written to a file and read back evaluates to the same values as the original.',
  ['inputs'],'every trajectory','Numeric round trip over a continuum of coefficients.',
  [MS+'io.cpp'],[('trajectoryToFile/trajectoryFromFile',MS+'io.cpp')])
p('C32','Regeneration finishes in bounded time and evaluation never stalls',
  'Once a first trajectory exists, an evaluation returns without waiting for a computation in progress, and a requested regeneration is adopted within a bounded time.',
  ['schedules'],'every schedule and optimisation run','Latency of a numerical optimiser under a scheduler.',
  [DT],[('checkTrajectoryGenerated',DT),('todoThreadLoop',DT)])
p('C33','Stitched trajectories do not jump in time or position',
  'When a new trajectory is adopted, the time compensation chosen for it makes the references continue from where the old trajectory was, without a jump larger than one fitting step.',
  ['inputs','schedules'],'every pair of trajectories and adoption instant','The size of the jump depends on the numeric trajectories and on timing.',
  [DT],[('timeFittingWithVehiclePosition',DT)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
