#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.abspath(__file__)) + '/..'
PI = 'path-sensitive abstract interpretation of the typed AST (value numbering, held locks, typestate tags per thread role)'
BASE = ('Sound for the modelled C++ subset up to the assumptions in DESIGN.md (library models, loops by havoc and induction, calls outside the planner opaque). '
        'Trusted: clang front end, the extractor, the interpreter. ')
C = {
    'C01': ('lockset and hand-over race analysis over all pairs of accesses; ' + PI, 'Every pair of accesses of every pair of thread roles is shown ordered by a common mutex, atomics or the computing/future hand-over.'),
    'C02': ('lock typestate with exceptional paths, lock-order graph; ' + PI, 'Every lock site on every normal and throwing path.'),
    'C03': ('typestate analysis of request flag and queues; ' + PI, 'Every path of every command and every iteration of the worker.'),
    'C04': ('container-shape dataflow of the command queues; ' + PI, 'The contents of the next trajectory are derived as a sequence expression over the queues and compared with the specified one.'),
    'C05': ('adoption-protocol typestate; ' + PI, 'Every path of every evaluation, worker iteration and computation.'),
    'C06': ('typestate and dataflow of the notice flag; ' + PI, 'Every path of every public call and worker iteration.'),
    'C07': ('life-cycle typestate of destructor, worker loops and constructor; ' + PI, 'Termination of the optimiser itself is not shown; every waiting loop of the worker is.'),
    'C08': ('value-flow of the recorded times on every path; ' + PI, 'Times are symbolic values of the parameters of the call.'),
    'C09': ('symbolic dataflow of evaluation times and segment indices; ' + PI, 'Clamping is decided by case analysis over every order of the time and the span; indices by the facts of each path.'),
    'C10': ('value-flow of derivative orders and compensations; symbolic differentiation of the compensation formula; ' + PI, 'The formulas found in the source are differentiated symbolically (sympy) and compared as expressions.'),
    'C11': ('value-flow of boundary constraints into the list of vertices; ' + PI, 'Every way of building the next trajectory and every path of the computation; Vertex::addConstraint is the library primitive (C24).'),
    'C12': ('value-flow of limits into the optimiser object (typestate of its constraints) and of the commanded speed; ' + PI, 'Imposing the limits is shown; that the optimiser respects them is numerical (C30).'),
    'C13': ('symbolic summation over loops, element-wise dataflow; ' + PI, 'Arrival times are compared as symbolic sums over the segments in front of a generic waypoint.'),
    'C14': ('value-flow of the fields of a waypoint on every path, guards of every application; ' + PI, 'Every mutator of a waypoint and every place that applies a modification.'),
    'C15': ('value-flow of every member through the user-written copy operations; path facts established by comparison operators; ' + PI, 'Compiler-generated copies are memberwise by the language.'),
    'C16': ('definite-initialisation dataflow over every constructor and every function; ' + PI, 'Covers members of the listed classes and locals; outputs by reference of calls are taken as written (C22 covers failures).'),
    'C17': ('class invariant by induction over the operations: symbolic sums over loops compared with the stored duration; ' + PI, 'Sums are compared as exact algebra; floating-point rounding of the additions is out of scope.'),
    'C18': ('per operation, every coefficient, duration and size of the result is read symbolically and compared with its specification as exact rational functions, in every world of relative sizes and durations; ' + PI, 'Sizes and orders are enumerated up to 2 dimensions / 3 coefficients per operand (the code is uniform in them); equality is exact algebra, floating-point rounding is out of scope.'),
    'C19': ('dataflow summaries of every search (loops as folds, candidates as sets), judged over a finite order abstraction of candidates, values and limits; ' + PI, 'Covers polynomial, segment, trajectory and optimiser searches and both scalings to feasibility, up to 3 candidates / segments per operation; the abstraction is over orderings, so larger instances repeat the same fold step. Root finding itself is not covered (C30).'),
    'C20': ('symbolic summaries of the writers (what is emitted or built, as terms over the segments) and of the readers (what is asked of a document); the document each writer produces is handed, as terms, to every reader and compared with the segments; ' + PI, 'All file and node writers against all readers, segment lists of one, two and three segments, three and four dimensions, four and five coefficients. yaml-cpp itself is assumed to print and parse what it is given.'),
    'C21': ('exception-escape analysis of the readers (each yaml-cpp call may throw its documented types, handlers filter by type), effect analysis of refusing paths, evaluation of the summaries of readers on contradicting documents, typestate of the file stream in the writers; ' + PI, 'Both file readers and the three file writers; every single defect of a document: missing key, wrong number of dimensions or coefficients, negative size.'),
    'C23': ('symbolic summary of each sampler; each field of the state it leaves is compared, as an expression over the derivatives the trajectory was asked for, with the derivative of the name of the field; ' + PI, 'All samplers and both instances, every actuation (3, 4 and 6 dimensions), a range of three samples. The rotation conversions and the evaluation itself stay symbols (evaluation: C09).'),
    'C29': ('lockset analysis of every access to process-wide state (globals, function statics, singletons reached through accessors), and a query for library calls with hidden process-wide state; ' + PI, 'Every function of the library and planner that touches such state, with the locks held on each path. Initialisation of statics is synchronised by the language; thread_local, atomic and never-written state is free.'),
}
C['C24'] = ('dependence analysis of derived members: after every mutator and objective the terms of matrices, free constraints and segments are compared with the segment times and constraints they have to be computed from, also where a cost, trajectory or maximum is produced on the way; ' + PI, 'One to three segments, one and two dimensions; the formulas of the matrices and the solve itself stay symbols (C30). nlopt is assumed to ask a constraint at the point it asked the objective for last.')
C['C25'] = ('symbolic summary of the set-up (conditions of every returning path, of every iteration and of every write of a matrix), judged on a finite set of defective and valid problems; ' + PI, 'Both optimisers: up to three vertices and times, every vertex or time in turn being the defective one, dimensions 1 and 3, every derivative around the limit; polynomials of ten coefficients (the instance the planner uses).')
exec(open(os.path.join(H, 'scripts', 'claims.py')).read()) if os.path.exists(os.path.join(H, 'scripts', 'claims.py')) else None
NA = {
    'C30': 'numerical quality of an iterative optimiser: depends on floating-point convergence of nlopt and Eigen solves, which no static argument in reach bounds',
    'C31': 'numerical equality after decimal formatting and parsing by yaml-cpp: a statement about run-time values; the structural part is C20',
    'C32': 'liveness and timing of threads under an arbitrary scheduler and an unbounded optimiser: no static argument in reach bounds it; the safety part is C03, C05, C07',
    'C33': 'size of a numerical jump: depends on run-time trajectories; the structural part (what is fitted and installed) is C05 and C08',
}
NA['C22'] = 'not claimed: which results may be ignored depends on whether an output is used afterwards with a value that is still meaningful; the decided parts are in C05 (failed computation), C19 (failed searches), C21 (failed reads) and C25'
NA['C26'] = 'not claimed: that what nlopt found is the result of the method quantifies over what an external optimiser does with its callbacks; set-up and freshness of the objective functions are decided in C24 and C25'
NA['C27'] = 'not claimed: numerical tables built at start-up by arithmetic loops (factorials, powers) whose contents are run-time values; the sizes and orders of polynomial operations are decided in C15 and C18'
NA['C28'] = 'not claimed: index bounds inside the Jenkins-Traub iteration depend on run-time floating-point control flow and relations between degrees that the analysis (no numeric relational domain) does not derive'
PENDING = 'no check'
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './scripts/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis only. Checks extract the typed AST of /repo\'s current sources with a clang tool (tool/dtgx.cpp) and decide each property by abstract interpretation and dataflow in analysis/.'}
for p in props:
    if p in C:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': 'static analysis: ' + C[p][0], 'level': 'other', 'level_note': C[p][1] + ' ' + BASE})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, PENDING)})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
