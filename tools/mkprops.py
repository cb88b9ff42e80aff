#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
S = 'source/'
H = 'source/include/firefly/'
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'A finished reconstruction returns exactly the probed rational functions',
 'If every output of the black box is a rational function with rational coefficients, a reconstruction that reports completion returns one function per output, in output order, each equal as a function over the rationals to the one probed and in normalised form (one coefficient of numerator or denominator is 1). This holds for every number of variables, every number of threads, every maximum bunch size and every combination of the documented modes (shift scan, safe interpolation), including outputs that are zero, constant, polynomial or sparse of high degree.',
 ['inputs', 'configurations'], 'all tuples of rational functions (any variables, degrees, sparsity, coefficient sizes) x threads x bunch sizes x modes',
 'The tests reconstruct four fixed functions in four variables with fixed options and compare only a few of the resulting values; no other shape of function or mix of options is reached.',
 [H+'Reconstructor.hpp', S+'RatReconst.cpp', S+'PolyReconst.cpp', S+'FFThieleInterpolator.cpp', S+'utils.cpp'],
 [('per-function interpolation state machine', 'RatReconst::feed / RatReconst::interpolate'), ('job driver', 'Reconstructor::run_until_done / feed_job / interpolate_job'), ('acceptance test in a fresh prime field', 'RatReconst::check_if_done / test_guess')],
 observe=['Reconstructor::get_result'])

prop('C02', 'Every thread schedule ends with the same results: no deadlock, no lost work',
 'With any number of worker threads and under any interleaving of black-box evaluations, interpolation jobs and the main loop, reconstruct() returns, and the functions it returns are the same as with a single thread. No schedule makes it wait forever, abort, or drop a function.',
 ['schedules', 'configurations'], 'all interleavings of main thread, pool workers and polling threads at synchronisation operations, for any thread count and bunch size',
 'The tests run with whatever interleaving the machine happens to produce; a lost wake-up or a job finishing between a check and a wait shows only in rare schedules.',
 [H+'Reconstructor.hpp', H+'ThreadPool.hpp', S+'RatReconst.cpp'],
 [('job counters and condition variables', 'Reconstructor::run_until_done, get_probe, feed_job, interpolate_job'), ('interpolation hand-off', 'RatReconst::feed / RatReconst::interpolate')],
 state=[('feed_jobs, interpolate_jobs', 'jobs that may still create probes', 'Reconstructor'), ('probes_queued', 'probes requested but not yet fed', 'Reconstructor'), ('items_done, items_new_prime', 'functions finished / waiting for the next prime', 'Reconstructor')])

prop('C03', 'Each probe is computed once and reaches every open function exactly once',
 'Within one prime field every requested probe is evaluated exactly once before it is used, and every function that is still being interpolated in that field receives it exactly once, with the value of that function at that probe and with the coordinates the probe was requested for. Probes evaluated in an earlier prime field are never used in a later one, and every evaluated point has the requested form (homogenisation parameter times the anchor powers plus the shift).',
 ['schedules', 'inputs', 'configurations'], 'all probes of all runs, under every interleaving, bunch size and mode',
 'The tests look only at final results; a duplicated, dropped or misattributed probe is often repaired by extra probes or only costs time until it hits an unlucky order.',
 [H+'Reconstructor.hpp', H+'ReconstHelper.hpp'],
 [('probe queue and index map', 'Reconstructor::queue_probes / get_job / compute_probe'), ('delivery', 'Reconstructor::feed_job')],
 state=[('requested_probes', 'points waiting for evaluation', 'Reconstructor'), ('index_map', 'probe id -> (t, order)', 'Reconstructor'), ('computed_probes', 'evaluated probes not yet fed', 'Reconstructor')],
 observe=['black-box calls', 'RatReconst::feed calls'])

prop('C04', 'Prime fields are entered in order and never overlap with evaluations',
 'The prime fields used are the documented primes in order, none skipped and none revisited within a phase. The black box is told about a new field after the field became current and before any evaluation in it, and no evaluation is in progress or starts in the old field from the moment the field is switched.',
 ['schedules', 'inputs', 'configurations'], 'all prime changes of all runs, under every interleaving of running evaluations with the decision to change field',
 'The tests use few primes and black boxes whose member data do not depend on the field at awkward moments, so an evaluation that straddles a change goes unnoticed.',
 [H+'Reconstructor.hpp', H+'BlackBoxBase.hpp', H+'ThreadPool.hpp', S+'FFInt.cpp'],
 [('prime change', 'Reconstructor::run_until_done (kill_all, FFInt::set_new_prime, prime_changed_internal)')],
 observe=['black-box calls', 'prime_changed calls', 'FFInt::p'])

prop('C05', 'Bunched evaluation is equivalent to point-by-point evaluation',
 'Whatever maximum bunch size is configured, the points evaluated in one bunch are pairwise different requested points, bunches have a supported power-of-two size not above the maximum, and the value used for each point is the one the bunch computed for that point. A run of requests is always partitioned completely into such bunches, using all available threads before bunches grow.',
 ['configurations', 'inputs', 'schedules'], 'all queue lengths, thread counts and maximum bunch sizes; all bunches of all runs',
 'The bunch test uses bunch size 4 with one thread count; other sizes and the boundary cases of the size rule are never computed.',
 [H+'Reconstructor.hpp', S+'utils.cpp', H+'FFIntVec.hpp'],
 [('bunch size rule', 'compute_bunch_size / compute_job_number'), ('lane mapping', 'Reconstructor::compute_probe<N>')])

prop('C06', 'Early results deliver every finished function exactly once and intact',
 'A thread that polls for early results while a reconstruction runs receives only functions that are completely reconstructed, each exactly once, under its own tag and equal to the probed function; at the end, early and final results together contain every function exactly once. Polling at any moment neither blocks nor disturbs the reconstruction.',
 ['schedules', 'histories'], 'all interleavings of polls with the reconstruction, any number of polls, with tags set or not',
 'No existing test polls for early results at all.',
 [H+'Reconstructor.hpp'],
 [('hand-out and removal', 'Reconstructor::get_early_results / clean_reconst')],
 state=[('reconst', 'list of functions with status RECONSTRUCTING/DONE/DELETE', 'Reconstructor')])

prop('C07', 'A crash at any point never corrupts a saved reconstruction',
 'When state saving is enabled and the process dies at any point, a later run in the same directory that resumes from the saved state completes with the correct functions, and it does not need more than to repeat the work since the last completed save. It never hangs, aborts or returns a wrong function because of a partially written, missing or superseded save file. (As long as the very first save, or the scan for a shift if one was requested, is not complete, there is nothing to continue and the later run refuses to resume with a message.)',
 ['crash_points', 'schedules', 'histories'], 'process death before, between and after any two file-system operations of any save sequence, including repeated crashes',
 'The save test stops cleanly after one prime and resumes once; no test dies inside the sequence of writes and renames.',
 [S+'RatReconst.cpp', H+'Reconstructor.hpp'],
 [('save files written to a temporary name then renamed', 'RatReconst::save_state / save_zero_state / save_zero_consecutive_prime / write_food_to_file'), ('resume', 'Reconstructor::resume_from_saved_state, RatReconst::start_from_saved_file')],
 state=[('ff_save/states, ff_save/probes', 'one file per function', 'working directory')])

prop('C08', 'Stopping after any number of prime fields and resuming gives the same result',
 'A reconstruction limited to k prime fields completes exactly k fields and then stops, unless it is finished before (it may already have told the black box about field k+1 and started to evaluate in it); resuming from its saved state in a new process continues with the next field (which it may begin anew) and finally returns the same functions as an uninterrupted run, for every k and every chain of stop-and-resume. Functions already finished are kept, their values are never re-interpolated, and fields completed earlier are never evaluated again.',
 ['histories', 'configurations', 'inputs'], 'all stop points k1, k2, ... , thread counts, tags and modes at each resume',
 'One test pair stops once after one prime and resumes once with fixed functions.',
 [H+'Reconstructor.hpp', S+'RatReconst.cpp'],
 [('prime limit', 'Reconstructor::reconstruct(prime_counter)'), ('state files', 'RatReconst::save_state / start_from_saved_file')])

prop('C09', 'A saved state is only continued with the black box it belongs to',
 'Resuming with a black box whose number of outputs or values differ from the one that produced the saved state is refused with a failure before any saved file is modified and before any result is produced. Resuming with the same black box is never refused. A reconstruction that begins anew where a saved state exists replaces that state as a whole.',
 ['inputs', 'histories'], 'all pairs of black boxes differing in any output, any number of outputs, with and without shift scan',
 'No test resumes with a different black box.',
 [H+'Reconstructor.hpp'], [('validation point', 'Reconstructor::start_first_runs / resume_from_saved_state (ff_save/validation.gz)')])

prop('C10', 'The thread pool runs each task exactly once and drains or cancels cleanly',
 'Every task handed to the pool and not cancelled is run exactly once. Ordinary tasks start in submission order; a priority task starts before every task that is waiting when it is submitted (so the latest first). At most as many tasks run at a time as there are threads (inline with zero threads), and futures of packaged tasks deliver the result. Waiting returns false only when no task is running and otherwise returns true once a worker became idle, cancelling discards exactly the tasks that have not started and returns only when no task is running, and destruction completes all accepted tasks.',
 ['schedules', 'histories'], 'all interleavings of submitters, workers, waiters and cancellation, for any number of threads including zero',
 'The pool is only used indirectly by the tests, in whatever schedule occurs.',
 [H+'ThreadPool.hpp'], [('work and priority queues under one mutex', 'ThreadPool::run_task, run_priority_task, run_packaged_task, wait, kill_all')],
 observe=['task start/end', 'return values of wait, queue_size, size'])

prop('C11', 'MPI: probes are distributed, returned and shut down without loss',
 'With any number of worker processes and threads, every probe sent to a worker is evaluated there in the current prime field and its values come back to the master under the index they were requested for, exactly once unless the field ended first. Prime changes and the end of the reconstruction reach every worker, all processes terminate, and the result equals that of a run without MPI.',
 ['schedules', 'configurations'], 'all message timings and orders between master and workers, worker counts, thread counts, bunch sizes',
 'The MPI tests run one fixed job with two processes on one machine and check the final functions only.',
 [H+'Reconstructor.hpp', H+'MPIWorker.hpp'], [('master loop', 'Reconstructor::send_first_jobs / mpi_communicate'), ('worker loop', 'MPIWorker::communicate / compute')],
 observe=['MPI calls of all ranks', 'black-box calls of all ranks'])

prop('C12', 'Parsed expressions evaluate to their mathematical value in every prime field',
 'For every supported expression (+, -, *, /, ^ with integer exponents, parentheses, unary signs, arbitrarily long integers, declared variables), evaluation at a point gives the mathematical value of the expression in the current field under the usual precedence, where -x^2 means -(x^2). The plain and the precomputed evaluation, for scalars and for every bunch size, agree, and remain correct after any sequence of field changes.',
 ['inputs', 'histories'], 'all expressions of the documented grammar, all points, all primes and field-change sequences, both evaluation routes, all lane counts',
 'The parser test evaluates one collection of fixed functions at one point in one prime; most combinations of signs, powers and divisions are never formed.',
 [S+'ShuntingYardParser.cpp', H+'ShuntingYardParser.hpp'], [('conversion to reverse Polish notation', 'ShuntingYardParser::parse / validate'), ('evaluation', 'ShuntingYardParser::evaluate / evaluate_pre'), ('constant folding', 'ShuntingYardParser::precompute')])

prop('C13', 'Collections of expressions keep their order and meaning under all operations',
 'However a parser is filled (file, list, single additions, reverse Polish input), trimmed, and used with or without detection of equal functions, the i-th value of an evaluation is the value of the i-th function of the collection, and positions returned for added or kept functions are those at which their values appear. Detection of equal functions never merges functions that differ.',
 ['histories', 'inputs'], 'all sequences of parse, add, trim, precompute, field change and evaluate over collections with and without duplicates',
 'Only construction from a file and one evaluation are tested.',
 [S+'ShuntingYardParser.cpp', H+'ShuntingYardParser.hpp'], [('duplicate map', 'ShuntingYardParser::parse_collection / add_otf'), ('trim', 'ShuntingYardParser::trim')])

prop('C14', 'Finite-field numbers obey field arithmetic in every backend',
 'In each arithmetic backend, for every supported prime, finite-field numbers built from any integer (64-bit signed or unsigned, arbitrary precision, decimal string) represent that integer modulo the prime in canonical form, and +, -, *, /, negation, inverse, integer and field powers, comparison and printing agree with exact arithmetic modulo the prime, with division by zero defined as zero.',
 ['inputs', 'configurations'], 'all operands and primes, both backends',
 'Arithmetic is only exercised indirectly with random operands; carries, operands near 0, p-1 or 2^63 and negative inputs are not targeted.',
 [S+'FFInt.cpp', H+'FFInt.hpp'], [('modular arithmetic', 'FFInt operators')])

prop('C15', 'Vectors of field numbers act lane by lane',
 'Every operation on a vector of field numbers (arithmetic with vectors and scalars on either side, in-place forms, negation, inverse, powers, construction, comparison, element access) gives in each lane exactly the scalar operation applied to that lane, for every supported width.',
 ['inputs', 'configurations'], 'all operations, operand values and widths 2..128',
 'Only the operations used by the one bunch test (width 4) are executed.',
 [H+'FFIntVec.hpp', S+'FFIntVec.cpp'], [('lane loops', 'FFIntVec operators')])

prop('C16', 'Chinese remaindering and rational reconstruction are exact',
 'Combining residues of pairwise coprime moduli gives the unique residue modulo the product that is congruent to both. Whenever a rational number with numerator and denominator small enough for the modulus has the given image, both rational-reconstruction methods that report success return that number in lowest terms with positive denominator, and no returned number has a different image or lies outside the bounds of the method.',
 ['inputs'], 'all residues and moduli within the stated bounds',
 'Only the few coefficients occurring in the test functions are reconstructed.',
 [S+'utils.cpp'], [('Chinese remainder', 'run_chinese_remainder'), ('Wang and maximal-quotient reconstruction', 'get_rational_coef / get_rational_coef_mqrr')])

prop('C17', 'Stand-alone interpolation recovers the function from its values',
 'Fed with the values of a univariate rational function at distinct points in general position (no partial quotient vanishes by coincidence), Thiele interpolation finishes after finitely many points and yields that function; fed with the values of a multivariate polynomial at the points it asks for, polynomial interpolation (with either of its univariate methods, with or without degree bounds, which must not be below the true degrees) finishes and yields that polynomial over the field and over the rationals. Neither reports completion with a wrong function.',
 ['inputs', 'configurations'], 'all functions and polynomials, anchor points, method switches and degree bounds',
 'These classes are only used indirectly by the tests and never with the stand-alone polynomial mode.',
 [S+'PolyReconst.cpp', S+'FFThieleInterpolator.cpp', S+'Poly.cpp'], [('Newton and Ben-Or/Tiwari', 'PolyReconst::interpolate'), ('Thiele continued fraction', 'ThieleInterpolator::add_point')])

prop('C18', 'Factor scan: factors times remainder equal the probed function',
 'With the factor scan enabled, the product of the reported univariate factors and the reconstructed remainder equals the probed function for every output, whatever factors each output has, in which variables, and however the variables are reordered internally. Results keep output order and the user\'s variable order, and saving/resuming between the scan and the reconstruction does not change them.',
 ['inputs', 'configurations', 'histories'], 'all tuples of functions with any factor structure, with and without shift scan, saving and resuming',
 'One test enables the factor scan on fixed functions in one configuration.',
 [H+'Reconstructor.hpp', S+'RatReconst.cpp', S+'RationalFunction.cpp'], [('scan', 'Reconstructor::scan_for_factors'), ('division of probes by factors', 'Reconstructor::compute_probe'), ('reassembly', 'Reconstructor::get_result, RationalFunction::add_factor / set_var_order')])

prop('C19', 'Shift scan tries every candidate, sparsest first, and uses the accepted one',
 'The scan for a sparse shift first determines the degrees with all variables shifted and then tries the sets of shifted variables one after the other: every set at most once, none is skipped, those with fewer variables come before those with more, beginning with no shift at all. It accepts the first one under which every function keeps a constant term in its numerator or denominator. Afterwards exactly that set of variables is shifted (or none, in later prime fields), and the reconstructed functions are unchanged by it.',
 ['inputs', 'configurations'], 'all variable counts and all tuples of functions',
 'Scans are run on one fixed set of functions in four variables.',
 [S+'utils.cpp', H+'Reconstructor.hpp', S+'RatReconst.cpp'], [('enumeration', 'generate_possible_shifts / generate_next_permutation'), ('scan loop', 'Reconstructor::scan_for_shift')])

prop('C20', 'User-supplied anchor points and shifts are used exactly as given',
 'If the user sets anchor points and shifts (of functions of several variables; in general position), one per prime field, all probes in the i-th field are taken on the lines defined by the i-th anchor point and i-th shift, reduced modulo the prime, and the reconstructed functions are correct. Saved anchor points and shifts are used again unchanged after a resume; those the user sets again take precedence.',
 ['inputs', 'histories'], 'all anchor points and shifts, any number of fields, with resume',
 'No test sets anchor points or shifts.',
 [H+'Reconstructor.hpp', S+'RatReconst.cpp'], [('anchor/shift handling', 'Reconstructor::set_anchor_points / set_shifts / start_first_runs / run_until_done')],
 observe=['black-box calls'])

prop('C21', 'Printed results denote the reconstructed function',
 'Every textual form of a result (expanded, Horner form, with factors, over a prime field) is a well-formed expression in the given variable names that denotes exactly the function held in the result object; parsing it with the library\'s own parser gives back the same values at every point.',
 ['inputs'], 'all results: zero, constants, negative and rational coefficients, missing variables, factors, reordered variables',
 'Output strings are never evaluated by the tests.',
 [S+'RationalFunction.cpp', S+'Polynomial.cpp', S+'HornerGenerator.cpp', S+'RationalNumber.cpp', S+'PolynomialFF.cpp'], [('printers', 'to_string / generate_horner')])

prop('C22', 'Working from precomputed probes equals working from the live black box',
 'When probes are supplied in files instead of being evaluated, no point is evaluated; a run that has used up the supplied probes and still lacks some writes requests for further ones that were not supplied yet (the point, and the coordinates it belongs to) and stops; when requested values are supplied again and again, the reconstruction completes with the correct functions. Supplied probes are each used at most once for each function and only in the field they belong to, also when the run is stopped and resumed.',
 ['histories', 'inputs'], 'all exchange histories of request files and probe files',
 'No test uses precomputed probes.',
 [H+'Reconstructor.hpp', 'firefly.cpp'], [('request/probe files', 'Reconstructor::load_precomputed_probes_from_file / write_requested_probes_to_file')])

prop('C23', 'Linear solvers return the solution of the given system',
 'For every regular system over a prime field, Gaussian elimination, LU decomposition with its solver, inverse and determinant, and the Vandermonde solver return exactly the solution, inverse or determinant of the matrix they were given, whatever row exchanges are required; the determinant of a singular matrix is zero.',
 ['inputs', 'configurations'], 'all regular matrices and right-hand sides of any size, scalar and bunched element types',
 'Solvers are only reached through black boxes of the test suite with one fixed matrix pattern.',
 [H+'DenseSolver.hpp', S+'utils.cpp'], [('solvers', 'solve_gauss_system, calc_inverse, calc_lu_decomposition, solve_lu, calc_inverse_lu, calc_determinant_lu, solve_vandermonde_system')])

prop('C24', 'Polynomial and rational-number classes compute exactly',
 'Sums, differences, products, scalings, homogenisation, variable shifts and evaluations of polynomials over a prime field, arithmetic and normalisation of rational numbers, and conversions between rational and prime-field polynomials agree with exact arithmetic, including results in which coefficients cancel.',
 ['inputs'], 'all operands', 'These operations are only exercised indirectly on the few polynomials of the test functions.',
 [S+'PolynomialFF.cpp', S+'RationalNumber.cpp', S+'Polynomial.cpp', S+'Monomial.cpp', S+'Poly.cpp'], [('operators', 'PolynomialFF, RationalNumber, Polynomial, Monomial')])

prop('C25', 'Unlucky primes and vanishing probes do not produce wrong functions',
 'If a function vanishes modulo some of the prime fields, or its first probe in a field happens to be zero, the reconstruction moves this function on to the next field and still returns the correct function; in safe mode the same holds if individual coefficients (also the normalising one) vanish modulo individual primes. A zero at another probe never leads to a wrong function (at worst the run ends with an error). A function is reported as zero only if it was zero in all of the first three fields.',
 ['inputs', 'histories'], 'functions with any coefficients divisible by used primes, any pattern of zero probes',
 'No test has a coefficient that is divisible by a prime in use.',
 [S+'RatReconst.cpp', H+'Reconstructor.hpp'], [('zero handling', 'RatReconst::feed'), ('safe mode', 'RatReconst::set_safe_interpolation / combine_primes')])

prop('C26', 'Coefficient insertion tool reproduces the amplitude it was given',
 'The insertion tool\'s black box for a sum of integrals with coefficient expressions and replacement tables evaluates, for each remaining integral, to the mathematically correct total coefficient at every point and in every field. Each remaining integral appears exactly once, in a fixed order.',
 ['inputs'], 'all amplitude files and replacement tables of the documented format',
 'No test covers the insertion tool.',
 [S+'AmplitudeParser.cpp', S+'ParserUtils.cpp', 'ff_insert.cpp'], [('parser', 'AmplitudeParser')])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
