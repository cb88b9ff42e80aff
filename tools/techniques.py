"""Technique and level note per property (beyond the table in mkmanifest.py)."""
T = {
 'C07': ('TLA+ (TLC): exhaustive model of the save-file protocol with crashes and recovery (SaveProtocol); real processes are killed at file-system operations and resumed, their operations validated against SaveDisk/SaveTrace and their runs and results against ProbeFlowTrace', 'Model: two functions, three fields, two crashes (thorough: three functions). Code: every operation of some runs, killed before, in the middle of and after it, and random points of further runs with up to three crashes and probes written at random times.'),
 'C08': ('TLA+ (TLC): ProbeFlowTrace follows the reconstruction across processes (progress of every function, fields begun and left, crash and resume actions); recorded chains of stopped and resumed runs are validated against it', 'Chains of up to six resumes with random limits, functions, modes, threads and schedules; results, probes, fields and lines of every process are checked by the specification.'),
 'C09': ('TLA+ (TLC): ownership of saved states model-checked with processes of different black boxes that share a directory and die at file operations (Owner, OwnerMC); recorded chains of processes with different black boxes decided by OwnerTrace, which compares the functions exactly', 'Model: four black boxes, four processes. Code: chains of up to six processes whose black boxes differ in one coefficient, in the order or number of functions and in other ways, begun anew or resumed, killed at file operations, with and without shift and factor scans.'),
 'C20': ('TLA+ (TLC): every probe of scheduled runs is checked by ProbeFlowTrace to lie on the line given by the anchor point and shift of its field', 'Random anchor points and shifts (general position) for up to five fields, also not reduced and across resumes.'),
 'C22': ('TLA+ (TLC): the exchange of requests and answers model-checked (Supply, SupplyMC: nothing is used twice, only missing probes are requested, every fair exchange completes); exchanges with real processes, in which the check supplies the probes, decided by SupplyTrace', 'Model: two functions, two orders or two fields, any part of the requests answered, food saved at any time. Code: up to 150 processes per exchange, 1-4 variables, partial, additional, repeated and early answers, resumed or begun anew, random threads and schedules.'),
 'C10': ('TLA+ (TLC): lock-level model of the pool refines an abstract pool and terminates (exhaustive); histories of the real pool under a deterministic scheduler, preempted at memory accesses, explained by the abstract pool', 'Model: two (thorough: three) threads and three (four) tasks, all client programs. Code: random programs of up to eight tasks, three clients and four threads, several scheduling policies.'),
 'C18': ('TLA+ (TLC): ProbeFlowTrace computes remainder times factors exactly and compares with the probed function, for every recorded run with a factor scan; texts of factors decided by Printed', 'Random functions built from univariate factors of many kinds in up to four variables, with and without shift scan, threads, limited and resumed runs; FLINT backend (the only one with a factor scan).'),
 'C19': ('TLA+ (TLC): the search over candidates model-checked for all families of functions in up to three variables (Shift, ShiftMC); enumerations of the library decided by it; recorded scans validated with ProbeFlowTrace, which computes from the functions which candidates work', 'Model: all sets of monomial supports for n = 2 (three functions) and n = 3 (one). Code: enumerations for up to eight variables, random functions with hidden supports in up to five variables, threads, resumes.'),
 'C25': ('TLA+ (TLC): ProbeFlowTrace (results, probes fed, order of fields) decides recorded runs of functions that were made unlucky for the fields and points in use', 'Coefficients multiplied by up to three of the first primes, functions made zero at points recorded in an earlier run of the same scenario; safe mode and default mode within their documented limits.'),
 'C14': ('TLA+ (TLC): Field specification model-checked exhaustively for small primes; every recorded call of the real backends decided by it', 'The specification computes the exact value of each call; calls are systematic boundary values plus sampled operands, in the default, FLINT and custom backends.'),
 'C15': ('TLA+ (TLC): lane-wise lifting of the Field specification decides every recorded vector call', 'Every supported width and every vector operation; operands are sampled, boundary values included.'),
 'C12': ('TLA+ (TLC): grammar and meaning of expressions specified (Expr); TLC enumerates expressions, recorded evaluations of the real parser are decided by the specification', 'All expressions up to a token bound plus random deep ones, with varied numbers and variables; sampled points and field sequences; all evaluation forms and widths.'),
 'C13': ('TLA+ (TLC): representation model refining an abstract collection (ParserColl, exhaustive); recorded histories of the real parser validated against Parser', 'Representation explored exhaustively for small collections; random histories of the real parser.'),
 'C16': ('TLA+ (TLC): both reconstruction algorithms model-checked as transition systems for small moduli; recorded calls decided by the Rational specification', 'All residues of small moduli and sampled numbers up to the exact bounds for moduli of up to eight library primes.'),
 'C17': ('TLA+ (TLC): interpolation specified as a dialogue (Interp); recorded dialogues with the real interpolators validated event by event', 'Completion point of Thiele interpolation is prescribed exactly; functions, bounds and method switches are sampled.'),
 'C21': ('TLA+ (TLC): denotation of result objects and of expressions specified (Printed, Expr); every recorded text decided by it and read back by the real parser', 'Result objects are sampled over all shapes (factors, reordered variables, empty parts); values compared at random points of 63-bit fields.'),
 'C23': ('TLA+ (TLC): Linear specification (determinant cross-checked with Leibniz exhaustively); recorded solver calls decided by it', 'All matrices of small fields and structured/random matrices up to 8x8; scalar and bunched element types.'),
 'C24': ('TLA+ (TLC): PolyAlg specification, laws model-checked exhaustively over F_3; recorded operations decided by it', 'Operands are sampled with many cancellations; both backends.'),
 'C26': ('TLA+ (TLC): insertion of replacement rules specified (Insert) and its laws model-checked (InsertMC: every remaining function once, order, value preserved); recorded black boxes and runs of the real parser and tool decided by InsertTrace', 'Model: all expressions and rules of small size. Code: random expressions with names contained in each other, several tables, repeated and missing rules, evaluated exactly at random points of several fields; the tool with its options merge, no-interpolation and skip lists.'),
}
NA = {}
