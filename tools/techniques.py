# per-check overrides for MANIFEST.json and the evidence files
CSYM = 'abstract interpretation of the C source (clang AST, explicit integer and memory model) to a value graph, congruence with the contract term'
TECH = {
    'C25': 'abstract interpretation of the C source (clang AST) with an object/bounds/initialisation memory model and value ranges',
    'C26': CSYM, 'C27': CSYM, 'C28': CSYM, 'C29': CSYM, 'C30': CSYM,
    'C31': 'effect analysis: gated path conditions of every exit, message and write, in the Python and C value graphs',
    'C32': 'effect analysis of standard output over the reachable call graph (AST lint) and in the value graphs',
    'C33': 'effect and aliasing analysis of file modes and of the heap at function exit',
    'C36': 'AST interface lint: callee resolution, argument binding, result shape, name and attribute definedness',
}
BOUNDED = ('Static, for all data: the source is interpreted abstractly with arbitrary contents; the shape of the run ({}) is enumerated, so shapes beyond '
           'those listed in DESIGN.md are not covered. Discharged by equality of normal forms, violated only with a separating valuation, else reported undecided '
           '(quiet). Trusts clang\'s parser and the models in /verif/sa.')
C_SHAPE = BOUNDED.format('options, number of reads, where a read ends')
LEVEL = {k: 'other' for k in ('C17', 'C18', 'C19', 'C20', 'C22', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C36', 'C39', 'C40', 'C41')}
NOTES = {
    'C17': BOUNDED.format('number of epochs concatenated is arbitrary; the sample epoch numbers formatted are listed'),
    'C18': BOUNDED.format('number of refinement steps'),
    'C19': BOUNDED.format('starting resolution, number of doublings and of steps'),
    'C41': BOUNDED.format('any integer or real time and epoch; seconds that begin an epoch and sample names one by one, with IEEE arithmetic'),
    'C39': BOUNDED.format('the four bin widths listed'),
    'C40': BOUNDED.format('the two bin widths listed'),
    'C20': BOUNDED.format('lists of up to four values step by step, a list of any length by loop summary'),
    'C22': BOUNDED.format('command lines'),
    'C31': BOUNDED.format('command lines and failing calls'),
    'C32': 'Static: every construct that can write to standard output, over the call graph reachable from each program, is either a result sink (its text decided by C07, C21, C30, C35) or reported. '
           'Calls that cannot be resolved to the package are looked up in a table of library calls that print.',
    'C33': 'Static: over every function call analysed by the other checks, the file modes and the heap contents reachable from the arguments at exit. Covers the operations listed in the evidence file, for the argument shapes of those checks.',
    'C34': BOUNDED.format('the places that encode a constant, listed in DESIGN.md'),
    'C36': 'Static lint over the whole package: calls whose callee cannot be resolved are skipped; violations are definite (no possible callee accepts the call, or one feasible callee definitely does not).',
}
for _p in ('C25', 'C26', 'C27', 'C28', 'C29', 'C30'):
    NOTES[_p] = C_SHAPE
