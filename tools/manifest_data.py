TECH = {
 'C01': 'path-wise algebraic identity over the gated value graph of one arbitrary sub-step (LLVM IR)',
 'C02': 'path-wise algebraic identity of the residual and dominance of the abnormal stop, on the gated value graph',
 'C03': 'loop-accumulator analysis: outputs and records traced to the loop variables of the sub-step loop, increments compared with the fluxes of the sub-step',
 'C04': 'abstract evaluation of every BMI metadata method on the gated value graph (LLVM IR), compared per advertised name',
 'C05': 'points-to result of the name dispatch per name, and copy-extent analysis of the get/set methods',
 'C06': 'interprocedural mod/ref (effect) analysis of every BMI query',
 'C07': 'information-flow (taint) analysis from the verbosity setting over data and control dependence, interprocedural',
 'C08': 'mod/ref analysis of static storage, call-graph search for nondeterministic runtime calls, definite-initialisation analysis of state, objects and locals',
 'C09': 'typestate analysis of the configuration reader: required-entry flags as loop variables, checks after the loop',
 'C10': 'abstract evaluation of one arbitrary configuration line per key and unit on the gated value graph',
 'C11': 'ownership / typestate analysis of allocations, releases and later uses',
 'C12': 'shape analysis of the list operations on an abstract list segment',
 'C13': 'algebraic identity of column water before and after each event on the gated value graph',
 'C14': 'symbolic normal form of each hydraulic function compared with the published relation',
 'C15': 'provenance (origin) analysis of the arguments of every hydraulic relation call',
 'C16': 'gated value graph of the freeze factor loop, range rules, call order in the update',
 'C17': 'gated value graph of the calibration loop and its one-time guard',
 'C18': 'loop-invariant and trip-count analysis of the sub-step loop',
 'C19': 'loop summaries of the convolution and of the queue initialisation, call-once rule in the update',
 'C20': 'gated value graph of the pass-through branch and of the soil-type validation',
 'C21': 'call-graph rules on process-ending calls, exception handling edges and unchecked results',
 'C22': 'symbolic normal form of the evapotranspiration function with range rules',
 'C23': 'loop summaries of the copy-out loops against the list traversal',
 'C25': 'inductive range analysis: path conditions of every moisture update on all front arrangements, bounds by linear reasoning; alarms only with a concrete violating valuation',
 'C27': 'symbolic value analysis of the movement on all front arrangements; normal forms of depth, moisture and search arguments compared with the water held before; loop invariants of the search and of the depth correction',
 'C28': 'symbolic value analysis on all front arrangements; the normal form of velocity, capacity, dry depth and new front is subtracted from the published equation',
 'C29': 'enumeration of every load and store on the value graph of all front arrangements: null and extent test of each address under its path condition, allocation sizes compared with the extents used',
 'C30': 'summary of the sub-step loop: conditions, order and arguments of the process calls as gated polynomials',
 'C24': 'loop summary of the driver: index relations between forcing, update and output',
}
NOTE = {'*': 'Decided on the LLVM IR compiled from the current tree, for all inputs and all paths at once; exact over real arithmetic, library functions uninterpreted or modelled.'}
NA = {
 'C26': 'Agreement with a reference solution and convergence of the moisture iteration are statements about numeric accuracy of runtime quantities; static analysis cannot bound them.',
}
