"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs, hook_needed=None)))
RX='scaks/parsers/rxn_parser.py'; PB='scaks/parsers/parser_base.py'
MF='scaks/solvers/mean_field_solver.py'; SS='scaks/solvers/steady_state_solver.py'
SB='scaks/solvers/solver_base.py'; TC='scaks/correctors/thermodynamic_corrector.py'
KM='scaks/models/kinetic_model.py'; MK='scaks/models/micro_kinetic_model.py'
KS='scaks/solvers/kmc_solver.py'; KP='scaks/solvers/kmc_plugins/'
RF='scaks/solvers/rootfinding_iterators.py'; DS='scaks/descriptors/descriptors.py'
CU='scaks/utilities/check_utilities.py'

p('C01','Reaction expressions parse to exactly what is written',
 "For every well-formed elementary reaction expression, however it is spaced, parsing yields the written initial, optional transition and final states in order, and for every species the written coefficient (1 if omitted), name, number of sites (1 if omitted), site name and kind (gas, liquid, empty site or adsorbate). The element and site counts of a species or state are the sums over what is written (two-letter elements and repeated elements or species included, gas and liquid phases occupying no surface site), and the LaTeX form shows the same coefficients, elements, subscripts, site names and arrows. Text that is not a chemical formula is refused with an error.",
 ['inputs'],'All expressions of the documented grammar: 2 or 3 states, 1-5 species each, coefficients, subscripts and site numbers of any size, one- and two-letter elements, optional spaces.',
 'Unit tests check about ten literal expressions, all with one-letter elements and single-digit numbers.',
 [RX],[('ChemFormula',RX),('ChemState',RX),('RxnEquation',RX)],['RxnEquation.tolist/to_formula_list/texen','ChemState.get_elements_dict/get_sites_dict/get_species_site_dict','ChemFormula accessors'])

p('C02','Exactly the balanced reactions are accepted',
 "A reaction is accepted if and only if every one of its states, the transition state included, holds the same number of each element and of each kind of surface site. A model whose reactions are all balanced can be built, and building a model with any unbalanced reaction among them is refused with an error instead of being silently accepted.",
 ['inputs','configurations'],'All reactions over generated species, balanced by construction or broken by one edit (coefficient, element, subscript, site kind or number, any state), alone or anywhere in a model.',
 'Tests contain a handful of balanced reactions and no unbalanced three-state reaction; acceptance of every unbalanced edit is a universal statement.',
 [RX,PB],[('RxnEquation.check_conservation',RX),('ChemState.conserve',RX),('ChemFormula.conserve',RX),('ParserBase.parse_elementary_rxns',PB)],['RxnEquation.check_conservation','ChemState.conserve','ChemFormula.conserve','MicroKineticModel(...)'])

p('C03','Reverting a reaction swaps its ends and nothing else',
 "The reverse of a reaction has the initial and final states exchanged and the same transition state, and reverting twice gives back an equivalent reaction. The gases consumed by the reverse reaction are exactly those produced by the original (with the same coefficients) and vice versa, and a reaction is balanced exactly when its reverse is.",
 ['inputs'],'All well-formed two- and three-state reactions, balanced or not, with gases and liquids on either or both sides.',
 'One revert test and two literal gas tests exist; involution is a law over all reactions.',
 [RX],[('RxnEquation.revert',RX),('RxnEquation.adsorption_gases/desorption_gases',RX)],['RxnEquation.revert','adsorption_gases','desorption_gases'])

p('C04','Species are classified completely and stoichiometric matrices are exact',
 "A model lists every gas, liquid, adsorbate, transition state and empty site that occurs in its reactions exactly once, in sorted order and in the right class, and nothing else. The two stoichiometric matrices hold, for every reaction and every site/adsorbate or gas/liquid, the amount written on the left minus the amount written on the right, so that the elements and the surface sites of every row balance.",
 ['inputs','configurations'],'All balanced reaction networks over generated species: several site kinds, gases, liquids, repeated species, species on both sides, two- and three-state reactions, permuted reaction order.',
 'Tests compare the matrices of one CO-oxidation network.',
 [PB,KM],[('ParserBase.parse_elementary_rxns',PB),('ParserBase.get_stoichiometry_matrices',PB)],['model.gas_names/liquid_names/adsorbate_names/transition_state_names/site_names','parser.get_stoichiometry_matrices'])

p('C05','The total reaction is the balanced net of the elementary steps',
 "For a network that closes a catalytic route, the total reaction equation contains only gases and liquids, is balanced in every element, is a combination of the elementary steps in which all adsorbates and sites cancel, and has coprime integer coefficients with no zero terms. When the route runs all steps forward, the consumed species are on the left and the produced species on the right, and a network without a route is refused with an error.",
 ['inputs','configurations'],'All networks built from a random route (any stoichiometric numbers), with steps shuffled, some written reversed, spectators that cancel, or with a step missing.',
 'Tests check one total reaction whose coefficients are all one or two.',
 [PB],[('ParserBase.get_total_rxn_equation',PB)],['parser.get_total_rxn_equation'])

p('C06','Energy data are turned into consistent barriers and reaction energies',
 "After parsing, every reaction satisfies: reverse barrier = forward barrier - reaction energy, reaction energies are those supplied, and forward barriers are those supplied except that a barrierless endothermic reaction gets its reaction energy as barrier. Parsing absolute energies gives the differences of the coefficient-weighted state energies (the higher end state acting as transition state when none is written), hence barriers that are at least the uphill part of the reaction energy and are independent of any constant added per element or per site. Data of the wrong length or without barriers or reaction energies are refused supplied data are never modified, and model and solver report the same energies.",
 ['inputs'],'All generated networks with arbitrary finite energies, given by file or by dictionary, in relative or absolute form.',
 'Tests parse two fixed data files.',
 ['scaks/parsers/relative_energy_parser.py','scaks/parsers/absolute_energy_parser.py',PB],[('RelativeEnergyParser.parse_data','scaks/parsers/relative_energy_parser.py'),('AbsoluteEnergyParser.parse_data','scaks/parsers/absolute_energy_parser.py'),('ParserBase._get_single_relative_energies',PB)],['model.relative_energies','model.absolute_energies'])

p('C07','Transition-state-theory rate constants are Eyring values in detailed balance',
 "Every rate constant equals kB*T/h*exp(-barrier/(kB*T)) at the model's temperature for the energies in force (those passed in, otherwise the model's), so that forward/reverse = exp(-reaction energy/(kB*T)) for every reaction. They fall when a barrier rises, and only the touched reaction changes. When pressures are to be included, each direction is multiplied by the pressures of the gases it consumes, each to the power of its coefficient.",
 ['inputs','configurations'],'All networks, energies, temperatures (100-2000 K) and pressures, for the mean-field and the lattice solver.',
 'Tests compare fixed numbers for one network at one temperature.',
 [SB,MF],[('SolverBase.get_kTST',SB),('SolverBase.get_rxn_rates_TST',SB),('MeanFieldSolver.get_rate_constants',MF)],['solver.get_kTST','solver.get_rxn_rates_TST','solver.get_rate_constants'])

p('C08','Models are isolated: results depend only on the own inputs',
 "Every query result of a model (rate constants, rates, coverage derivatives, Jacobians, symbolic values, registered plugins, energies) equals what a fresh model with the same inputs gives, whatever other models were built or queried before or in between, in any order. Repeating a query gives the same answer, re-parsing energies or changing an energy dictionary in place takes effect, and neither passing explicit energies to one call nor changing the returned numbers in place ever changes the answer of later calls.",
 ['histories','configurations'],'All interleavings of building, querying, re-parsing and mutating several models of different networks, temperatures and energies in one process.',
 'Tests use one model per test case and never interleave; memoized values and class-level defaults only show up across histories.',
 [DS,MF,SS,MK],[('Memoized',DS),('AttrDescriptor.__get__',DS),('MeanFieldSolver.get_rate_constants',MF)],['all solver and model queries'])

p('C09','Collision-theory rates follow the kinetic gas theory and thermodynamics',
 "A collision rate constant is factor*active ratio*exp(-E/(kB*T))*p*A/sqrt(2*pi*m*kB*T), so it is proportional to pressure and area, falls with mass and barrier, and converting it to an equivalent barrier and back gives the same rate; ratios above one and non-positive areas are refused. For a reaction adsorbing a gas the forward rate is that collision rate and the reverse rate is the transition-state rate of the equivalent forward barrier minus the entropy-corrected reaction energy (not below zero); for a desorption both are transition-state rates with the gas entropy in the reverse barrier; reactions without gas use transition-state theory.",
 ['inputs','configurations'],'All networks, energies, temperatures, pressures, unit cell areas and active ratios; gases inside and outside the thermochemical database.',
 'Tests compare one number of the rate constant function and one network.',
 [SB],[('SolverBase.get_kCT',SB),('SolverBase.get_TST_barrier_from_CT',SB),('SolverBase.get_rxn_rates_CT',SB)],['get_kCT','get_TST_barrier_from_CT','get_rxn_rates_CT','get_rate_constants'])

p('C10','Rates obey mass action and turnover frequencies sum the net rates',
 "The forward (reverse) rate of a reaction is its rate constant times every consumed (produced) species' coverage, pressure or concentration to the power of its total coefficient, where the coverage of an empty site is the site total minus the adsorbates on it. Net rates are forward minus reverse, a reversibility is reverse over forward, and the turnover frequency of a gas or liquid is the sum of net rates weighted with the net amount produced per reaction. Mass and sites balance in the turnover frequencies together with the coverage derivatives. The rate expressions written as text give the same rates when executed, and the pressures, concentrations and adsorbates per kind of site that the solver reports are those of the model.",
 ['inputs','configurations'],'All networks (species repeated or on both sides, liquids, several site kinds with different totals), coverages in the physical simplex including its boundary, pressures including zero, energies.',
 'Tests compare fixed numbers for one network, without liquids and with coefficients of at most two.',
 [MF],[('MeanFieldSolver.get_elementary_rate_expression',MF),('MeanFieldSolver.get_rates/get_net_rates',MF),('MeanFieldSolver.get_reversibilities',MF),('MeanFieldSolver.get_tof',MF)],['get_rates','get_net_rates','get_reversibilities','get_tof'])

p('C11','Coverage derivatives are the stoichiometric sum of net rates',
 "The time derivative of every adsorbate coverage equals the sum over all reactions of its net produced amount times the reaction's net rate, for any coverages and for model or explicitly passed energies. Hence derivatives conserve elements together with the turnover frequencies, vanish for an adsorbate no reaction changes, are non-negative for an adsorbate with zero coverage and non-negative for the free sites when there are none, and the residual is the largest absolute derivative. The expressions of the derivatives written as text give the same values when executed.",
 ['inputs','configurations'],'All networks and coverages, including adsorbates repeated in a state or on both sides of a reaction, zero coverages and full surfaces.',
 'Tests compare two derivatives of one network.',
 [SS],[('SteadyStateSolver.get_elementary_dtheta_dt_expression',SS),('SteadyStateSolver.get_adsorbate_dtheta_dt_expression',SS),('SteadyStateSolver.steady_state_function',SS)],['steady_state_function','get_residual','get_dtheta_dt_expressions'])

p('C12','The analytical Jacobian is the derivative of the coverage equations',
 "Every entry (i, j) of the analytical Jacobian equals the partial derivative of the i-th coverage derivative with respect to the j-th adsorbate coverage, the dependence through the free sites included. This holds for every network, at any coverages, for model or explicitly passed energies. The numerical Jacobians approximate the derivative to first order in the step, which is taken to the requested side and leaves the point unchanged. The derivatives of a coverage equation written as text give the same entries when executed.",
 ['inputs','configurations'],'All networks with any coefficients, mixed sites, liquids; random coverages (the derivative is compared exactly with a polynomial reference and by differences).',
 'Tests compare one 2x2 matrix.',
 [SS],[('SteadyStateSolver.poly_adsorbate_derivation',SS),('SteadyStateSolver.analytical_jacobian',SS),('MeanFieldSolver.classified_numerical_jacobian',MF),('numerical_jacobian','scaks/functions.py')],['analytical_jacobian','classified_numerical_jacobian','numerical_jacobian','poly_adsorbate_derivation'])

p('C13','The symbolic route agrees with the numeric route',
 "Rate constants, forward and reverse rates, net rates, turnover frequencies, coverage derivatives and the Jacobian computed by substituting numbers in the symbolic expressions equal those computed numerically for the same model and coverages, when the energies of the model are the absolute energies of its species.",
 ['inputs','configurations'],'All networks with absolute energies, several site kinds, liquids, any coverages and temperatures.',
 'Tests compare numbers of one network; the two routes are separate implementations that can only be compared over all networks.',
 [MF,SS],[('MeanFieldSolver.get_*_by_sym',MF),('SteadyStateSolver.steady_state_function_by_sym',SS),('SteadyStateSolver.analytical_jacobian_by_sym',SS)],['get_rate_constants_by_sym','get_rates_by_sym','get_net_rates_by_sym','get_tof_by_sym','steady_state_function_by_sym','analytical_jacobian_by_sym'])

p('C14','A converged steady state is physical, stationary and truthfully reported',
 "Whenever the solver returns coverages, whatever the initial guess, the root-finding method and the energies, no coverage is negative, no site is over-occupied beyond the tolerance, the coverage derivatives recomputed independently are within the tolerance, and the reported error is the residual or norm at the returned coverages. If no such solution is found the search ends and the solver returns nothing rather than an unphysical or unconverged result. For networks with a known analytical solution the returned coverages equal it. The reported initial guess is physical and leads to the returned coverages.",
 ['inputs','configurations'],'All networks, energies, temperatures and initial guesses (feasible or not), both root-finding methods, explicit energies, tolerances and iteration limits.',
 'Tests run one network from one or two initial guesses.',
 [SS,RF],[('SteadyStateSolver.get_steady_state_cvgs',SS),('MDNewton',RF),('ConstrainedNewton',RF)],['get_steady_state_cvgs','solver.coverages','solver.error'])

p('C15','Initial coverages are always brought to, or start at, a physical state',
 "Whatever initial coverages are supplied, the solver starts from coverages that are non-negative and do not exceed the total of their site, and a physical initial guess is used unchanged. Boltzmann guesses are positive, sum to one over adsorbates (together with empty sites if included), fall with increasing energy and are unchanged by shifting all energies by a constant; conversions between coverage lists and dictionaries put the remainder of each site on the empty site.",
 ['inputs','configurations'],'All networks with several site kinds and totals and all finite real initial coverages, negative and over-full ones included.',
 'Tests check one constraint example and one Boltzmann example.',
 [SS,MF],[('SteadyStateSolver.__constrain_coverages',SS),('MeanFieldSolver.boltzmann_coverages',MF),('MeanFieldSolver._cvg_tuple2dict',MF)],['get_steady_state_cvgs (first coverages handed to plugins/archive)','boltzmann_coverages','get_rates'])

p('C16','ODE integration follows the coverage equations and its trajectory file',
 "Integrating from physical initial coverages ends at or after the requested time with physical coverages (to integration accuracy) that agree with an independent integration of the same equations for the same energies, and starting at a steady state stays there. An integration that fails again and again ends before the requested time instead of never. The default method for new initial coverages integrates ten seconds from the solver's coverages. The trajectory file lists increasing times and, for every time, the coverages of all adsorbates, with one record per output interval that lie on the solution.",
 ['inputs','configurations'],'All networks (accuracy: moderately stiff ones), initial coverages, time ranges and spans, output intervals and explicit energies.',
 'Tests only run one integration and look at nothing but its completion.',
 [SS,'scaks/utilities/format_utilities.py'],[('SteadyStateSolver.solve_ode',SS),('SteadyStateSolver.__ode_flush',SS)],['solve_ode','auto_ode_coverages.py'])

p('C17','Degrees of rate control are right and leave the model unperturbed',
 "The degree of rate control of each reaction is the logarithmic derivative of the product's turnover frequency with respect to that reaction's rate constants at fixed equilibrium constant, agreeing with an independent computation to perturbation accuracy; for a route with a single overall rate they sum to one. Computing them leaves the model's coverages, error, energies and archive as they were, so a second computation gives the same values.",
 ['inputs','configurations','histories'],'All generated networks with a non-zero product turnover and a non-degenerate steady state, perturbation sizes, explicit energies, repeated calls for different gases.',
 'Tests run one degree-of-rate-control calculation without checking its meaning.',
 [SS],[('SteadyStateSolver.get_single_XRC',SS)],['get_single_XRC','solver.coverages','solver.error','data.pkl'])

p('C18','Gas corrections follow the Shomate equation and statistical mechanics',
 "For a gas with tabulated parameters the Shomate correction at any temperature in range is the free energy of the tabulated polynomials (and the low-temperature continuation below it), and is zero for anything that is not a gas or not tabulated. The entropy correction is -kB*T*ln of the translational, rotational and vibrational partition functions: it rises by kB*T*ln2 when the pressure doubles, falls by 1.5*kB*T*ln2 when the mass doubles, uses the model's temperature, pressure and the molecule's mass when none are given, and is zero for species outside the database.",
 ['inputs','configurations'],'All tabulated gases, all other generated names, all temperatures (50-3000 K), pressures and masses.',
 'Tests compare two numbers for CO and few others at one temperature.',
 [TC,'scaks/database/thermo_data.py'],[('ThermodynamicCorrector.shomate_correction',TC),('ThermodynamicCorrector.entropy_correction',TC)],['shomate_correction','entropy_correction'])

p('C19','Correcting relative energies shifts every state by its gases only',
 "Correcting relative energies changes each reaction energy by the coefficient-weighted corrections of the gases in the final minus the initial state, keeps reverse barrier = forward barrier - reaction energy, shifts an explicit barrier by the transition minus the initial state correction, and for reactions without transition state yields the higher end state as barrier. Reactions without gases are unchanged, energies of one reaction do not influence another, and an unknown method is refused.",
 ['inputs','configurations'],'All networks with zero, one or several gases (with coefficients) in any state, energies, temperatures, pressures and both methods.',
 'Tests compare one network with one gas per reaction.',
 [TC],[('ThermodynamicCorrector.correct_relative_energies',TC)],['correct_relative_energies'])

p('C20','Lattice processes mirror the process definitions with consistent rates',
 "Every process definition becomes, for every basis site and coordinate group, one forward process with the given elements and, unless it is for redistribution only, one reverse process with the elements exchanged, carrying the forward and reverse rate (pressures included) of its reaction under the model's rate theory and its fast/redistribution flags. The process-to-reaction mapping names, in order, reaction and direction of every non-fast process, and definitions with unknown reactions or elements are refused. Control parameters passed to the simulation engine are those of the model, and the generated script files create the objects the engine was given.",
 ['inputs','configurations'],'All process lists over generated models: several groups, basis sites, flags, both rate theories, wildcards, invalid entries.',
 'Tests need KMCLib, which is absent, or check one fixed definition file; only construction is covered here.',
 [KS,CU],[('KMCSolver.get_processes',KS),('KMCSolver.process_mapping',KS),('KMCSolver.get_control_parameters',KS)],['solver.processes','solver.process_mapping','arguments handed to KMCProcess/KMCControlParameters'])

p('C21','On-the-fly KMC analyses write exactly the history they saw',
 "For every simulation history, the data files of the coverage, frequency and turnover analyses are executable Python whose contents reproduce it: times, steps and per-type coverages of every registered step in order and independent of the flush buffer size, per-process and per-reaction counts that add up to the number of steps, steady-state counts from the chosen step on, rates that are counts per site and time, and interval turnover frequencies that account for every event of a closed interval. The event report names for every step the process that was picked, with the site numbers and probabilities of the preceding table.",
 ['histories','configurations'],'All generated histories (times, lattice types, picked processes, available sites and rates), buffer sizes, start steps, intervals and lattice sizes.',
 'The plugin tests need KMCLib (absent) and only check that a run finishes.',
 [KP+'coverages_analysis.py',KP+'frequency_analysis.py',KP+'tof_analysis.py',KP+'event_analysis.py'],[('CoveragesAnalysis',KP+'coverages_analysis.py'),('FrequencyAnalysis',KP+'frequency_analysis.py'),('TOFAnalysis',KP+'tof_analysis.py'),('EventAnalysis',KP+'event_analysis.py')],['auto_coverages.py','auto_frequency.py','auto_tofs.py','auto_events.txt'])

p('C22','Coverage statistics count weighted sites, identically in Python and C++',
 "The coverage of a species type is the sum over lattice sites of that type of the site's ratio (ratios repeating per unit cell) divided by the number of unit cells, in the order of the requested types, and types not asked for are ignored. The Python function and the C++ function give the same numbers for every input.",
 ['inputs'],'All lattices of types, requested type lists (distinct, any order) and coverage ratios with lengths that fit the lattice.',
 'No test compares the C++ function with anything.',
 [KP+'kmc_functions.py','c++/src/kmc_functions.cpp'],[('collect_coverages',KP+'kmc_functions.py'),('collect_coverages','c++/src/kmc_functions.cpp')],['collect_coverages'])

p('C23','Work splitting over processes loses and duplicates nothing',
 "For any sequence and any number of processes, the parts given to the ranks concatenated in rank order are the sequence itself and merging them gives it back; for any size the split sizes add up to the size and differ by at most one. Functions restricted to the master run exactly on rank 0.",
 ['inputs','configurations'],'All lengths and process counts from 1 to 64, including fewer elements than processes.',
 'No test covers the MPI helpers with more than one process.',
 ['scaks/mpicommons.py'],[('MPIUtil.split_seq/split_size/merge_seq','scaks/mpicommons.py'),('master_only','scaks/mpicommons.py')],['split_seq','split_size','merge_seq','master_only'])

p('C24','Model setup accepts exactly valid parameters and then protects them',
 "Building a model from a dictionary or from an equivalent setup file gives the same attributes: supplied values for every known parameter, documented defaults otherwise, unknown parameters ignored. A value of the wrong type or outside the allowed values is refused with an error. Once set, attributes and query properties cannot be reassigned, mutating a returned species definition does not change the model, and the solver and the corrector can only be replaced by objects of the right kind.",
 ['inputs','configurations'],'All combinations of parameters with valid values and single invalid edits, for both model classes.',
 'Tests construct a few valid models and try two or three invalid values.',
 [KM,MK,'scaks/models/kmc_model.py',DS,'scaks/descriptors/component_descriptors.py'],[('AttrDescriptor and subclasses',DS),('Component','scaks/descriptors/component_descriptors.py'),('KineticModel._load',KM)],['MicroKineticModel(...)','KMCModel(...)','set_solver/set_corrector'])

p('C25','Input validators accept exactly the documented shapes',
 "The validators of process definitions, process coordinates, analysis intervals, species definitions, reference energies, sequences and strings accept an input if and only if it has the documented shape, return it unchanged, and otherwise raise the setup error. In particular a process whose element lists and coordinates differ in length, that repeats a coordinate, or lacks a key, an interval triple that is reversed or too coarse, and a gas without pressure are refused.",
 ['inputs'],'All valid inputs and all single-edit invalid ones.',
 'Tests contain a few fixed valid definitions and a few invalid ones.',
 [CU],[('check_process_dict',CU),('check_process_coordinates',CU),('check_analysis_interval',CU),('check_species_definitions',CU),('check_ref_energies',CU),('check_sequence/check_string',CU)],['check_* functions'])

p('C26','Generated text reads back as the data it was generated from',
 "Executing the text generated for a list or dictionary defines a variable equal to the original, for any column number, nested sequences, numbers and strings. The energy template files generated by a model name every reaction in order or every species exactly once and can be filled in and parsed again, and splitting a time in hours, minutes and seconds adds up to it with minutes and seconds below sixty.",
 ['inputs'],'All lists, dictionaries, column numbers and non-negative times; all generated networks.',
 'Tests check one literal list and one template.',
 ['scaks/utilities/format_utilities.py',KM],[('get_list_string/get_dict_string/convert_time','scaks/utilities/format_utilities.py'),('generate_relative_energies_file/generate_absolute_energies_file',KM)],['get_list_string','get_dict_string','convert_time','rel_energy.py','abs_energy.py'])

p('C27','Coordinate groups merge and move like keyed point sets',
 "Adding two coordinate groups keeps all points of the first in order, appends the points of the second that coincide with none of the first (within the tolerance), and lets a named element replace the vacancy at a coinciding point and never replace another named element; adding a group to itself changes nothing. Moving shifts every point by the vector and keeps elements, moves compose and invert, and neither operation changes its operands; malformed points, elements and vectors are refused.",
 ['inputs','histories'],'All groups of points on and off a grid (near-coincident within and beyond the tolerance), elements, and sequences of append, extend, add and move.',
 'Tests check a few literal groups.',
 ['scaks/utilities/coordinate_utilities.py'],[('CoordsGroup','scaks/utilities/coordinate_utilities.py')],['CoordsGroup.coordinates/elements/append/extend/move/+'])

p('C28','Analysis plugins see a well-formed sequence of calls',
 "During a solve every registered plugin gets, for each Newton iteration started, exactly one setup, then steps with increasing inner counters that are multiples of its interval, then exactly one finalize with the same outer counter, also when the iteration fails or is restarted from a new guess; outer counters increase from one. Callbacks a plugin class does not define are inherited from its parents or do nothing, invalid intervals or classes are refused, and plugins belong only to the model they were registered with and do not change its results.",
 ['histories','configurations'],'All networks and initial guesses (converging, restarting, failing), several plugins with any intervals, class hierarchies and several models.',
 'No test registers an analysis plugin.',
 ['scaks/plugins/analysis.py','scaks/plugins/metaclasses.py',SS,MK],[('AnalysisMeta','scaks/plugins/metaclasses.py'),('SteadyStateSolver.get_steady_state_cvgs',SS),('MicroKineticModel.analysis_register',MK)],['calls received by OnTheFlyAnalysis subclasses'])

p('C29','Molecular masses are the sums of the tabulated element masses',
 "The mass of a formula is the sum over its elements of tabulated mass times number, for nested parentheses, leading and trailing multipliers and two-letter elements, so it is additive under concatenation and proportional to multipliers; the absolute mass is that times the atomic mass unit. Elements that are not tabulated are refused.",
 ['inputs'],'All formulas of the documented grammar over tabulated elements, and formulas with one unknown element.',
 'Tests check two or three formulas.',
 ['scaks/functions.py',PB,'scaks/database/elements_data.py'],[('string2symbols','scaks/functions.py'),('ParserBase.get_molecular_mass',PB)],['get_molecular_mass','string2symbols'])

p('C30','A complete model run is self-consistent and repeatable from its archive',
 "After a run, the model's coverages, turnover frequencies, reversibilities, error and information report all describe one and the same state: recomputing any of them independently from the coverages, pressures and energies gives the reported values, and, after a precise solution, the archive file holds the same values. Running again in the same place starts from the archived coverages and gives the same result, an archive whose number of coverages does not match the model is not used, and initial coverages of the wrong type or number are refused without changing any result.",
 ['histories','configurations'],'All networks, run options (initial coverages, explicit energies, fast solver, coarse guess, rate control) and sequences of runs with archives present, absent or foreign.',
 'Tests run one network once and look only at its completion.',
 [MK,SS,'scaks/__init__.py'],[('MicroKineticModel.run',MK),('ModelShell.archive_data','scaks/__init__.py')],['model.steady_state_coverages/TOFs/reversibilities/error/model_info','data.pkl'])

p('C31','Lattice inputs are completed with defaults and validated',
 "The lattice handed to the simulation engine has the model's cell vectors, basis sites, repetitions and periodicity; without input files every site is empty and of the first possible site type, otherwise the types are those of the files. Site types of the wrong number or of unknown kind, and an empty type that is not a possible element, are refused with the setup error.",
 ['inputs','configurations'],'All lattices (repetitions, basis sites), with or without configuration and site files, valid or with a single error.',
 'Parser tests need KMCLib, which is absent here.',
 ['scaks/parsers/kmc_parser.py','scaks/models/kmc_model.py'],[('KMCParser.construct_sitesmap','scaks/parsers/kmc_parser.py'),('KMCParser.parse_configuration','scaks/parsers/kmc_parser.py'),('KMCParser.construct_lattice','scaks/parsers/kmc_parser.py')],['objects handed to KMCSitesMap/KMCConfiguration/KMCLattice/KMCUnitCell','model.configuration/sitesmap/process_dicts'])

p('C32','Newton iterations report true residuals, descend and find roots',
 "For any vector function with its Jacobian, every iterate of the damped and of the constrained Newton iterator is reported with the function value and norm at exactly that point, the norm of the damped iterator never increases, and a root of a well-conditioned system is reached quadratically from nearby (in one step if the system is linear). The constrained iterator applies the constraint to the iterates after its first unconstrained ones, and missing parameters are refused.",
 ['inputs'],'Generated linear and polynomial systems of 1-4 unknowns with known well-conditioned roots and starting points.',
 'No test exercises the iterators apart from one solve.',
 [RF],[('MDNewton',RF),('ConstrainedNewton',RF)],['iteration over MDNewton/ConstrainedNewton'])

p('C33','Equivalent ways of writing a model give equivalent results',
 "The order of the reactions, the order of species within a state, writing 2A or A + A, spacing, the direction in which a reversible reaction is written (with its barriers exchanged), the labels of sites, the identity of the elements, the order of definitions and definitions of species that take part in nothing carry no physics. Two models that differ only in these have the same rate constants, rates, turnover frequencies, coverage derivatives, Jacobian and steady state, reaction by reaction and species by species. The zero of absolute energies, chosen per element and per kind of site, does not matter either.",
 ['inputs','configurations'],'All pairs of equivalent networks and energy references.',
 'Tests use one way of writing for each of a few networks; an asymmetry between equivalent ways cannot show.',
 [RX,PB,MF,SS],[('ParserBase.parse_elementary_rxns',PB),('MeanFieldSolver.get_rates/get_tof',MF),('SteadyStateSolver.poly_adsorbate_derivation/analytical_jacobian',SS)],['rate constants, rates, TOFs, coverages of two models'])

p('C34','Rates and steady states are thermodynamically consistent',
 "When coverages, pressures and concentrations are in equilibrium for the supplied absolute energies, every elementary reaction runs equally fast in both directions: net rates, turnover frequencies and coverage derivatives vanish and reversibilities are one, whatever the barriers. Away from it every net rate has the direction of its free energy change, and the ratios of rates along any combination of reactions that leaves the surface unchanged multiply to the driving force of gases and liquids alone. With gases in mutual equilibrium and a direct adsorption step for every adsorbate the solver finds the equilibrium coverages, and at steady state all steps of a single cycle run at one rate in the direction of the overall driving force.",
 ['inputs'],'All networks, energies, temperatures, pressures and positive coverages.',
 'Tests compare rates of one network with stored numbers.',
 [MF,SS,'scaks/parsers/absolute_energy_parser.py','scaks/models/kinetic_model.py'],[('MeanFieldSolver.get_rates',MF),('SteadyStateSolver.get_steady_state_cvgs',SS),('AbsoluteEnergyParser.parse_data','scaks/parsers/absolute_energy_parser.py')],['get_rates/get_net_rates/get_reversibilities/get_tof','steady_state_function','get_steady_state_cvgs'])

p('C35','The log shows the numbers of the calculation it belongs to',
 "The rate constants, rates, net rates, reversibilities, turnover frequencies, coverages, corrections and lattice parameters that the log file lists are those the same calls return, row by row under the right reaction, species or parameter and to the printed precision, every table has each reaction or species exactly once in the model's order, and a table belongs to the energies and coverages of that call. After every run, also of a model that has run before with the same energies, the log holds the rate constants and the final coverages, turnover frequencies and error of that run, and what is logged follows the levels set for logger, file and console.",
 ['inputs','histories'],'All networks, energies, coverages, runs, corrections, setups and lattices, with reaction names of any length.',
 'No test reads a log; wrong columns or stale values cannot show.',
 [MF,SS,MK,KM,TC,KS],[('MeanFieldSolver.get_rates/get_tof/get_rate_constants',MF),('KineticModel._set_logger/set_logger_level',KM),('ThermodynamicCorrector',TC)],['out.log'])

p('C36','Parallel processes do not disturb each other',
 "When the same setup runs in several processes (MPI ranks), in whatever order they proceed: model construction succeeds in every process, also in an empty folder; each process solves its own problem with the same result, log and archive as a single process with the same start; and the analysis files of a lattice simulation are those of a single process, header and data complete. No process waits for one that never comes.",
 ['schedules','configurations'],'All orders in which 2-4 processes reach their file operations, collective operations and analysis calls, for generated networks, starting points and simulation histories.',
 'Tests run in one process.',
 ['scaks/mpicommons.py',KM,MK,KP],[('KineticModel._set_logger',KM),('MicroKineticModel.__init__',MK),('analysis plugins (mpi.is_master guards)',KP)],['log/out_*.log','data/data_*.pkl','auto_*.py','auto_events.txt'])

p('C37','Energy profiles show the energies of each reaction',
 "Plotting writes exactly one image per elementary reaction, named by its position and expression, for every model with energies. The curve starts at zero, ends at the reaction energy and passes over the barrier when the barrier is above both ends; reactions without such a barrier are drawn without one, and line options are applied. Plotting can be repeated and does not change the energies of the model.",
 ['inputs','configurations'],'All networks with two- and three-state reactions, any energies, and plot options.',
 'No test plots a model.',
 ['scaks/plotters/energy_profile_plotter.py'],[('EnergyProfilePlotter.plot_all','scaks/plotters/energy_profile_plotter.py')],['energy_profile/*.png','figures when saved'])

p('C38','Formulas written as LaTeX are those of the model',
 "The LaTeX forms of rates and coverage derivatives, one equation per reaction or adsorbate in the model's order, read back as the mass-action rates and the derivatives the model uses, and the same holds for symbolic rate constants, equilibrium constants and net rates. They are appended to the formula file when asked for, and only then.",
 ['inputs'],'All networks, energies, conditions and coverages.',
 'No test reads a formula.',
 [MF,SS],[('MeanFieldSolver.get_latex_strs/log_latex',MF),('MeanFieldSolver.get_rate_syms/get_equilibrium_constant_syms',MF),('SteadyStateSolver.get_dtheta_dt_syms',SS)],['formulas.tex','get_latex_strs'])

p('C39','A continued lattice simulation starts where the last one ended',
 "After the continuation step of the run scripts, the setup file describes the same simulation with the start time of the last recorded time and nothing else changed, whether or not it had a start time before and wherever it stands in the file. The engine is then started at that time from the last recorded configuration with the same processes and control parameters, also after several continuations. The shell script that prepares a continued job does all this in a new folder, with the inputs of the old job and without its results, and leaves the old job as it was.",
 ['inputs','histories'],'All setup files (order, start time, blank and last lines) and recorded trajectories, one to three continuations.',
 'No test covers the run scripts.',
 ['scripts/kmc_run/change_start_time.py','scripts/kmc_run/kmc_continue.sh','scaks/models/kmc_model.py','scaks/parsers/kmc_parser.py',KS],[('change_start_time','scripts/kmc_run/change_start_time.py'),('KMCSolver.get_control_parameters',KS)],['pt-100.mkm','what the engine is started with'])

p('C40','The run scripts run the model in the folder and clean up only their own files',
 "Started in a folder, the run scripts use the last setup file in it and the energies beside it: the micro-kinetic script writes the requested integration and ends with archived coverages that are a steady state of that model (only the integration when asked), with rate control exactly when asked for; the lattice script starts the engine once with the processes and control parameters of the setup. Old logs and automatic files are removed first and no other file is touched; without a setup file nothing is produced and the script fails.",
 ['inputs','configurations'],'All networks with moderate rates, script options, and left-over files and other setup files in the folder.',
 'No test covers the run scripts.',
 ['scripts/mkm_run/run.py','scripts/kmc_run/run.py',MK,SS,KS],[('mkm run script','scripts/mkm_run/run.py'),('kmc run script','scripts/kmc_run/run.py')],['data.pkl','auto_ode_coverages.py','out.log','what the engine is started with'])

p('C41','Series of jobs: one job per pressure, results collected for the right pressure',
 "Creating a series of jobs makes one folder per pressure (or pair of pressures): a copy of the template in which only the pressures of the named gases differ, replacing stale folders of the same name and nothing else, all listed in order. Collecting the results gives for every pressure the final coverages or rates found in its folder, and plots show the recorded numbers.",
 ['inputs'],'All setups of literals, pressure lists, stale folders and result files.',
 'No test covers the scripts.',
 ['scripts/kmc_run/1d-run/create_jobs.py','scripts/kmc_run/2d-run/create_jobs.py','scripts/kmc_plot'],[('create_jobs (one gas)','scripts/kmc_run/1d-run/create_jobs.py'),('create_jobs (two gases)','scripts/kmc_run/2d-run/create_jobs.py'),('extract_*','scripts/kmc_plot/batch_plot/extract_cvgs.py')],['job folders','job_dirs.txt','*-data.npz','figures'])

p('C42','The example models load, run and give the processes and rates they define',
 "Every model under examples can be set up from its own input files, from a file or the equivalent dictionary, also with other temperatures, pressures, energies, step numbers and rate algorithms. A lattice example gets exactly the processes of its definition file in their order, with the forward and reverse rate constants of their reactions, and is started empty on the described lattice for the given number of steps. A micro-kinetic example, run as a script, ends in a steady state that is physical and stationary for the collision-theory rate constants.",
 ['inputs','configurations'],'All shipped examples with varied conditions and energies; the Python 2 run scripts of the lattice examples are outside.',
 'No test loads an example.',
 ['examples',KS,'scaks/parsers/kmc_parser.py','scaks/models/kmc_model.py',SS],[('KMCSolver.processes',KS),('KMCParser.parse_data','scaks/parsers/kmc_parser.py'),('SolverBase.get_rxn_rates_CT','scaks/solvers/solver_base.py')],['model.solver.processes','what the engine is started with','data.pkl'])

p('C43','Maps over two pressures show the collected values at their pressures',
 "The map plots of coverages and turnover frequencies, and the phase diagrams built from both, show at every point of the plane (CO pressure across, O2 pressure up) the value found by linear interpolation between the results at the neighbouring pressures, the border value outside of them, whatever the order in which the jobs were collected. The phase diagram shows O minus CO coverage filled and the turnover frequency as lines.",
 ['inputs'],'All grids of at least two by two different pressures, in any order, and all values.',
 'No test covers the scripts.',
 ['scripts/kmc_plot/map_plot','scripts/mkm_plot/map_plot'],[('map plots of lattice results','scripts/kmc_plot/map_plot/plot_phase_diagram.py'),('map plots of mean-field results','scripts/mkm_plot/map_plot/plot_phase_diagram.py')],['contour arguments of the shown figure'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
