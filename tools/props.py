import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
PE="Parse_eqn_file.py"
p("C01","A mechanism file is read as exactly the reactions it states",
 "Every reaction of a KPP mechanism file is read with exactly its own reactants, products, stoichiometric coefficients (a species written several times counts the sum) and rate expression, whatever layout KPP allows (whitespace, tabs, reactions over several lines, coefficients written as 2NO2, 0.5X, 2 NO2). Photons (hv) are never a species, names that contain digits keep them, and every species gets exactly one index, a bijection with 0..N-1. Reading a file depends on nothing but that file.",
 ["inputs","histories"],"all mechanisms (any number of reactions, species, coefficients, layouts) and any sequence of files parsed in one process",
 "The tests parse one real mechanism and only compare array shapes; no repeated, fractional, spaced or multi-line term is checked, nor any second parse.",
 [PE],[("regular expressions splitting reactions, terms and leading coefficients; accumulation of loss, gain and stoichiometry dictionaries",PE+":extract_mechanism")],
 [("loss/gain/stoichiometry dictionaries","which species each reaction consumes and produces, and how many",PE+":extract_mechanism"),("species index map","name to array position",PE+":extract_mechanism")],
 ["the dictionary returned by the parser"])
p("C02","Translated rate expressions mean the same in every backend",
 "For every reaction, the rate coefficient the generated code computes (plain Python, Numba and Fortran) equals the value of the mechanism's rate expression under ordinary arithmetic, for every temperature, RO2, H2O and photolysis state. This holds for any combination of exponent notation, functions (EXP, LOG10, dlog, dabs, dsqrt), nested parentheses, powers, photolysis references J(n) and named coefficients, and for any length of expression. Reaction n's value lands in slot n.",
 ["inputs","configurations"],"all rate expressions over the MCM grammar, all temperatures/RO2/H2O/time of day, all three generated backends, OpenMP on or off",
 "Tests compare only the shape of the rate array for one mechanism at one point; any wrong translation that still compiles passes.",
 ["rate_coeff_conversion.py",PE],[("textual rewriting of functions, exponents and J() references","rate_coeff_conversion.py"),("one assignment per reaction in the emitted evaluator",PE+":write_rate_file*")],
 [("rate_values","one rate coefficient per reaction","generated modules")],["generated rate evaluators, executed"])
p("C03","Generic MCM coefficients and photolysis follow the published scheme",
 "The complex and simple generic rate coefficients and the photolysis rates built into the generated code equal the MCM v3.3.1 parameterisation in every backend at every temperature, air/water amount and time of day. Photolysis rates are finite, non-negative, zero (negligible) while the sun is below the horizon, and repeat with a period of 24 h. No photolysis channel used by an MCM mechanism is left undefined.",
 ["inputs","configurations"],"all times of day (also beyond 24 h), temperatures, water concentrations; all generated backends",
 "Tests evaluate one time of day and one temperature and check only array shape.",
 [PE],[("constant tables and solar geometry written into the emitted evaluator",PE+":write_rate_file, write_rate_file_numba, write_rate_file_fortran")],
 [("J table","photolysis rate per MCM channel","generated modules")],["generated rate evaluators, executed"])
p("C04","Reactant product equals the mass-action monomial of each reaction",
 "For each reaction the generated code multiplies the concentrations of its reactants, each to the power of its stoichiometric coefficient, and nothing else; a reaction with no reactant but hv or with third bodies is no exception. Numba, Fortran (serial and OpenMP) and the exported sparse exponents agree. Products, other reactions and indices never leak in.",
 ["inputs","configurations"],"all reaction networks and all concentration vectors, every backend",
 "Tests only compare the result's shape for one mechanism.",
 [PE],[("emission of one product expression per reaction",PE+":write_reactants_indices, write_reactants_indices_fortran")],
 [("reactants array","one product per reaction","generated modules")],["generated reactant-product functions, executed"])
p("C05","Tendencies are net stoichiometry times rates and conserve what they should",
 "The tendency of each species is the sum over reactions of (produced minus consumed) coefficient times that reaction's rate, in the Numba code, the Fortran code and the exported sparse matrix alike. Air, water and oxygen are held constant. Hence every linear invariant of the mechanism (e.g. atoms balanced by all reactions) is conserved by the tendency to rounding.",
 ["inputs","configurations"],"all reaction networks, all rate vectors, every backend",
 "Tests only compare shapes; a sign, coefficient or missing term is invisible to them.",
 [PE],[("emission of one signed sum per species, with wrapping of long lines",PE+":write_loss_gain_matrix, write_loss_gain_fortran")],
 [("dydt array / sparse matrix","net production per species","generated modules")],["generated loss/gain functions and matrix, executed"])
p("C06","The supplied Jacobian is the derivative of the tendency",
 "Entry (i,j) of the generated Jacobian equals the partial derivative of species i's tendency with respect to species j's concentration at fixed rate coefficients, in the Numba and Fortran code, for every stoichiometry (including species that are both consumed and produced, repeated and fractional orders) and including zero entries. Rows of held-constant species are zero.",
 ["inputs","configurations"],"all reaction networks, rate and concentration vectors, both backends",
 "Tests check only the matrix shape on one mechanism; a wrong entry silently slows or corrupts the stiff solver.",
 [PE],[("symbolic differentiation of each rate into emitted assignments",PE+":write_gas_jacobian_numba, write_gas_jacobian_fortran")],
 [("dydt_dydt","Jacobian matrix","generated modules")],["generated Jacobians, executed"])
p("C07","Generated OpenMP gas-phase code gives the serial result on every schedule",
 "Generating the gas-phase routines with OpenMP enabled changes nothing observable: for every machine core count at generation time, every thread count at run time and every interleaving of the threads, the routine returns the serial result. Every reaction, species or Jacobian row is computed exactly once and no variable is shared between sections that one of them writes.",
 ["schedules","configurations","inputs"],"all interleavings of the parallel sections, all core counts at generation, all team sizes, all networks",
 "Races and lost sections depend on core count and scheduling; tests run on one machine and look at shapes only.",
 [PE],[("cutting the statement list into SINGLE NOWAIT sections at evenly spaced breaks",PE+":write_rate_file_fortran, write_reactants_indices_fortran, write_loss_gain_fortran, write_gas_jacobian_fortran")],
 [("rate_values, reactants, dydt, dy_dydy","arrays shared by the team","generated .f90")],["emitted sections under a controlled scheduler; compiled -fopenmp code"])
p("C08","Total RO2 is the sum over exactly the peroxy radicals present",
 "The peroxy-radical pool used in rate expressions is the sum of the concentrations of exactly those species of the mechanism on the MCM RO2 list, each once, at their own array positions, whatever order species appear in. A mechanism with no, one or all peroxy radicals works alike.",
 ["inputs","histories"],"all subsets and orders of species, incl. the empty pool; save/reload of the index file",
 "The test checks only the number of indices for one mechanism.",
 [PE,"ODE_solver.py"],[("membership test of the MCM RO2 names and saved index list",PE+":write_RO2_indices"),("sum over indices","ODE_solver.py")],
 [("RO2 index file","array positions of peroxy radicals","<name>_RO2_indices.npy")],["index file", "RO2 argument received by the rate evaluator"])
p("C09","Gas-phase drivers integrate the mechanism continuously in time",
 "The gas-phase simulation hands the solver, at every batch and every call, the mechanism's tendency and Jacobian at the solver's current state and at the true time of day (start time plus all simulated time, not restarted each batch), starting from the user's ppb concentrations converted to molecules per cc and continuing each batch from the last state of the previous one. For every simulation length and batch length it completes, covers the requested time and returns/saves one row per batch, with times and species columns aligned. With a solver that keeps its error tolerances the concentrations delivered follow the mechanism's own solution to about a percent. Repeated calls with the same input give the same result.",
 ["inputs","histories","configurations"],"all (simulation time, batch, start time, initial concentrations) and every solver behaviour (evaluation order, output points), Numba and Fortran drivers",
 "No test runs a driver; the solver library is not even needed by the suite.",
 ["ODE_solver.py","f2py/ODE_solver.py"],[("batch loop carrying state, clock and output matrix","ODE_solver.py:run_simulation, f2py/ODE_solver.py:run_simulation"),("right-hand side and Jacobian closures","same")],
 [("total_time, time_step, y_matrix","progress through batches","ODE_solver.py")],["calls made to the solver; returned arrays; saved files"])
p("C10","Generated artefacts always belong to the mechanism being simulated",
 "The code and data files a simulation uses describe the mechanism that was asked for: regenerating after another mechanism, or in any order of the generator steps, gives the same files as a fresh start, and re-running with the reuse option gives the same simulation as the run that wrote them. Generators never alter the parsed mechanism they are given in a way a later generator sees.",
 ["histories","configurations"],"all sequences of parse/generate/run steps over several mechanisms, with and without reuse of existing files, Numba and Fortran program variants",
 "Tests generate once, in one order, for one mechanism; stale or mutated state needs a history.",
 [PE,"Gas_simulation.py","f2py/Gas_simulation_f2py.py","rate_coeff_conversion.py"],[("pickled dictionaries plus generated modules keyed by mechanism","Gas_simulation.py, f2py/Gas_simulation_f2py.py"),("in-place conversion of rate dictionaries","rate_coeff_conversion.py")],
 [("species/rate pickles and generated modules","hand-over between runs","working directory")],["files written; arguments reaching the simulation"])
p("C11","Gas-particle partitioning conserves mass and follows the condensation law",
 "Condensational transfer between gas and each size bin equals the mass-transfer coefficient times the difference between the gas concentration and the Kelvin- and composition-corrected equilibrium concentration, for every compound, bin and phase state; what the gas loses the particles gain exactly; a compound excluded from partitioning is untouched. Reported bin radii, SOA mass and water activity follow from the particle composition. Gas-phase entries the kernel was not asked about are unchanged.",
 ["inputs","configurations"],"all bin counts, species counts, included-compound sets, concentration vectors (incl. empty bins) and core properties",
 "No test executes the partitioning kernel's numbers (only its output shape).",
 [PE,"Aerosol/f2py/ODE_solver.py"],[("emitted loop over size bins computing size, mass transfer and flux",PE+":write_partitioning_section_fortran_ignore"),("composition of gas and particle tendencies in the driver","Aerosol/f2py/ODE_solver.py")],
 [("y layout","gas concentrations followed by one block of compounds per bin","Partitioning.f90")],["emitted kernel, executed"])
p("C12","Partitioning loop over size bins is free of races",
 "The parallel loop over size bins of the generated partitioning kernel returns the serial result for every number of threads, every assignment of bins to threads and every interleaving of their steps. No loop temporary is shared between threads, and no shared total is updated without protection.",
 ["schedules","configurations"],"all interleavings of 2-3 bins on 2-3 threads and all static assignments; all thread counts in compiled runs",
 "A race shows only on particular schedules; the test runs one bin layout once and looks at the shape.",
 [PE],[("OpenMP PARALLEL DO with PRIVATE list and reductions",PE+":write_partitioning_section_fortran_ignore")],
 [("loop temporaries","per-bin working values","Partitioning.f90")],["emitted loop under a controlled scheduler; compiled -fopenmp code"])
p("C13","Aerosol drivers couple gas and particles without losing state or time",
 "The coupled and fixed-yield simulations hand the solver a tendency that is gas chemistry (where present, at the given humidity and true time of day) plus partitioning at the solver's current state, each batch continuing from the last state (gas, particles, water) and clock of the previous one. For every simulation and batch length they finish, cover the requested time and save aligned output: one row per batch, whose size and SOA diagnostics belong to the state saved in that row. With a solver that keeps its error tolerances the composition follows the solution of those tendencies to about two percent. Compounds passing the volatility cut-off keep their identity in every array they appear in.",
 ["inputs","histories","configurations"],"all simulation/batch lengths, bin counts, compound subsets and solver behaviours",
 "No test runs the aerosol programs at all.",
 ["Aerosol/f2py/ODE_solver.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py","Aerosol/f2py/Aerosol_simulation_f2py.py"],[("right-hand side closure and batch loop","Aerosol/f2py/ODE_solver.py, Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py")],
 [("y, y_matrix, size and mass arrays","state over batches","Aerosol/f2py/ODE_solver.py")],["calls to the solver and kernels; returned arrays and files"])
p("C14","The initial size distribution is the requested lognormal",
 "The sectional aerosol has exactly the requested number of size bins, geometrically spaced from the smallest to the largest requested size inclusive and strictly increasing. Bin numbers are positive, add up to the requested total concentration, and stand in the ratio of the lognormal density, with the requested median and geometric standard deviation, at the bins' own sizes. Scaling the total scales every bin alike.",
 ["inputs"],"all bin counts, totals, medians, widths and size ranges in the domain",
 "No test touches the size distribution.",
 ["Aerosol/Size_distributions.py"],[("logarithmic grid and normalised lognormal density","Aerosol/Size_distributions.py:lognormal")],
 [("bin sizes and numbers","sectional representation","Aerosol/Size_distributions.py")],["returned arrays"])
p("C15","Each compound keeps its own structure and properties",
 "Every species is mapped to its own SMILES structure and to properties computed from that structure, never to another species' (also when an entry is missing). Vapour pressure, density, molar mass and the other arrays stay aligned with species order for every subset that passes the volatility cut-off, and excluded compounds appear in none of them.",
 ["inputs","histories"],"all orders/subsets of species and structure entries (incl. missing ones) and all volatility cut-offs",
 "No test supplies a structure file; property calculation depends on an optional package.",
 [PE,"Aerosol/Property_calculation.py"],[("name to structure mapping from the structure file",PE+":extract_smiles_species, extract_species"),("cut-off filter and array assembly","Aerosol/Property_calculation.py:Pure_component1, Pure_component2")],
 [("SMILES and property dictionaries/arrays","one entry per compound","Aerosol/Property_calculation.py")],["returned dictionaries and arrays"])
p("C16","Figures show the simulated numbers",
 "The composition plot draws one figure per output step in which each size bin is one full stack of the mass shares of the compounds other than water in that bin (slightly negative amounts count as nothing), one colour per compound throughout, titled with that step's total mass of them. The drivers' curves are the base-10 logarithm of the named species' concentrations, and the total SOA mass, against the time at which each batch ends. This holds for every number of compounds, bins and steps, also when compounds are left out of the condensed phase, and drawing never changes the output.",
 ["inputs","histories"],"all compositions, bin counts, excluded-compound subsets and sequences of output steps",
 "No test draws a figure; the drivers swallow every exception a figure raises.",
 ["Plotting.py","Aerosol/f2py/Fixed_yield/Plotting.py","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py","Aerosol/f2py/ODE_solver.py","f2py/ODE_solver.py"],
 [("stacked composition bars","Plotting.py:stacked_bar, Aerosol/f2py/Fixed_yield/Plotting.py:stacked_bar"),("drivers' own curves","f2py/ODE_solver.py:run_simulation, Aerosol/f2py/ODE_solver.py:run_simulation")],
 [("output matrix rows","gas part then bins","Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py")],["figures shown"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
