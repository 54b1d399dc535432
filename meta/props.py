P = []
NA = []


def q(over, text):
    return {"over": over, "text": text}


def prop(id, title, statement, over, qtext, why, files, mech, technique="", note="", state=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": q(over, qtext), "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
         "technique": technique, "note": note}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if na:
        d["na"] = na
    P.append(d)


SOUND = ("Decides the stated rule over every matching construct of the clang-parsed build configuration; trusts clang's parse, "
         "the resolved call graph (virtual calls to all overriders) and the tables frozen in the check. ")

prop("C01", "No exception escapes the C and Fortran interfaces; failures are reported",
     "No call of a function of the C or Fortran interface lets a C++ exception reach its caller. When the library fails inside such a call, the function "
     "returns the error value of its return type (negative for integers, -999.999 for floating point, the maximal value for sizes), never a value that reads as success, "
     "and the error message can be retrieved afterwards.",
     ["inputs", "fault_sequences"], "every interface function, every point inside it at which the library can throw, every kind of exception",
     "Tests call a few dozen of 450 functions and provoke an error in a handful; the failing path of each of the others is never run.",
     ["src/clib", "src/fortran"],
     [("try / catch (...) with handleAllExceptions", "src/clib/clib_utils.h"), ("handleError in the Fortran files", "src/fortran")],
     "interprocedural may-throw analysis plus exception-path constant propagation of return values",
     SOUND + "Exceptions thrown by the handlers' own error recording (out of memory) are not modelled.")

prop("C02", "The C interface never leaves the buffers its caller declares",
     "A C interface function that takes an array or character buffer together with its length never reads or writes beyond that length, whatever the length is "
     "and whatever the size of the object it works on. A length too small for the data is answered with an error, and returned strings are always terminated inside the buffer.",
     ["inputs"], "every function with a (length, buffer) pair, every length, every object size",
     "Tests pass buffers of the right size; an overrun with a wrong one is silent unless the memory happens to be checked.",
     ["src/clib", "src/fortran", "src/base/stringUtils.cpp"],
     [("checkSpeciesArraySize and the like before the copy", "src/clib"), ("copyString", "src/base/stringUtils.cpp")],
     "flow-sensitive buffer-extent analysis with dimension-typed guards",
     SOUND + "Extents of library routines that fill caller arrays come from a frozen table of documented dimensions.")

prop("C03", "Indices and handles from outside are validated before they select anything",
     "An index (species, reaction, element, phase, component, domain, point) or object handle that a caller passes through the C or Fortran interface and that is out of range is "
     "rejected with an error before it selects an element. The library's checking functions accept exactly the valid range, each is applied to the dimension it names, and the "
     "one-based indices of Fortran are converted exactly once.",
     ["inputs"], "every index argument of every interface function and checking accessor, every integer value including the boundary and negative ones",
     "Tests use valid indices, and an off-by-one in a boundary check or a missing check reads adjacent memory without failing.",
     ["src/clib", "src/fortran", "src/thermo/Phase.cpp", "src/kinetics/Kinetics.cpp", "src/oneD", "src/zeroD", "src/equil/MultiPhase.cpp"],
     [("checkSpeciesIndex, checkReactionIndex, checkPhaseIndex, ...", "src/thermo/Phase.cpp, src/kinetics/Kinetics.cpp"), ("SharedCabinet::at", "src/clib/Cabinet.h")],
     "interprocedural index-taint analysis with ordering case analysis of the check functions",
     SOUND + "Containers kept in step with their dimension by an object invariant are trusted to have that size.")

prop("C04", "Foreign-language declarations match the functions they bind",
     "Every procedure declared by the Fortran interface and every native function called by the MATLAB toolbox and the hand-written .NET binding exists, "
     "and is passed as many arguments as the function takes, in its order and with matching types (Fortran) and result type.",
     ["programs"], "every declaration and call site of the Fortran, MATLAB and .NET bindings",
     "The bindings are linked by name without type checks; the MATLAB toolbox is not run at all by the test suite, and the Fortran tests call a few procedures.",
     ["src/fortran", "interfaces/matlab_experimental", "interfaces/dotnet", "src/clib"],
     [("interface block", "src/fortran/cantera_funcs.f90 / fct_interface.f90"), ("ctFunc / ctString / ctArray", "interfaces/matlab_experimental")],
     "cross-language signature comparison",
     SOUND + "Fortran and MATLAB sources are read with a purpose-written declaration parser.")

prop("C05", "Each C and Fortran function performs the operation it is named after",
     "A C or Fortran interface function that returns successfully has performed the library operation its name states, on the object its handle selects, with the caller's "
     "arguments passed on unchanged, unscaled and in order, and it returns what that operation returned (or zero for a plain status). Functions that choose by a flag perform "
     "the operation of that flag value.",
     ["inputs"], "every interface function, every path to a successful return, every value of a selecting flag",
     "Most interface functions are never called by a test, and neighbours with the same signature (chemical and electrochemical potentials, forward and reverse rates) give plausible numbers when exchanged.",
     ["src/clib", "src/fortran"],
     [("one delegating body per function", "src/clib/ct*.cpp, src/fortran/f*.cpp")],
     "value-flow (symbolic term) analysis of each interface function against its name, with constant specialisation of flags",
     SOUND + "The pairing of names with operations is derived from the names, with a frozen alias table where they differ.")

prop("C06", "Errors cross between Python and C++ as exceptions in both directions",
     "A C++ exception raised below any library function that the Cython layer calls becomes a Python exception of the matching class and never ends the interpreter. "
     "An exception raised in a Python callback that the library calls - of whatever class, including KeyboardInterrupt - is caught, carried through the C++ code and "
     "reported to the Python caller, never dropped.",
     ["inputs", "fault_sequences"], "every C++ function used by the Python module, every override reachable from it, every callback and every exception class",
     "A missing exception clause only shows when that particular function fails, and then it kills the test process; tests provoke a few of several hundred failures.",
     ["interfaces/cython/cantera", "include/cantera/cython/funcWrapper.h", "src/extensions"],
     [("except +translate_exception on declarations", "interfaces/cython/cantera/*.pxd"), ("callback_* wrappers", "interfaces/cython/cantera/delegator.pyx, func1.pyx"),
      ("translate_exception, pyOverride, Func1Py", "include/cantera/cython/funcWrapper.h")],
     "may-throw reachability from Cython declarations (Cython parse trees joined with the C++ call graph), handler-order and containment rules",
     SOUND + "Declarations of templates and implicit constructors without a parsed counterpart are not judged; allocation failure is not modelled.")

prop("C07", "Kept results always belong to the present state and parameters",
     "Phases, transport models, kinetics managers and rate-data objects keep computed values between calls; a query never returns a value kept for another state. A calculation that is "
     "skipped because recorded state (temperature, pressure, density, composition number) is unchanged depends on no state beyond what is compared, and the record is advanced only together with the values. "
     "Every public operation that changes the state or a parameter (species data, polynomials, reactions, interaction coefficients) that kept values were computed from marks them outdated or recomputes them, "
     "every composition change advances the composition number that other objects compare, a density computed from the state follows it, and a refresh of rate data is reported to the rate evaluators.",
     ["histories", "inputs"], "every sequence of state changes, parameter changes and queries on every concrete phase, transport, kinetics and rate-data class",
     "A stale value needs a particular order of calls (query, change one input, query another quantity); the tests exercise few orders per class, and a stale value is a plausible number.",
     ["src/thermo", "src/transport", "src/kinetics", "include/cantera/thermo", "include/cantera/transport", "include/cantera/kinetics"],
     [("m_tlast / CachedValue comparisons before recomputation", "src/thermo, src/kinetics"), ("invalidateCache()", "src/base, src/thermo, src/transport, src/kinetics"),
      ("*_ok flags", "src/transport"), ("compositionChanged / stateMFNumber", "src/thermo/Phase.cpp"), ("ReactionData::update", "src/kinetics")],
     "memoisation analysis: guard/key versus transitive read set per concrete class, must-invalidate and must-update dataflow",
     SOUND + "Set-up functions (initThermo, addSpecies and the like run before first use) are not treated as state changes; loops over species are taken to run; arithmetic of the values is not judged.",
     state=[("composition number", "number advanced with every composition change", "Phase::m_stateNum"), ("key fields", "state the kept values belong to", "m_tlast, CachedValue::state1..")])

prop("C08", "Array queries define every entry of the caller's array",
     "A public query of a phase, kinetics manager, transport model or multiphase mixture that fills an array supplied by the caller stores every entry of the documented length (species, reactions, or "
     "species of all phases of the kinetics manager) on every path on which it returns, whatever the state, settings or model branch, and its results never depend on what the array held before the call: "
     "no entry is read, added to or scaled before it has been stored.",
     ["inputs", "configurations"], "every public get* query with a double* output of every concrete class, every path through it and its callees, every previous content of the array",
     "An entry left unset keeps plausible old numbers; the tests pass fresh (often zeroed) arrays and take the common branch.",
     ["src/thermo", "src/kinetics", "src/transport", "src/equil", "include/cantera"],
     [("get*(double*) const", "src/thermo, src/kinetics, src/transport"), ("MultiPhase::get*", "src/equil/MultiPhase.cpp"), ("StoichManagerN increments", "include/cantera/kinetics/StoichManager.h")],
     "must-definition dataflow over loops, algorithms and callee summaries; dimension of each stored range",
     SOUND + "Loops over species or reactions are taken to run to their bound; Array2D outputs and the values themselves are not judged.")

prop("C09", "Every reactor reads and writes its state by one layout, names included",
     "For each reactor type there is one layout of the state vector, the documented one: getState stores in each entry the quantity the layout assigns to it, updateState takes mass, volume, temperature or "
     "internal energy, composition and surface coverages from those same entries, and neq, componentName and componentIndex (and speciesIndex) describe it. After updateState the phase, the reactor's mass and volume, the saved state "
     "and the pressure, enthalpy and internal energy that connected devices read are those of the new state, and the flow rates of its devices belong to the network's present time. "
     "getState describes the reactor's own saved state, also when other reactors share its phase object.",
     ["inputs", "configurations", "histories"], "every reactor type with and without energy equation, every entry of its state vector, every state",
     "Two methods that disagree on one entry are wrong for the types and settings the tests do not pair; a wrong start value only shifts results a little.",
     ["src/zeroD/Reactor.cpp", "src/zeroD/MoleReactor.cpp", "src/zeroD/ConstPressureReactor.cpp", "src/zeroD/IdealGasReactor.cpp", "src/zeroD/IdealGasMoleReactor.cpp",
      "src/zeroD/ConstPressureMoleReactor.cpp", "src/zeroD/IdealGasConstPressureReactor.cpp", "src/zeroD/IdealGasConstPressureMoleReactor.cpp", "src/zeroD/FlowReactor.cpp"],
     [("getState / updateState", "src/zeroD/*Reactor.cpp"), ("componentName / componentIndex", "src/zeroD/*Reactor.cpp"), ("updateConnected", "src/zeroD/Reactor.cpp")],
     "symbolic value numbering of each method into polynomials per entry, compared with the layout",
     "Decides every entry the pass can express as a polynomial over state, properties and sums; an entry it cannot express is counted as undecided in the evidence and raises nothing (none on this tree). ",
     state=[("state vector", "entries in the documented order of the type", "argument y of getState / updateState"), ("saved state", "phase state of this reactor", "ReactorBase::m_state")])

prop("C10", "Reactors integrate the balance equations they document",
     "For every reactor type, with chemistry and energy equation on or off, the right-hand side and the left-hand-side factor that eval stores for each entry equal the documented governing equation of that "
     "entry: mass, volume, energy or temperature, species and surface species, with the contributions of all inlets, outlets, walls and surfaces, computed from the reactor's own saved state. A wall's expansion rate and heat rate and the mass "
     "flow rates of mass flow controllers, valves and pressure controllers follow their documented formulas, flow is never negative, and a species carried into a reactor is the one of the same name. The network "
     "hands each reactor its own part of the vector at the time and state asked for and divides by the left-hand side; the plug-flow reactor's residuals equal its documented equations.",
     ["inputs", "configurations"], "every reactor type and setting, every entry of the equations, every number of inlets, outlets, walls and surfaces, every state",
     "Tests compare a few trajectories of a few configurations; a missing or mis-signed term that is zero or small there goes unseen.",
     ["src/zeroD", "include/cantera/zeroD", "doc/sphinx/reference/reactors"],
     [("eval", "src/zeroD/*Reactor.cpp"), ("evalSurfaces, evalWalls", "src/zeroD/Reactor.cpp, src/zeroD/MoleReactor.cpp"), ("Wall::expansionRate, heatRate", "src/zeroD/Wall.cpp"),
      ("updateMassFlowRate, outletSpeciesMassFlowRate", "src/zeroD/flowControllers.cpp, src/zeroD/FlowDevice.cpp"), ("ReactorNet::eval", "src/zeroD/ReactorNet.cpp"), ("evalDae", "src/zeroD/FlowReactor.cpp")],
     "symbolic value numbering of eval() and its callees into polynomials with symbolic sums, compared with the documented balances",
     "Decides every entry the pass can express; entries it cannot express are counted as undecided and raise nothing (none on this tree). The oracle is transcribed from doc/sphinx/reference/reactors; "
     "identities between thermodynamic properties are assumed to hold. Jacobians used as preconditioners are not judged.")

prop("C11", "Tables are as large as the loops and calls that use them",
     "Every table (vector or matrix) kept by a phase, kinetics manager, transport model, reactor, one-dimensional domain or equilibrium solver, or local to a function, has, wherever it is sized, at least as many entries "
     "as each loop over it, and each function it is handed to, reads or writes, counted in species, elements, reactions, phases, grid points or the like. A table extended when a species, element, reaction or phase is added "
     "gets exactly one entry (or as many as its stride says) on each successful addition, in every case of the addition. A table that loops use is given a size somewhere.",
     ["inputs", "configurations", "histories"], "every number of species, elements, reactions, phases, surfaces and grid points, every order of additions and set-up calls, every table",
     "Tests use mechanisms in which counts happen to suffice (binary solutions, one interaction, at least as many species as reactions); an entry past the end of a vector is then in spare capacity and reads as a plausible number.",
     ["src/thermo", "src/kinetics", "src/transport", "src/zeroD", "src/oneD", "src/equil", "include/cantera"],
     [("resize / assign / push_back in addSpecies, addElement, addReaction, resizeSpecies, resize, init", "src/*/*.cpp"), ("loops over nSpecies(), nReactions(), m_kk, m_nsp, ...", "src/*/*.cpp")],
     "symbolic extents: sizes of containers and needs of loops and calls as polynomials in resolved counts, compared per sizing site",
     "Decides a table when both its size and the need can be expressed in the same resolved counts and their difference has a definite sign; others are listed as undecided in the evidence and raise nothing. A count is one quantity "
     "(number of species of a phase), whichever variable keeps it; that the variable is current is property C07's matter. Data-dependent subscripts (interaction parameters, stoichiometry) are not judged.",
     state=[("tables", "one entry per species, reaction, element, phase, grid point or pair of these", "data members of the classes")])

prop("C12", "The thermodynamic properties of a phase agree with one another",
     "For every phase model, every state and composition: molar enthalpy, entropy, internal energy, Gibbs function, heat capacity and volume equal the mole-fraction-weighted sums of the partial molar values; "
     "g = h - T s, u = h - p v and mu_k = h_k - T s_k; standard-state and reference-state Gibbs functions are h - T s of the same state, and the different functions returning one standard quantity (dimensionless, per mole, "
     "pure-species) agree; a chemical potential is the standard value plus R T ln(activity); activities, activity coefficients (and logarithms), activity concentrations and standard concentrations are consistent; the "
     "electrochemical potential adds charge times Faraday constant times electric potential; properties per unit mass are molar ones divided by the mean molecular weight; cp - cv = T v beta^2 / kappa. "
     "(Not for plasmas with a separate electron temperature, where they do not apply.)",
     ["inputs", "configurations"], "every phase class the factory creates, each of its formulations, every temperature, pressure, composition and parameter set, any number of species",
     "Tests sample a few phases at a few states, with relations switched off where one model parameter is zero; a term that vanishes at the reference pressure or in dilute states goes unseen.",
     ["src/thermo", "include/cantera/thermo"],
     [("enthalpy_mole, getPartialMolar*, getChemPotentials, getActivities, standardConcentration, ...", "src/thermo/*.cpp")],
     "symbolic value numbering of every property method per class into polynomials with symbolic species sums; identities compared in normal form",
     "Decides each identity for which both sides can be expressed; the others (most of LatticeSolidPhase's per-species ones, interpolated volumes of BinarySolutionTabulatedThermo, cp - cv of the pure-fluid models, whose equation-of-state objects are taken as "
     "they are) are listed as undecided or not applied in the evidence and raise nothing. Species thermodynamics (m_spthermo, PDSS) is assumed consistent within itself; activity-coefficient models are one unknown function of state each.")

prop("C13", "Rate constants follow their documented expressions",
     "For every parameter set and state, the rate coefficient returned by each rate type equals its documented expression (doc/sphinx/reference/kinetics/rate-constants.md): modified Arrhenius, two-temperature plasma, "
     "Blowers-Masel with its three cases of activation energy; Lindemann, Troe, SRI and Tsang falloff and chemically activated rates; P-log interpolation with rates at one pressure added; Chebyshev expansion; "
     "interface and sticking rates with coverage dependence, Butler-Volmer and exchange current corrections, site density and Motz-Wise factors. Analytical temperature derivatives equal the derivative of the rate; "
     "a rate built from numbers returns them as its parameters; logarithms and reciprocals kept in rate data objects belong to the temperature and pressure stored with them, also after perturbing the state for a "
     "numerical derivative and restoring it; lists of coverage parameters stay in step.",
     ["inputs", "configurations"], "every parameter set, temperature, pressure, composition and coverage in the documented domain, every number of coefficients, rates and species, with or without a kinetics manager",
     "Tests compare a few reactions at a few states against stored values; a wrong branch, a term that vanishes for the tested coefficients or an update that leaves a kept logarithm behind goes unseen.",
     ["src/kinetics", "include/cantera/kinetics"],
     [("updateFromStruct / evalFromStruct / ddTScaledFromStruct", "include/cantera/kinetics/*Rate*.h"), ("ReactionData::update, perturb*, restore", "src/kinetics")],
     "symbolic value numbering of update and evaluation (loops as symbolic sums and recurrences), compared with the documented expression by normal form and term identity testing",
     "Decides the values of terms; floors that keep logarithms and quotients finite (SmallNumber, 1e-300) are taken as not reached, and the Linear-Burke, custom-function and electron-collision rates, reading parameters from "
     "YAML, and unit conversion are not covered. Two terms are taken as equal when they agree, in 60-digit arithmetic, at many random interpretations of their atoms: the terms are evaluated, not the program.")

prop("C14", "Properties that are derivatives of others are their derivatives",
     "For every phase model, every state and composition: heat capacities (of mixture, per species, of standard and reference states) are the temperature derivatives of the corresponding enthalpies and T times those of the "
     "entropies at constant pressure; cv of the internal energy at constant volume (constant species volumes); entropies are minus the temperature derivatives of the Gibbs function and the chemical potentials; molar, partial molar "
     "and standard volumes are the pressure derivatives of the Gibbs function, the chemical potentials and standard chemical potentials; thermal expansion coefficient and isothermal compressibility are those of the "
     "molar volume; the temperature, pressure and composition derivatives of activity coefficients kept by Margules, Redlich-Kister and Debye-Huckel models are the derivatives of the kept coefficients, which obey Gibbs-Duhem; heat "
     "capacity, enthalpy and entropy of every species parameterisation (NASA-7, NASA-9, Shomate, constant cp, ...) are one function's derivatives, by whichever of their two update methods they are computed.",
     ["inputs", "configurations"], "every phase class the factory creates except pure-fluid equations of state and plasmas, each of its formulations, every temperature, pressure, composition and parameter set, any number of species",
     "Tests compare finite differences at a few states of a few phases; a term that vanishes there, an unused parameter or a cancelling pair of errors goes unseen.",
     ["src/thermo", "include/cantera/thermo"],
     [("cp_mole, cv_mole, getPartialMolarCp, thermalExpansionCoeff, s_update_*, daAlpha_dT, ...", "src/thermo/*.cpp"), ("updateProperties, updatePropertiesTemp", "include/cantera/thermo/*Poly*.h")],
     "symbolic value numbering of every property method per class; symbolic differentiation of the value terms; identity testing of terms",
     "Equations of state are differentiated through their pressure function. Species thermodynamics and standard state objects enter through their own derivative identities (checked for the parameterisations, assumed for standard "
     "state objects). The Pitzer model's stored derivatives, Debye-Huckel's, coverage-dependent contributions and per-species values of LatticeSolidPhase are undecided and listed in the evidence. Two terms are taken as equal when "
     "they agree in 60-digit arithmetic at random interpretations of their atoms: the terms are evaluated, not the program.")

prop("C15", "Production rates, reaction deltas and equilibrium constants agree",
     "For every kinetics manager and mechanism, in every state: creation rates are the product coefficients times forward plus the reactant coefficients times reverse rates of progress, destruction rates the converse, net "
     "production rates their difference, and the temperature, pressure and composition derivatives of each are the same sums; the change of any species property over a reaction is its products' minus its reactants' (the standard "
     "and actual Gibbs function, enthalpy, entropy and electrochemical potential use the property they name); equilibrium constants are exp(-dG0/RT) in concentration units; reverse rates are forward rate constants over "
     "equilibrium constants for reversible reactions and zero for irreversible ones; rates of progress are rate constant times multiplier (times third-body concentration) times concentrations to the orders, and net is forward minus reverse.",
     ["inputs", "configurations"], "every mechanism, state, multiplier and electric potential; bulk and surface kinetics managers",
     "Tests compare the rates of a few mechanisms at a few states, mostly with unit multipliers, neutral phases and reversible reactions; a wrong term that vanishes there goes unseen.",
     ["src/kinetics", "include/cantera/kinetics"],
     [("getCreationRates, getDestructionRates, getNetProductionRates (and _ddT, _ddP, _ddC, _ddX, _ddCi), addReaction", "src/kinetics/Kinetics.cpp"),
      ("updateROP, getEquilibriumConstants, getFwdRateConstants, getRevRateConstants, getDelta*", "src/kinetics/BulkKinetics.cpp, src/kinetics/InterfaceKinetics.cpp")],
     "abstract interpretation of each method over one general entry of each array, with stoichiometric managers as linear operators; comparison of normal forms",
     "Assumes kept intermediate results are current (C07), that every phase of an interface exists and that the overflow limit of reverse rates is not reached. Methods that select entries in ways not followed are undecided "
     "and listed in the evidence. The derivatives of rates of progress themselves enter as unknowns (C13 covers those of rate constants).")

prop("C30", "Chemical equilibrium conserves elements and minimises the Gibbs function",
     "Equilibrating a phase or mixture leaves element abundances and the held pair of properties unchanged within the tolerance and ends at the composition of lowest Gibbs function, or reports failure.",
     ["inputs"], "every phase or mixture, every starting state and pair of held properties", "Tests equilibrate a few mixtures.",
     ["src/equil"], [("equilibrate", "src/equil/ChemEquil.cpp, src/equil/MultiPhaseEquil.cpp, src/equil/vcs_solve.cpp")],
     na="The result is what an iterative solver leaves after a number of damped steps that depends on the data; no static argument in reach bounds the residual or shows convergence. Sizes of its tables are covered by C11.")
prop("C31", "Integrated trajectories satisfy the requested tolerances",
     "States returned by the reactor network integrators differ from the exact solution of the balance equations by no more than the error tolerances allow, at whatever times are asked for.",
     ["inputs", "histories"], "every network, tolerance and sequence of time steps", "Tests compare a few trajectories with stored ones.",
     ["src/numerics", "src/zeroD"], [("CVodesIntegrator, IdasIntegrator, ReactorNet::advance / step", "src/numerics, src/zeroD/ReactorNet.cpp")],
     na="Error control is inside SUNDIALS (a dependency) and a property of floating-point trajectories. That the integrated function is the documented one is C10, that states are read and written by one layout C09.")
prop("C32", "One-dimensional solutions satisfy the discretised equations",
     "When the flame or flow solver reports success, the residual of every equation at every grid point is within tolerance and the grid meets the refinement criteria.",
     ["inputs", "histories"], "every domain, boundary condition, grid and starting profile", "Tests solve a few flames.",
     ["src/oneD"], [("Sim1D::solve, MultiNewton::solve, Refiner::analyze", "src/oneD")],
     na="Depends on the iterates of a damped Newton method and time stepping; no sound static bound on them is in reach. Table extents per grid point are covered by C11.")
prop("C33", "Setting a state from any pair of properties reproduces that pair",
     "After setting enthalpy, entropy, internal energy, volume or vapour fraction together with a second property, the phase reports the values set within the tolerance, or the call fails.",
     ["inputs"], "every phase, pair of properties and admissible value", "Tests set a few states of a few phases.",
     ["src/thermo", "src/tpx"], [("setState_HP, setState_SP, setState_UV, setState_HPorUV, tpx Substance::Set", "src/thermo/ThermoPhase.cpp, src/tpx/Sub.cpp")],
     na="These are bracketed Newton iterations whose residual at exit is a run-time quantity; an analysis of the source cannot bound it.")
prop("C34", "Transport coefficients agree with kinetic theory",
     "Viscosities, conductivities and diffusion coefficients are positive and within the stated fit error of the collision integrals for every state in the fitted range.",
     ["inputs"], "every mixture, temperature, pressure and composition", "Tests compare a few mixtures with stored values.",
     ["src/transport"], [("GasTransport fits, MixTransport, MultiTransport", "src/transport")],
     na="Values come from polynomials fitted at run time to tabulated collision integrals and from solved linear systems; their sign and error are numerical facts. Freshness of kept coefficients is C07, extents C11.")
prop("C35", "Written input files read back to the same model",
     "Serialising any phase, reaction or solution array and reading the result back gives an object with the same properties and rates within the precision written.",
     ["inputs"], "every phase, reaction, unit system and stored array", "Tests write and read a few files.",
     ["src/base", "src/thermo", "src/kinetics"], [("YamlWriter, AnyMap, getParameters / setParameters, SolutionArray::save / restore", "src")],
     na="The relation runs through untyped maps with keys and units chosen at run time and through the formatting and parsing of numbers by yaml-cpp and HDF5; a static rule on matching keys would be far weaker than the property and alarm on legitimate asymmetries (defaults, derived parameters).")
