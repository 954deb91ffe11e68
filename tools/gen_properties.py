#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SIM="src/simulator/simulation.py"; FL="src/simulator/fluid.py"; RES="src/simulator/reservoir.py"
WELL="src/simulator/well.py"; PVT="src/simulator/pvt.py"; GEN="src/simulator/pvt_generator.py"
AMG="src/solver/classical_amg.py"; PAMG="src/solver/pressure_amg.py"; ENV="src/rl_env.py"
VTK="src/output/vtk_writer.py"; UT="src/utils.py"; PLOT="src/plotting/plotter.py"; MAIN="src/main.py"
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))

add("C01","Every accepted IMPES step leaves physical saturations and pressures",
"Starting from an admissible state, after every successful IMPES time step in every cell the water, oil and gas saturations sum to one, water saturation is at least the connate value, gas saturation is at least the critical value and oil saturation is at least the residual value. All pressures and saturations stay finite. This holds for any grid, fluid, well set, gravity/capillary/PVT option and any sequence of step lengths, including steps so long that an unlimited explicit update would overshoot.",
["inputs","configurations","histories"],"all grids, fluids, wells, options and step-length sequences",
"Tests run three or four configurations for a few steps; overshoot only appears for particular combinations of simultaneous water and gas inflow, limits and step sizes.",
[SIM,FL],[("sub-stepping and clamping of saturation increments",SIM+":_impes_saturation_step"),("oil from closure",SIM+":_impes_saturation_step")],
["pressure and saturation fields after each time step"],[("s_w,s_o,s_g","phase saturations",FL)])

add("C02","Phase volumes change only by what the wells inject or produce",
"Over an IMPES step in which no cell's saturation is cut at a physical limit, the reservoir volume of water, of gas and of oil in place changes by exactly (to rounding) the volume the wells injected minus the volume they produced of that phase. With no wells every phase volume is unchanged, however the fluids redistribute under pressure, gravity or capillary forces. Over a history of such steps the differences do not accumulate beyond rounding.",
["inputs","configurations","histories"],"all grids, initial states, closed and well-driven systems, histories of steps away from saturation limits",
"Tests check one three-phase case with a loose total-mass bound; per-phase volume conservation for every geometry and history is not examined.",
[SIM],[("flow divergence added to one cell and subtracted from its neighbour",SIM+":_impes_saturation_step"),("well sources",SIM+":_impes_saturation_step")],
["saturation fields and pore volumes before and after a step"])

add("C03","Fluids move only between face neighbours, carried upstream to downstream",
"In an IMPES step each cell's water and gas saturation changes by the time step over its pore volume times the sum of its face flows and its wells, where a face flow is conductance times the mobility of the cell at higher pressure times the pressure (plus gravity and gas capillary) difference. A phase that is immobile in a cell never flows out of it, and a cell's saturation is affected only by itself and its face neighbours.",
["inputs","configurations","histories"],"all grids (degenerate axes included), saturation and pressure fields, relative-permeability models, capillary and gravity options",
"Tests only look at aggregates; a wrong face, a wrong upstream cell or a swapped phase in one direction leaves the aggregate checks satisfied.",
[SIM],[("upstream selection and phase flows",SIM+":_impes_saturation_step"),("transmissibilities",SIM+":Simulator.__init__")],
["saturation fields before and after a step, given the new pressure field"])

add("C04","The new pressure satisfies the discrete flow balance in every cell",
"After every successful IMPES step, in each cell the compression storage (pore volume times total compressibility times pressure change over time step) equals the net inflow from face neighbours plus the well sources, with harmonic-mean conductances, total upstream mobility of the previous state, gravity and oil-water capillary terms, to the accuracy of the configured linear solver. Hence with rate wells only, total storage change equals the net well rate, for every grid, permeability from sub-millidarcy upwards, solver choice and precision.",
["inputs","configurations","histories"],"all grids, permeabilities, states, wells, time steps, CG in both precisions and AMG",
"Tests compare two solvers on one or two systems and never evaluate the balance; assembly errors on particular axes, layers or well positions stay invisible.",
[SIM,PAMG],[("pressure matrix and right-hand side",SIM+":_build_pressure_matrix_vectorized"),("well terms",SIM+":_calculate_well_terms"),("linear solvers",SIM+":_solve_pressure_cg_pytorch")],
["pressure before and after a step"])

add("C05","Results do not depend on labelling: axis swap, mirror image, well order",
"Exchanging the two horizontal axes, mirroring a horizontal axis, or (without gravity) mirroring the vertical axis of a model, with its wells and initial fields, yields the correspondingly transformed pressure and saturation fields after every step. Permuting the order in which wells are listed changes nothing beyond rounding. Splitting a rate well into several wells in the same cell whose rates sum to the original changes nothing beyond rounding.",
["inputs","configurations","histories"],"all grids, well layouts, initial fields, permutations and mirrors, histories of steps",
"No test compares a model with its transformed image; index-order mistakes are symmetric-grid invisible.",
[SIM,RES,WELL],[("cell numbering of wells and matrix",SIM+":_ijk_to_idx"),("per-axis transmissibilities",SIM+":Simulator.__init__")],
["pressure and saturation fields after each step"])

add("C06","Equilibrium is preserved and gravity separates fluids the right way",
"A reservoir without active wells that starts in equilibrium - uniform pressure and saturations in a single layer, or a hydrostatic column of one mobile phase - stays in that state for any sequence of time steps. When it starts out of equilibrium, in a column without wells heavier fluid moves toward deeper layers (increasing vertical index) and never the opposite because of gravity, and pressures in a closed single-layer system never leave the initial range.",
["inputs","configurations","histories"],"all grids, fluids, step sequences without active wells",
"Tests always inject or produce; a spurious source, wrong gravity sign or inconsistent density between the pressure and transport equations only shows in quiescent systems.",
[SIM,FL],[("gravity terms in pressure and transport",SIM+":_build_pressure_rhs"),("densities",FL)],
["pressure and saturation fields after each step"])

add("C07","Rate-controlled wells deliver exactly the requested volume and phase",
"An injector under rate control adds the configured volume per day (times the global rate multiplier) of its injected phase, and a producer removes that volume split between phases by their mobility fractions in the cell, when neither availability nor limits intervene. A surface rate is converted with the formation factors and solution ratios of the cell so that the surface volume of the named phase equals the request, and the pressure equation sees the same reservoir volume as the saturations. The reported last well rates equal what was applied.",
["inputs","configurations","histories"],"all well positions, types, phases, rate kinds, surface phases, multipliers, PVT tables and histories",
"Tests exercise one well of each kind at one position and mostly recompute the same formula.",
[SIM,WELL],[("well sources in transport",SIM+":_impes_saturation_step"),("well sources in pressure",SIM+":_calculate_well_terms")],
["phase volumes and pressure storage before/after a step; reported last rates of wells"])

add("C08","Pressure-controlled wells flow in proportion to drawdown, on both equations",
"A well under bottom-hole-pressure control exchanges fluid equal to its well index times total mobility times the difference between the cell's new pressure and the bottom-hole pressure: a producer above its bottom-hole pressure produces, an injector below its bottom-hole pressure injects its phase, and equal pressures give no flow. The volume entering the saturations is the same volume the pressure equation accounted for. The well index is the Peaceman value of the reservoir cell (permeability, cell size and well radius), so it is positive and scales with permeability and thickness.",
["inputs","configurations","histories"],"all cell sizes, permeabilities, radii, positions, bottom-hole pressures and states",
"The tests never run a pressure-controlled well in a realistic pressure range or compare pressure-side and saturation-side volumes.",
[SIM,WELL],[("well index",WELL+":Well.__init__"),("pressure-controlled terms",SIM+":_calculate_well_terms"),("pressure-controlled flow in transport",SIM+":_impes_saturation_step")],
["phase volumes and pressure before/after a step"])

add("C09","Rate limits, availability and minimum bottom-hole pressure are respected",
"A producer with surface limits on oil, water, gas or liquid never produces more of that phase in a step than its limit, and is throttled no further than the tightest binding limit requires. (Limits apply to rate-controlled producers of models with PVT tables.) A rate-controlled producer with a minimum bottom-hole pressure flows at its rate exactly when the bottom-hole pressure that rate needs is at or above the minimum, and otherwise as a well held at the minimum pressure. Well flow alone never takes a cell beyond its saturation limits, and the absence of a phase does not shut in a producer of the other phases.",
["inputs","configurations","histories"],"all combinations of limits, phases, controls, saturations (endpoints included), minimum pressures and step lengths",
"Two tests apply one limit each to one state; combinations of limits, zero-gas states and switch direction are not covered.",
[SIM,WELL],[("throttling by limits and availability",SIM+":_impes_saturation_step"),("switch to bottom-hole-pressure control",SIM+":_calculate_well_terms")],
["phase volumes before/after a step; reported last rates and control mode"])

add("C10","A time step is all or nothing, and success means the whole step was simulated",
"When a time step reports failure, pressure, saturations and balance trackers are exactly what they were before the call. When it reports success, the full requested time has been simulated, even if the linear solver failed on the way and the step had to be cut: what the wells injected or produced corresponds to the full time. A later step from the same state behaves as if the failed attempts had never happened.",
["fault_sequences","histories","configurations"],"all sequences of linear-solver failures per attempt, reduction factors, attempt budgets and step histories",
"No test makes the linear solver fail; the retry path is never executed.",
[SIM],[("retry with reduced step",SIM+":_impes_step"),("convergence flag of the solver",SIM+":_solve_pressure_cg_pytorch")],
["return value of the step, fields and trackers before/after, injected volumes"])

add("C11","Simulations are reproducible and isolated from each other",
"Running the same model twice gives identical fields after every step, whatever the state of the global random generators. Any interleaving of creating and stepping several simulations in one process gives each the same fields as running it alone - identical with the conjugate-gradient solver, equal to solver tolerance with algebraic multigrid. Constructing and running a simulation does not modify the configuration it was built from.",
["schedules","histories","configurations"],"all interleavings of construction and steps of several simulations up to a bound, all solver choices",
"Tests run each simulation once in a fresh process order; shared caches and global random state only matter between runs.",
[SIM,PAMG,AMG],[("solver cache",PAMG+":_AMG_CACHE"),("coarsening tie-break",AMG+":classical_coarsening"),("per-instance state",SIM)],
["fields after each step of each simulation"])

add("C12","Balance trackers report what really happened",
"For every phase, the cumulative mass-in minus mass-out tracker changes in each successful step by the change of that phase's saturation-weighted mass in place at current densities, and both trackers never decrease. With PVT tables, the surface component trackers grow by exactly the surface volumes of oil and gas (including gas dissolved in oil and oil vaporised in gas) carried by the injection and production actually applied, counted once (fluid flowing back into the reservoir through a producer is not production), and accumulation equals in minus out.",
["inputs","configurations","histories"],"all well configurations, controls, PVT tables, step histories, number of internal sub-steps",
"One test checks an internal identity that holds by construction (accumulation = in - out), not that the numbers equal the well flows.",
[SIM],[("mass balance accumulation",SIM+":_impes_saturation_step"),("component balance accumulation",SIM+":_impes_saturation_step")],
["mass and component balance dictionaries, fields before/after"])

add("C13","Configurations mean what they say: units, defaults, formats, rejection",
"Permeability in millidarcy, pressure in MPa, viscosity in cP and compressibility in 1/MPa become SI quantities with the exact conversion, vertical permeability is the horizontal one times the configured fraction, and pore volume is cell volume times porosity; omitted keys take the documented defaults. The old and new formats of well coordinates, well control and capillary pressure describe the same model and give identical results. Configurations that lack well coordinates or control, or whose initial saturations exceed one, are rejected with an error.",
["inputs","configurations"],"all combinations of present/absent keys, formats and values",
"Tests use a handful of complete configurations; key combinations and equivalence between formats are not compared.",
[RES,FL,WELL],[("unit conversion",RES+":Reservoir.__init__"),("unit conversion and defaults",FL+":Fluid.__init__"),("format handling",WELL+":WellManager.__init__")],
["properties of the constructed reservoir, fluid and wells; fields after steps"])

add("C14","Relative permeabilities are bounded, monotone and have the right endpoints",
"For every saturation and every admissible parameter set, each relative permeability lies between zero and its endpoint, water's does not decrease with water saturation, gas's does not decrease with gas saturation and oil's does not increase with either; water and gas are immobile at their critical saturation and reach their configured endpoint at the other end of the mobile range, and oil is immobile once water reaches one minus the residual oil saturation. In the Stone II model with no gas, and a gas-side endpoint not above the water-side one, the oil curve reduces to the oil-water curve. The analytic derivatives of the Corey curves equal their slopes.",
["inputs","configurations"],"all saturations (outside the mobile range too) and curve parameters, both models",
"Tests sample a few saturations of one parameter set.",
[FL],[("Corey and Stone II curves",FL+":calc_oil_kr"),("derivatives",FL+":calc_dkrw_dsw")],["returned relative permeabilities and derivatives"])

add("C15","Capillary pressures match their derivatives and switch off cleanly",
"Oil-water and gas-oil capillary pressures are finite, non-negative, monotone in their saturation, equal to the configured entry scale at the wetting end (connate water, no gas), and follow the configured power law of the normalised saturation (water: between connate and one minus residual oil; gas: saturation over one minus connate water minus residual oil); their analytic derivatives equal the slopes of the curves inside the mobile range and vanish outside it. A zero scale gives exactly zero pressure and derivative, and a simulation then runs as if the option were absent.",
["inputs","configurations"],"all saturations, scales, exponents and residual saturations",
"One smoke test runs a single gas-oil capillary case.",
[FL,SIM],[("capillary curves",FL+":get_capillary_pressure"),("derivatives",FL+":get_capillary_pressure_derivative")],["returned capillary pressures, fields of a simulation step"])

add("C16","PVT look-ups and the properties derived from them are consistent everywhere",
"A PVT quantity equals the tabulated value at a node, lies between the neighbouring nodes and varies linearly in between, and is held constant outside the table; malformed tables are rejected. Densities, viscosities and total compressibility at any pressure follow from those quantities (surface densities, dissolved gas, vaporised oil, formation factors), and the two ways of asking for a phase density agree. Without tables, densities follow the configured compressibilities.",
["inputs","configurations"],"all tables (size, spacing, with and without vaporised oil), all pressures inside and outside the table, all grid shapes",
"Tests evaluate one table at a few pressures, and only one of the two density paths.",
[PVT,FL],[("interpolation",PVT+":PVTTable"),("property evaluation",FL+":_eval_pvt"),("compressibility",FL+":calc_total_compressibility")],["values returned for PVT quantities, densities, viscosities, compressibility"])

add("C17","Generated PVT tables are physical and usable",
"For every admissible black-oil parameter set the generator produces a table covering the requested pressure range in increasing order, in which the gas formation factor never rises with pressure and, from 1 MPa on, is well below that of the liquids, and gas is far thinner than they are; up to the bubble point dissolved gas rises and oil viscosity falls with pressure, above it dissolved gas is constant, the oil formation factor falls and oil viscosity does not fall, continuously at the bubble point; all factors and viscosities stay positive and vaporised oil is never negative. A saved table loads back to exactly the generated numbers.",
["inputs","configurations"],"all generator parameter combinations over a grid of temperatures, gravities, bubble points, pressure ranges and point counts",
"The generator has no test.",
[GEN,PVT],[("correlations",GEN+":generate_black_oil_pvt")],["returned table, saved file, loaded table"])

add("C18","The AMG pressure solver really solves the system it is given",
"For every symmetric non-singular pressure-type matrix (positive diagonal, non-positive off-diagonal entries, diagonally dominant) and right-hand side, the algebraic multigrid pressure solve, given enough cycles and a tolerance attainable in double precision, returns a vector whose residual meets the requested tolerance, and reports convergence only when it does, independent of system size relative to the coarsest-level size, anisotropy, permeability contrast, numbering or scaling of the system. A simulation with this solver therefore gives the same fields as with conjugate gradients, to tolerance.",
["inputs","configurations"],"all matrices of an enumerated family of small grids, stencils, coefficient patterns, sizes around the coarsest size and right-hand sides",
"Tests solve one Laplacian and one two-solver comparison whose AMG side silently uses conjugate gradients.",
[AMG,PAMG],[("V-cycle and coarsest solve",AMG+":ClassicalAMG._v_cycle"),("solve with fall-back",PAMG+":amg_solve")],["returned solution and its residual"])

add("C19","AMG solves do not depend on what was solved before",
"Any sequence of pressure solves in one process - changing coefficients, sizes, connection patterns, tolerances or hierarchy options between solves - returns for each system the answer that a fresh process would return, to tolerance. Updating the matrix of an existing hierarchy is equivalent to building the hierarchy anew as far as solving accuracy is concerned.",
["histories","configurations"],"all sequences of solves up to a depth over an alphabet of systems and options",
"Tests solve one system per process; the cache is never hit with a different system.",
[AMG,PAMG],[("solver cache",PAMG+":_AMG_CACHE"),("matrix update",AMG+":ClassicalAMG.update_matrix")],["returned solutions of each solve in the sequence"])

add("C20","The AMG hierarchy is structurally sound and its sparse kernels are exact",
"In every hierarchy, coarse and fine points partition the unknowns and every fine point with strong connections is interpolated, interpolation weights lie between zero and one and each interpolation row sums to one where the matrix row sums to zero and to no more than one elsewhere, and each coarse matrix is symmetric and equals the Galerkin product of its finer level, up to the documented shift. The sparse multiplication, transposition and conversion kernels agree with dense arithmetic for every sparsity pattern, including empty rows and rectangular shapes.",
["inputs","configurations"],"all sparse patterns up to a size and all matrices of the enumerated family",
"Tests look at the convergence factor of one Laplacian.",
[AMG],[("coarsening and interpolation",AMG+":classical_coarsening"),("sparse triple product",AMG+":rap_torch")],["levels of the hierarchy; results of sparse kernels"])

add("C21","A run performs the configured steps and its saved results are the final state",
"A run advances the model by the configured total time in steps of the configured length - total divided by step length rounded to the nearest whole number when they divide evenly - unless a step fails, after which no further steps are made. Intermediate pictures are written exactly at multiples of the save interval (when that is smaller than the number of steps), and the saved arrays and summary equal the model's fields and balances when the run ends. Every run writes only inside its own results directory, also when several runs start within one second.",
["inputs","configurations","fault_sequences"],"all combinations of total time, step length, save interval, output options and step failures",
"No test calls the run entry point.",
[SIM,MAIN],[("time loop and output",SIM+":Simulator.run")],["number of steps performed, files written and their content"])

add("C22","Exports show the right data in the right place",
"The VTK export contains one value per cell at that cell's position on a grid whose node coordinates are multiples of the cell size (number of nodes one more than cells on each axis), for pressure in MPa, saturations and permeabilities. Animations contain exactly the step pictures of the given folder in increasing step number, uncropped, at the configured frame rate. Plots show one horizontal layer - the one whose water saturation varies most - with the value of cell (i, j) at those coordinates along the axes so labelled.",
["inputs","configurations"],"all grid shapes, cell sizes, field patterns, sets of step numbers and folder contents",
"The export functions have no test.",
[VTK,UT,PLOT,SIM],[("VTK writer",VTK+":save_to_vtk"),("frame ordering",UT+":create_animation"),("frame ordering in a run",SIM+":_create_animation"),("layer selection",PLOT+":Plotter.save_plots")],["written VTK, GIF and plot content"])

add("C23","The reinforcement-learning environment follows its episode contract",
"Reset always returns to the configured initial state, whatever happened before, so replaying the same actions gives the same observations and rewards. Each step applies the actions to the wells in order as the documented scaled change of rate or bottom-hole pressure, advances the simulation by the configured step, returns the current pressures and water saturations as observation and the drop in oil in place as reward, and terminates exactly when the step budget is used up or a step fails. Observations and actions have the declared shapes and types, and rewards over an episode add up to the oil produced.",
["histories","inputs","fault_sequences"],"all action and reset sequences up to a depth over a discretised action alphabet, well mixes, solver failures",
"The environment has no test.",
[ENV],[("episode logic",ENV+":ReservoirEnv.step"),("reset",ENV+":ReservoirEnv.reset"),("actions",ENV+":ReservoirEnv._apply_action")],["observations, rewards, flags and well controls"])

add("C24","A fully implicit step reports convergence truthfully and fails cleanly",
"A fully implicit time step reports success only if its Newton iterations met their acceptance criterion for steps that add up to the full requested time; otherwise, after the configured number of ever shorter attempts, it reports failure and pressure and saturations are exactly those before the call. This holds also when linear solves fail (singular or not-a-number). Whatever the outcome, saturations sum to one and stay inside their physical limits and pressures stay positive and finite. A quiescent uniform two-phase reservoir without wells converges and is left unchanged.",
["inputs","configurations","histories"],"all small grids, wells, fluids, attempt budgets and step histories of the fully implicit option",
"No stable test runs the fully implicit option to a non-converging step.",
[SIM],[("retry loop",SIM+":_fully_implicit_step"),("Newton iteration",SIM+":_fully_implicit_newton_step")],["return value and fields after a step"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w",encoding="utf-8") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
