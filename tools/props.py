BOUND = "Holds on every execution inside the bounds given in DESIGN.md; outside them nothing is claimed. Trusts the harness oracle, the compiler and mc.hpp."

props.append(P("P01", "Voltage verdicts and pack limits follow the documented rules",
 "The voltage check of a cell returns exactly the documented verdict for its present voltage and current direction: success inside the limits widened by the 10 mV margin, a warning beyond a limit and a critical verdict beyond a safety limit only when the current drives the cell further out, and 'not calculated' for a voltage that is not positive. A pack reports the worst verdict found among its cells and returns its own voltage. The limits of a pack follow from its members (sum in series, most restrictive in parallel).",
 ["inputs", "configurations"], "every voltage level around each limit, both current directions and rest, every cell type, every position of the offending cell in nested packs",
 "Tests touch a few voltages on one cell; the verdict table has a case per band, direction and position of the worst cell.",
 ["src/utility/free_functions.hpp", "src/modules/Module.cpp", "src/types/Status.hpp", "src/modules/Module_s.hpp", "src/modules/Module_p.hpp"],
 [("voltage check of a cell", "free::check_voltage"), ("worst verdict of a pack", "Module::checkVoltage"), ("pack limits", "Module_s/Module_p Vmin..VMAX")], REF, BOUND))

props.append(P("P02", "A refused command leaves the storage unit exactly as it was",
 "When a storage unit refuses a current, a state of charge, a set of states or a negative time step (critical status or exception), nothing observable in it has changed: not the voltage, current, temperature, charge or throughput of any cell at any depth. From then on it behaves exactly like a unit that never received the command, and a command that is invalid (charge outside 0..1, states out of range, negative time step) is always refused.",
 ["histories", "inputs", "configurations"], "every pack topology in the bound, every position of the cell that causes the refusal, every command history up to the depth bound, every refused command",
 "Tests check one refused command on one cell or a pack whose first cell refuses; the roll-back of the other cells, at other positions and depths, is never exercised.",
 ["src/modules/Module.cpp", "src/modules/Module_s.cpp", "src/modules/Module_p.cpp", "src/cells/Cell_ECM/Cell_ECM.hpp", "src/cells/Cell_SPM/Cell_SPM.cpp"],
 [("restore on bad status", "setCurrent / setSOC / setStates of cells and modules"), ("dt < 0 check", "timeStep_CC")], EXH + " with a twin that never saw the refused command", BOUND))

props.append(P("P03", "Saved states restore a unit to the exact same behaviour",
 "Saving the states of a storage unit and loading them later, into the same unit or into an identically built one, reproduces every observable of every cell, and from then on the unit behaves exactly as the saved one did (for ageing models whose rates depend only on the present state, and apart from heat still waiting for the next thermal update, neither of which is part of the states). Loading uses exactly the numbers that saving produced, in the same order, so that saved units can be concatenated and nested.",
 ["histories", "configurations"], "every history before the save, every history between save and load, every continuation, for all cell types and nested packs",
 "Tests save and load once from one or two states; they cannot show that no hidden state (caches, bookkeeping) survives a load.",
 ["src/modules/Module.cpp", "src/cells/Cell_SPM/Cell_SPM.cpp", "src/cells/Cell_SPM/State_SPM.hpp", "src/cells/Cell_ECM/Cell_ECM.hpp"],
 [("getStates/setStates", "cells and Module"), ("cache invalidation on load", "Cell_SPM::setStates, Module::setStates")], EXH + ", bisimulation of the restored unit against the original", BOUND))

props.append(P("P04", "A copy is equal, independent and self-contained",
 "A copy of any storage unit shows the same observables as the original and behaves identically under any later commands. Nothing done to either one, including destroying it, changes the other, and every part of the copy belongs to the copy: the parent links and full identification strings inside it lead to the copied modules, not to the originals.",
 ["histories", "configurations"], "every history before the copy, every interleaving of commands on original and copy up to the depth bound, all cell types, nested packs and batteries",
 "Tests copy one module and compare a few numbers; independence and parent links are properties of all later histories.",
 ["src/types/Deep_ptr.hpp", "src/modules/Module_s.hpp", "src/modules/Module_p.hpp", "src/modules/Module.hpp", "src/system/Battery.hpp", "src/cells/Cell_SPM/Cell_SPM.hpp", "src/cells/Cell_ECM/Cell_ECM.hpp"],
 [("deep copy", "Deep_ptr copy constructor and copy() of every unit")], EXH + " over interleavings of commands on original and copy", BOUND))

props.append(P("P05", "Equivalent-circuit cells obey their circuit equations exactly",
 "For every parameter set, an equivalent-circuit cell with any number of RC pairs reports the open-circuit voltage interpolated at its state of charge minus the ohmic drop and the drop over each RC pair, and each time step moves charge, RC currents, time, charge throughput and energy throughput by exactly the explicit-Euler circuit equations. Taking n steps at once equals taking them one by one, and a current, charge or state command changes nothing but what it names.",
 ["inputs", "histories", "configurations"], "every command sequence up to the depth bound, over a grid of parameters, currents, step sizes and step counts, for 0, 1 and 2 RC pairs",
 "Tests check a handful of currents from one state; equations must hold along every history.",
 ["src/cells/Cell_ECM/Cell_ECM.hpp", "src/cells/Cell_ECM/State_ECM.hpp"],
 [("voltage equation", "Cell_ECM::V"), ("time stepping", "Cell_ECM::timeStep_CC"), ("setters", "Cell_ECM::setCurrent/setSOC/setStates")], REF, BOUND))

props.append(P("P06", "The reported voltage always belongs to the present state",
 "The voltage a cell or a pack reports is always the voltage of its present state: after any sequence of operations on the unit or directly on any of its members (current, temperature, concentration, charge, states, contact resistances, time steps with or without degradation), it equals the voltage of a freshly computed unit in the same state. Reading a voltage never changes any later result.",
 ["histories", "configurations"], "every sequence of mutating operations and interposed voltage reads up to the depth bound, on single-particle cells with and without degradation and on nested packs",
 "The voltage is cached; tests read it after one operation, while staleness needs a particular read-mutate-read order.",
 ["src/cells/Cell_SPM/Cell_SPM.cpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp", "src/cells/Cell_SPM/Cell_SPM_degradation.cpp", "src/modules/Module_s.cpp", "src/modules/Module_p.cpp", "src/modules/Module.hpp"],
 [("cached cell voltage and validity flag", "Cell_SPM"), ("cached module voltage and validity flag", "Module_s")], EXH + ", differential against a unit without history", BOUND))

props.append(P("P07", "Lithium and charge are conserved in single-particle cells",
 "Without degradation, the amount of lithium in each electrode of a single-particle cell changes by exactly the charge that passed, in opposite directions, for every current history, temperature and step size, and the state of charge follows the same charge over the capacity. At rest the amounts do not change and the concentration profile relaxes to a uniform one; with lithium-consuming degradation, the lithium missing from the anode matches the reported loss.",
 ["histories", "inputs"], "every sequence of currents, rests and temperatures up to the depth bound, on a grid of step sizes",
 "Tests look at voltage signs after a single step; conservation is an invariant over histories.",
 ["src/cells/Cell_SPM/Cell_SPM_dstate.cpp", "src/cells/Cell_SPM/Cell_SPM_diffusion.cpp", "src/cells/Cell_SPM/Cell_SPM.cpp", "data/Cheb_*.csv"],
 [("diffusion ODE", "Cell_SPM::dState_diffusion, timeStep_CC"), ("lost lithium", "Cell_SPM::dState_degradation")], EXH + " with a conserved-quantity monitor", BOUND))

props.append(P("P08", "Degradation acts only as configured, and only ever damages",
 "A cell ages only through the mechanisms that are switched on: each mechanism changes only the quantities it concerns, several mechanisms together change a quantity by the sum of their separate effects, and with no mechanism, or with degradation blocked (at any level of a pack), no ageing quantity moves. Ageing is monotone (layers, cracks and lost lithium never shrink; active material, areas and diffusivity never grow, apart from the reversible volume change of the porosity model while charging), each mechanism follows its published rate law, rates are proportional to the cell's configured degradation factors, an unknown mechanism is refused, and active area always stays consistent with volume fraction.",
 ["configurations", "histories", "inputs"], "every combination of degradation models, at several states of charge, currents, temperatures, histories and degradation factors",
 "Tests run a few configurations and check that something degraded; there are thousands of model combinations.",
 ["src/cells/Cell_SPM/Cell_SPM_degradation.cpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp", "src/cells/Cell_SPM/param", "src/modules/Module.hpp", "src/cells/Cell_SPM/Cell_SPM.cpp"],
 [("degradation models", "Cell_SPM::SEI/CS/LAM/LiPlating"), ("assembly", "Cell_SPM::dState_degradation"), ("blocking", "setBlockDegAndTherm")], EXH + " over model combinations", BOUND))

props.append(P("P09", "Series strings obey Kirchhoff's laws",
 "In a series-connected module every member carries exactly the module current after any accepted current, and the module voltage is the sum of its members' voltages minus the drop over each contact resistance, for any nesting. A current is accepted exactly when no member finds its resulting voltage critical, and a time step advances every member without changing the module current.",
 ["histories", "configurations", "inputs"], "every history of commands up to the depth bound on every topology in the bound",
 "Tests use two or three identical cells and single commands.",
 ["src/modules/Module_s.cpp", "src/modules/Module_s.hpp", "src/modules/Module.cpp"],
 [("series voltage and current", "Module_s::V/setCurrent/timeStep_CC")], REF, BOUND))

props.append(P("P10", "Parallel modules obey Kirchhoff's laws",
 "In a parallel module, after any accepted current or voltage and after every time step, the member currents add up to the module current and every branch shows the same terminal voltage once the drops over the contact resistances, each carrying the current of all members behind it, are included. A time step keeps the total current, an accepted current is the one requested, and a command that cannot reach this balance is reported as failed.",
 ["histories", "configurations", "inputs"], "every history of currents, voltages and time steps up to the depth bound, on unequal cells, contact resistances and nested modules",
 "Tests check two or three almost equal cells; balance must hold along every history.",
 ["src/modules/Module_p.cpp", "src/modules/Module_p.hpp"],
 [("current distribution", "Module_p::setCurrent/redistributeCurrent/setVoltage"), ("branch voltages", "Module_p::getVall")], EXH + " with Kirchhoff monitors", BOUND))

props.append(P("P11", "Pack-level figures are exactly those of the cells inside",
 "For every nesting, a pack reports figures that follow from its cells: number of cells, capacity, open-circuit voltage, total resistance including contact resistances, highest and lowest cell voltage, hottest temperature, current, and the full identification path of every member. A unit that already belongs to another pack cannot be added to a second one, which is refused without losing or changing anything.",
 ["configurations", "histories"], "every topology in the bound, with the extreme cell at every position, after every history up to the depth bound",
 "Tests check flat modules of equal cells; nested and unequal ones are not covered.",
 ["src/modules/Module.cpp", "src/modules/Module.hpp", "src/modules/Module_s.cpp", "src/modules/Module_p.cpp", "src/StorageUnit.hpp"],
 [("recursive aggregates", "Module getVhigh/getVlow/getThotSpot/getNcells"), ("membership", "Module::setSUs")], REF, BOUND))

props.append(P("P12", "Every cell of a pack advances by exactly the requested time",
 "A time step of n times dt advances the clock of every cell in the pack by exactly n times dt, whatever the nesting, the cell types or the number of threads, and moves the state of charge of every cell by its own current times that time over its own capacity. Ageing and heat (resolved once per call) apart, for series packs and cells splitting a number of steps into several calls gives the same result, and a zero-length step changes nothing.",
 ["inputs", "configurations", "histories"], "every way of splitting a number of steps into calls, every topology in the bound, threaded and not",
 "Tests take one split of one duration.",
 ["src/modules/Module_s.cpp", "src/modules/Module_p.cpp", "src/cells/Cell_ECM/Cell_ECM.hpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp", "src/utility/parallelisation.hpp"],
 [("time stepping", "timeStep_CC of cells and modules")], EXH + " over all compositions of the step count", BOUND))

props.append(P("P13", "Multi-threaded stepping equals serial stepping under every schedule",
 "Stepping a pack with multi-threading gives exactly the same result as stepping it serially: for every number of members, of processors and of workers, and for every schedule of the worker threads, each member is stepped exactly once and before the step returns. Workers of one step never access the same memory in conflict, and a failure inside a worker reaches the caller exactly as it does serially.",
 ["schedules", "configurations"], "all schedules of the workers, all member counts, processor counts (including unknown) and worker limits in the bound, and every choice of failing members",
 "Tests run one schedule on the machine they happen to run on.",
 ["src/utility/parallelisation.hpp", "src/modules/Module_s.cpp", "src/modules/Module_p.cpp"],
 [("work distribution", "run() in parallelisation.hpp"), ("no sharing between members", "cells step their own state")], "model checking of the real threaded code under a controlled scheduler: all interleavings of member steps, plus dependency (conflict) analysis that reduces finer interleavings", BOUND))

props.append(P("P14", "Every charge, discharge, hold or rest stops for the reported reason",
 "A constant-current phase ends because the voltage limit, the time limit or a safety limit was reached, a constant-voltage hold because the current limit, the time limit or a safety limit was reached, and a rest after its duration; the reported reason is true of the unit's final state, and no step was taken once a limit was passed. A voltage that cannot be held or a current that is refused ends the phase with that refusal. A limit already reached at the start ends the phase at once without moving charge, a time limit is met exactly, diagnostic mode also stops when any single cell reaches its limit, and an impossible target is reported as such.",
 ["inputs", "histories", "configurations"], "every combination of current, limits, step size, recording interval and starting level in the grid, for cells and packs, in sequences of phases up to the depth bound",
 "Tests run a few full cycles; the corner cases are combinations of limits.",
 ["src/procedures/Cycler.cpp", "src/procedures/Cycler.hpp"],
 [("phase loops and stop conditions", "Cycler::CC/CV/CCCV/CCCV_with_tlim/rest")], REF, BOUND))

props.append(P("P15", "The cycler's throughput is that of the cells",
 "The time, charge and energy a phase reports equal what the unit went through: the time equals the clock advance of the cells, the charge equals the integral of the absolute unit current, and the energy the integral of voltage times that current. This holds for every phase, stop reason and recording interval, also when a phase ends early or fails, and phases add up over sequences (a CCCV reports the sum of its two phases).",
 ["inputs", "histories", "configurations"], "every combination of phase type, stop reason, step size and recording interval in the grid, on cells and packs",
 "Tests compare charge for one or two configurations within percents.",
 ["src/procedures/Cycler.cpp", "src/cells/Cell_ECM/Cell_ECM.hpp"],
 [("throughput accounting", "Cycler::CC/CV/rest")], REF, BOUND))

props.append(P("P16", "A capacity test measures the true capacity and leaves no trace",
 "A capacity test returns the charge the unit delivers between its voltage limits, independent of the state it starts from, and afterwards the unit, its ageing included, is in the state it had before and goes on as if it had never been tested, also when the test fails or is interrupted.",
 ["histories", "configurations"], "every starting level and history in the bound, for cells and packs, with and without degradation",
 "Tests compare one capacity from one start; restoration is never checked.",
 ["src/procedures/Cycler.cpp", "src/procedures/Procedure.cpp"],
 [("capacity test", "Cycler::testCapacity")], EXH, BOUND))

props.append(P("P17", "Setting a voltage reaches it or reports failure",
 "When a unit accepts a voltage, it is at that voltage (within solver tolerance) with all its electrical laws intact, without having moved any charge or time. When it does not reach the voltage, or the voltage is outside what its cells tolerate, it reports a failure instead and keeps the current it had; a voltage in ordinary reach of a cell or string is reached.",
 ["inputs", "histories", "configurations"], "every target voltage in a grid across and beyond the limits, from every state in the bound, on all cell types and packs",
 "Tests set one or two reachable voltages.",
 ["src/utility/free_functions.hpp", "src/modules/Module_p.cpp", "src/cells/Cell_ECM/Cell_ECM.hpp", "src/StorageUnit.hpp"],
 [("voltage solvers", "setVoltage of cells and modules, setVoltage_iterative")], EXH, BOUND))

props.append(P("P18", "Recorded data are complete, ordered and faithful",
 "Every recorded point of a cell appears exactly once, in order, in that cell's own result file and holds (to the six digits written) the values the cell had when it was recorded; a phase with recording on records its start, points at the requested interval and its end, also when a limit or a refused set point ends it early. Writing results several times appends without losing, repeating or merging rows, and different units and prefixes never share a file.",
 ["histories", "inputs", "configurations"], "every sequence of stepping, recording and writing up to the depth bound, on cells and packs, and every recording interval in the grid",
 "Tests do not read the result files.",
 ["src/types/data_storage/CellDataStorage.hpp", "src/types/data_storage/CellDataWriter.hpp", "src/utility/free_functions.hpp", "src/modules/Module.hpp", "src/procedures/Cycler.cpp"],
 [("recording and writing", "CellData storeData/writeData, Cycler::storeData/writeData")], REF, BOUND))

props.append(P("P19", "Heat is conserved throughout the thermal model",
 "With the coupled thermal model, the heat generated in cells and contact resistances equals the heat stored in cells and coolants plus the heat removed by the outermost cooling, for every pack, history and cooling setting; heat only flows from hot to cold, and each cell generates the heat its overpotential, ohmic and entropic losses imply. Temperatures outside the permitted range and inconsistent time bookkeeping are refused.",
 ["histories", "configurations", "inputs"], "every history of currents, temperatures and steps up to the depth bound on the topologies in the bound",
 "The shipped configuration turns the thermal model off, so the tests never run it on packs.",
 ["src/cells/Cell_SPM/Cell_SPM_thermal.cpp", "src/modules/Module.cpp", "src/cooling/CoolSystem.cpp", "src/cooling/CoolSystem_HVAC.cpp", "src/modules/Module_p.cpp", "src/modules/Module_s.cpp"],
 [("heat exchange", "Module::thermalModel_coupled, Cell_SPM::thermalModel_coupled, CoolSystem::dstate")], EXH + " with an energy-balance monitor", BOUND, hook="SLIDE_VERIF_T_MODEL selects the thermal model"))

props.append(P("P20", "Cooling controllers follow their documented strategy",
 "Each cooling system switches and scales its flow, fan power and air conditioning exactly as its control strategy documents, for every sequence of temperatures: always-on, on/off with hysteresis on local or hottest temperature, or proportional. Coolant heating, fan energy, air-conditioning duty and their running totals follow from the flows, and nothing is spent while a system is off.",
 ["histories", "configurations", "inputs"], "every strategy, system type and sequence of temperatures and heat loads up to the depth bound",
 "Tests do not exercise the controllers.",
 ["src/cooling/CoolSystem.cpp", "src/cooling/CoolSystem_HVAC.cpp", "src/cooling/CoolSystem_open.cpp"],
 [("control state machines", "CoolSystem::control, CoolSystem_HVAC::control"), ("coolant balance", "dstate")], REF, BOUND))

props.append(P("P21", "A battery scales its cells and accounts for converter losses",
 "A battery reports its cells' voltage, limits and current scaled by the number of strings it represents, passes every command and time step to the cells exactly once, and refuses a unit that cannot be its content. The losses of the power converter are the documented function of cell voltage and current, never negative, and accumulate exactly until they are read and reset.",
 ["inputs", "histories", "configurations"], "every sequence of commands, steps and loss readings up to the depth bound, over a grid of voltages and currents",
 "Tests check two converter operating points.",
 ["src/system/Battery.cpp", "src/system/Battery.hpp", "src/power_conversion/Converter.cpp"],
 [("scaling", "Battery"), ("loss model", "Converter::getLosses")], REF, BOUND))

props.append(P("P22", "Curve interpolation is exact, bounded and agrees on every grid",
 "Interpolating a curve returns the exact table value at every table point and the straight line between neighbouring points elsewhere, for fixed and for varying spacing alike and for every table size. Outside the table a bounded look-up is refused and an unbounded one returns the nearest end value; no look-up ever reads outside the table.",
 ["inputs", "configurations"], "every table size and spacing in the bound and every query at, between and just around every table point and both ends",
 "Tests query a few points of one curve.",
 ["src/utility/interpolation.hpp", "src/types/XYdata.hpp", "src/types/FixedData.hpp", "src/utility/slide_algorithms.hpp"],
 [("look-up", "linInt, XYdata::interp")], REF, BOUND))

props.append(P("P23", "Histograms count every sample exactly once in the right bin",
 "Every sample added to a histogram increases exactly one bin by one: the bin whose interval contains it, or the first or last bin when it lies outside the range. The number of samples counted always equals the number added, bin edges are monotone and cover the range, and what is written out is what was counted.",
 ["inputs", "histories", "configurations"], "every sequence of samples at, between and just around all edges up to the depth bound, for every range and bin count in the bound",
 "Tests do not cover histograms.",
 ["src/types/Histogram.hpp", "src/types/FixedData.hpp"],
 [("binning", "Histogram::add")], REF, BOUND))

props.append(P("P24", "Data files load exactly what they contain, or are refused",
 "Loading a table from a comma-separated file yields every number of the file at its row and column, independent of line endings, trailing newline, spacing and header rows where these are allowed, and of how often the file was loaded before. A missing file is refused, and a file with more or fewer numbers than the caller's container never causes an access outside it.",
 ["inputs"], "every file in a grammar of rows, columns, number formats, line endings and truncations up to the size bound, and missing files",
 "Tests load only the shipped files.",
 ["src/utility/io/read_CSVfiles.hpp", "src/types/XYdata.hpp", "src/types/DynamicMatrix.hpp"],
 [("parsers", "loadCSV_1col/2col/mat/Ncol")], REF, BOUND))

props.append(P("P25", "Fixed-size and growable containers behave like their abstract type",
 "The library's own containers (evenly spaced ranges, small vectors, matrices, deep-copying pointers, state snapshots) behave like the abstract sequence, matrix or owner they stand for under every sequence of operations: elements are what was put in, iteration visits them in order exactly once, copies are independent, and exceeding a capacity is refused.",
 ["histories", "inputs"], "every operation sequence up to the depth bound and every size in the bound",
 "Tests do not exercise them directly.",
 ["src/types/FixedData.hpp", "src/types/SmallVector.hpp", "src/types/matrix.hpp", "src/types/DynamicMatrix.hpp", "src/types/Deep_ptr.hpp", "src/types/data_storage/StateStorage.hpp", "src/utility/array_util.hpp"],
 [("containers", "src/types")], REF, BOUND))

props.append(P("P26", "Prebuilt battery packs are wired as documented",
 "Every prebuilt battery has the documented number of cells and nesting, every cell has a unique full identification path, all cells are the configured type with cooling systems at the documented levels, and its capacity, voltage limits and resistance follow from that wiring. Without spread all cells are identical, with a spread setting exactly the corresponding property varies, building twice gives the same battery, and its name states its configuration.",
 ["configurations"], "every prebuilt battery and every combination of its variation, contact-resistance and cooling settings",
 "Tests do not build them.",
 ["src/factories/makeBattery.cpp"], [("factories", "makeBattery and variants")], EXH + " over all factory settings", BOUND))

props.append(P("P27", "Ageing procedures run the documented schedule and report it truthfully",
 "An ageing run performs exactly the requested number of cycles with check-ups at the documented cycle numbers, stops early only when the unit fails, and its throughput, state and check-up files hold one row per event with the values of that event. Apart from the slow charge towards the middle of its voltage range that prepares it, a check-up does not change the tested unit, and balancing brings every cell to the balancing voltage at rest.",
 ["inputs", "histories", "configurations"], "every cycle count, check-up interval and balancing setting in the bound, on cells and packs",
 "Tests run one short ageing procedure and look at no file.",
 ["src/procedures/Procedure.cpp", "src/procedures/Procedure.hpp"],
 [("ageing loop", "Procedure::cycleAge"), ("check-ups", "Procedure::checkUp_*")], REF, BOUND))

props.append(P("P28", "Single-particle cells follow the single particle model",
 "The open-circuit and terminal voltage of a single-particle cell equal the cathode potential minus the anode potential at the particle surfaces, corrected for entropy, reaction overpotentials and the ohmic drop over all series resistances, with rates and diffusivities following their temperature law; concentrations follow the discretised diffusion equation step by step. This holds for every reachable state, current, temperature and resistance, and a state whose surface concentration is out of bounds yields no voltage; lithium fractions outside 0 to 1 are refused.",
 ["inputs", "histories"], "every sequence of currents, temperatures and step sizes up to the depth bound from several starting levels",
 "Tests check signs and one rest voltage.",
 ["src/cells/Cell_SPM/Cell_SPM.cpp", "src/cells/Cell_SPM/Cell_SPM_diffusion.cpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp", "src/types/OCVcurves.hpp"],
 [("voltage equation", "Cell_SPM::V/getOCV/calcOverPotential/getRdc"), ("diffusion", "Cell_SPM::dState_diffusion")], REF, BOUND))

props.append(P("P29", "The open circuit voltage fit takes only legal curves and reports the best fit",
 "Reading the curves of a fit accepts exactly those whose first column starts at zero (and ends at one for an electrode) and increases strictly, and whose voltages are numbers from 0 to 10. The simulated slow discharge moves as much lithium into the cathode as out of the anode, has the voltage difference of the electrode curves, and ends when the end voltage is reached or an electrode is full or empty. The error of a simulation is the root mean square difference over all measured points, and a fit returns and writes the candidate with the smallest error of all candidates examined on any level.",
 ["inputs", "configurations"], "every curve pattern, electrode pair, amount of material, starting fraction, end voltage and search space (values, starts, levels) in the bound",
 "The tests contain no fit at all; whether the reported candidate is the best can only be seen by evaluating all of them.",
 ["src/procedures/determine_OCV.cpp", "src/procedures/determine_OCV.hpp"],
 [("legal curves", "validOCV/readOCVinput"), ("discharge", "discharge/discharge_noexcept"), ("fit", "fitAMnAndStartingPoints/hierarchicalOCVfit/estimateOCVparameters")], REF, BOUND))

props.append(P("P30", "Parameter estimation tools compute the statistics they name",
 "An adaptation of the proposal distribution changes its covariance S S' to S (1 + n^-1/2 (a - 0.234) w w'/|w|^2) S' and keeps its factor triangular with a positive diagonal, for every dimension, draw, acceptance rate and iteration. The prior of a candidate is the product of the gamma densities (none if a parameter is not positive, then no model is evaluated), and its negative log likelihood is that of Gaussian noise with the candidate's variance for the scaled parameters; candidates and records give their values in order. Norms of any order, densities and unit conversions equal their definitions.",
 ["inputs", "histories"], "every sequence of draws, acceptance rates and iterations up to the depth bound in several dimensions; every combination of parameter values, priors, scales, noise levels and errors of the grid",
 "No test uses these tools at all.",
 ["src/optimisation/MCMC.hpp", "src/types/matrix.hpp", "src/utility/slide_aux.hpp", "src/utility/units.hpp"],
 [("proposal", "S_update/cholUpdate"), ("likelihood", "LL/Prior/GammaDensityFunctor"), ("norms", "norm/norm_sq")], REF, BOUND))

props.append(P("P31", "Independent storage units never influence each other",
 "What a storage unit does depends only on how it was built and on the commands it was given itself. Commands to other units, cyclers and procedures in the same program, building, copying or destroying other units, and loading or editing other curves change neither its answers nor its states, in any interleaving. Units which share nothing can be simulated in different threads without touching common data.",
 ["histories", "schedules"], "every interleaving of two command sequences on every pair of units of the list; every schedule of two threads up to the preemption bound with all memory accesses monitored",
 "A test uses one unit at a time; state hidden behind functions (caches, static tables, shared models) shows only when two units with different commands alternate.",
 ["src/cells/Cell_SPM/Model_SPM.hpp", "src/cells/Cell_SPM/Cell_SPM.cpp", "src/utility/io/read_CSVfiles.hpp", "src/types/OCVcurves.hpp", "src/procedures/Cycler.cpp", "src/modules/Module.cpp"],
 [("shared model and curves", "Model_SPM::makeModel, OCVcurves, loadCSV_2col"), ("commands", "every StorageUnit command")], REF, BOUND))

NA = {}
