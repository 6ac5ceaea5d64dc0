"""Writes properties.jsonl (kept as code so the long texts stay readable)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})
    assert len(title) <= 80, title

BD="bdld/actions/birth_death.py"; BP="bdld/actions/bussi_parinello_ld.py"; OD="bdld/actions/overdamped_ld.py"
POT="bdld/potential/potential.py"; POL="bdld/potential/polynomial.py"; MB="bdld/potential/mueller_brown.py"
TR="bdld/actions/trajectory_action.py"; HA="bdld/actions/histogram_action.py"; HI="bdld/histogram.py"; AC="bdld/actions/action.py"
FE="bdld/actions/fes_action.py"; DF="bdld/actions/delta_f_action.py"; PD="bdld/actions/particle_distribution.py"
GR="bdld/grid.py"; IP="bdld/inputparser.py"; MA="bdld/main.py"; TO="bdld/tools.py"; PA="bdld/particle.py"

prop("C01","Birth-death steps conserve the walker population",
 "A birth-death step never changes the number of walkers and acts on the very walker list the integrator moves. Afterwards every slot holds either the walker it held before or an exact copy (position, momentum, mass, energy, forces and thermostat constant) of a walker that existed before the step; only slots named as replaced in the returned list of events may differ. This holds with and without recalculating probabilities after each event.",
 ["inputs","schedules"],"for every set of walkers, every energy, and every outcome of the random draws (acceptance numbers, processing order, partner choice)",
 "The repository's birth-death tests fix one seed and four walkers and do not even import here; none examines a sequence of interacting events (killed walker later duplicated, same slot hit twice).",
 [BD],[("perform_moves deep-copies the duplicated walker into the killed slot",BD+":258"),("do_birth_death builds the event list",BD+":154")],
 ["list of walkers after do_birth_death","returned event list"],[("particles","walker list shared with the integrator",BD+":89")])

prop("C02","Over-dense walkers are killed, under-dense ones duplicated",
 "In a birth-death step a walker triggers an event exactly when its uniform draw falls below 1-exp(-|excess| * birth-death interval * rate factor), except that without recalculation a walker already killed in this step triggers nothing. A walker with positive excess is replaced by a copy of another walker; one with negative excess is copied onto another walker; the partner is never the walker itself and can be any of the others. The rule is the same whether or not probabilities are recalculated after each event, and with recalculation every later decision uses excesses computed from the moved population.",
 ["inputs","schedules","configurations"],"for every energy landscape of the walkers, every draw and processing order, both modes, any rate factor, stride and time step",
 "Only the non-recalculating mode is run by the tests, with one seed; the recalculating mode is never executed.",
 [BD],[("do_birth_death acceptance and event construction",BD+":178"),("random_other",BD+":246")],["events returned and walker list"])

prop("C03","Birth-death excess of each walker follows the chosen approximation",
 "With the original approximation the excess of a walker is ln(local walker density) + energy/kT minus the mean of that quantity over the walkers, so the excesses sum to zero. The additive approximation adds the interpolated correction at the walker's position to this; the multiplicative one uses ln(local density) plus the interpolated -ln(smoothed equilibrium density) instead of the energy, again minus its mean over the walkers.",
 ["inputs","configurations"],"for all positions, energies, kT, bandwidths and correction values, in one and more dimensions",
 "Tests compare one 1-D configuration with four walkers.",
 [BD],[("calc_betas",BD+":222"),("set-up of the approximation grid",BD+":113")],["calc_betas result"])

prop("C04","Walker density is the mean Gaussian kernel over all walkers",
 "The density estimate at a walker is the average over all walkers (itself included) of the normalised product Gaussian kernel with the given bandwidth per dimension. It does not depend on the order of the walkers, is the same for every algorithm used (small and large populations), and is strictly positive.",
 ["inputs","configurations"],"for all positions and bandwidths, up to three dimensions, on both sides of the population-size switch",
 "Tests evaluate two fixed configurations of three walkers, and never the large-population branch through the public function.",
 [BD],[("walker_density and its two implementations",BD+":407"),("calc_kernel",BD+":391")],["walker_density result"])

prop("C05","Birth-death runs on schedule and its statistics count what happened",
 "Birth-death is attempted exactly at the time steps that are multiples of its stride, with a birth-death interval of stride times the MD time step. The statistics report as successful kills and duplications exactly the events carried out by walkers with positive and negative excess, as attempts exactly the walkers evaluated with such excess, cumulatively, with successes never exceeding attempts. A statistics line is written at every multiple of the statistics stride, or once at the end if none is set.",
 ["histories","schedules"],"for all numbers of steps, strides, walkers and random draws",
 "Tests run one step with one seed and check two counters.",
 [BD],[("run/final_run stride checks",BD+":139"),("counter updates in do_birth_death",BD+":170"),("Stats.print",BD+":342")],["statistics file rows"],[("stats","event counters",BD+":299")])

prop("C06","Walkers never share state",
 "Moving one walker (integrator step, boundary condition, later birth-death events) never changes the position, momentum, energy or forces of any other walker, including walkers created as copies of each other in earlier birth-death steps and walkers created from the same initial position. Each walker receives its own random numbers at every step.",
 ["histories","schedules"],"for every sequence of birth-death events followed by integrator steps, with arbitrary noise, both integrators",
 "No test moves walkers after a duplication.",
 [BD,BP,OD,PA,MA],[("deepcopy in perform_moves",BD+":265"),("in-place updates p.pos += in run",BP+":90"),("Particle copies its input",PA+":29")],["walker attributes after moves"])

prop("C07","One Langevin step is the Bussi-Parrinello scheme",
 "One step of the Langevin integrator applies to every walker: thermostat p -> c1 p + c2 R, half kick with the current force, drift by p/m dt, boundary condition, new force, half kick, thermostat with fresh R', where c1=exp(-friction dt/2) and c2=sqrt((1-c1^2) m kT). Hence the thermostat leaves the Maxwell distribution (variance m kT) invariant, and without friction the step is time-reversible.",
 ["inputs","histories"],"for every potential, position, momentum, mass, force, time step, friction, temperature and noise",
 "No existing test runs the integrator at all.",
 [BP],[("run",BP+":84"),("c1",BP+":67"),("c2 in add_particle",BP+":124")],["walker position and momentum after run"])

prop("C08","One overdamped step is the Euler-Maruyama update",
 "One overdamped step moves every walker by dt times the force at its current position plus sqrt(2 dt) times a fresh standard normal number per dimension, then applies the boundary condition; mass and temperature do not enter.",
 ["inputs"],"for every potential, position, time step and noise","No existing test runs this integrator.",
 [OD],[("run",OD+":72")],["walker position after run"])

prop("C09","Stored energy and forces always belong to the current position",
 "After a walker is added and after every later integrator or birth-death step, the energy and the forces stored with each walker equal the potential's energy and forces at that walker's current position (after boundary conditions). Adding a walker whose dimension differs from the potential's is rejected and leaves the population unchanged; inserting, overwriting and removing a walker changes only the requested slot.",
 ["histories","inputs"],"for every potential, boundary condition, noise, and every interleaving of add, integrate and birth-death operations (bounded length)",
 "Tests set energies by hand and never run integrator and birth-death together.",
 [BP,OD,BD],[("evaluate after boundary condition",BP+":96"),("add_particle",BP+":101"),("deep copy of energy with position",BD+":265")],["walker energy/forces"])

prop("C10","Boundary conditions keep walkers in range",
 "With reflective boundaries a walker outside the range in some dimension is put on the nearer boundary and its momentum in that dimension (only) is reversed. With periodic boundaries a walker less than one range length outside is shifted by exactly one range length into the range and momentum is untouched; walkers inside are never changed, and without boundary condition nothing ever changes. After any integrator step positions therefore lie within the range (periodic: provided the displacement was below one range length).",
 ["inputs"],"for all ranges, positions and momenta, up to three dimensions, all boundary conditions selected in any order",
 "Tests check two points in two dimensions.",
 [POT],[("apply_boundary_condition_reflective/periodic",POT+":140"),("_set_boundary_condition_function",POT+":128")],["position and momentum arrays"])

prop("C11","Polynomial forces are minus the gradient of the energy",
 "For a polynomial potential with any coefficients in one, two or three dimensions, the energy at a position is the sum of coefficient times product of powers, and the force in every direction is exactly minus the partial derivative of that energy. Evaluating both together gives the same values as evaluating them separately; more than three dimensions are rejected.",
 ["inputs","configurations"],"for all coefficients (bounded order), positions and 1-3 dimensions",
 "Tests evaluate one 2-D polynomial at one point.",
 [POL,POT],[("derivative coefficients",POL+":41"),("energy/force",POL+":70")],["evaluate result"])

prop("C12","Mueller-Brown potential, forces and scaling are consistent",
 "The Mueller-Brown force is minus the gradient of its energy everywhere, joint evaluation equals separate evaluation, and the unscaled energy is the documented sum of four exponentials plus a constant. With a scaling factor (any number other than zero), energy differences and forces of that potential are multiplied by exactly that factor, no matter how many other Mueller-Brown potentials (scaled or not) were created before or are created later.",
 ["inputs","histories"],"for all positions, scaling factors and orders of creating potentials",
 "No test touches this potential.",
 [MB],[("evaluate/energy/force",MB+":55"),("scaling in __init__",MB+":46")],["energy, force, evaluate"],[("A","exponential prefactors",MB+":9")])

prop("C13","Trajectory files hold every stride-th frame exactly once, in order",
 "After a run of any length, the file of walker slot i contains exactly one row for each time step that is a multiple of the trajectory stride, in increasing order, holding time = step times time step, then the position (and, if requested, the momentum) slot i had after that step. This holds for every combination of stride, write stride and number of steps, including runs ending between writes and strides that do not divide the write stride.",
 ["histories","configurations"],"for all strides, write strides, run lengths, walkers and dimensions",
 "The repository tests the row selection for one parameter set; no test writes a trajectory.",
 [TR,AC],[("ring buffer rows in run",TR+":80"),("get_valid_data",AC+":27"),("write/last_write",TR+":93")],["rows in trajectory files"],[("last_write","last step written",TR+":54")])

prop("C14","Time series of states are written once per stride, never stale",
 "The files of free-energy differences and of particle counts contain exactly one row for every step that is a multiple of their stride (or a single row at the end when no stride is set), in order, with the values computed at that step, whatever the write stride and the number of steps. No row is repeated, lost, or taken from memory never filled, and the file header names every column that is written.",
 ["histories","configurations"],"for all strides, write strides (multiples) and run lengths",
 "No test runs these actions; row selection is tested for one parameter set.",
 [DF,PD,AC],[("row computation in run",DF+":101"),("row computation in run",PD+":90"),("get_valid_data",AC+":27")],["rows and header of output files"],[("last_write","last step written",PD+":63")])

prop("C15","The histogram counts every selected frame of the run exactly once",
 "During a run and after its end, the histogram of positions equals the histogram of the positions of all walkers at the time steps that are multiples of the histogram stride since the last reset: whenever it is updated no frame is missed or counted twice. This holds whether or not trajectories are written to file, for any trajectory write stride, any trajectory stride, any reset times, and any number of steps.",
 ["histories","configurations"],"for all histogram strides, trajectory write strides, trajectory strides, resets and run lengths, with and without trajectory file",
 "No test runs the histogram action.",
 [HA,AC,TR],[("get_traj_data",HA+":126"),("run/final_run/reset",HA+":100"),("get_valid_data",AC+":27")],["histogram data after run/final_run"])

prop("C16","Histogram bins count exactly the samples inside them",
 "A new histogram is empty. After adding any samples in any number of batches, each bin holds the number of samples inside its half-open cell (the last cell of each dimension includes its upper edge); samples outside the range are ignored, and the bin coordinates reported are the mid-points of equally wide cells covering exactly the requested range. Clearing sets all counts to zero.",
 ["inputs","histories"],"for all samples, ranges, bin numbers and batch splits in one to three dimensions",
 "There is no histogram test.",
 [HI],[("__init__, add, clear, bin_centers",HI+":26")],["data, axes, points"])

prop("C17","Free energy surface is -kT ln(counts), shifted to minimum zero",
 "For any histogram, the free energy of a bin with n>0 counts is -kT ln(n) shifted by the same constant in all bins so that the smallest value is zero; bins without counts are +infinity. If all bins are empty all values are infinite (never not-a-number), the histogram itself is left unchanged, and the surface written to file lists every bin midpoint with its value in row-major order.",
 ["inputs"],"for all counts, kT, shapes up to three dimensions","There is no test of the free energy calculation.",
 [FE],[("calculate_fes",FE+":186"),("FesAction.run/final_run",FE+":126")],["fes grid data","fes file"])

prop("C18","Free energy differences compare summed state probabilities",
 "The free energy difference of state k to the first state is -kT ln(P_k/P_1), where P is the sum of exp(-F/kT) over the grid points belonging to the state; for a surface obtained from a histogram it equals -kT ln(N_k/N_1) with N the counts in the state. It holds for any number of states and any dimension of the grid, and is unaffected by a constant shift of the surface.",
 ["inputs","configurations"],"for all surfaces, kT, states and grid dimensions","There is no test of the delta-F calculation.",
 [DF,MA],[("calculate_delta_f",DF+":148"),("setup_delta_f masks",MA+":352")],["delta-f values"])

prop("C19","State occupation counts walkers inside inclusive boxes",
 "A position belongs to a state exactly if in every dimension it lies between the state's minimum and maximum, both included; the particle distribution reports for every state the number of walkers whose current position belongs to it.",
 ["inputs"],"for all positions, states and dimensions","No test covers state membership.",
 [TO,PD],[("pos_inside_ranges",TO+":8"),("count_particles",PD+":102")],["counts"])

prop("C20","Grid points, data layout and ranges agree in every dimension",
 "Grid points are listed in row-major order (last dimension fastest), equally spaced from minimum to maximum, so the value stored at index (i,j,k) after filling a grid from a function is the function at the i-th, j-th, k-th axis coordinate, in one to three dimensions. Grids built from step sizes start at the requested minimum, have exactly that spacing and the smallest extent covering the range (or, when shrinking is requested, the largest extent inside it); copies without data have the same points and share nothing with the original.",
 ["inputs","configurations"],"for all ranges, point numbers and step sizes, up to three dimensions","Tests use one or two hand-picked grids, none in three dimensions.",
 [GR],[("points/axes/set_from_func",GR+":140"),("from_npoints/from_stepsizes/stepsizes_from_npoints",GR+":255")],["points, data, ranges, n_points, stepsizes"])

prop("C21","Grid arithmetic is element-wise and leaves operands unchanged",
 "Adding, subtracting, multiplying, dividing, negating, exponentiating or taking logarithms of grids acts on each data value separately, with numbers, arrays or grids on the same points, and returns a new grid on the same points without modifying the operands. Combining grids with different points is rejected, and so is combining with an array that cannot be spread over the grid or assigning data of the wrong size; two grids compare equal exactly if points and data agree.",
 ["inputs"],"for all data, shapes and operand kinds","Tests check one addition.",
 [GR],[("_perform_arithmetic_operation",GR+":120"),("data setter",GR+":45"),("__eq__",GR+":64")],["result grid and operands"])

prop("C22","Equilibrium density is the normalised Boltzmann distribution",
 "The probability density of a potential on a grid is proportional to exp(-energy/kT) at every grid point and sums to one when multiplied with the volume element, in one to three dimensions; the reference surface is the energy at each point, shifted to minimum zero if requested. Ranges or point numbers of the wrong dimension are rejected.",
 ["inputs","configurations"],"for all potentials, kT, ranges and point numbers","Tests use one 1-D parabola with three points.",
 [POT],[("calculate_probability_density",POT+":75"),("calculate_reference",POT+":61")],["returned grid"])

prop("C23","Kernel smoothing and additive correction follow their definitions",
 "Convolving two grids of equal spacing gives the discrete convolution times the volume element, on the first grid's points ('same') or on the inner region where the smaller grid fits completely ('valid'); different spacings are rejected. Smoothing a density uses the normalised Gaussian kernel cut at five bandwidths and stays positive where the density is positive; the additive correction is -ln(smoothed/density) plus the density-weighted trapezoidal integral of ln(smoothed/density), and the trapezoidal integral is the exact iterated rule in every dimension. Thinning a grid keeps its range and end points and takes the linearly interpolated values of the original.",
 ["inputs","configurations"],"for all densities on small grids, spacings and bandwidths","Tests check one triangle density and one grid for the correction.",
 [GR,BD],[("convolve",GR+":208"),("dens_kernel_convolution/calc_additive_correction/nd_trapz",BD+":480")],["returned grids"])

prop("C24","Invalid input options are rejected with a proper error",
 "Every option of the input file that is compulsory but missing, cannot be converted to its type, or violates its documented condition (sign - which a value that is not a number never fulfils -, dimension between one and three, known variant or type) is rejected with an error naming the option and its section, and a missing compulsory section is rejected likewise; the program then exits with an error instead of running. A kernel bandwidth, potential or histogram range, number of bins or initial position whose dimension differs from that of the system is never accepted. Valid values are accepted unchanged, and options not given take their defaults.",
 ["inputs","configurations"],"for all values of every numeric, list and enumerated option","No test reads an input file.",
 [IP,MA],[("InputOption.parse",IP+":74"),("conditions",IP+":118"),("section parsers",IP+":180"),("error handling in main",MA+":57")],["exceptions / exit status / parsed options"])

prop("C25","Every input option reaches the simulation it configures",
 "Running the program on an input file performs the simulation described by it: time step, friction, kT, potential, boundary condition, walker number, mass and positions, birth-death stride, bandwidth, rate factor and variant, and the strides, file names, ranges, bins, states and formats of all output actions take effect as given. In particular the output of a run equals the output of the documented algorithm evaluated with these values.",
 ["configurations","inputs"],"for all option values within bounds","No test goes through the input file.",
 [MA,IP],[("setup_* functions",MA+":126"),("parse_* functions",IP+":180")],["output files of a run"])

prop("C26","The requested walkers are created where requested",
 "Exactly the requested number of walkers with the requested mass and zero momentum is created. With random-global each lies in the potential range; with random-pos each sits on one of the given positions and all positions can occur; with fractions-pos position k gets the share of walkers given by its normalised fraction whenever all shares are whole numbers, otherwise the rounded-down share with the remainder going to the first position; a mismatch of fractions and positions is rejected.",
 ["inputs","configurations"],"for all numbers, fractions and positions (bounded count)","No test initialises walkers from input.",
 [MA,IP],[("init_particles",MA+":181")],["walker list after set-up"])

prop("C27","Seeded runs are reproducible",
 "If seeds are given for dynamics, initial positions and birth-death, all random numbers of the run come from generators determined by these seeds only, for every seed value including zero, so repeating the run gives identical results. No other source of randomness is used, and the random stream of birth-death differs from that of the dynamics when both are given the same seed.",
 ["configurations","inputs"],"for all non-negative seeds and both integrators and all initial distributions","Tests only construct one seeded birth-death object.",
 [MA,BD,BP,OD],[("default_rng(seed)",BP+":68"),("seed offset for birth-death",MA+":270")],["generators created and used"])

prop("C28","Each step runs all actions once, in dependency order",
 "A run performs exactly the requested number of steps numbered from one; in every step the dynamics run first, then birth-death, then trajectories, histogram, free energy, free-energy difference and particle counts, so every output of a step describes the walkers after that step's moves. After the last step every action is finalised exactly once in the same order; actions whose required section is missing are rejected with an error instead of running.",
 ["histories","configurations"],"for all numbers of steps and all subsets of actions","No test runs the main loop.",
 [MA],[("main",MA+":31")],["order of action calls","exit status"])

prop("C29","State bounds from the input become per-dimension ranges",
 "Numbered state options are collected in numeric order until the first missing number, and turned into one range per dimension pairing the minimum and maximum of the same state. Differing numbers of minima and maxima, no state at all, and states whose minimum or maximum do not all have the same dimension are rejected.",
 ["inputs","configurations"],"for all numbers of states and dimensions (bounded) and all values","No test covers these helpers.",
 [IP],[("get_all_numbered_values/numbered_state_options/min_max_to_ranges",IP+":392")],["returned ranges or error"])

prop("C30","Coefficient files define the polynomial they list",
 "Reading a coefficient file gives an array in which every listed order (one index per dimension) holds its listed coefficient, all other orders are zero, and the shape is just large enough, for any order of the rows, any number of rows including one, extra columns and one to three dimensions. The potential built from it has exactly that energy.",
 ["inputs","configurations"],"for all coefficients, row orders and (bounded) polynomial orders","No test reads a coefficient file.",
 [POL,MA],[("coefficients_from_file",POL+":87")],["coefficient array / energy"])

prop("C31","Free energy plots show the computed surface",
 "If a plot file name is given, exactly one plot is saved under that name at the end of the run and, with a plot stride, one more after every multiple of it, each to its own file naming the step and in the format of the given name; plotting never interrupts a run. In one dimension the plot shows the free energy over the bin mid-points together with the potential energy at these points (up to a constant), in two dimensions a map with the first coordinate on the horizontal and the second on the vertical axis. With a plot domain exactly that range of values is shown, otherwise no finite value is cut off.",
 ["inputs","configurations"],"for all counts, ranges, kT and plot domains (bounded bins and steps)","No test plots anything.",
 [FE,MA],[("FesAction.plot/plot_fes",FE+":165"),("setup_fes",MA+":337")],["saved figures: file names, plotted values, limits"])

prop("C32","Output files start fresh and describe their columns",
 "Every output file of a run begins with a header naming each of its columns in order (time; pos_x.i, pos_y.i, ... and mom_x.i, ... of walker i; coordinates and value of histogram and surface; delta_f.1-k; n_particles_k; birth-death counters) and giving the range and number of bins per dimension, the kT used, the state bounds or the bandwidth, as they apply. A file of the same name left by an earlier run is kept as a backup with its content unchanged, and the new file holds data of the new run only.",
 ["configurations","histories"],"for all ranges, temperatures, bandwidths; with and without earlier files (bounded walkers and steps)","No test writes output files.",
 [TR,HA,FE,DF,PD,BD],[("TrajectoryAction.__init__",TR+":62"),("HistogramAction.__init__",HA+":80"),("FesAction.write",FE+":147"),("Stats",BD+":310")],["header and rows of every output file, earlier files"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
