#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the property list in one readable place).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
SC="src/spinchain.rs"; LA="src/spinchain_langevin.rs"; SP="src/spin.rs"; OB="src/obs.rs"; MA="src/main.rs"; WR="src/writers.rs"; CO="src/config.rs"

p("C01","Every spin stays a finite unit vector in every history",
 "Every spin of a closed or Langevin chain is a finite vector of length 1 (to rounding) when the chain is created and after any sequence of time steps and Monte-Carlo moves of any kind. This holds for every finite inverse temperature beta >= 0 (zero, tiny and very large included; a Langevin time step with gamma > 0 needs a beta > 0 of ordinary size, its noise being inversely proportional to it), every drive, and every state, including sites whose local field vanishes exactly.",
 ["histories","configurations","inputs"],"all interleavings of updates and Monte-Carlo moves; all even chain lengths; all beta >= 0; all couplings and fields, zero local fields included",
 "The tests run a few default configurations; none checks norms, a vanishing local field, beta = 0 or large beta.",
 [SP,SC,LA],[("renormalising rotation",SP+":rotate"),("inverse-transform sampling",SC+":new"),("inverse-transform sampling",LA+":new")],
 ["spins of the chain after construction, update, update_no_field and metropolis moves"],[("spins","spin vectors",SC+":SpinChain")])
p("C02","Spin rotation is exact precession; spin geometry helpers are exact",
 "Rotating a spin for a time dt in a field f turns it by the angle |f|dt about f in the sense dS/dt = S x f: the component along f is kept, negative dt undoes positive dt, and a zero field leaves the spin as it is. Converting a unit vector to its angles and back returns the same vector for every direction; constructors from components normalise; Gram-Schmidt returns the unit vector along the part of its second argument orthogonal to its first; and the perpendicular rotation turns a direction by exactly the requested angle, right-handedly about the component of the given vector orthogonal to that direction. Two spins compare equal exactly when all three components differ by less than 0.001.",
 ["inputs"],"all spins, fields, times and angles",
 "The tests rotate two starting spins about one axis and never use theta/phi on the negative or zero x half-space.",
 [SP],[("Rodrigues rotation",SP+":rotate"),("angles",SP+":theta/phi/set_angles/new_from_angles"),("Gram-Schmidt",SP+":gs/rot_perp")],
 ["public methods of Spin"])
p("C03","A time step is the symmetric even/odd/even splitting with mid-step drive",
 "For an even-length periodic chain one time step of length dt is exactly: precession of all even sites for dt/2, then of all odd sites for dt, then of all even sites for dt/2, each site about J_{n-1}S_{n-1} + J_n S_{n+1} - B_n with the neighbours' current directions. B_n is the site's static field plus, on the subsystem sites only, the drive at the middle of the step; the variant without static field uses the drive alone on the subsystem and zero elsewhere. Each step advances the time by exactly dt and changes neither couplings nor static fields.",
 ["inputs","histories"],"all even lengths, states, couplings, fields, drives, subsystem sizes, dt of either sign, and step sequences",
 "Tests only switch interactions off and check one component of one spin.",
 [SC],[("Suzuki-Trotter step",SC+":update"),("step without static field",SC+":update_no_field"),("effective fields",SC+":even_omega/odd_omega")],
 ["spins and t after update / update_no_field"],[("t","current time",SC+":SpinChain")])
p("C04","Undriven evolution conserves energy exactly and is time-reversible",
 "With no drive (or a constant one) the total energy of a closed chain is conserved to rounding accuracy over arbitrarily long evolutions, for every step size, coupling, field and even length. Following any sequence of steps by the same sequence in reverse with the opposite time step returns to the initial state, driven or not.",
 ["histories","inputs"],"all initial states and all step sequences",
 "No test follows the energy in time or reverses an evolution.",
 [SC,SP],[("symplectic checkerboard step",SC+":update"),("energy",SC+":total_energy2")],
 ["total_energy/total_energy2 and spins along trajectories"])
p("C05","The drive acts on the subsystem only, with the configured waveform and period",
 "The drive field is (cos w t, sin w t, 0) for xyplane, (cos w t, e sin w t, 0) for xyelliptic, (cos w t, 0, 0) for uniaxial with w = 2 pi/tau, the constant subsystem field for staticfield, and zero for none, at every positive or negative time. It adds to the static field in the dynamics and in the energies on exactly the first ssize sites and on no other site, identically for closed and Langevin chains.",
 ["inputs","configurations"],"all times, periods, eccentricities, drive types, subsystem sizes",
 "No test uses a drive other than the default or looks at its effect.",
 [SC,LA],[("drive",SC+":h_ext"),("drive",LA+":h_ext")],["energy differences and one-step evolution of decoupled spins"])
p("C06","Energies and magnetisations equal the Hamiltonian's value on the state",
 "The total energy (both ways of computing it) is the average per site of -S_j J_j S_{j+1} over all bonds of the periodic chain plus (static field + current drive on subsystem sites) . S_j; the subsystem energy sums the bonds and field terms of sites 1..ssize-1 and divides by ssize-1. The Monte-Carlo total and subsystem energies are the same periodic sums over the whole chain and over the subsystem closed on itself, per site and without the drive; the magnetisations are the sums of the spins over the subsystem and over the chain. This holds for closed and (where provided) Langevin chains and evaluating them changes nothing.",
 ["inputs"],"all states, couplings, fields, times, drives, sizes",
 "Tests compare an average with a target at 2% in one uniform configuration.",
 [SC,LA],[("energies",SC+":total_energy,total_energy2,system_energy,mc_*"),("magnetisation",SC+":m,m_tot"),("energies",LA+":total_energy,total_energy2,system_energy")],
 ["return values of the observables"])
p("C07","Metropolis moves sample the Boltzmann distribution of the Hamiltonian",
 "A Monte-Carlo move picks a site uniformly, proposes a direction uniform on the sphere independent of the state, and accepts it with probability min(1, exp(-beta dE)), dE being the exact change of the undriven energy (static fields included for the closed chain, none for the Langevin chain) under that replacement; otherwise the state is unchanged. At most one spin changes per move and nothing else does.",
 ["inputs","histories"],"all states, couplings, fields, beta, sites, random streams",
 "One test checks a mean energy at one temperature with uniform couplings and no field.",
 [SC,LA],[("Metropolis",SC+":metropolis_update"),("Metropolis",LA+":metropolis_update")],
 ["pre/post state of a move under a controlled random stream"])
p("C08","Effective-Hamiltonian Monte-Carlo moves obey detailed balance for their energy",
 "Each effective-Hamiltonian move (rotating frame with leading Magnus term, lab frame with leading Magnus term, first-order Magnus, second-order Magnus with the whole chain driven) proposes uniformly in site and direction and accepts with probability min(1, exp(-beta dE)), where dE is the change of one fixed energy function of the state. That function is the documented one: the rotating-frame energy is the one reported by the rotating-frame energy observable (times the length), the lab-frame one is -S J S - S^z/(2 omega) on every site, and the first-order one is -S J S - (pi/tau)(S^z_j + 2 y.((J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j)) summed over the driven sites j.",
 ["inputs","histories"],"all states, couplings, periods, sites, random streams",
 "No test touches these moves.",
 [SC,LA],[("rot",SC+":metropolis_update_rot_magnus,mc_system_energy_rot"),("maglab",SC+":metropolis_update_maglab,mc_system_energy_maglab"),("magnus",SC+":metropolis_update_magnus"),("magnus",LA+":metropolis_update_magnus"),("mag_full",SC+":metropolis_update_mag_full")],
 ["pre/post state of a move under a controlled random stream"])
p("C09","The Langevin step is the damped open-chain splitting with matched noise",
 "A Langevin step is the even(dt/2)/odd(dt)/even(dt/2) splitting on an open chain (no bond between the last and the first site) with the drive taken at t+dt; the first and the last site precess about W - gamma (S x W) - xi/dt, where W is the site's bare field, every other site about its bare field. xi consists of independent Gaussian components of variance 2 gamma dt/beta, one vector for the first site used in both even half-steps and an independent one for the last site, fresh in every step; with gamma = 0 the step is deterministic. Time advances by exactly dt.",
 ["inputs","histories"],"all even lengths, states, couplings, fields, gamma >= 0, beta > 0, random streams",
 "The only dynamics test switches the couplings off and checks one interior spin.",
 [LA],[("Langevin step",LA+":update,even_omega,odd_omega")],["spins and t after update with a controlled random stream"])
p("C10","Initial states follow the requested thermal and disorder distributions",
 "A new chain's spins follow the zero-field isotropic Gibbs measure: neighbouring spins' cosines c are independent with density proportional to exp(beta c), and each spin's azimuth around its predecessor is uniform. Couplings are (1, 1, lambda) and static fields are hfield (plus hs on exactly the subsystem sites), each component with independent Gaussian noise of standard deviation jvar and hvar respectively; the clock starts at minus trel. The same holds for closed and Langevin chains.",
 ["inputs","configurations"],"all beta >= 0, lambda, jvar, hvar, fields, sizes, random streams",
 "The tests check the average energy at one beta to 2% and a mean field with hvar = 0.",
 [SC,LA],[("construction",SC+":new"),("construction",LA+":new")],["state returned by new"])
p("C11","The temperature solver inverts the energy-temperature relation",
 "For every energy density -1 < e < 0 (to within 0.001 of the ends) the inverse temperature returned satisfies 1/beta - coth(beta) = e to an accuracy of 1e-4, is positive and finite, and is reached in finite time. Closed and Langevin chains return the same value.",
 ["inputs"],"all energy densities in (-1, 0)",
 "No test evaluates it except through one statistical energy average.",
 [SC,LA],[("fixed-point iteration",SC+":solve_beta"),("fixed-point iteration",LA+":solve_beta")],["return value"])
p("C12","Log records describe the state at the time they are written",
 "A log record of a closed chain lists, in order, time, total energy, subsystem energy, the three subsystem magnetisations per subsystem site, the z magnetisation per site of the whole chain and the three components of the spins at the first and third quarter of the subsystem, in full precision and all at the current time; a Langevin record lists time, subsystem energy twice, the same four magnetisations and the boundary energy flux (the mean rate at which the baths at the two end sites and the drive change the energy of the open chain), after one comment header line. The extended log writes for each interior subsystem site j = 1.. one record of time, j, local energy (half of each adjacent bond plus field energy) and the spin, followed by a blank line. Logging appends exactly these lines to the chain's own file, changes nothing in the chain, and with logging switched off a closed chain creates and writes no file.",
 ["inputs","histories"],"all states, sizes, times; all sequences of log calls and updates",
 "No test reads a log.",
 [SC,LA],[("log",SC+":log"),("log_ext",SC+":log_ext"),("log",LA+":log")],["contents of the log file"])
p("C13","The spin spectrum is the power of the discrete Fourier transform",
 "For a chain of even length L the spectrum has L entries; entry n is the sum over x, y, z of |sum_j S_j exp(-2 pi i k j/L)|^2 for k = n - L/2. Consequently it is non-negative, sums to L^2, is symmetric under k -> -k and unchanged by translating the chain, and computing it changes nothing.",
 ["inputs"],"all states and even lengths","No test touches the spectrum.",
 [SC],[("FFT",SC+":energy_spectrum")],["return value"])
p("C14","Configuration load, defaults, description and persistence agree",
 "Loading a configuration takes every value present in the file and the documented default for every missing one, an unreadable file yields all defaults and leaves a config.toml holding them, and a malformed file is refused with an error rather than replaced. Writing a configuration and loading it again gives the same values for every configuration. The printed description names every option once, by the key the loader accepts, and loading that description yields the defaults.",
 ["configurations","inputs"],"all subsets of keys, all values, all drive types",
 "No test reads or writes a configuration file.",
 [CO,SC,LA,MA,"src/config-desc.toml"],[("serde defaults",CO+":Config"),("read_config",SC+":read_config"),("description",MA+":print_config_description")],["read_config, config.toml, --config-desc output"])
p("C15","Runs are numbered without gaps or overwriting, across crashes and restarts",
 "A batch of dynamical runs (default, Langevin, response, extended, dynamic profile) writes exactly the files prefix{offset}..prefix{offset+runs-1} and, once all of them are complete, persists the configuration it used with the offset advanced by the number of runs, for every number of threads and every interleaving. A crash at any point leaves config.toml complete: either the old or the new contents, so that no file of an earlier finished batch is ever modified by a later one. Several modes given in one invocation do not overwrite each other's logs. Sampling (Monte-Carlo and profile), fitting, averaging and histogram modes never create, truncate or change a run log, nor an existing config.toml; a period scan leaves the logs of all finished batches (numbers below the offset) as they are.",
 ["schedules","crash_points","histories","configurations"],"all thread counts and interleavings, all crash points, all sequences of invocations",
 "The tests never start the binary.",
 [OB,MA,SC],[("numbering",OB+":run_sim,run_langevin,run_sim_response,run_ext,run_dyn_profile"),("persisting",OB+":fs::write(config.toml)")],["files in the working directory, offset in config.toml"])
p("C16","A run's time series contains exactly the steps it should",
 "A default or Langevin run logs its initial state at t = -trel and then after every time step until the final time is first reached; with stroboscopic logging it logs, after the initial state, exactly at the steps that complete a whole number of drive periods from time zero, once each, when the period is a whole number of steps. The extended mode does the same with extended records, the period scan's records describe the state after the requested number of periods; the response mode logs the initial state and then evolves from -t to t with the static fields switched off from time zero on. Consecutive logged states are related by the documented time step with the configured (or overridden on the command line) parameters, and the initial state is drawn at the inverse temperature given with -b, otherwise at the one that belongs to the configured energy density (extended runs and period scans: the configured beta).",
 ["configurations","histories"],"all t, dt, tau, trel, strob, modes, command-line overrides",
 "The tests never run a simulation loop.",
 [OB,MA],[("loops",OB+":run_sim,run_langevin,run_sim_response,run_ext"),("overrides",MA+":main")],["log files"])
p("C17","Averaging gives the per-line mean over the log files that have the line",
 "For every set of log files with the configured prefix, line n of avg.dat is, column by column, the mean of the (n+1)-th lines of exactly those files that have one (the first line of each file is left out), with as many lines as the longest file has after its first. The input files are left as they were and the result does not depend on file names or their order.",
 ["inputs","configurations"],"all sets of log files, any number and any (unequal) lengths","No test runs the averaging.",
 [OB],[("average",OB+":average")],["avg.dat"])
p("C18","Two-point averaging multiplies every line by the file's zero-time record",
 "For every set of log files that each contain a record at time zero - wherever in the file it stands, the first line included - line n of two-point.dat is the mean over the files having an (n+1)-th line of the time and of every other column times the same file's zero-time value of that column. Each file is paired with its own zero-time record, and input files are left as they were.",
 ["inputs"],"all sets of log files with a zero-time record, any lengths","No test runs the two-point averaging.",
 [OB],[("two_point_average",OB+":two_point_average")],["two-point.dat"])
p("C19","Sampling modes deliver every requested sample exactly once under any schedule",
 "Monte-Carlo sampling (plain and Magnus), dynamic histograms, single-shot period scans, trajectories and Monte-Carlo/Magnus histograms append exactly the requested number of complete records - one per sample, period or cycle - to their output file before the program ends, for every number of threads and sample count (including no samples, more threads than samples and counts not divisible by the threads) and every timing of the threads involved. Every record describes one state: its energies, magnetisations and spins are mutually consistent, it is drawn from the mode's own ensemble at the inverse temperature in force, and existing contents of the output file are kept. The averages the Magnus histogram prints are the means of its records.",
 ["schedules","configurations"],"all thread counts, sample counts, thread timings","The tests never start the binary.",
 [OB,WR],[("writer thread",WR+":write_in_bg"),("work split",OB+":run_mc,run_mc_magnus,gen_hist_dynamics,run_tau")],["mc_live.dat, dyn-hist-*.dat, evt*.dat, hist*.dat"])
p("C20","Site profiles are per-site averages over all samples, and always finish",
 "The Monte-Carlo profile and the dynamic profiles (after 500, 1000, .. 4000 drive periods) contain one line per site in order with the mean over all samples or runs of the site's bond energy (half of its two bonds) and of its spin components. Every sample counts once on its own site for every number of threads, all files are complete when the program ends, and it ends for every period and time step.",
 ["schedules","configurations"],"all sizes, sample counts, thread counts, tau/dt","The tests never start the binary.",
 [OB,WR],[("profile writer",WR+":profile_in_bg"),("profiles",OB+":run_mc_profile,run_dyn_profile")],["mc_profile.dat, dyn_profile-*-tau.dat"])
p("C21","Temperature fits bisect to the temperature with the target energy",
 "Each temperature fit halves its bracket at every step, keeping the half that contains the target (mean energy falls as beta grows), until it is no wider than 0.001, and reports the midpoint: the beta at which the mean energy per site of its own ensemble equals the target, within statistical accuracy. The adiabatic fit (-A) takes as its target the mean energy of the trajectories it runs from the initial temperature. The observables appended with the result are ensemble means at that beta with the whole chain driven (within statistical accuracy), and each record, appended to what the file held, lists period, target or initial beta, fitted beta, energy and magnetisations in the order of the file's other lines (-D: period, initial beta, result).",
 ["inputs","configurations"],"all targets, periods, fit modes","The tests never run a fit.",
 [OB,MA],[("bisection",OB+":find_beta*"),("estimates",OB+":estim_e*,get_obs*")],["standard output, betat*.dat, beta.dat"])
p("C22","Modes requested together do what they do one at a time",
 "An invocation performs exactly the requested modes (the default batch iff none is requested) in one order, whatever the order of the options: each creates, extends by as many records as requested, or replaces its own files and no others, in the layout it has alone. Every mode works with the configuration on the disk, -t and -b: settings a mode makes for itself (the rotating frame's fields, a fitted temperature, an undriven chain, its log prefix) never reach another mode or config.toml, and config.toml and the numbering of the logs change as if the batches had been run one after the other.",
 ["configurations","histories"],"all sets of modes, option orders and configurations","The tests never start the binary.",
 [MA,OB],[("mode dispatch",MA+":main"),("modes with settings of their own",OB+":gen_hist,gen_hist_magnus,find_beta*,get_obs*")],["all output files","config.toml"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
