#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json
P = []
BS = "cuprates_transport/bandstructure.py"; CO = "cuprates_transport/conductivity.py"
SC = "cuprates_transport/scattering.py"; AD = "cuprates_transport/admr.py"
MT = "cuprates_transport/fitting_admr_parallel_multiT.py"; P1 = "cuprates_transport/fitting_admr_parallel_oneT.py"
S1 = "cuprates_transport/fitting_admr_series_oneT.py"; SM = "cuprates_transport/fitting_admr_series_multi_T.py"

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("C01", "Energy and velocity follow the band model",
  "For every band model, set of band parameters, energy scale and lattice constants, the energy returned at any array of wave vectors is the model evaluated there with each named band parameter multiplied by the energy scale (in meV). The velocity returned at the same points is the exact wave-vector gradient of that energy divided by hbar, in m/s, component by component and with the shape of the input, including components that vanish or are constant. Both hold for parallel and serial compilation, for any parameter names and dictionary order, and after a parameter or the energy scale is changed.",
  ["inputs", "configurations", "histories"], "all band models (products/sums of analytic functions of k), parameter names/orders/values, energy scales, lattices, k-array shapes, compile modes, parameter updates",
  "The tests evaluate one tight-binding model with one parameter set and pin the velocity at a single point.",
  [BS], [("symbolic derivation and compilation", BS + ": energy_velocity_definition"), ("parameter ordering", BS + ": bandParameters")],
  ["energy_func", "velocity_func"])
p("C02", "Filling and doping count the occupied states",
  "The band filling is twice the fraction of a uniform wave-vector grid over the Brillouin-zone box whose energy is at or below zero, divided by the number of Brillouin zones, and the hole doping is one minus the filling; what is returned and what is stored on the band agree. The per-plane fillings are the same count plane by plane and average to the total, and the hole doping of several bands is one minus the sum of their fillings. The count agrees with the exact occupied volume as the grid is refined.",
  ["inputs", "configurations"], "all band models, parameters, grids (any sizes along x, y, z), box sizes, numbers of zones, numbers of bands",
  "The tests check two rounded doping values of one band; no per-plane, multi-band, multi-zone or anisotropic-grid count is ever checked.",
  [BS], [("counting", BS + ": update_filling, doping, filling, doping_per_kz, module doping")], ["n", "p", "return values"])
p("C03", "The chemical-potential solver reaches the requested doping",
  "After asking one band, or a set of bands, for a reachable hole doping, recomputing the doping gives the request to within the tolerance of the solver, every band of the set carries the same chemical potential and no other parameter has changed. The band then holds no Fermi surface, filling or doping that belongs to another chemical potential, so that discretizing it again gives what a new band built with that chemical potential gives.",
  ["inputs", "histories"], "targets, bands, sets of bands, tolerances, previous state of the bands",
  "No test calls the solver.",
  [BS], [("root search on mu", BS + ": set_mu_to_doping, diff_doping, dopingCondition")], ["band parameters", "doping()", "kf, vf, p, n after the call"])
p("C04", "Fermi-surface points lie on the requested surface and miss no part of it",
  "Every discretized point lies inside the Brillouin-zone box and on the iso-energy surface that was requested, for both discretization methods, any energy offset and any lattice. Every sheet and pocket of the surface that the grid resolves is represented, with no duplicated or stray part. The stored velocities are the velocities at those points and the stored density of states is one over hbar times their norm.",
  ["inputs", "configurations"], "band models with one or several sheets/pockets, tetragonal and orthorhombic lattices, energy offsets, box sizes, resolutions, both methods",
  "The tests look at the first point of one tetragonal surface at zero offset.",
  [BS], [("marching cubes/squares and recentring", BS + ": marching_cube, marching_square, discretize_fermi_surface")], ["kf, vf, dos_k"])
p("C05", "Fermi-surface weights integrate the surface",
  "The weights of the discretized points are positive. With the default method (marching cubes) they add up to the area of the iso-energy surface inside the box; more generally, for any smooth function of wave vector, the weighted sum over the points converges to its surface integral. With the slice-wise method, the weight of a point is a length along the contour of its plane times the spacing of the planes, the number of points recorded for each plane is right, and the lengths of each plane add up to the contour's length in reciprocal space (and integrate smooth functions along it) whatever the ratio of the lattice constants.",
  ["inputs", "configurations"], "band models, lattices (a = b and a != b), energy offsets, box sizes, resolutions, both methods, test functions",
  "The tests pin one weight of one tetragonal surface; nothing checks a sum.",
  [BS], [("triangle areas / contour lengths", BS + ": marching_cube, marching_square")], ["dkf, dks, dkz, number_of_points_per_kz_list"])
p("C06", "Density of states and cyclotron mass are the right energy derivatives",
  "The integrated density of states equals the derivative of the number of electrons per volume with respect to the energy of the surface (a box of several Brillouin zones counts as one zone, as for the filling), and the cyclotron mass equals hbar squared over two pi times the derivative of the enclosed area with respect to energy, averaged over the planes along z, in units of the bare electron mass. For a parabolic band they reduce to the textbook values of the given mass.",
  ["inputs", "configurations"], "band models, lattices, energy offsets, resolutions, number of planes",
  "No test asserts on the density of states or the mass; one calls the mass function without looking at the value.",
  [BS], [("surface sums", BS + ": dos_epsilon_func, mass_func")], ["dos_epsilon", "mass"])
p("C07", "Band-structure results never outlive the parameters they came from",
  "After any change of a band parameter or of the energy scale, through any of the documented ways, everything that was computed from the old values (points, velocities, weights, densities of states, mass, filling, doping, point counts) is discarded until it is computed again. After any sequence of changes and recomputations, the results equal those of a band newly built with the final settings. A band parameter can be read back whatever its value, and a name that was not declared at construction is never added.",
  ["histories"], "sequences of parameter writes (item, setter method, whole dictionary, energy scale), mode switches, discretizations at several offsets, doping and mass computations",
  "Each test builds a band, discretizes it once and never changes it.",
  [BS], [("invalidation", BS + ": erase_Fermi_surface, __setitem__, _set_band_params, _set_energy_scale")], ["kf, vf, dkf, dks, dkz, dos_k, dos_epsilon, mass, p, n"],
  state=[("derived results", "kf, vf, dkf, dks, dkz, dos_k, dos_epsilon, mass, p, n, number_of_points_per_kz_list", BS)])
p("C08", "Inputs are not modified and objects do not share state",
  "Building, running or modifying a band, a conductivity, an angle scan or a fit never changes the dictionaries, lists and objects the caller passed in, and changing those afterwards does not change the results of what was built from them. A conductivity works on its own copy of the band, and two bands or conductivities never influence each other, not even through default arguments. (An angle scan drives the conductivities it is given: turning their field is its purpose.)",
  ["histories", "inputs"], "interleaved operations on several objects built from shared inputs, and mutation of the inputs afterwards",
  "The tests share one parameter dictionary but never look at it again, and never use two objects together.",
  [BS, CO, SC, MT], [("copies at construction", BS + ": __init__; " + CO + ": __init__; " + SC + ": __init__; " + MT + ": Fitness, SimADMR")], ["caller's dictionaries and lists", "results of sibling objects"])
p("C09", "The scattering rate is the sum of the selected models",
  "The total scattering rate at any point is the sum of the rates of the selected models, each evaluated with the current value of its parameters, and the lifetime is its inverse; the order of the models does not matter and nothing is remembered from earlier evaluations. Each model follows its documented formula, is positive, is periodic in the Brillouin zone, and depends on direction through the in-plane angle of the wave vector folded back into the zone. The rate at a point depends on that point alone, so it is the same whether the point is on the starting surface or along an orbit, and whatever the array shape.",
  ["inputs", "configurations", "histories"], "model lists, parameter values, points inside and outside the zone, array shapes, update sequences",
  "The tests use one pair of models with one parameter set, and look only at the resulting conductivity.",
  [SC], [("Matthiessen sum", SC + ": tau_tot_func"), ("models", SC + ": isotropic, cos2phi, cos2phi_coskz, sin2phi, gamma_dos_func"), ("parameter setter", SC + ": scattering_params")], ["tau_tot_func", "gamma_tot", "tau_total_max/min", "gamma_tot_max/min"])
p("C10", "Cyclotron orbits obey the Lorentz force",
  "The magnetic-field vector is the one given by the amplitude and the polar and azimuthal angles in degrees, after any sequence of changes. Every computed orbit starts at its Fermi-surface point, keeps its energy and its wave-vector component along the field, follows the (backward in time) Lorentz-force equation for an electron, and carries the velocity of the points it passes, to the accuracy of the requested integrator tolerances. The accumulated scattering along an orbit starts at zero and grows at the local scattering rate.",
  ["inputs", "configurations", "histories"], "fields of any amplitude, sign and direction, band models, temperatures, integrator tolerances, numbers of steps, setter sequences",
  "The tests run one field along z and look at one element of the final tensor.",
  [CO], [("equation of motion", CO + ": solve_movement, movement_equation, crossProductVectorized"), ("field vector", CO + ": B_func and setters"), ("exposure integral", CO + ": t_o_tau_func")], ["B_vector", "kft, vft, t_o_tau, time_array"])
p("C11", "Zero-field conductivity is the Boltzmann surface integral",
  "Without magnetic field and at zero temperature the conductivity tensor is e^2/(4 pi^3 hbar) times the Fermi-surface integral of v_i v_j tau / |v|, divided by the number of Brillouin zones, in SI units. It is symmetric and positive, does not depend on the field angles nor on the time grid, and scales inversely with a common factor on all scattering rates.",
  ["inputs", "configurations"], "band models, scattering models and values, lattices, discretization methods, numbers of zones, field angles",
  "The tests pin one element for one set of parameters.",
  [CO], [("zero-field branch", CO + ": velocity_product, sigma_epsilon, chambers_func")], ["sigma"])
p("C12", "In-field conductivity is the Chambers integral along the orbits",
  "With a magnetic field and at zero temperature the conductivity tensor is the Chambers integral: the Fermi-surface sum of the initial velocity times the velocity along the backward orbit, damped by the scattering accumulated on the way, over eight of the longest lifetimes in the requested number of time steps. It is so for any direction, sign and strength of the field, band model, scattering models and number of Brillouin zones, and tends to the zero-field conductivity as the field vanishes.",
  ["inputs", "configurations"], "fields, band models, scattering models, numbers of time steps, lattices, discretization methods, numbers of zones",
  "The tests pin sigma_zz for one field along z; the off-diagonal elements and tilted fields are never compared with anything.",
  [CO], [("time grid", CO + ": reset_time"), ("Chambers formula", CO + ": velocity_product, sigma_epsilon, chambers_func")], ["sigma", "time_array", "gamma_tot_max/min"])
p("C13", "Transport obeys Onsager reciprocity and the crystal symmetries",
  "The conductivity tensor at a field equals the transpose of the tensor at the opposite field, and the sum of all dissipative currents is never negative. For a band and scattering that share a symmetry of the lattice, transforming the field by that symmetry transforms the tensor accordingly; equivalent ways of writing the same field vector (turns of 360 degrees, polar angle and azimuth flipped together, amplitude reversed) give the same tensor.",
  ["inputs", "configurations"], "fields of any amplitude and direction, band models, scattering models, temperatures",
  "No test compares two runs.",
  [CO, BS, SC], [("whole transport pipeline", CO + ": runTransport")], ["sigma"])
p("C14", "Parabolic bands reproduce the Drude tensor in any field",
  "For a parabolic band with any mass tensor and any constant scattering rate, electron or hole, the full conductivity tensor in any magnetic field equals the inverse of the Drude resistivity built from the carrier density, masses, rate and field, within the discretization error. In particular the longitudinal resistivity is m Gamma/(n e^2), the Hall coefficient is -1/(n e) for electrons and +1/(n e) for holes, and two- and three-dimensional surfaces both count the right density.",
  ["inputs", "configurations"], "masses, lattice constants, densities, rates, fields, both discretization methods, electrons and holes",
  "The tests contain no analytic reference; the free-electron comparison exists only as an example script that nobody checks.",
  [CO, BS, "examples/check_free_electrons.py"], [("units and prefactors", CO + ": units_chambers; " + BS + ": energy_velocity_definition")], ["sigma"])
p("C15", "Finite-temperature coefficients are Fermi-window averages",
  "At a non-zero temperature the electric, thermoelectric and thermal tensors are the averages of the conductivity of the iso-energy surfaces over an energy grid that is symmetric about the Fermi level and reaches where the Fermi-window derivative has fallen to the requested fraction, weighted by that derivative and by 1, -eps/(e T) and eps^2/(e^2 T). The Wiedemann-Franz and Mott relations follow for slowly varying conductivity, and the electric tensor tends to the zero-temperature one as the temperature falls. The grid follows every later change of temperature, number of energies or cut-off, and the band is left on its Fermi level.",
  ["inputs", "configurations", "histories"], "temperatures, numbers of energies, cut-offs, bands, fields, setter sequences",
  "The tests pin sigma_zz at one temperature and never look at the thermoelectric or thermal tensors.",
  [CO], [("energy grid and weights", CO + ": T, N_epsilon, dfdE_cut_percent setters, dfdE, energyCutOff, integrand_coeff, chambers_func")], ["sigma, alpha, beta", "epsilon_array", "bandObject after the run"])
p("C16", "A transport result depends only on the current settings",
  "After any sequence of changes of field, angles, temperature, time steps, energy grid, scattering parameters or models, band parameters, and of runs, scans or plots in between, the next run gives the tensors, extreme scattering rates and orbits that a newly built object with the final settings gives. Settings may be changed in any order before and after the first run, and running twice changes nothing.",
  ["histories"], "sequences of setter calls, runs, failed runs, plots and scans on one object",
  "Each test makes at most one change and one run on a new object.",
  [CO, SC], [("properties and reset", CO + ": setters, runTransport, reset_time; " + SC + ": scattering_params")], ["sigma, alpha, beta, gamma_tot_max/min, omegac_tau_k"])
p("C17", "An angle scan is the per-angle resistivity of all bands in parallel",
  "Every entry of the c-axis resistivity map is the zz element of the inverse of the sum over bands of the conductivity tensors at that polar and azimuthal angle, each computed as for that angle alone, whatever the order, spacing and range of the angles, the temperature, and what was run before. The normalized map is each azimuth's curve divided by its own value, interpolated, at the normalization angle. Repeating a scan reproduces it.",
  ["inputs", "configurations", "histories"], "angle lists, numbers of bands, temperatures, normalization angles, repeated scans",
  "The only test runs a scan and asserts nothing.",
  [AD, CO], [("scan loop and normalization", AD + ": runADMR")], ["rhozz_array, rzz_array"])
p("C18", "Scan totals, file names and exported tables tell the truth",
  "After every scan the total filling is the sum of the fillings of the bands and the total hole doping is one minus it, however often the scan was run. The exported table has one named column per quantity, in the order of its header, and reading it back gives the polar angles, every azimuth's resistivity, the field, the band parameters and the resolution of the scan, to the printed precision. The default file name carries the doping, temperature, field, energy scale, band parameters and band names of the scan, and files are written where asked and nowhere else.",
  ["inputs", "configurations", "histories"], "scans with one or several bands and azimuths, band parameter sets, folders and file names, repeated scans",
  "No test exports a table or looks at the totals; one draws the figure.",
  [AD], [("totals, name and table", AD + ": update_total_doping, file_name_func, fileADMR, figADMR")], ["total_filling, total_hole_doping", "files in a scratch folder"])
p("C19", "The multi-temperature fit objective is faithful and pure",
  "The objective at a vector of free parameters is the sum over all temperatures, azimuths and angles of the squared difference between the data and the scan simulated with exactly those parameters, normalized or not as requested. Every free parameter, of the band, of the scattering or of the measurement, acts on its own temperature and band only, those declared for all temperatures act on all, and any value including zero is applied. The value depends on the vector alone, not on what was evaluated before, and it vanishes when the data are the simulation.",
  ["inputs", "histories", "configurations"], "free-parameter sets, vectors, evaluation orders, temperatures, several bands, normalization",
  "No test runs any fitting module.",
  [MT], [("objective", MT + ": Fitness.compute_fitness, update_parameters, SimADMR.update_params")], ["compute_fitness", "rzz_sim_dict, rhozz_sim_dict", "params_dict"])
p("C20", "Experimental data are read, ordered, scaled and interpolated faithfully",
  "For each temperature and azimuth the fits compare with the file registered for it: the named columns, ordered by angle, linearly interpolated on the angle grid, normalized by the value at the normalization angle and scaled by the given factor. The order of the rows, extra columns and comments in the file, and the order in which files are registered, do not matter. The angle grid covers the registered range to half a step and never goes beyond the cut-off.",
  ["inputs", "configurations"], "data files (row order, extra columns, comments, spacing), registered ranges, cut-offs, numbers of azimuths and temperatures",
  "No data file is in the repository and no test loads one.",
  [MT, P1, S1, SM], [("loaders", MT + ": FitAnglesADMR, DataADMR; " + P1 + ": load_and_interp_data; " + S1 + "; " + SM)], ["rzz/rhozz data matrices", "Bphi_array, Btheta_array"])
p("C21", "A parallel fit returns the best member it evaluated",
  "Evaluating members in worker processes gives the same objective values as evaluating them one by one in the parent. A parallel fit keeps every parameter within its bounds, returns parameters whose objective is the lowest of all members evaluated, leaves the returned simulation and parameters consistent with them, does not touch the caller's inputs and leaves no worker behind.",
  ["schedules", "inputs", "configurations"], "numbers of workers, population sizes, scheduling delays in workers, free-parameter sets",
  "No test runs a fit.",
  [MT, P1], [("worker pool and differential evolution", MT + ": fit_admr_parallel; " + P1 + ": fit_admr_parallel")], ["history of objective calls in all processes", "returned object", "child processes"],
  hook=None)
p("C22", "Single-temperature and sequential fits evaluate and save what they claim",
  "In the single-temperature and sequential fits, the residual at given parameter values is data minus simulation with exactly those values, for every kind of free parameter (band, scattering, energy scale, field), whatever was evaluated before; if a doping is imposed, the chemical potential is adjusted to it. A finished fit leaves the best parameters in the member, writes them to the requested file in a form that reads back as the same member, and writes its figure.",
  ["inputs", "histories", "configurations"], "free-parameter sets, vectors, evaluation orders, imposed doping, normalization, file names",
  "The only fitting test fails before it reaches the code.",
  [P1, S1, SM], [("objective and persistence", P1 + ": compute_diff2, generate_admr, save_member_to_json; " + S1 + "; " + SM)], ["compute_diff/compute_diff2", "JSON and PDF files in a scratch folder"])
p("C23", "Results are finite and never come from uninitialised memory",
  "For every physically meaningful input, including extreme temperatures, fields, energy scales and tilted angles, everything a run publishes (surface, velocities, orbits, rates, tensors, scan maps) is finite and real, with no invalid floating-point operation on the way. No published value depends on the content of freshly allocated memory, whatever that content is.",
  ["inputs", "configurations"], "extreme but valid inputs, contents of fresh memory",
  "The tests use one moderate set of parameters, and fresh memory is usually zero in a short test process.",
  [BS, CO, SC, AD], [("array allocation and formulas", CO + ": solve_movement, chambers_func; " + AD + ": runADMR")], ["all published arrays"])
p("C24", "Results do not depend on process, threads, compilation or hash order",
  "The same inputs give the same surface, tensors, fillings and scan maps in a new process, with any number of threads, with parallel, serial or no just-in-time compilation, with any hash seed and any order of the parameter dictionaries, and when several runs execute at the same time. Results are identical in repeated runs and equal to rounding between compile modes.",
  ["schedules", "configurations"], "processes, hash seeds, thread counts, compile modes, concurrent runs, dictionary orders",
  "The tests run in one environment with fixed thread count, hash seed and CPU features.",
  [BS, CO, SC], [("compilation", BS + ": energy_velocity_definition")], ["all published arrays, across processes"])
p("C25", "Figures show the computed values and change none of them",
  "Every figure draws the data it is named after: scan curves, Fermi-surface points and velocities, orbits, velocities along orbits, scattering rates and the current parameter values. Drawing any figure, shown or saved, leaves the tensors, orbits, surfaces, parameters and the results of later runs unchanged, and saved documents hold one page per figure announced.",
  ["inputs", "histories", "configurations"], "bands, conductivities and scans with various settings, figure options, parameter updates before drawing",
  "The tests call some figures to see that they do not raise, and never look at what is drawn.",
  [BS, CO, AD], [("figures", BS + ": fig*; " + CO + ": fig*; " + AD + ": figADMR")], ["matplotlib artists", "state before and after"])
p("C26", "The reported omega_c tau is the cyclotron frequency times the lifetime",
  "For a field along z, the omega_c tau reported at each Fermi-surface point is the cyclotron frequency there, e B v_perp / (hbar k_perp) with the in-plane velocity and wave vector, times the lifetime of that point under the current scattering settings, a number without unit (e B tau / m for a parabolic cylinder). It follows every change of the field and of the scattering, and computing it changes no other result.",
  ["inputs", "histories"], "bands, scattering models, fields of either sign, setting changes before and after runs",
  "The tests pin one value at one point of one band.",
  [CO, SC], [("reported omega_c tau", CO + ": omegac_tau_func")], ["omegac_tau_k"])

with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
