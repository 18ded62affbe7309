"""The properties and what decides them; writes properties.jsonl and MANIFEST.json.

  python3 harness/registry.py
"""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
TECH = "TLA+ specification checked with TLC; conformance by replaying its behaviours on the code and validating the recorded trace"
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, note, technique=TECH, level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]},
                      _note=note, _tech=technique, _level=level))


EXACT = ("Design laws and expected answers are evaluated exactly by TLC (arbitrary-precision rationals, module Rat). "
         "Bounded: the models, arguments and histories the specification enumerates or samples with VERIF_SEED. ")

P("C01", "Rates and branching fractions of a model are consistent with its channels",
  "For any annihilating or decaying model, the aggregated cross sections (or widths) list every final state with the "
  "model's own rate plus their sum as 'total', and each branching fraction is that channel's share of the total; all "
  "are zero when the total is zero. The answer depends only on the model's current parameters and asking changes nothing.",
  ["inputs", "histories"], "every set of channels, rates, thresholds and centre-of-mass energy, after every sequence of parameter changes",
  "No collected test drives the aggregation layer; the model tests need an extension module the build does not produce.",
  ["hazma/theory/__init__.py"], "rates collected per channel and divided by their sum",
  EXACT + "Trusts the synthetic models of harness/theory_driver.py to exercise the same base-class code as shipped models.")
P("C02", "Photon and positron spectra and lines aggregate over open channels",
  "For any model, the spectrum reported per channel is its branching fraction times the channel's spectrum, the total is "
  "their sum, closed channels contribute exactly zero, and scalar and array energies agree. Each channel's spectrum "
  "function is that channel's own, and each line carries the model's energy and the channel's branching fraction.",
  ["inputs", "histories"], "every set of channels, open or closed, photon or positron, energies as scalars or arrays, after any parameter changes",
  "Spectrum aggregation is only exercised through mediator models, whose tests cannot run in this build.",
  ["hazma/theory/__init__.py"], "spectrum wrappers per channel, weighted by branching fractions", EXACT)
P("C03", "Detector-convolved spectra preserve photons and put lines where they belong",
  "Convolving a model's spectrum with a detector resolution gives, at every measured energy, the true spectrum smeared by a "
  "normal response of the stated relative width, plus each line at its energy with its branching fraction, counted twice for "
  "a pair of photons. The form in which the resolution function is supplied (scalar-only, constant, vectorised) does not matter.",
  ["inputs", "histories"], "every affine spectrum, set of lines, resolution, particle and energy window explored; every form of resolution function",
  "Tests check the smoothing kernel at a few points, not the convolution of a model's spectrum and lines.",
  ["hazma/parameters.py", "hazma/theory/__init__.py"], "numerical convolution on a padded energy grid plus line terms",
  EXACT + "Compared within 2e-3, the discretisation of the library's own convolution.")
P("C04", "Binned gamma-ray limits are the largest rate each measurement allows",
  "The single-bin limit of a model against a measurement is the smallest, over bins with predicted signal, of allowed flux "
  "over predicted flux per unit rate, with the flux normalisation of annihilating or decaying dark matter; without any "
  "signal it is infinite. The chi-squared limit sits at the confidence level asked for; measurements and targets are not modified.",
  ["inputs", "histories"], "every model, target, measurement, significance and method explored, after any parameter changes",
  "The existing suite has no runnable limit test; each limit depends on the whole chain from spectrum to bins.",
  ["hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_constrain.py", "hazma/flux_measurement.py"],
  "flux per bin from the convolved spectrum times a J or D factor", EXACT + "Compared within 2e-3.")
P("C05", "Unbinned and forecast limits use the best window and the right Fisher error",
  "The unbinned limit is the requested significance divided by the largest signal-to-root-background over all windows of "
  "the energy grid, scaled by observing time, solid angle and halo factor. The Fisher limit on the rate is the significance "
  "times the standard error of the rate marginalised over the background parameters.",
  ["inputs", "histories"], "every model, target, energy grid, effective area, background and exposure explored",
  "No runnable test computes either limit.",
  ["hazma/theory/_theory_gamma_ray_limits.py"], "window search over spline integrals; inverse of the Fisher matrix",
  EXACT + "Constant effective area and background, one background parameter, lines excluded from the Fisher comparison; within 2e-3.")
P("C06", "CMB limits follow from how much of the injected energy is deposited",
  "A model's ionisation efficiency is the energy-weighted integral of its photon and electron/positron spectra against the "
  "published efficiency curves, plus its lines (a pair counts twice, energies below the curves not at all), per unit "
  "centre-of-mass energy. The bound on the cross section is the allowed energy release times the mass over that efficiency.",
  ["inputs", "histories"], "every model, mass, decoupling temperature and energy-release bound explored, after any parameter changes",
  "The CMB tests of the repository need the extension module and sample shipped models only.",
  ["hazma/theory/_theory_cmb.py", "hazma/cmb.py"], "quadrature of spectrum times interpolated efficiency, plus lines",
  EXACT + "Efficiency tables are committed copies of the published data; compared within 2e-3 (the library's quadrature).")
P("C07", "Scanning a parameter plane evaluates each constraint at each point",
  "The image of a scan holds, for every constraint, the constraint's value with the first parameter varying along columns and "
  "the second along rows, including for parameters whose setters change others; a custom grid's image has the grid's shape. "
  "Scanning one parameter against itself is refused and the caller's grids are left alone.",
  ["inputs", "configurations"], "every pair of parameters, grid shape and grid values explored, list or array",
  "No runnable test performs a scan.",
  ["hazma/theory/_theory_constrain.py"], "two nested loops assigning attributes and filling an image", EXACT)
P("C08", "Generated phase-space points are physical, complete, correctly weighted and reproducible",
  "Every point of a phase-space generator conserves energy and momentum, has each particle on its mass shell, and carries "
  "the weight that makes the sample uniform in phase space, times the squared matrix element there. This holds after any "
  "change of energy or masses. A seed reproduces a sample; batches have the size and number asked for.",
  ["inputs", "histories"], "every multiplicity from 2 to 5, masses, energy, matrix element, seed, batch size, and sequence of setter calls explored",
  "Tests generate fresh generators with a few masses; none changes a generator and draws again.",
  ["hazma/phase_space/_rambo.py"], "massless momenta, boost, rescale to masses, weights", EXACT)
P("C09", "Phase-space integrals, widths and cross sections have the right value",
  "Two- and three-body quadrature and Monte Carlo integration give the phase-space integral of the squared matrix element "
  "(exact volumes for two, three and massless particles), whichever signature the matrix element has and after any change of "
  "energy, masses or element; zero when closed. A width is that over twice the energy, a cross section that over the flux; "
  "the Monte Carlo error is the standard error of the mean.",
  ["inputs", "histories"], "every multiplicity, masses, energy, polynomial matrix element, signature, batch size and sequence of setter calls explored",
  "Tests check four flat volumes.",
  ["hazma/phase_space/_three_body.py", "hazma/phase_space/_two_body.py", "hazma/phase_space/_rambo.py"],
  "Dalitz quadrature, angular quadrature, mean of weights", EXACT + "Quadrature is compared within 1e-5, sampling within ten of its standard errors.")
P("C10", "Phase-space distributions are normalised histograms or densities over the allowed range",
  "Energy and invariant-mass distributions have the requested number of bins over exactly the kinematic range of the "
  "particle or pair, are normalised, and have the shape of the integrand (quadrature) or of the weighted sample "
  "(Monte Carlo, batched or not). A distribution interpolates between bin centres, is zero outside, and its expectation "
  "values integrate it by the method asked for.",
  ["inputs", "histories"], "every masses, energy, matrix element, bins, batch size, seed, and integrand explored, after any setter calls",
  "No collected test looks at a distribution.",
  ["hazma/phase_space/_dist.py", "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py"],
  "histograms of weighted samples; partial Dalitz integration at bin centres", EXACT)
P("C13", "Telescopes, backgrounds, published measurements and unit conversions answer what their parameters and tables say",
  "Effective areas and energy resolutions interpolate the published tables (zero area beyond them); each shipped measurement "
  "carries its published bins, fluxes, errors, target and resolution. A parametrised background's flux and its derivatives with "
  "respect to each named parameter follow from the parameters given at construction. A simple background is its function inside "
  "its energy range, with a warning outside. Units and cone solid angles convert correctly; answers have the energies' shape.",
  ["inputs", "histories"], "every telescope, survey, set of background parameters, and energies on, between and beyond the rows of tables, as scalars or arrays",
  "No collected test touches these modules.",
  ["hazma/gamma_ray_parameters.py", "hazma/background_model.py", "hazma/flux_measurement.py", "hazma/target_params.py", "hazma/parameters.py"],
  "interpolated tables, closed-form fluxes and derivatives", EXACT + "Tables are committed exact copies of the published data.")
P("C16", "Constrainers give one bound per model, the model's own",
  "A constrainer of `hazma.limits` answers with one bound per model in the order given and leaves the models alone: a telescope's "
  "is the model's binned limit for that survey, significance and method; the CMB's is the model's CMB limit; the relic "
  "density's is the annihilation rate today at the coupling in the bracket that gives the observed abundance (NaN if none does). "
  "A composite answers for exactly its own members by name, whatever other composites hold.",
  ["inputs", "histories"], "every list of models, significance, method, and history of composites being built, extended and reset",
  "No collected test imports these classes.",
  ["hazma/limits/_abstract.py", "hazma/limits/_cmb.py", "hazma/limits/_gamma_rays.py", "hazma/limits/_relic_density.py"],
  "constrainer objects looping over models; root search in a coupling",
  EXACT + "The telescopes' and relic densities' own values are decided by C04, C13 and C15; here the constrainer must agree with them.")
P("C17", "Black-hole spectra are the tabulated ones for the current mass",
  "A primordial black hole's photon spectrum is the published table's column for its current mass and chosen kind of spectrum, "
  "linear between rows and zero beyond, as its only channel; nothing if it makes up none of the dark matter. A mass without a column "
  "or an unknown kind is refused, the kind of spectrum is fixed for life, and a refused change changes nothing.",
  ["inputs", "histories"], "every table and mass, energies on, between and beyond rows, and every sequence of mass and fraction changes and refused changes",
  "No collected test touches this module.",
  ["hazma/pbh.py"], "interpolation of one column, rebuilt when the mass changes",
  EXACT + "Pairs of adjacent rows sampled from each published table (all columns), committed in spec/data.")
P("C14", "Equilibrium densities, thermal averages and the Boltzmann equation are the standard ones",
  "Equilibrium number densities and yields of bosons and fermions, massive or massless, and their temperature derivatives are "
  "those of the Bose and Fermi distributions expanded to five terms; the entropy density and degrees of freedom follow the "
  "published table. The thermal cross section is the Gondolo-Gelmini average of the model's total cross section for every "
  "x up to 300 (or the model's own), and the Boltzmann equation's right-hand side and Jacobian follow from these.",
  ["inputs", "histories"], "every temperature, mass, spin statistics, x and cross section explored, after any change of the model's mass or coupling",
  "The one collected test computes a few relic densities with a constant cross section.",
  ["hazma/relic_density/_thermal_functions.py", "hazma/relic_density/_diffeq.py"], "Bessel-function series, quadrature from threshold, table interpolation", EXACT)
P("C15", "The relic density solves the Boltzmann equation from equilibrium to today",
  "The relic density of a model is its mass times today's entropy times the yield the Boltzmann equation leaves over critical "
  "density, starting from equilibrium at the requested x and ending at the requested x. The semi-analytic answer starts "
  "from the yield at the freeze-out temperature of the requested criterion and integrates annihilation from there. "
  "Computing it leaves the model alone.",
  ["inputs", "histories"], "every mass, cross section (thermal or from a cross section), start, end and freeze-out criterion explored, after any change of the model",
  "The collected test compares a few densities with published numbers at five percent.",
  ["hazma/relic_density/_approx.py", "hazma/relic_density/_diffeq.py", "hazma/relic_density/_rd.py"],
  "stiff ODE solution; root finding plus quadrature", EXACT + "Densities are compared within 2% (full) and 1% (semi-analytic).")
P("C18", "The spectrum of a final state is the sum of what its particles give",
  "For one to three or more particles, the photon, positron or neutrino spectrum of a final state is the sum over its particles of "
  "their decay spectra averaged over their energy distribution in the final state, the product's own energy distribution where it "
  "is itself in the final state (a neutrino only in its flavour's row), and, for photons, radiation of each charged particle over "
  "the invariant masses of its pairs. The order of the particles does not matter; an energy below threshold is refused.",
  ["inputs", "histories"], "every final state of up to four particles drawn from all sixteen names, any energy, bins, method and radiation settings explored",
  "No collected test reaches these functions: they need compiled kernels the suite does not build.",
  ["hazma/spectra/_nbody.py"], "energy and invariant-mass histograms, averages of decay spectra",
  EXACT + "Decay spectra of single particles are parameters of the specification; the kernels are compiled from the repository's sources.")
P("C19", "Boosted spectra are the rest-frame ones seen from a moving source",
  "For a source that emits isotropically at rest and moves with velocity between 0 and 1, the boosted spectrum of a line, of a "
  "function and of a table is the integral of dN/dE over the momentum between the two Doppler limits over twice gamma beta; two "
  "successive boosts of a line follow the same law twice. Photons (or massive products) keep their number and gain gamma in mean "
  "energy. Nothing is given outside the limits or for velocities below 0 or from 1 on; at rest the spectrum is unchanged.",
  ["inputs", "histories"], "every line, polynomial and table, massive or massless product, velocity, rule, scalar, list, integer and array energies explored",
  "No collected test reaches these functions.",
  ["hazma/spectra/boost.py"], "Doppler limits and quadrature by four rules",
  EXACT)
P("C22", "Radiation spectra follow from the splitting functions or the exact phase-space ratio",
  "The Altarelli-Parisi spectra are the charge squared times alpha over two pi times the fermion or scalar splitting function times "
  "the logarithm less one, while that exceeds zero; the exact spectrum is the ratio of the radiative phase-space integral at fixed "
  "photon energy to the non-radiative one, and zero beyond its endpoint; wrong arguments are refused. A marginal spectrum is the "
  "average over the distribution of centre-of-mass energies.",
  ["inputs", "histories"], "every process of two to four particles, matrix element, photon energy, method, distribution and form of argument explored",
  "No collected test reaches these functions.",
  ["hazma/spectra/altarelli_parisi.py", "hazma/spectra/_fsr.py", "hazma/spectra/convolve.py"], "closed forms; nested quadrature or Rambo integrals",
  EXACT)
P("C24", "A right-handed neutrino decays with the widths, spectra and lines of its mixing",
  "For every mass, mixing angle and flavour, the partial width into each channel is the weak-decay formula with its decay constants, "
  "CKM elements, phase space and mixing tan(2 theta)/2 squared, counted twice where the conjugate is a different state, zero "
  "below threshold; unknown channels are refused. A channel's spectrum is that of its final state shaped by the "
  "channel's squared matrix element, weighted by its branching fraction. Lines sit at their two-body energies under the channel's own name. A "
  "change of mass, angle or flavour governs all later answers; an invalid flavour is refused and changes nothing.",
  ["inputs", "histories"], "every mass below, at and above the thresholds, angle, flavour, channel and product explored, after any sequence of changes",
  "The collected tests check only that closed channels have no width and that spectra evaluate.",
  ["hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_widths.py", "hazma/rh_neutrino/_spectra.py", "hazma/rh_neutrino/_configure.py"],
  "closed forms and one-dimensional integrals; three-body spectra from squared matrix elements",
  EXACT + "The pion form factor is recorded at the specification's nodes; spectra of final states are C18's. Two-pion widths are compared within 0.5% (5% above 1776 MeV).")
P("C23", "Mediator models: widths, cross sections, spectra and lines are those of their couplings and masses",
  "For the scalar (general, Higgs portal, heavy quark) and vector (general, kinetic mixing, quarks only) mediator models: partial widths "
  "add up to the total; every annihilation and self-interaction cross section is that of the couplings, masses and width (zero when closed); "
  "radiation off pairs has the matrix element's shape and soft limit; spectra of a final state are its products' at the two-body energies plus "
  "radiation, doubled for pairs, cascades asking for the mediator's own energy, mass and branching fractions; positron spectra are those of one "
  "product; lines sit at two-body energies; the thermal average weights the summed cross section. Named models fix the general couplings. "
  "Changing any parameter governs all later answers.",
  ["inputs", "histories"], "every model, positive mass, coupling and energy explored, open and closed channels, light and heavy mediators, numbers or arrays of energies, after any sequence of parameter changes",
  "Tests compare stored values at a few parameter points.",
  ["hazma/scalar_mediator/__init__.py", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/scalar_mediator/_scalar_mediator_widths.py",
   "hazma/scalar_mediator/_scalar_mediator_fsr.py", "hazma/scalar_mediator/_scalar_mediator_spectra.py", "hazma/scalar_mediator/_scalar_mediator_positron_spectra.py",
   "hazma/vector_mediator/__init__.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_widths.py",
   "hazma/vector_mediator/_vector_mediator_fsr.py", "hazma/vector_mediator/_vector_mediator_spectra.py", "hazma/vector_mediator/_vector_mediator_positron_spectra.py",
   "rust/src/kernels/scalar_xs.rs", "rust/src/kernels/vector_xs.rs"], "closed forms, compiled kernels",
  EXACT + "Elastic scattering kernels and the three-pion channel are outside. The compiled decay spectra of the mediators are stand-ins that record what they are asked.")
P("C25", "Single-channel models put everything into their one final state",
  "A model annihilating (or decaying) into one final state has its cross section when the energy reaches both twice the dark matter "
  "mass and the final state's mass, else zero (or its width), with branching fraction one; its photon and positron spectra are the final "
  "state's. Photons and electrons in a pair give lines at their two-body energies, in either order, which convolved spectra and "
  "CMB efficiencies count once or, for pairs, twice. Changing the mass, final state or strength governs all later answers.",
  ["inputs", "histories"], "every final state of two or three particles explored, closed and open energies, energies asked as numbers, lists or arrays, after any sequence of changes",
  "No collected test touches this module.",
  ["hazma/single_channel.py", "hazma/theory/__init__.py", "hazma/theory/_theory_cmb.py", "hazma/parameters.py"], "delegation to final-state spectra", EXACT)
P("C27", "The phase readiness oracle only releases phases whose prerequisites are closed out",
  "The phase resolver answers ready only for a phase not yet started whose every declared prerequisite exists and is "
  "complete with recorded learnings; an unreadable declaration blocks. It asks to choose when several are ready and names the "
  "blockers of a phase asked for. A kickoff prompt is given exactly when ready, and points at the phase and its prerequisites' "
  "learnings. A phase that does not exist is an error with a non-zero exit; every other answer exits 0. It never changes the project.",
  ["inputs", "histories"], "every project of up to four phases in the explored shapes, with any statuses, prerequisites and wording, and any sequence of edits",
  "Eleven tests sample single projects; the interplay of statuses, prerequisites and hints is combinatorial.",
  ["scripts/agents/resolve_phase.py"], "frontier of a prerequisite graph read from markdown",
  EXACT + "Only unambiguous spellings of prerequisites are generated.")
P("C28", "The next-task resolver never skips unfinished work",
  "For a flat or phased project, the resolver names the lowest task of the first unfinished phase that is not terminal, in "
  "canonical order (numeric, then letter suffix) whatever the order of rows, and reports it blocked rather than skipping it. "
  "It answers done only when every task is terminal, reports exactly the task asked for by id, and exits non-zero unless ready or done.",
  ["inputs", "histories"], "every table of up to four rows and project of up to three phases in the explored shapes, any row order and statuses, any sequence of edits",
  "No test exercises this script.",
  ["scripts/agents/resolve_task.py"], "ordered scan of markdown task tables", EXACT)

P("C29", "Task worktrees start fresh from the remote trunk under a free name",
  "Setting up a task's worktree fetches, branches from the remote's trunk (the one asked for, else origin's default, else master) "
  "and never from the ambient checkout, under the first free name among the plain one and -2 to -9: no local branch, remote branch "
  "or path has it. Success prints one line of JSON naming the branch, the absolute path and that commit; any failure exits "
  "non-zero, prints no JSON and makes nothing. Other branches, the checkout and the remote are left alone.",
  ["inputs", "histories"], "every sequence of pushes, branches, stray paths, trunk changes, outages and set-ups explored",
  "No test exercises this script.",
  ["scripts/agents/setup_task_worktree.sh"], "fetch, first free suffix, git worktree add, verify HEAD",
  EXACT + "Real git repositories in a scratch directory; two agents, two projects, three task slugs.")
P("C30", "The PR title checker accepts exactly the titles the guidelines allow",
  "A title is accepted when it is `type(scope): subject` (optionally with `!`) of at most 69 characters, the type is an allowed one, "
  "the scope is 1 to 10 lowercase letters, digits and inner hyphens and no type name, and the subject starts with a letter or digit "
  "and does not end in a full stop or space. It exits 0 on acceptance, 1 with one line per broken rule otherwise, and 2 without a "
  "title; the title is the arguments joined, else the first non-blank line of standard input.",
  ["inputs"], "every title assembled from the pieces around each rule's edges, and random edits of valid titles",
  "No test exercises this script.",
  ["scripts/agents/check_pr_title.py"], "one regular expression and a list of rules", EXACT)
P("C31", "The citation checker passes only documents whose cited lines exist",
  "Each `file.py:lines` citation resolves to the tracked file with that path, else the only tracked file ending in it, else the one "
  "the same document pins for that bare name, else an override; otherwise it is ambiguous (a failure) or external (skipped and named). "
  "The checker exits 0 exactly when no citation is ambiguous, every cited line lies in its file and every document exists; "
  "`--changed-vs` adds the markdown documents the branch itself changed. Counts and listings match.",
  ["inputs", "histories"], "every checkout, documents, citations, overrides and branch histories explored",
  "No test exercises this script.",
  ["scripts/agents/check_doc_citations.py"], "regular expression, path-suffix index, line counts",
  EXACT + "Paths and documents are drawn from small pools with clashing basenames.")
P("C32", "The preflight gate is green only when every mandatory gate ran and passed",
  "The preflight script runs every gate whatever the earlier ones said, on the paths and tests given, and prints one row per gate: "
  "missing black or pytest, a failing tool, zero collected tests, a package that does not import, a missing markdown file or an "
  "unbumped, unreadable or unlogged version on a closing run fail; missing optional tools and forbidden tokens only warn; gates that "
  "do not apply are skipped. It exits 1 exactly when a row fails, and 2 on usage errors.",
  ["inputs", "configurations", "histories"], "every combination of tool outcomes, arguments, versions and trunk references explored",
  "No test exercises this script.",
  ["scripts/agents/preflight.sh"], "collected gate rows and a hard-fail flag",
  EXACT + "The tools are stand-ins that record their arguments and exit as the specification's state says.")

# how each property is decided: what is specified, enumerated, sampled, compared; cost of the quick check
DESIGN = {
 "C13": "specification `Instruments`: tables (spec/data/instruments.json), closed-form backgrounds and their derivatives, published measurements, targets, units, angles. Laws: derivatives are slopes of the flux, amplitudes carry the flux, tables answer their rows, a full cone is the sphere. Walks of 30 queries over random parameters, energies and shapes; compared to 1e-11. ~45 s.",
 "C16": "specification `Constrain`: models and composites as state; who answers, in what order, with which bound. Laws (breadth-first): a composite only ever changes by its own operations, a name is answered by the member added last, a larger release gives a weaker bound. Walks of 14 operations. ~100 s.",
 "C17": "specification `Pbh`: table, column and fraction as state. Laws over every column and row pair: rows are met, values lie between neighbours, nothing beyond the ends. Walks of 30 operations, refused ones included; compared to 1e-9. ~20 s.",
 "C01": "specification `Theory`. Breadth-first over every model of up to 2 (thorough: 3) channels, rates and thresholds from small sets, annihilating and decaying, with one query per transition; walks over 3-channel models with rate, threshold and rare-rate changes between queries. Laws: fractions sum to one, lie in [0,1], the total spectrum is a convex mean. Compared to 1e-11. ~15 s.",
 "C02": "specification `Theory` (spectra, functions, totals, lines; array and scalar energies; closed channels return NaN from the model so that any use of them shows). ~20 s.",
 "C03": "specification `Limits`: closed form of an affine spectrum convolved with a constant relative width, numerical convolution for widths that vary with energy, lines with multiplicities; scalar-only, constant and vectorised resolution functions. ~45 s.",
 "C04": "specification `Limits`: flux per bin, one-bin bound, chi-squared bound judged through the chi-squared and normal distributions evaluated in the specification, allowed minus predicted flux of models with their own cross section. Bins may have gaps, energy powers vary, arrays must be left alone. Laws: more bins never weaken, twice the halo halves. ~30 s.",
 "C05": "specification `Limits`: best of all windows for model spectra (constant area and background) and for arbitrary polynomial signals, areas and backgrounds (`window`), explicit and logarithmic grids; Fisher error marginalised over zero to two background parameters (`forecast`). ~45 s.",
 "C06": "specification `Cmb`: affine spectra times the piecewise efficiency curves (committed copies in spec/data) integrated by segments, lines, energy release bound. ~20 s.",
 "C07": "specification `Grid`: images over every ordered pair of parameters, shapes 1-4, linked setters whose effect accumulates; custom grids of models; `Limits` slack images over mass and rate. ~15 s.",
 "C08": "specification `PhaseSpace`: Rambo points judged one by one (conservation, mass shells, the exact Rambo weight of that point, matrix element), sample and batch sizes, seeds, after any setter calls; masses up to 0.05% from threshold. ~25 s.",
 "C09": "specification `PhaseSpace`: two- and three-body integrals of polynomial matrix elements by quadrature in the specification (20-point Gauss-Legendre with end-point substitution), closed massless volumes; Monte Carlo answers recomputed from the sample itself (same seed) and against the true integral within ten standard errors. ~30 s.",
 "C10": "specification `PhaseSpace`: bin edges are the kinematic limits, normalisation, shape against the partial Dalitz integral (quadrature) or the weighted histogram of the recorded sample (Monte Carlo), distributions over arbitrary bins with their expectation values. ~30 s.",
 "C14": "specification `Relic`: five-term Bose and Fermi series with Bessel functions, table interpolation between committed nodes (spec/data/smdof.json), Gondolo-Gelmini average by panels, right-hand side and Jacobian. Laws: derivatives are slopes, equilibrium is an attracting fixed point. ~15 s.",
 "C15": "specification `Relic`: implicit Euler with step-size extrapolation over 1200 steps for the full solution, freeze-out condition bracketed at the reported x and trapezoid for the semi-analytic one. ~30 s.",
 "C18": "specification `Nbody`: the final state is the state; energy and pair-mass histograms come from `PhaseSpace`, and the decay spectra the code's own kernels give at the parents' energies are recorded and averaged by the specification. Laws: histograms are normalised, energy is shared, relabelling changes nothing. ~35 s.",
 "C19": "specification `Boost`: line, polynomial or table as state; closed forms of the window integral for polynomials, of one and two boosts of a line, panel integrals for tables. Laws: number and mean energy conserved, order of boosts irrelevant, support ends at the composed velocity, quadrature rules converge. ~60 s.",
 "C22": "specification `Radiation`: closed splitting forms; radiative ratio by quadrature of polynomial matrix elements in the specification; averages by the trapezoid rule, Simpson or mean. Laws: symmetry, endpoints, scaling with energy, soft limit. ~110 s.",
 "C23": "specification `Mediator`: model, parameters and the couplings they imply as state. Widths closed-form; annihilation through the mediator is width times inflow; two mediators, self-scattering from explicit matrix elements; radiation closed-form. Laws: thresholds, ratios of widths kept, angular integral of the exchange amplitude, massless (Dirac) limit, universal soft limit, energies shared, named models are points of the general ones. Walks of 24 operations; 1e-3 on kernels with rounded constants, 1e-6 to 1e-12 elsewhere, the thermal average to 5%. ~90 s.",
 "C24": "specification `RhNeutrino`: channels of each flavour, widths (closed forms; pion pairs by quadrature over recorded form factors; mixed lepton pairs by a hyperbolic substitution), squared matrix elements as polynomials in two invariants, lines. Laws: integrating each squared matrix element over the Dalitz plot gives the channel's width, scaling with mixing, massless limits, positivity. Spectra are replayed against `hazma.spectra` of the named final state shaped by the specification's polynomial. ~150 s.",
 "C25": "specification `Single`: class, mass, final state and strength as state; thresholds, rates, which of a pair makes a line and where. Laws: the two energies share the total, order does not matter, closed below either threshold. Walks of 24 operations including convolved lines and CMB efficiencies. ~15 s.",
 "C27": "specification `Phases`: frontier, blockers, ambiguity and exit codes over every project of up to three phases (breadth-first) and walks of edits over four; the real script runs on markdown trees written in a scratch directory, which must be unchanged afterwards. ~60 s.",
 "C29": "specification `Worktree`: remote, clone, paths and trunk references as state; laws: fresh and distinct names, refusals only for cause (all histories of up to five operations on small sets). Walks of 24 operations run the real script on real repositories in a scratch directory. ~25 s.",
 "C30": "specification `Title`: the grammar over characters and the rules a title breaks; 17 000 assembled titles (all pairs of edges) and walks of edits; laws: an accepted title is spelt from its parts, each rule has teeth next to it, the guidelines' examples. ~25 s.",
 "C31": "specification `Cite`: resolution, scope of `--changed-vs` over the lives a document can have on two branches and a working tree, failures, counts and listing; laws over all small checkouts (a clean report means every line is inside its file; overrides only settle what was open). Real git checkouts in a scratch directory. ~45 s.",
 "C32": "specification `Preflight`: rows, verdict, which tool is asked what; laws over all triples of edits (no false green, tokens are advisory, closing only adds). Walks of edits and runs in a scratch checkout with stand-in tools. ~35 s.",
 "C28": "specification `Tasks`: canonical order, terminal statuses, phases, requested ids over every small table and walks of edits; the real script runs in a scratch directory. ~60 s.",
}

def main():
    from run import AREA_OF
    checks, na = [], []
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
            if p["id"] in AREA_OF:
                checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']}",
                               "evidence_file": f"evidence/{p['id']}.json", "technique": p["_tech"], "level": p["_level"],
                               "level_note": p["_note"].strip()})
            else:
                na.append({"property": p["id"], "reason": p["_note"] or "no check built yet"})
    for p in PROPS:
        p["_design"] = DESIGN.get(p["id"], "")
    import design_parts
    design_parts.fill(PROPS, AREA_OF)
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "TLA+ with TLC; see DESIGN.md. HAZMA_REPO (development only) points the checks at another tree."}
    (VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


if __name__ == "__main__":
    main()
