"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": None}})

CM, XS, AI = "ASAPy/CovManipulation.py", "ASAPy/XsecSampler.py", "ASAPy/AceIO.py"
EC, ST, NJ = "ASAPy/EndfToCov.py", "ASAPy/AsapyCovStorage.py", "ASAPy/njoy.py"

p("C01", "Correlated samples keep the requested marginal of every variable",
  "For any means, standard deviations, correlation matrix and sample count, correlated sampling returns one row per sample and one column per variable, in the input order, and every sampled column is a Latin hypercube of the requested distribution: exactly one value in each of the n equal-probability strata of the normal, lognormal or uniform distribution that has that variable's mean and standard deviation. Variables that cannot be sampled (standard deviation at or below 1e-30, zero mean in lognormal mode, zero on the correlation diagonal) equal their mean in every sample and do not disturb the others. Uncorrelated unit-interval and normal Latin hypercube sampling obey the same stratification, and an unknown distribution name is rejected.",
  ["inputs", "configurations"], "all mean/std/correlation inputs, n >= 2, all distributions, all subsets of unsampled variables, all random streams",
  "Three tests sample one fixed 2- or 3-variable case and compare mean, std and correlation loosely; no test has fixed variables, uniform sampling or checks the stratification.",
  [CM], [("Iman-Conover reordering of LHS draws", CM + ": sample_with_corr"), ("exclusion of unsampled variables", CM + ": sample_with_corr"), ("LHS", CM + ": lhs_uniform_sample, lhs_normal_sample")],
  ["return values of sample_with_corr, lhs_uniform_sample, lhs_normal_sample"])

p("C02", "Correlated samples carry the requested correlation between variables",
  "For any positive-definite correlation matrix and a sample count well above the number of variables, the samples' dependence (correlation of their normal scores) reproduces the requested matrix entry by entry; in lognormal mode the matrix reproduced is the published normal-to-lognormal transform of the requested one. For an indefinite matrix the correlation reproduced is that of its modified-Cholesky repair, attached to the same variables as in the input. Multivariate-normal sampling likewise has the requested mean vector and covariance matrix.",
  ["inputs", "configurations"], "all symmetric unit-diagonal matrices (definite or not), normal/lognormal/uniform, any random stream, with and without unsampled variables",
  "The tests use one fixed positive-definite matrix; the fallback for indefinite matrices and the placement of correlations after unsampled variables are dropped are never run.",
  [CM], [("Cholesky / modified Cholesky factor applied to independent scores", CM + ": sample_with_corr"), ("lognormal correlation transform", CM + ": sample_with_corr"), ("normal_sample_corr", CM)],
  ["return value of sample_with_corr, normal_sample_corr"])

p("C03", "Covariance and correlation conversions are exact inverses",
  "Converting a correlation matrix and standard deviations to a covariance matrix gives cov[i,j] = corr[i,j]*std[i]*std[j] with std**2 on the diagonal, converting a covariance matrix to a correlation matrix gives cov[i,j]/sqrt(cov[i,i]*cov[j,j]) with ones on the diagonal, both results are symmetric, and the two conversions undo each other. The covariance a cross-section sampler reports for stored data is this conversion of its stored deviations and correlations, with the group labels kept.",
  ["inputs"], "all symmetric matrices of any size and any positive deviations over many decades; inputs are not modified",
  "One test converts a single fixed 3x3 matrix back and forth.",
  [CM, XS], [("correlation_to_cov, cov_to_correlation", CM), ("calc_cov", XS)], ["return values"])

p("C04", "Modified Cholesky factors any symmetric matrix as documented",
  "For every symmetric matrix A the modified Cholesky decomposition returns a permutation matrix P, a lower-triangular L with positive diagonal and a shift vector e >= 0 such that (P L)(P L)^T equals A plus a diagonal matrix holding e in permuted order. When A is sufficiently positive definite the shift is zero to rounding. As in the cited algorithm (Gill, Murray and Wright) the pivot of each step is the largest remaining diagonal entry, and it is raised only as far as the bound on the entries of L, sqrt(max(largest diagonal entry, largest off-diagonal entry / sqrt(n^2 - 1))), requires. A is not modified.",
  ["inputs"], "all real symmetric matrices: positive definite, semidefinite, indefinite, zero, repeated diagonals, 1x1 to n x n, over many orders of magnitude",
  "Two tests check one positive-definite and one indefinite fixed matrix.",
  [CM], [("gmw_cholesky", CM)], ["return value of gmw_cholesky"])

p("C05", "Loading correlations for sampling repairs them without distorting good data",
  "A sampler loaded from a covariance store exposes a symmetric correlation matrix, in the stored group order, whose block over groups that have data is positive definite: eigenvalues at or below 1e-8 are raised to a tiny positive value with the eigenvectors and all other eigenvalues kept, so an already positive-definite matrix comes back unchanged. Groups whose diagonal is zero (no data) keep their stored rows and columns, and when repair is switched off the matrix is only scaled to unit diagonal.",
  ["inputs", "configurations"], "all stored correlation matrices: definite, indefinite, singular, BOXER-scaled, with any pattern of empty groups",
  "The tests that touch this need a covariance store that is not in the repository, so they fail here; none covers empty groups or indefinite matrices.",
  [XS], [("eigenvalue replacement", XS + ": XsecSampler.__init__ / _fix_non_pos_semi_def_matrix_eigen")], ["XsecSampler(...).corr_df"])

p("C06", "The covariance store returns exactly what was stored, per reaction pair",
  "Standard-deviation and correlation tables written to a store under a (material, reaction, material, reaction) key are read back with the same values, groups and columns; writing a key again replaces only that key, and keys never affect each other. Tables that are not square, have unequal row and column group labels, or whose energies are not strictly decreasing with group number are refused and leave the store unchanged. On load, correlations are scaled so that the largest diagonal is one (optionally filling the diagonal first) and low/high energy columns stored swapped are swapped back.",
  ["histories", "inputs"], "all sequences of writes, overwrites, refused writes, reopenings and reads over several keys",
  "Two tests build empty data frames; no test writes to a store or reads one back.",
  [ST, XS], [("check_correlation_df / check_stddev_df before put", ST), ("load_zaid_mt", XS)], ["pandas HDFStore contents; XsecSampler.load_zaid_mt"])

p("C07", "Sampler output: relative is sample over mean, negatives handled as asked",
  "For every stored covariance and every sampling option, the sampler returns groups 1..G as rows and consecutively numbered samples as columns; the relative form equals the full form divided by the group mean (for groups with zero mean the relative value is the finite sampled value itself). Removing negatives drops exactly the samples that contain a negative value and keeps the others unchanged and in order, setting negatives to zero changes only negative entries, asking for an error raises one exactly when samples were lost, and unknown sampling types are rejected; with oversampling the larger number of samples is made and as many of the remaining ones as asked for are kept; the uncorrelated types ignore off-diagonal correlations.",
  ["inputs", "configurations"], "all stores, sampling types (normal, lognormal, uniform, uncorrelated, loguncorrelated) and option combinations, including large relative deviations and zero-mean groups",
  "The only tests need covariance data that is not in the repository.",
  [XS], [("sample, _sample_check, sample_xsec", XS)], ["XsecSampler.sample, sample_xsec"])

p("C08", "Group values are mapped onto pointwise energies by the group that contains them",
  "Mapping a multigroup quantity onto an energy grid gives each energy the value of the group whose interval (low, high] contains it (the lowest bound itself belongs to the lowest group), in grid order and one value per energy. Energies below the minimum or above the maximum get the outside value, a maximum above the top group extends the top group, a missing minimum defaults to a tenth of the lowest upper bound, and a minimum equal to the lowest upper bound or a maximum below the top bound is refused.",
  ["inputs"], "all group structures, energy grids (empty, unsorted, repeated, exactly on boundaries), bounds and fill values",
  "One test maps one fixed structure with a handful of energies.",
  [XS], [("map_groups_to_continuous", XS)], ["return value; inputs unmodified"])

p("C09", "The BOXER decompressor reproduces the compressed data exactly",
  "For every valid BOXER tape (any mix of sections, values and repeat counts in any of the allowed formats, symmetric or full matrices, several pages), the decompressor writes for each request in order the group bounds, cross sections, deviations or matrix of the requested material and reaction pair, complete, in high-to-low energy order and to the printed precision. A request that is not on the tape produces the error message instead of data, and a table-of-contents request lists every section in tape order.",
  ["inputs"], "all BOXER encodings (all value formats 7-14 and control formats 1-6) of all vectors and matrices up to the program's limits, with unrelated sections on the same tape",
  "No test runs the decompressor; the only fixture is one of its outputs.",
  ["boxer2mat/boxer2mat.f"], [("decompression loop and section search", "boxer2mat/boxer2mat.f: PROGRAM BOXR"), ("format table", "boxer2mat/boxer2mat.f: SETFOR")], ["unit 21 of the compiled program"])

p("C10", "Decompressed covariance files become correct store entries",
  "Reading a decompressed BOXER file returns the group bounds, cross sections, absolute deviations (relative deviation times cross section) and the full covariance matrix exactly as printed, for any number of groups and any sign or magnitude the format can print; files carrying a BOXER error message are reported and skipped without touching the store. Converting it to the store writes, under that nuclide and reaction, decreasing energy bounds, cross sections, absolute and relative deviations and the correlation matrix with no missing values and no entry outside [-1, 1]; groups with zero cross section get cross section 0 and deviations 1e-7. Other reactions already in the store stay unchanged, and converting again overwrites.",
  ["inputs", "histories"], "all decompressed files (1..hundreds of groups, negative values, zero cross sections, over-unity correlations), any sequence of conversions into one store",
  "The tests parse one fixed file; no test converts one to a store.",
  [EC, CM, ST], [("read_boxer_out_matrix", EC), ("process_cov_to_h5", EC)], ["read_boxer_out_matrix(...).get_block_data(); HDF5 store"])

p("C11", "Generated NJOY decks are self-consistent for every option combination",
  "For every evaluation, temperature list, group structure and option set, the generated NJOY input is a deck in which every module reads only tapes that are inputs or were written by an earlier module and hold the kind of data it needs (with broadening, heating and probability tables where these were asked for), no tape is written twice, the material number, temperatures, weighting, reactions and group bounds (count and values, low to high) are the requested ones, and the deck ends with stop. Every declared output tape is written by the module that produces that kind of file, and there is one covariance file per temperature plus one each for nu-bar and chi when requested; the built-in group structures are strictly increasing with the number of groups their name says.",
  ["configurations", "inputs"], "all combinations of temperatures, modules on/off, reactions, nu/chi, weight functions and user spectra, any ENDF evaluation header",
  "The only deck tests need NJOY and hard-coded paths and fail here; they cover one configuration each.",
  [NJ], [("make_njoy_run templates and tape numbering", NJ)], ["return value of make_njoy_run and the written deck"])

p("C12", "The ENDF-to-covariance chain delivers each reaction's own data",
  "Running the chain (evaluation, NJOY, BOXER decompression, store) leaves, for every temperature and requested reaction plus nu-bar and chi when asked, a matrix file holding the data NJOY produced for exactly that tape and reaction, and the command line ends with a store whose entries equal that data for the requested (or all available) reactions. Commands are fed to each program completely and its output collected; a program exiting with an error aborts the chain with that error, and a requested reaction that the evaluation lacks is refused.",
  ["configurations", "fault_sequences"], "all reaction lists, temperatures, fissionable or not, with or without temporary folder, and failure of either program at any step; NJOY itself is replaced by a stand-in that writes BOXER tapes",
  "The chain tests need an NJOY executable at a hard-coded path and fail here.",
  [EC, NJ], [("_run_cover_chain, run_program, run_cover_chain, command line", EC)], ["files in the output folder, exit status, HDF5 store"])

p("C13", "ACE tables are read back exactly, in any container",
  "For every well-formed ACE library (ASCII or binary, old or new header, any number of tables, any table lengths, values with or without exponent letter) reading gives for every table its name, weight ratio, temperature, isotope pairs and the NXS, JXS and XSS arrays exactly as written, one-based. Selecting tables by name returns exactly those, the default table is the first and an unknown name is an error; converting ASCII to binary and reading that gives the same tables.",
  ["inputs"], "all libraries of 1..n tables with XSS lengths around the 4-per-line and 512-per-record boundaries, exponents beyond 1e-99, and all name selections",
  "No test reads an ACE library: no ACE file is in the repository.",
  ["ASAPy/data/ace.py"], [("Library ASCII/binary readers, get_table, ascii_to_binary", "ASAPy/data/ace.py")], ["Library(...).tables, get_table"])

p("C14", "Neutron data read from ACE equals the physical content of the file",
  "From every ACE neutron table the reader returns each reaction with its energies in eV (starting at its threshold on the common grid), cross sections, Q value, frame and neutron yield, the total, absorption and elastic cross sections, prompt/total/delayed nu-bar and decay constants, and fission spectra, angular and energy distributions as tabulated. Photon production (yield or cross section, angle, spectrum) and unresolved-resonance tables are attached likewise. Gas-production and damage cross sections are left out, level sums are supplied where only levels are given, and negative cross sections are read as zero.",
  ["inputs"], "all tables made of any set of reactions, thresholds, nu representations (polynomial or tabular, prompt, total or both, delayed groups) and supported distribution laws",
  "No ACE file is in the repository, so every ACE test fails here.",
  ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/function.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/uncorrelated.py", "ASAPy/data/angle_energy.py"],
  [("IncidentNeutron.from_ace, Reaction.from_ace", "ASAPy/data")], ["IncidentNeutron attributes"])

p("C15", "Editing ACE data changes exactly the edited quantity and remembers the original",
  "After any sequence of edits, a reaction's cross section, nu-bar or fission spectrum reads back as the last value set, quantities not edited (and not sums of edited ones) read as in the file, the unadjusted view always returns the file's values, and the list of adjusted reactions is exactly the edited and re-summed ones. Values of the wrong length are refused and change nothing, unknown reactions are an error, reading at given energies interpolates, and arrays handed out or taken in are independent of the stored data; a requested temperature must be the one in the file, with or without the K suffix.",
  ["histories", "inputs"], "all sequences of reads, sets, refused sets and sum-rule applications over all reactions of generated ACE files",
  "All AceEditor tests need an ACE file that is not in the repository and fail here.",
  [AI], [("AceEditor get/set, original_table, adjusted_mts", AI)], ["AceEditor public methods"])

p("C16", "Summed cross sections stay consistent with their parts",
  "After edits and sum-rule application, every summed reaction present in the file (1, 3, 4, 16, 18, 27, 101, 103-107) that contains an edited reaction has changed by exactly the sum of the changes of its parts at each energy (evaluated on the sum's own grid, zero outside a part's range), sums nested in other sums propagate upward once, and no other reaction changes. Applying the rules again, or in steps after each edit, gives the same result as applying them once at the end.",
  ["histories", "inputs"], "all sets of present reactions, thresholds and edit sequences, including level reactions under 4, 16 and 103-107 and partial fission under 18",
  "The sum-rule tests need ACE files that are not in the repository and fail here.",
  [AI], [("apply_sum_rules", AI)], ["AceEditor.get_sigma after apply_sum_rules"])

p("C17", "Rewriting an ACE file changes only the replaced array",
  "Loading and writing an ACE file without replacements yields a file with the identical header lines and identical values in four 20-character columns; after replacing an array, the new values appear (to the 12 printed digits) at the position of the first occurrence (or of the requested number of occurrences), and every other value is untouched. An array that is not in the file or has a different length is refused and leaves the pending content unchanged; the result reads back as an ACE table of the same size.",
  ["histories", "inputs"], "all ACE files (old and new headers, any length modulo 4) and replacement sequences, including arrays occurring several times, single values, negatives and zeros",
  "The writer tests need ACE files that are not in the repository and fail here.",
  [AI], [("WriteAce find and replace", AI)], ["the written file"])

p("C18", "Each sampled ACE file is the base file times that sample's group factors",
  "Writing sampled data produces one ACE file per sample in which every sampled reaction equals the base pointwise value times the sample's factor of the energy's group (unchanged outside the covariance range and where the base is zero), nu-bar and fission spectra are perturbed the same way, sums are updated, and every other number of the file equals the base file. The base file is not modified, one CSV per reaction lists bounds, means, deviations and the factors used, and the command line samples exactly the requested (or all stored) reactions that the ACE file has.",
  ["inputs", "configurations"], "all ACE files, group structures and sample tables, any subset of reactions including nu-bar and chi, samples lost to negativity, zero cross sections and thresholds",
  "No test writes sampled files; the ACE and covariance inputs are not in the repository.",
  [XS, AI], [("write_sampled_data", XS), ("command line", XS)], ["written ACE and CSV files"])

p("C19", "Perturbed fission spectra remain normalised distributions",
  "Setting a fission spectrum gives, for every incident energy, a cumulative distribution that starts where it did, ends at exactly one, and moves from the tabulated one by the bin-width-weighted change of the density, with density and cumulative distribution divided by the same normalisation; setting the tabulated density back changes nothing to rounding. A different number of incident energies, or of outgoing energies in any table, is refused and changes nothing.",
  ["inputs", "histories"], "all fission spectra (any numbers of incident and outgoing energies) and all positive perturbations",
  "The chi tests need ACE files that are not in the repository and fail here.",
  [AI], [("set_chi_distro, get_chi_distro", AI)], ["AceEditor.get_chi_distro"])

p("C20", "Tabulated functions interpolate, integrate and combine as ENDF defines",
  "A tabulated function returns its tabulated value at every tabulated point, interpolates inside each region by that region's law (histogram, lin-lin, lin-log, log-lin, log-log), is zero outside its range and treats scalars and arrays alike; its cumulative integral is that of the interpolated function. Sums, polynomials, combinations and piecewise functions evaluate to the composition of their parts at every point, and summing tabulated functions is exact at every union grid point.",
  ["inputs"], "all tables with any breakpoints and interpolation codes (including repeated abscissae and flat segments) and all evaluation points",
  "No test exercises these functions.",
  ["ASAPy/data/function.py"], [("Tabulated1D.__call__, integral, sum_functions, Combination, Sum, Regions1D, Polynomial", "ASAPy/data/function.py")], ["call and integral results"])

p("C21", "ENDF text is parsed to the values it encodes",
  "Every number written in an ENDF-6 field form (with or without exponent letter, padded with blanks on either side, integers) parses to its value, and every CONT, HEAD, LIST, TAB1, TAB2, TEXT and INTG record of any length parses to the header and arrays written and leaves the reader at the next record. Reading an evaluation gives its material, target, library and projectile information, the directory of sections and each section's text intact, from a file name or an open file, and multi-material files yield every material.",
  ["inputs"], "all ENDF-6 records and evaluations over all list lengths (around the six-per-line boundary), field formats and section sets; both bundled ENDF readers",
  "The tests only open one evaluation indirectly.",
  ["ASAPy/endf.py", "ASAPy/data/endf.py"], [("float_endf, get_*_record, Evaluation, get_evaluations", "ASAPy/endf.py, ASAPy/data/endf.py")], ["parsed values"])

p("C22", "Nuclide identifiers convert consistently",
  "For every element, mass number and isomeric state, the identifier read from a ZAID in either metastable convention, its GND name and the (Z, A, m) parsed back from that name agree, including the Am-242 exceptions, and malformed names are refused. The bundled reaction names, sum rules and isotopic abundances are consistent tables (symbols and numbers are inverse maps, every element's abundances add to one).",
  ["inputs"], "all Z, A, m and both ZAID conventions",
  "No test covers identifier conversion.",
  ["ASAPy/data/ace.py", "ASAPy/data/data.py"], [("get_metadata, gnd_name, zam", "ASAPy/data")], ["return values"])

p("C23", "Nuclear data survive an HDF5 round trip unchanged",
  "Exporting neutron data read from any ACE file (all temperatures, reactions, products, distributions and probability tables) to HDF5 and reading it back gives the same data: identifiers, temperatures, energy grids, cross sections, thresholds, Q values, yields and distributions.",
  ["inputs"], "all supported reactions, functions and distribution types, generated directly and through ACE",
  "No test uses the HDF5 form.",
  ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/product.py", "ASAPy/data/function.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/kalbach_mann.py", "ASAPy/data/correlated.py", "ASAPy/data/nbody.py", "ASAPy/data/urr.py"],
  [("export_to_hdf5/to_hdf5 and from_hdf5", "ASAPy/data")], ["objects read back"])

p("C24", "Grid linearisation and thinning stay within tolerance",
  "Linearising a smooth function over a starting grid returns an increasing grid that contains the starting points and function values at each of its points, such that linear interpolation at the midpoint of every interval agrees with the function within the tolerance. Thinning a tabulated curve keeps the end points, returns a subset of the points and reproduces every removed point by linear interpolation within the tolerance.",
  ["inputs"], "all starting grids, tolerances and (smooth for linearising, arbitrary for thinning) curves",
  "No test covers these functions.",
  ["ASAPy/data/grid.py"], [("linearize, thin", "ASAPy/data/grid.py")], ["return values"])

p("C25", "Distributed sampling writes every sample exactly once",
  "For any number of processes, a sampling run from the command line writes exactly the files a run would be expected to write for its number of samples, each complete and each holding the factors that the shared CSV lists for that sample number; no sample is skipped, written from another process's draw or left truncated.",
  ["schedules", "configurations"], "all process counts (1 to more than the number of samples) and sample counts, any interleaving the scheduler produces",
  "No test runs the sampler under MPI.",
  [XS], [("sample_number % size == rank partition; broadcast of the draws from rank 0", XS)], ["files written by mpiexec runs"])

p("C26", "ACE and PENDF files generated through NJOY are collected completely",
  "Generating ACE files from an evaluation runs NJOY once with a valid deck for the requested temperatures and options and leaves exactly the requested files: the ACE and xsdir files are NJOY's outputs of all temperatures in the requested order, with 400 added to the mass number of a metastable target, the PENDF file is the reconstructed tape, and no per-temperature file stays behind. Thermal-scattering generation likewise takes the temperatures (unless given), principal atoms, energy limit and elastic type from the thermal evaluation. If NJOY ends with an error this is raised together with its output, and existing ACE and xsdir files keep their contents.",
  ["configurations", "fault_sequences"], "all evaluations, temperature lists, module switches, file names, and failure of NJOY by status or signal; NJOY is replaced by a stand-in",
  "No test can run NJOY here; the existing ones use a hard-coded path.",
  ["ASAPy/data/njoy.py", NJ], [("run, make_ace, make_pendf, make_ace_thermal", "ASAPy/data/njoy.py"), ("make_njoy_run(run=True)", NJ)], ["files in the working folder, NJOY's input"])

ND = "ASAPy/data/"
p("C27", "Neutron data read from an ENDF evaluation say what the evaluation says",
  "Neutron data built from any ENDF-6 incident-neutron evaluation hold, for every reaction in File 3, its cross section and Q value as tabulated; the emitted neutrons and other products with the yields (prompt, delayed and total nu-bar; delayed groups of any number with their decay rates, group probabilities), and the angle and energy distributions of Files 4, 5 and 6 in every law; activation products (Files 8-10) and photon production (Files 12, 13) with their yields and energies. Nothing of one reaction appears under another, and the result does not depend on whether a file name or an evaluation is given, nor on other materials in the file.",
  ["inputs"], "all combinations of reactions, laws (MF5 LF 1, 5, 7, 9, 11, 12; MF6 laws 0-4, 6, 7; MF4 isotropic, Legendre, tabulated, mixed), interpolation regions, nu-bar representations, delayed groups and photon productions",
  "No test reads an evaluation into neutron data; none is in the repository.",
  [ND + "neutron.py", ND + "reaction.py", ND + "product.py", ND + "angle_distribution.py", ND + "energy_distribution.py", ND + "correlated.py", ND + "kalbach_mann.py", ND + "laboratory.py", ND + "nbody.py", ND + "uncorrelated.py"],
  [("IncidentNeutron.from_endf, Reaction.from_endf", ND + "neutron.py, reaction.py"), ("from_endf of each distribution", "ASAPy/data")], ["the IncidentNeutron object"])

p("C28", "Resonance parameters are read as the evaluation gives them",
  "For every File 2 (any isotopes, energy ranges and formalisms: single- and multi-level Breit-Wigner, Reich-Moore, R-matrix limited, unresolved with energy-independent, fission-width-dependent or fully energy-dependent parameters, scattering radius only), the ranges come back in order with their energy limits, spins, scattering and channel radii (constant or tabulated, by the NRO/NAPS rules), Q values, particle pairs, channels and one row per resonance with the tabulated widths. The resolved and unresolved ranges are found by name, and cross sections in File 3 that are only a background are combined with the resonances.",
  ["inputs"], "all File 2 layouts with 1-2 isotopes, 1-3 ranges, all formalisms, several l-values, spin groups of up to 12 channels",
  "No test reads resonance parameters; no evaluation is in the repository.",
  [ND + "resonance.py", ND + "function.py", ND + "neutron.py"], [("Resonances.from_endf and the from_endf of each formalism", ND + "resonance.py"), ("ResonancesWithBackground", ND + "function.py")], ["Resonances.ranges and their attributes"])

p("C29", "Resonance-parameter covariances are read, restricted and sampled faithfully",
  "For every File 32 in the compatible, general or compact form (several blocks, l-values, isotopes and ranges; resonances in any order), every pair of resonance parameters has the covariance the file states, each resonance has the parameters of File 2, and restricting to the resonances whose parameter lies within bounds keeps exactly those resonances with their mutual covariances, also when restricting again. Sampled parameters have the evaluated parameters as mean and that covariance, parameters without covariance keep their value, spins and l-values stay, and Breit-Wigner total widths are the sum of the partial widths. Neither operation changes the range it is applied to.",
  ["inputs", "histories"], "all File 32 layouts for LRF 1-3 and LCOMP 0-2 with 3-5 parameters per resonance, all bounds, all random streams",
  "No test reads File 32.",
  [ND + "resonance_covariance.py", ND + "endf.py"], [("from_endf, subset, sample", ND + "resonance_covariance.py"), ("get_intg_record", ND + "endf.py")], ["ResonanceCovarianceRange.parameters, covariance, subset(), sample()"])

p("C30", "Thermal scattering data equal what their libraries hold",
  "Thermal scattering data read from any thermal ACE table have its name, temperatures, applicable nuclides, atomic weight ratio and energy limit, the inelastic cross section and outgoing energies and cosines (discrete, skewed or continuous) of the table and its coherent or incoherent elastic scattering; adding further temperatures keeps those already there. The coherent elastic cross section at an energy is the sum of the structure factors of all Bragg edges at or below it, divided by the energy. Library names resolve to the same material whatever their case or suffix, HDF5 export and import preserve everything, and data generated through NJOY hold every requested temperature.",
  ["inputs", "histories"], "all thermal tables (discrete, skewed, continuous; no, coherent, incoherent elastic; any sizes), orders of adding temperatures, names",
  "No test reads thermal data.",
  [ND + "thermal.py"], [("ThermalScattering.from_ace, add_temperature_from_ace, from_njoy, to/from_hdf5; CoherentElastic; get_thermal_name", ND + "thermal.py")], ["the ThermalScattering object and its functions"])

p("C31", "Fission energy release follows from the evaluation",
  "For every MT458 section (Sher-Beck constants, polynomials of any order or tables, with or without tabulated components), each of the energy releases (fragments, prompt and delayed neutrons, photons, betas, neutrinos, total, recoverable, and the Q-values derived from them) at every incident energy is the one the evaluation defines, using the evaluation's own nu-bar where the format asks for it; total minus neutrinos is the recoverable energy, and HDF5 export and import preserve all of them.",
  ["inputs"], "all MT458 representations, uncertainties, nu-bar data and incident energies",
  "No test reads fission energy release.",
  [ND + "fission_energy.py"], [("FissionEnergyRelease.from_endf, to_hdf5, from_hdf5", ND + "fission_energy.py")], ["energy release functions"])

p("C32", "Decay data and fission product yields equal what the evaluation states",
  "For every decay evaluation the nuclide, half-life, spin and parity, average energies, decay modes (with the daughter that each sequence of decays gives, Q value, branching ratio), the spectra (discrete lines with all their conversion and positron data, continuous spectra and covariances) and their uncertainties are those of MT457, also when read repeatedly; stable nuclides have no modes and an infinite half-life. Independent and cumulative fission product yields at every incident energy are those of MT454 and MT459, whichever are present.",
  ["inputs"], "all decay sequences, half-life forms, spectra forms (LCON 0-2, covariances) and yield tables",
  "No test reads decay data.",
  [ND + "decay.py"], [("Decay, DecayMode, FissionProductYields", ND + "decay.py")], ["attributes of the objects"])

p("C33", "Photon interaction and atomic relaxation data equal what their libraries hold",
  "Photon data read from ENDF photo-atomic and atomic relaxation evaluations or from a photo-atomic ACE table have the cross sections, form factors, anomalous factors, subshell binding energies, occupancies and transitions of the file, together with the bundled Compton profiles, stopping powers and bremsstrahlung tables of that element and of no other, and exporting to HDF5 writes the same numbers.",
  ["inputs"], "all elements, subshell sets, transitions and table sizes, ENDF and ACE",
  "No test reads photon data.",
  [ND + "photon.py"], [("IncidentPhoton.from_endf, from_ace, export_to_hdf5; AtomicRelaxation; PhotonReaction", ND + "photon.py")], ["attributes and exported file"])

p("C34", "Neutron data generated through NJOY combine all of NJOY's outputs with the evaluation",
  "Generating neutron data from an evaluation through NJOY gives the nuclide of the evaluation (isomers included, also for the identifiers with exceptions), one set of cross sections for every requested temperature, the 0 K elastic cross section of the pointwise tape, and the evaluation's fission energy release; all this survives HDF5 export. Adding a 0 K elastic cross section from an evaluation without resolved resonances gives the tabulated one.",
  ["inputs", "configurations"], "all nuclides and isomers, temperature lists and orders, evaluations with and without fission, resonances, tabulated energy release; NJOY is replaced by a stand-in",
  "No test can run NJOY here.",
  [ND + "neutron.py"], [("IncidentNeutron.from_njoy, add_temperature_from_ace, add_elastic_0K_from_endf, export_to_hdf5", ND + "neutron.py")], ["the IncidentNeutron object"])

p("C35", "Cross sections reconstructed from resonance parameters follow the formalism",
  "For every resolved range with single-level or multi-level Breit-Wigner or Reich-Moore parameters, the elastic, capture and fission cross sections at any energy are those of the ENDF-6 formulas for its resonances, spins, l-values, radii (constant or energy dependent) and competitive widths, whether asked for one energy or many, and a copy with other parameters and its original do not disturb each other. Combined with File 3 every energy belongs to exactly one range, and the 0 K elastic cross section is that sum on a grid spanning the resolved ranges.",
  ["inputs", "histories"], "1-2 ranges, l up to 4, target spins 0 to 7/2, bound levels, all NRO/NAPS rules, energies from 1e-5 eV to 10 MeV including range boundaries and resonance peaks",
  "No test reconstructs resonances; the extension module is not built by setup.py.",
  [ND + "reconstruct.pyx", ND + "resonance.py", ND + "function.py", ND + "neutron.py"], [("reconstruct_slbw, reconstruct_mlbw, reconstruct_rm, penetration_shift, phaseshift, wave_number", ND + "reconstruct.pyx"), ("ResonanceRange.reconstruct", ND + "resonance.py"), ("ResonancesWithBackground", ND + "function.py")], ["cross sections returned"])

p("C36", "Windowed multipole cross sections follow the format at every energy and temperature",
  "For any windowed multipole data (any number of windows, poles and fit terms, with or without fission), the scattering, absorption and fission cross sections at every energy in the library's range (both ends included) and temperature are the sum of the window's fit (free-gas broadened where the window asks for it) and of its poles (Faddeeva form, or the 0 K form), and zero outside, independent of whether one energy or many are asked for and in which order. Writing to HDF5, several nuclides in one file, and reading back preserves everything.",
  ["inputs"], "1-6 windows, 0-8 poles of either half plane, fits of 3-7 terms, 0-2500 K, energies at window edges, poles and outside",
  "No test reads multipole data.",
  [ND + "multipole.py"], [("WindowedMultipole.__call__, from_hdf5, export_to_hdf5; _faddeeva, _broaden_wmp_polynomials", ND + "multipole.py")], ["cross sections; objects read back"])

p("C37", "Data library indexes lead to the registered files",
  "For any set of registered data files in any folders, the exported cross sections file, read back from any working folder (by name or by the environment variable), lists the same files in order with their types and materials, each path leading to the registered file; a material is found in the first file that has it, and nowhere if none has. The XML elements of probability distributions carry all their parameters, tables derived from them are normalised, and Legendre densities are the expansion of their coefficients.",
  ["inputs", "configurations"], "0-5 files in nested and sibling folders, absolute and relative paths, XML in any of the folders or another",
  "No test uses the data library.",
  [ND + "library.py", ND + "univariate.py"], [("register_file, export_to_xml, from_xml, get_by_material", ND + "library.py"), ("to_xml_element, Uniform.to_tabular, Legendre", ND + "univariate.py")], ["DataLibrary.libraries, XML"])

p("C38", "Atomic masses, weights and water densities are the reference values",
  "The mass of every nuclide of the bundled mass evaluation (isomers and any letter case included) is its tabulated atomic mass, consistent with its mass excess; the weight of every element is the abundance-weighted sum of its isotopes, and elements without natural isotopes are refused. The density of liquid water at every temperature and pressure is that of IAPWS-IF97 region 1, without warning inside the region and with one outside it.",
  ["inputs"], "all nuclides and elements of the tables; 250-690 K and up to 110 MPa, also close to saturation",
  "No test covers these functions.",
  [ND + "data.py"], [("atomic_mass, atomic_weight, water_density", ND + "data.py")], ["return values, warnings"])

p("C39", "Every distribution, function, product and reaction can be written to HDF5 and read back",
  "Any angle or energy distribution (every law and combination of laws), energy- and angle-energy correlated distribution, function (tabulated with any interpolation regions, polynomial, sum, piecewise), product, reaction, probability table and coherent elastic function that is made with its constructor can be written to an HDF5 group and read back as an object of the same kind with the same values, whatever number of energies, points and regions it has.",
  ["inputs"], "all classes with to_hdf5/from_hdf5, 1-4 elements at each level, nested distributions",
  "Tests write no HDF5; files in practice use few of the laws.",
  [ND + "energy_distribution.py", ND + "angle_distribution.py", ND + "correlated.py", ND + "kalbach_mann.py", ND + "product.py", ND + "reaction.py", ND + "function.py", ND + "urr.py", ND + "thermal.py"],
  [("to_hdf5, from_hdf5 of the distribution classes", ND + "energy_distribution.py"), ("Product.to_hdf5, from_hdf5", ND + "product.py"), ("Reaction.to_hdf5, from_hdf5", ND + "reaction.py"), ("Function1D.from_hdf5", ND + "function.py")], ["objects read back"])

p("C40", "Data objects compare by value",
  "Two nuclear data objects made independently from the same values are equal (==, and not !=), also after copying and for whole neutron data tables read twice; an object that differs in any one value, or in kind, is not equal, whatever attribute the value is held in (arrays, lists, dictionaries, nested objects). Comparing never raises and changes neither object.",
  ["inputs"], "all data classes, one changed value at a random position",
  "Tests compare hand-picked attributes.",
  [ND + "mixin.py"], [("EqualityMixin.__eq__, __ne__", ND + "mixin.py")], ["== and !="])

p("C41", "Plots of sampled cross sections show the data and the samples",
  "For any covariance, base ACE file and samples, the figures that the sampler writes (file names from nuclide and reaction) show, group by group, the evaluated variances and the sample variances; the base cross section, neutron multiplicity or fission spectrum and the first (at most ten) perturbed ones; the evaluated and sampled correlation (or its deviation) at the groups' energies with colours that span both; and the relative deviations of every group. --plot-only writes those figures and nothing else, --make_plots writes them beside the sampled files.",
  ["inputs", "configurations"], "2-6 groups, 2-14 samples, groups without data, zero deviations, lowest bound zero, linear/log axes",
  "No test plots.",
  ["ASAPy/XsecSampler.py"], [("plot_sampled_info, plot_xsec", "ASAPy/XsecSampler.py"), ("command line", "ASAPy/XsecSampler.py")], ["lines and meshes of the saved figures, files written"])

p("C42", "Attributes hold what is assigned and refuse what they cannot represent",
  "Every settable attribute of the data objects (distributions, functions, products, reactions, probability tables, resonance and multipole data, decay modes, photon and neutron data) returns exactly what was assigned to it, and an assignment of the wrong type, outside the documented range, with a wrong element, shape or array type is refused with TypeError or ValueError and leaves the whole object as it was. A combination of functions accepts exactly one operation fewer than functions. The checking functions accept exactly the values they document (types, element types, nesting depths, lengths, accepted values, one-sided limits with and without equality, file type and version). The type-checked list keeps the order of every way of adding items and refuses foreign ones. Automatically numbered objects get the smallest free number from the counter on, never one in use or reserved, and a number taken twice is announced. An XML value is taken from the attribute, else from the first element, else the default.",
  ["inputs", "histories"], "35 kinds of object, histories of 1-12 assignments, half of them invalid; generated arguments of the checking functions; list and numbering histories",
  "Tests assign nothing.",
  [ND + f for f in ("checkvalue.py", "mixin.py", "_xml.py", "multipole.py", "product.py", "reaction.py", "univariate.py", "function.py", "photon.py", "neutron.py")],
  [("attribute setters", "ASAPy/data"), ("check_type ... check_filetype_version, CheckedList", ND + "checkvalue.py"), ("IDManagerMixin", ND + "mixin.py"), ("get_text", ND + "_xml.py")], ["attributes, exceptions, list contents, numbers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
