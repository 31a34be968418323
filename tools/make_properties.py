"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
import os

CS = "ries/cross_section.py"
R = "ries/resonance/resonance.py"
BW = "ries/resonance/breit_wigner.py"
GA = "ries/resonance/gauss.py"
PV = "ries/resonance/pseudo_voigt.py"
VO = "ries/resonance/voigt.py"
MB = "ries/resonance/maxwell_boltzmann.py"
RC = "ries/resonance/recoil.py"
DB = "ries/resonance/debye_model.py"
KN = "ries/nonresonant/klein_nishina.py"
XR = "ries/nonresonant/xrmac.py"
NR = "ries/nonresonant/nonresonant.py"
EL = "ries/constituents/element.py"
IS = "ries/constituents/isotope.py"
ND = "ries/constituents/natural_element_data.py"
ST = "ries/constituents/state.py"
DA = "ries/integration/darboux.py"
QP = "ries/integration/quad_partition.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"observe_at": [observe]} if observe else {}),
            },
        }
    )


p("C01", "Cross-section algebra is linear at every energy",
  "Any expression built from cross sections with +, multiplication by a number from the left or right, and addition of a number evaluates at every energy to the same combination of the values of its constituents, whatever the type of the number. An empty weighted sum evaluates to zero.",
  ["programs", "inputs"], "all expression trees up to the depth bound over +, *c, c*, +number, number+, for all constituent values, scale factors and energies",
  "Tests evaluate a handful of fixed expressions at fixed energies with equal or unit scale factors; a wrong factor for one operand shape needs that shape with a distinguishing factor.",
  [CS], [("sums and scaling of single cross sections", CS + ":CrossSection"), ("weighted sums", CS + ":CrossSectionWeightedSum")],
  "value returned by calling the composed cross section")
p("C02", "Composing cross sections leaves the operands unchanged",
  "After any sequence of additions and scalings, every cross section that existed before, including one used several times in the same or in different expressions, still evaluates to the value it had, and two composed cross sections never influence each other. Lists of reactions and factors given by the caller are not modified.",
  ["histories", "inputs"], "all histories of algebraic operations up to the length bound on shared operands, for all factors and values",
  "Tests never re-evaluate an operand after it was used; aliasing shows only when an earlier object is evaluated after a later operation.",
  [CS], [("construction of new weighted sums", CS + ":CrossSectionWeightedSum.__add__"), ("scaling", CS + ":CrossSectionWeightedSum.__mul__")],
  "value of an operand before and after the operation")
p("C03", "Equidistant energy grids are equidistant between the requested limits",
  "For every kind of cross section, an equidistant energy grid has exactly the requested number of points, starts at the first and ends at the second limit, whichever is larger, and has equal spacing. For a resonance given a coverage, the limits are those of its coverage interval. A grid does not depend on earlier requests, on other objects or on changes the caller made to an earlier grid.",
  ["inputs", "configurations"], "all limits, coverages and numbers of points within the bound, for every class of cross section",
  "Tests check one grid with fixed limits; dependence on limits, number of points and class is not covered.",
  [CS, R, NR], [("energy grid", CS + ":CrossSection.equidistant_energy_grid"), ("energy grid of a sum", CS + ":CrossSectionWeightedSum.equidistant_energy_grid"), ("energy grid by coverage", R + ":Resonance.equidistant_energy_grid")],
  "returned grid")
p("C04", "Probability grid by coverage splits the covered probability equally",
  "The equidistant-probability grid of a resonance for a coverage c has the requested number of points, is ascending, and the cumulative probabilities of its points run from (1-c)/2 to (1+c)/2 in equal steps.",
  ["inputs", "configurations"], "all coverages in (0,1), resonance parameters and numbers of points within the bound, for each line shape",
  "Tests look at one coverage for one resonance; an error that depends on coverage, number of points or line shape is not seen.",
  [R, BW, GA, PV], [("probability grid", R + ":Resonance.equidistant_probability_grid")],
  "cumulative distribution evaluated at the returned grid points")
p("C05", "Probability grid between limits stays within them",
  "For given energy limits, the equidistant-probability grid has the requested number of points, starts and ends exactly at the limits, is non-decreasing with all points finite and within the limits, even far out in the tails where the cumulative probability is numerically 0 or 1. Where the distribution resolves the limits, the points between them split the probability between the limits equally.",
  ["inputs", "configurations"], "all ordered limits, resonance parameters and numbers of points within the bound; distribution functions ideal or saturating at 0 and 1",
  "Tests use limits around the resonance; the tails, where the quantile function returns infinities, need specific limits.",
  [R], [("probability grid between limits", R + ":Resonance.equidistant_probability_grid")],
  "returned grid")
p("C06", "Grid of a weighted sum is the sorted union of its constituents' grids",
  "The equidistant-probability grid of a weighted sum contains exactly the points of the grids of its constituents, each once and in ascending order, independent of the scale factors and of the order of the constituents. Constant and non-resonant constituents contribute an equidistant energy grid.",
  ["inputs", "configurations"], "all limits, scale factors and orders of up to the bounded number of constituents, including coinciding points",
  "Tests check the number of points of one sum; coinciding points, order and scale factors are not varied.",
  [CS, NR], [("union of the grids", CS + ":CrossSectionWeightedSum.equidistant_probability_grid"), ("grid of a constant", CS + ":ConstantCrossSection"), ("grid of non-resonant processes", NR + ":Nonresonant")],
  "returned grid")
p("C07", "Energy-integrated cross section follows the documented formula",
  "The energy-integrated cross section of a resonance equals (pi*hbar*c/E_r)^2 * (2J_r+1)/(2J_0+1) * Gamma_0 * Gamma_f/Gamma, with the last factor one if no final state is given and E_r the recoil-corrected energy difference of the states. The same value results for every line shape built from the same states, whatever other resonances exist.",
  ["inputs", "configurations"], "all spins up to the bound, excitation energies, sets of partial widths, choices of initial and final state, recoil corrections and line shapes",
  "Tests compare single numbers for one nucleus with J_0 and partial widths fixed; factors that coincide there (e.g. ground state at 0 MeV, equal spins) hide errors.",
  [R, ST, RC], [("integrated cross section", R + ":Resonance.get_energy_integrated_cross_section"), ("branching ratio", R + ":Resonance.get_final_state_branching_ratio"), ("spin factor", R + ":Resonance.get_statistical_factor")],
  "energy_integrated_cross_section attribute")
p("C08", "Resonance cross section is its integral times its probability density",
  "At every energy the cross section of a resonance equals its energy-integrated cross section times the probability density of its line shape at that energy. Evaluating with a relative energy x gives the same value as evaluating with the absolute energy E_r + x, and the energies passed in are not modified.",
  ["inputs", "configurations"], "all energies (scalar and array), both input conventions, resonance parameters and line shapes",
  "Tests integrate or plot a few resonances; the relative-energy mode and pointwise values for all parameters are not covered.",
  [R, BW, GA, PV, VO], [("evaluation", R + ":Resonance.__call__")],
  "value returned by calling the resonance")
p("C09", "Final-state channels add up to the excitation cross section",
  "For an excited state the total width is the sum of its partial widths, each branching ratio is the share of the partial width in it, and the cross sections for all final states with a partial width add up to the cross section without a final state at every energy.",
  ["inputs", "configurations"], "all sets of up to the bounded number of partial widths, spins, energies and line shapes",
  "Tests use a single state with one or two fixed widths; a branching ratio that is right for those can be wrong for other widths or states.",
  [R, ST], [("total width", ST + ":State.__init__"), ("branching ratio", R + ":Resonance.get_final_state_branching_ratio")],
  "values of the cross sections per channel")
p("C10", "Coverage interval contains the requested probability symmetrically",
  "The coverage interval for a coverage c runs from the (1-c)/2 to the (1+c)/2 quantile of the line shape. If the lower quantile is negative a warning states the coverage that positive energies can reach and the lower limit is zero; an infinite upper limit is announced by a warning and kept, each time it happens, and without these conditions there is no warning.",
  ["inputs", "configurations"], "all coverages in [0,1], resonance parameters and line shapes, including those with a substantial part of the distribution below zero",
  "Tests check one negative and one infinite case; the quantile positions for all coverages and the reported number are not checked.",
  [R], [("coverage interval", R + ":Resonance.coverage_interval")],
  "returned interval and emitted warnings")
p("C11", "Recoil correction conserves energy and momentum",
  "The free-nucleus correction maps an excitation energy to the photon energy at which a nucleus of the given mass at rest is excited under energy-momentum conservation; it increases with the excitation energy, never lies below it and tends to it for heavy nuclei. Negative energy differences obey the same conservation laws. Without recoil the photon energy equals the excitation energy.",
  ["inputs"], "all masses and all energy differences above minus the mass",
  "Tests compare one or two numbers; other masses and energies are open.",
  [RC], [("free-nucleus recoil", RC + ":FreeNucleusRecoil"), ("no recoil", RC + ":NoRecoil")],
  "returned energy")
p("C12", "Doppler width and effective temperature are inverse to each other",
  "The Doppler width equals E*sqrt(2 k T_eff/(m c^2)), is proportional to the energy and to the square root of temperature over mass, and vanishes at zero temperature. The inverse function returns the temperature from which a width was calculated, and vice versa, for every energy and mass.",
  ["inputs"], "all positive energies, masses and temperatures",
  "Tests compare single numbers; the round trip for all parameters is open.",
  [MB], [("width", MB + ":MaxwellBoltzmann.get_doppler_width"), ("temperature", MB + ":MaxwellBoltzmann.get_effective_temperature")],
  "returned width and temperature")
p("C13", "Line shapes have the documented position and width",
  "A Breit-Wigner resonance is a Cauchy distribution with half width Gamma/2, a Doppler-broadened resonance without natural width is a normal distribution with standard deviation Delta/sqrt(2), a Voigt resonance has the Voigt profile of both, and the base resonance is uniform with unit width; all are centred at the resonance energy.",
  ["inputs", "configurations"], "all energies, excitation energies, widths, masses and temperatures",
  "Tests compare integrals and limiting cases with loose tolerances; width conventions (half or full, sigma or Delta) for all parameters are not settled.",
  [R, BW, GA, VO, PV, MB], [("Breit-Wigner", BW + ":BreitWigner"), ("Gauss", GA + ":Gauss"), ("Voigt", VO + ":Voigt"), ("uniform", R + ":Resonance")],
  "density, cumulative probability and quantiles of the line shape")
p("C14", "Pseudo-Voigt approximation is a proper mixture with the documented weights",
  "Density and cumulative probability of the pseudo-Voigt line shape are the same mixture, with weight eta in [0,1], of a normal and a Cauchy distribution sharing the documented full width at half maximum and the resonance energy as centre. It is exactly the Breit-Wigner shape at zero temperature and exactly the Gaussian shape at zero natural width, and the density is symmetric, so that the cumulative probability at the centre is one half.",
  ["inputs"], "all resonance energies, widths and temperatures (not both zero), masses and evaluation energies",
  "Tests compare with Voigt within percents at a few parameters; a wrong width or weight in one regime passes.",
  [PV, MB], [("mixture", PV + ":PseudoVoigtDistribution.pseudo_voigt_expression"), ("common width", PV + ":PseudoVoigtDistribution.get_Gamma"), ("weight", PV + ":PseudoVoigtDistribution.get_eta")],
  "pdf and cdf of the line shape")
p("C15", "Pseudo-Voigt quantiles invert the CDF or fall back with a warning",
  "A pseudo-Voigt quantile calculation returns values at which the cumulative probability equals the requested quantiles if the numerical inversion converged for all of them, and otherwise returns the documented mixture of quantiles together with a warning. It returns a number for a number and an array of the same length for an array, whatever subset of the inversions fails. The median is the resonance energy, without a warning.",
  ["inputs", "fault_sequences"], "all quantiles, parameters, array lengths within the bound and all outcomes (converged, not converged, error) of the root finder per element",
  "Tests exercise convergent cases and one failing case; partial failure needs a specific mix of quantiles.",
  [PV], [("quantiles", PV + ":PseudoVoigtDistribution.ppf")],
  "returned quantiles and emitted warnings")
p("C16", "Effective temperature follows the Debye integral and exceeds T and 3/8 T_D",
  "The effective temperature equals 3 T (T/T_D)^3 times the Debye integral from 0 to T_D/T, is never below T or 3/8 T_D, scales linearly when both temperatures are scaled, and is evaluated element by element for arrays. A thermodynamic temperature that is the number zero raises ZeroDivisionError.",
  ["inputs"], "all positive temperatures and Debye temperatures, scalars and arrays within the bound",
  "Tests check the two limits with a tolerance; intermediate ratios and arrays are open.",
  [DB], [("effective temperature", DB + ":effective_temperature_debye_approximation")],
  "returned temperature")
p("C17", "Compton kinematics are consistent between angle and energy",
  "The scattered energy fraction equals 1/(1+E/mc^2 (1-cos theta)) for the mass in use, lies between the Compton edge and the incident energy, and decreases with the angle; the angle calculated from the scattered energy and the scattered energy calculated from the angle invert each other. Scattered energies outside the kinematic limits have no angle (not a number).",
  ["inputs"], "all positive energies and masses and all angles in [0, pi]",
  "Tests use the electron mass and a few angles; other masses, and the inversion for all angles, are open.",
  [KN], [("energy fraction", KN + ":KleinNishina.Ep_over_E"), ("angle", KN + ":KleinNishina.theta"), ("edge", KN + ":KleinNishina.compton_edge")],
  "returned angles and energies")
p("C18", "Differential Klein-Nishina cross sections are transformations of each other",
  "The polarized cross section per solid angle is the Klein-Nishina formula; its average over the azimuth is the unpolarized one; the cross sections per polar angle and per scattered energy follow from them by integration over the azimuth and the Jacobian of the kinematics, and none is negative.",
  ["inputs"], "all positive energies, polar angles, azimuths, proton numbers and masses",
  "Tests integrate numerically for one proton number and the electron mass; compensating factors and other masses are open.",
  [KN], [("per solid angle", KN + ":KleinNishina.cs_diff_dOmega"), ("azimuthal average", KN + ":KleinNishina.cs_diff_dOmega_unpolarized"), ("per energy", KN + ":KleinNishina.cs_diff_dEp"), ("per energy and azimuth", KN + ":KleinNishina.cs_diff_dEp_dphi"), ("per polar angle", KN + ":KleinNishina.cs_diff_dtheta")],
  "values of the differential cross sections")
p("C19", "Total Klein-Nishina cross section is the integral of the differential one",
  "For every energy the total cross section equals the integral of the unpolarized differential cross section over all angles, to the accuracy of double precision also at low energies, where it tends to the Thomson cross section, which it never exceeds. It is proportional to the proton number and depends on the mass only as E/mc^2 and 1/m^2.",
  ["inputs"], "all positive energies, proton numbers and masses",
  "Tests compare with numerical integration at a few energies; the low-energy regime and other masses are not reached.",
  [KN], [("total", KN + ":KleinNishina.cs_total"), ("call", KN + ":KleinNishina.__call__")],
  "returned total cross section")
p("C20", "Attenuation files are read completely and with the right columns",
  "Reading an attenuation table, with or without the three-column shell label, yields one row per line with energy, attenuation and energy absorption in file order, both lines of an absorption edge included, each number complete and converted with the conversion for its column exactly once. Array input is converted the same way and the caller's array is not modified.",
  ["inputs", "configurations"], "all tables of up to the bounded number of lines with any digits and exponents in the numbers, labels present or absent, last line with or without line end, and arbitrary conversions",
  "Tests read the shipped files and compare a few numbers; cut-off digits, labels only on later lines and conversions of arrays are not reached.",
  [XR], [("file reader", XR + ":XRMAC.read_nist_xrmac"), ("construction", XR + ":XRMAC.__init__")],
  "data attribute")
p("C21", "Attenuation interpolation is log-log linear through the tabulated points",
  "At a tabulated energy the attenuation equals the tabulated value (up to the discontinuity at an absorption edge), between two tabulated energies it is linear in log-log scale and lies between their values, and beyond the first or last energy it stays at the first or last value. Values are positive and arrays are evaluated element by element.",
  ["inputs"], "all tables of up to the bounded number of points with non-decreasing energies and positive values and all positive energies",
  "Tests evaluate the shipped tables at a few energies; arbitrary positions, edges and out-of-range energies are open.",
  [XR], [("interpolation", XR + ":XRMAC.interpolate_log_log"), ("evaluation", XR + ":XRMAC.__call__")],
  "returned attenuation")
p("C22", "Attenuation per atom is attenuation per mass times the atomic mass",
  "For every element with tabulated attenuation, the cross section per atom in fm^2 equals the mass attenuation coefficient in cm^2/g times the effective mass of that same element in gram times 10^26, at every energy. Both tables have one entry per element from hydrogen to uranium under its own symbol.",
  ["inputs", "configurations"], "all proton numbers 1..92 and all energies",
  "Tests check a single element; a conversion bound to the wrong element shows only for other elements.",
  [XR, EL], [("tables", XR + ":xrmac_fm2_per_atom"), ("tables", XR + ":xrmac_cm2_per_g")],
  "entries of the two tables")
p("C23", "Isotope records are read for exactly the requested element",
  "Reading the isotope compilation for a proton number returns exactly the isotopes listed under it, named by mass number and symbol, with relative atomic mass and abundance as printed, whether or not an uncertainty in parentheses follows, and abundance zero where none is printed. The symbol table maps each proton number to the first symbol listed for it.",
  ["inputs", "configurations"], "all compilations of up to the bounded number of records with any digits, uncertainties present or absent, and all requested proton numbers",
  "Tests check few elements of the shipped file; monoisotopic elements and missing entries need specific records.",
  [ND, IS], [("isotopes", ND + ":NISTElementDataReader.read_nist_element_data"), ("symbols", ND + ":NISTElementDataReader.read_nist_element_symbols")],
  "returned abundances, isotopes and symbols")
p("C24", "Densities are read for exactly the requested symbol",
  "Reading the density table for a symbol returns the converted density of the line with exactly that symbol, and nothing if there is no such line; one-letter symbols never match two-letter ones, and upper and lower case differ.",
  ["inputs"], "all tables of up to the bounded number of lines and all symbols of one or two letters, any digits and conversions",
  "Tests check a few elements; confusion of symbols sharing a first letter needs specific pairs in a specific order.",
  [ND], [("densities", ND + ":Geant4DensityDataReader.read_density_data")],
  "returned density")
p("C25", "Effective element mass is the abundance-weighted isotope mass",
  "The effective mass of an element is the sum of isotope mass times abundance over its isotopes, whatever the order of the entries. For every natural element in the shipped tables symbol, proton number and density belong together, abundances of elements with natural isotopes sum to one, and the effective mass lies within the lightest and heaviest isotope.",
  ["inputs", "configurations"], "all isotope masses and abundances up to the bounded number of isotopes; all proton numbers 1..118",
  "Tests check boron and a few elements; wrong values for other elements are not visible.",
  [EL, ND, IS], [("effective mass", EL + ":Element.amu_from_isotopic_composition"), ("natural elements", EL + ":natural_elements")],
  "attributes of elements")
p("C26", "Darboux sums bracket the integral of monotonic pieces",
  "The lower Darboux sum is the sum over all cells of the smaller end value times the cell width, and the returned difference is the non-negative distance to the corresponding upper sum, so that the integral of any function that is monotonic within each cell lies between them. On a grid in descending order the cell widths count negative and the returned difference stays non-negative. Passing the function or its values gives the same result and nothing passed in is modified.",
  ["inputs"], "all grids and function values up to the bounded number of points, ascending or descending, equidistant or not",
  "Tests integrate few functions; cells with decreasing, constant or negative values and non-equidistant grids are not all covered.",
  [DA], [("sums", DA + ":darboux")],
  "returned lower sum and difference")
p("C27", "Partitioned integration adds the cells and combines errors in quadrature",
  "Integration over a partition equals the integral over the whole interval for every choice of partition points, the estimate of the uncertainty is the root of the sum of the squared estimates of the cells, and the limits of the other variables are the same in every cell and unchanged for the caller.",
  ["inputs", "configurations"], "all partitions up to the bounded number of cells, zero to the bounded number of further variables, limits given as lists or arrays",
  "Tests use one partition each in one and two dimensions; other partitions and the combination of uncertainties are open.",
  [QP], [("partitioned integration", QP + ":quad_partition")],
  "returned integral and uncertainty, calls of the integrator")
p("C28", "States and isotopes keep their own data",
  "A ground state has zero excitation energy and keeps spin, parity and label; an excited state in addition keeps its excitation energy and partial widths and its width is their sum. All given states are kept, whether in a list or in a dictionary. Objects are independent: creating or extending one never changes another.",
  ["inputs", "histories"], "all spins, parities, energies and sets of partial widths up to the bound; all interleavings of two constructions",
  "Tests construct single states; sharing between instances shows only with several objects.",
  [ST, IS], [("states", ST + ":State"), ("isotopes", IS + ":Isotope")],
  "attributes of the objects")
p("C29", "Evaluation is elementwise, repeatable and independent of history",
  "Evaluating any cross section at an array of energies gives the values at the single energies and does not modify the array; integer energies and arrays of any shape are treated alike. Repeating an evaluation, evaluating other energies in between, or using other objects of the same class in between does not change a result.",
  ["histories", "inputs"], "all energies and parameters, arrays up to the bounded length, all orders of two interleaved evaluations of two objects, for each class",
  "Tests evaluate each object once; state kept between calls or between objects shows only in specific sequences.",
  [CS, R, PV, VO, KN, XR], [("evaluation", R + ":Resonance.__call__"), ("evaluation", KN + ":KleinNishina.__call__"), ("evaluation", XR + ":XRMAC.__call__"), ("evaluation", CS + ":CrossSectionWeightedSum.__call__")],
  "returned values and the array passed in")
p("C30", "Debye temperatures are tabulated under symbols of natural elements",
  "Every key of the table of room-temperature Debye temperatures is the symbol of an element of the shipped element table, and every tabulated value is either absent or a positive temperature for which the effective temperature is defined. No element tabulated at the pinned commit is missing or has a different value.",
  ["configurations"], "all entries of the table",
  "Tests look up one element.",
  [DB, EL], [("table", DB + ":room_temperature_T_D")],
  "entries of the table")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
