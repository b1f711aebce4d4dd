#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run  # noqa: E402

R = "src/resonanceReconstruction/"
M = R + "rmatrix/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **(dict(observe_at=observe) if observe else {}))),
              technique, note))


prop("C01", "Hard-sphere penetrability and shift factor are exact for l = 0..4",
     "For a neutron channel and every channel ratio rho > 0, the penetrability and the shift factor for l = 0..4 equal the values defined by the spherical Hankel functions (to rounding), and the older and newer entry points (run-time l, compile-time l, per channel type) agree, whatever Sommerfeld parameter is passed along. At rho = 0 the penetrability is 0 and the shift factor -l; the older entry point also gives penetrability 0 for rho < 0. Any other l is refused with an exception instead of giving a number.",
     ["inputs"], "every l (supported or not) and every rho in [0, 1e12]",
     "the tests compare about a dozen values of rho per l; the formulae are rational functions whose individual terms only matter in certain ranges of rho",
     [R + "src/penetrationShift.hpp", M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/horner.hpp"],
     [("rational functions of rho^2 per l", R + "src/penetrationShift.hpp"), ("specialisation for Neutron, Horner evaluation", M + "src/calculatePenetrability.hpp, calculateShiftFactor.hpp, horner.hpp")],
     "property-based testing against the closed form of |h_l|^2 in long double; differential between the entry points",
     "generated inputs up to rho = 1e12, all supported l, tolerance 2e-14")
prop("C02", "Hard-sphere phase shift is exact modulo pi for l = 0..4",
     "For a neutron channel and every rho >= 0, the phase shift for l = 0..4 equals arg(G_l + i F_l) of the field-free wave functions modulo pi (so that exp(2 i phi) is exact to rounding), in the older and in the newer entry point alike; for l = 0 it is exactly rho. Any other l is refused with an exception.",
     ["inputs"], "every l and every rho in [0, 1e6], including the poles of the tangent",
     "the tests use a dozen values of rho per l and none near the poles of the arctangent's argument",
     [R + "src/phaseShift.hpp", M + "src/calculatePhaseShift.hpp", M + "src/horner.hpp"],
     [("rho - atan(offset)", R + "src/phaseShift.hpp"), ("specialisation for Neutron", M + "src/calculatePhaseShift.hpp")],
     "property-based testing against the argument of the Hankel polynomial in long double", "generated inputs, tolerance 2e-15 (1 + rho)")
prop("C03", "Charged-particle functions follow the Coulomb wave functions or refuse",
     "For a charged-particle channel with l in 0..12, Sommerfeld parameter eta in [0, 40] and rho in [0.05, 45], penetrability rho/(F^2+G^2), shift factor rho(FF'+GG')/(F^2+G^2) and phase shift arg(G+iF) modulo pi equal those of the regular and irregular Coulomb functions to a few parts in 10^5 (plus about 10^-4 eta/rho), the wave functions satisfy F'G - FG' = 1, and eta = 0 reproduces the neutron functions; the result of a call does not depend on the calls before it. For rho down to 0.001 or eta up to 100, as long as eta/rho < 2000, the penetrability is right to about 10^-4 eta/rho. At rho = 0 the penetrability and the phase shift are 0 and the shift factor is finite. Beyond that (rho up to 2000, l up to 200) a call gives a correct penetrability or throws; a penetrability below 1e-80 may be returned as 0. No call reads or writes outside of its work arrays.",
     ["inputs"], "l, eta, rho over all branches of the algorithm (asymptotic series, two Riccati expansions, turning point formula, integration inward and outward, recurrences)",
     "no stable test evaluates a charged channel; the algorithm has many branches chosen by eta and rho, each with its own coefficients",
     [M + "src/coh3-coulomb.hpp", M + "src/coh3-asympt.hpp", M + "src/coh3-extwave.hpp", M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/calculatePhaseShift.hpp"],
     [("starting values of G0 by range of eta and rho, Newmark integration", M + "src/coh3-asympt.hpp"), ("recurrences in l and Wronskian check", M + "src/coh3-extwave.hpp"), ("specialisations for ChargedParticle", M + "src/calculate*.hpp")],
     "property-based testing against an independent long-double Coulomb function (Steed's continued fractions and Taylor integration), with ASan/UBSan",
     "generated (l, eta, rho) concentrated on the branch boundaries; tolerances are the measured accuracy of the method times two")
prop("C04", "Channel type selects the right functions; Coulomb phase shift",
     "Photon and fission channels have penetrability 1, shift factor 0, phase shift 0 and Coulomb phase shift 0 for every l, rho and eta, and neutron channels have Coulomb phase shift 0. For a charged-particle channel the Coulomb phase shift is the sum over n = 1..l of arctan(eta/n), and 0 for l = 0. (On the current tree the sum is over 1/tan(eta/n): a recorded finding that a test pins.)",
     ["inputs"], "every channel type, l up to 200, eta in (0, 60], any rho",
     "the tests sample a few l at one or two eta, and pin the wrong Coulomb phase shift",
     [M + "src/calculateCoulombPhaseShift.hpp", M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/calculatePhaseShift.hpp"],
     [("primary templates and specialisations per channel type", M + "src/calculate*.hpp")],
     "property-based testing against the documented formula, with one listed known finding", "generated inputs; the recorded deviation is recognised by its exact value, anything else is a violation")
prop("C05", "Spin coupling lists every possible quantum number exactly once",
     "The possible channel spins for particle spins i and I are exactly |i-I|, ..., i+I, and the possible total angular momenta for l and a channel spin s exactly |l-s|, ..., l+s, in increasing order without duplicates. For given l, i and I the total angular momenta are exactly the union over the channel spins (on the current tree this fails for i > 1/2: a recorded finding that a test pins).",
     ["inputs"], "all integer and half-integer spins up to 100 and l up to 100",
     "the tests list the combinations of l <= 1 and spins <= 1 by hand",
     [M + "src/possibleChannelSpinValues.hpp", M + "src/possibleChannelTotalAngularMomentumValues.hpp"],
     [("stepping from the minimum to the maximum", M + "src/possibleChannel*.hpp")],
     "property-based testing against brute-force vector coupling, with one listed known finding", "generated spins; set equality, order and uniqueness")
prop("C06", "Quantum numbers and their identifier correspond one to one",
     "The identifier of a set of channel quantum numbers is {l,s,Jpi} with s and J written as integers or as odd numerator over 2 and pi as + or -, for every l, every integer or half-integer s and J, and both parities, so that two different sets never share an identifier. The stored values come back unchanged.",
     ["inputs"], "l, 2s, 2J up to 10^6, both parities",
     "the test checks one or two sets; identifiers are used as keys that match channels, resonance tables and T-matrix elements",
     [M + "ChannelQuantumNumbers.hpp", M + "ChannelQuantumNumbers/src/toString.hpp"],
     [("toString", M + "ChannelQuantumNumbers/src/toString.hpp")],
     "property-based testing of formatting against an independent formatter (round trip)", "generated quantum numbers")

prop("C07", "Channel kinematics, thresholds and identifiers",
     "For every particle pair and every energy, the wave number of a channel is sqrt(2 mu |E M/(m+M) + Q|)/hbar with the reduced mass mu of its own pair and the mass ratio of the incident pair, the Sommerfeld parameter is z Z mu e^2/(4 pi eps0 hbar^2 k) (0 without charge), a channel is below its threshold exactly when E M/(m+M) + Q < 0, and exactly at the threshold the wave number, the penetrability of a particle channel and the phase shift are 0. The statistical factor is (2J+1)/((2i+1)(2I+1)) of the channel's pair, reaction and channel identifiers are made of the pair identifiers and the quantum numbers, a channel is incident exactly when its pair is the incident pair, and everything given to a particle, pair or channel comes back unchanged.",
     ["inputs"], "pairs with incident neutron or proton, all channel types, E in [1e-5, 2e7] eV (and -E), Q of both signs including exact thresholds",
     "no stable test builds a channel; the tests of the classes sample a handful of energies for one or two nuclides",
     [M + "Channel.hpp", M + "Channel/src/waveNumber.hpp", M + "Channel/src/sommerfeldParameter.hpp", M + "Channel/src/belowThreshold.hpp", M + "ParticlePair.hpp", M + "Particle.hpp"],
     [("k(E), eta(E), threshold", M + "Channel/src/"), ("reduced mass and mass ratio", M + "ParticlePair.hpp"), ("identifiers", M + "Channel/src/makeChannelID.hpp")],
     "property-based testing against formulae with CODATA constants in long double, exact threshold cases built with nextafter", "generated channels; tolerance 1e-13 times the cancellation in E M/(m+M) + Q")
prop("C08", "A channel uses the right radius and the right function for P, S and phi",
     "With one, two or three channel radii (each constant or an energy-dependent table under any ENDF interpolation law and several regions), the penetrability, shift factor and phase shift of a channel at every energy are the functions of its type (hard sphere for neutrons, Coulomb for charged particles, 1, 0 and 0 for photon and fission) at k(E) times the radius meant for each of them: the first for P, the second (with three) or the first for S, the last for phi, each evaluated at that energy.",
     ["inputs"], "all combinations of constant and tabulated radii, energies inside the tables, all channel types, open and closed",
     "the tests use constant radii for one channel of each type; a swapped radius or a table evaluated at another energy is not seen",
     [M + "ChannelRadii.hpp", M + "ChannelRadiusTable.hpp", M + "Channel/src/", M + "Table.hpp", M + "MultiRegionTable.hpp"],
     [("selection of the radius", M + "ChannelRadii.hpp"), ("P, S, phi of a channel", M + "Channel/src/penetrability.hpp, shiftFactor.hpp, phaseShift.hpp")],
     "property-based testing against hard-sphere functions and interpolation laws written independently", "generated radii, tables and energies; tolerance 1e-11 or better (3e-5 for the Coulomb functions themselves)")
prop("C09", "Reich-Moore cross sections follow the R-matrix formula",
     "For every spin group, all reaction cross sections in the Reich-Moore approximation equal pi/k^2 g_J |exp(2 i w_c) delta_cc' - U_cc'|^2 summed over the incident channels and over the channels of a reaction, with U = Omega (1 + 2 i P^1/2 (1 - R L)^-1 R P^1/2) Omega, R_cc' = sum gamma_c gamma_c' / (Er - E - i gamma_eliminated^2) over open channels, L = i P (boundary condition equal to the shift factor) or S - B + i P (constant), and capture = 1 - sum |U|^2. Without resonances only hard-sphere elastic scattering remains.",
     ["inputs"], "1-6 channels of all types (open, closed, several incident), 0-6 resonances (bound, at, near and far from E), incident neutron or proton, both boundary conditions",
     "the tests use one or two spin groups with at most four channels at a dozen energies, and are not among the stable ones",
     [M + "SpinGroup/src/evaluate.hpp", M + "RLMatrixCalculator/ReichMoore/src/call.hpp", M + "LMatrixCalculator.hpp", M + "Resonance.hpp", M + "SpinGroup/src/omegas.hpp"],
     [("collision matrix and cross sections", M + "SpinGroup/src/evaluate.hpp"), ("(1 - RL)^-1 R", M + "RLMatrixCalculator/ReichMoore/src/call.hpp"), ("R matrix of a resonance", M + "Resonance/src/rmatrix.hpp")],
     "property-based testing against an independent long-double R-matrix model with a running rounding error bound", "generated spin groups; tolerance from the condition of 1 - RL; cases the model calls too ill-conditioned are skipped and counted")
prop("C10", "Unitarity, non-negative cross sections and the optical theorem",
     "For every compound system and energy, without eliminated widths the capture cross section is 0 (the collision matrix is unitary); with them no cross section is negative; and the sum of all cross sections equals the total cross section that the optical theorem derives from the diagonal elements of the collision matrix.",
     ["inputs"], "1-3 spin groups with 1-6 channels each, closed channels, charged particles, both boundary conditions",
     "these are global relations between outputs that no single comparison value settles",
     [M + "SpinGroup/src/evaluate.hpp", M + "SpinGroup/src/evaluateTMatrix.hpp", M + "CompoundSystem.hpp"],
     [("collision matrix rows", M + "SpinGroup/src/evaluate.hpp")],
     "property-based testing of invariants; the T matrix and the cross sections of the library checked against each other", "generated systems; tolerance from the rounding error bound of the model")
prop("C11", "T matrix elements",
     "For every compound system and energy, the T matrix contains exactly one element for every pair of channels of every spin group under the key '<from>-><to>' made of the channel identifiers, equal to P^1/2 (1 - R L)^-1 R P^1/2, symmetric, and 0 when one of the channels is closed; entries already in the map under other keys are kept.",
     ["inputs"], "1-2 spin groups with 1-6 channels each, both boundary conditions",
     "the tests compare a few elements for one nuclide",
     [M + "SpinGroup/src/evaluateTMatrix.hpp", M + "CompoundSystem/src/evaluateTMatrix.hpp"],
     [("evaluateTMatrix", M + "SpinGroup/src/evaluateTMatrix.hpp")],
     "property-based testing against the independent R-matrix model", "generated systems; tolerance from the rounding error bound of the model")
prop("C12", "Compound systems add up, and neither order nor history matters",
     "The cross sections of a compound system are the sums of those of its spin groups, added to what the map already contains; the result at an energy does not depend on the energies evaluated before, on copying the system, on the order of spin groups, channels or resonances, nor on the common sign of the reduced widths of a resonance or of a channel. A system given channel by channel (in any order, zero widths left out, eliminated channels anywhere) gives the same cross sections, T matrix and grid as the one given by spin group.",
     ["inputs", "histories"], "1-4 spin groups, sequences of evaluations, permutations, sign changes, channel data in any order",
     "the tests evaluate one order and one sequence of energies; matrices are kept between calls",
     [M + "CompoundSystem.hpp", M + "CompoundSystem/src/", M + "SpinGroup/src/makeResonanceTable.hpp", M + "SpinGroup/src/makeChannels.hpp", M + "RLMatrixCalculator/ReichMoore/src/call.hpp"],
     [("sum over spin groups", M + "CompoundSystem/src/evaluate.hpp"), ("grouping of channel data by J and parity", M + "CompoundSystem/src/"), ("widths by energy", M + "SpinGroup/src/makeResonanceTable.hpp")],
     "property-based metamorphic testing: permutation, sign change, accumulation, repetition, alternative construction", "generated systems with distinct resonance energies within a spin group")
prop("C13", "The resonance grid contains every resonance and its half-width points",
     "The energy grid of a compound system is strictly increasing and consists of exactly Er, Er - Gamma/2 and Er + Gamma/2 for every resonance with positive energy, where Gamma is the sum over all channels of 2 P(Er) gamma^2 plus twice the square of the eliminated reduced width; bound levels contribute nothing.",
     ["inputs"], "1-3 spin groups, 0-8 resonances of both signs, duplicates",
     "the tests list the grids of two or three small systems",
     [M + "SpinGroup/src/grid.hpp", M + "CompoundSystem/src/grid.hpp"],
     [("grid", M + "SpinGroup/src/grid.hpp, CompoundSystem/src/grid.hpp")],
     "property-based testing against an independently built grid, as sets and in order", "generated systems; Er must be found exactly")
prop("C14", "Inconsistent data are refused",
     "Building a particle with negative mass or charge, a resonance table whose resonances have another number of widths than there are channels, a spin group without channels, without incident channel, with duplicate channels, with channels of different J, parity or incident pair, or whose table lists other channels or another order, channel data of different lengths, two eliminated channels in a spin group, or a compound system without spin groups or with two groups of the same J and parity throws an exception; the same data without the inconsistency are accepted.",
     ["inputs"], "valid generated systems with one inconsistency of 13 kinds planted at a random position",
     "the tests try one position for each kind",
     [M + "SpinGroup/src/verify*.hpp", M + "CompoundSystem/src/verifySpinGroups.hpp", M + "ResonanceTable/src/verifyTable.hpp", M + "Particle.hpp", M + "ParticleChannelData.hpp"],
     [("verification in constructors", M + "*/src/verify*.hpp")],
     "property-based testing: mutation of valid inputs, the oracle is that exactly the mutated one is refused", "generated systems and mutations")

L = M + "legacy/"
prop("C15", "Single-level Breit-Wigner cross sections, data and grid",
     "For every set of (l,J) groups and energy, the single-level Breit-Wigner cross sections equal pi/k^2 g_J times the sum over resonances of Gn (Gn - 2 G sin^2 phi + 2 (E - E') sin 2phi)/D (elastic), Gn Gg/D (capture) and Gn Gf/D (fission), D = (E - E')^2 + G^2/4, with Gn and the competitive width scaled by the penetrability (for competition at E + QX (A+1)/A), E' = Er + Gn(|Er|)(S(Er) - S(E))/(2 P(Er)), plus 4 pi/k^2 (2l+1) sin^2 phi_l once for every l up to the largest one. Evaluations add to the map and do not depend on earlier ones. A resonance returns everything it was given; the grid is exactly Er and Er +- half the total width for Er > 0, strictly increasing; duplicate (l,J) or no groups are refused.",
     ["inputs", "histories"], "1-4 (l,J) groups, l = 0..4, 0-6 resonances (bound, at, near, far), three radii, fission, competition of both signs of QX above its threshold",
     "the tests of these classes use one evaluation and no competitive reaction, and are not among the stable ones",
     [L + "resolved/SpinGroup/SingleLevelBreitWigner/src/", L + "resolved/Resonance.hpp", L + "resolved/Resonance/src/", L + "CompoundSystemBase/src/", L + "resolved/CompoundSystem/src/"],
     [("widths and primed energies at E", L + "resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp"), ("sum over resonances", L + "resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp"), ("potential scattering", L + "CompoundSystemBase/src/")],
     "property-based testing against the ENDF-102 formulae in long double with a rounding error bound; accumulation and repetition as metamorphic relations", "generated systems; tolerance from the distance to the resonance")
prop("C16", "Multi-level Breit-Wigner cross sections",
     "For every set of (l,J) groups and energy, the multi-level Breit-Wigner elastic cross section is pi/k^2 g_J (|1 - U|^2 - 4 sin^2 phi) with U = exp(-2 i phi)(1 + i sum Gn/(E' - E - i G/2)) plus the potential scattering, capture and fission are those of the single-level formula, a group with at most one resonance gives the same as single-level, and with all J of every l present the elastic cross section is not negative.",
     ["inputs", "histories"], "as for C15; additionally complete sets of J for every l",
     "interference between several resonances is tested for one evaluation only",
     [L + "resolved/SpinGroup/MultiLevelBreitWigner/src/evaluate.hpp", L + "resolved/SpinGroup/SingleLevelBreitWigner/src/"],
     [("interference term", L + "resolved/SpinGroup/MultiLevelBreitWigner/src/evaluate.hpp")],
     "property-based testing against the collision-function form (a different algebraic form than the double sum of the code) and metamorphic relations", "generated systems; tolerance from the rounding error bound")
prop("C17", "Unresolved resonance cross sections, fluctuation integrals and grid",
     "For every set of (l,J) groups with energy-dependent average parameters, the average cross sections equal 2 pi^2/k^2 g_J/D Gn (Gn R_el - 2 sin^2 phi), Gn Gg R_c and Gn Gf R_f with Gn = Gn0 sqrt(E) mu P/rho, parameters interpolated linearly at E and fluctuation integrals by the 10-point quadrature for 1-4 degrees of freedom (fission and competition only where their width is not 0), plus potential scattering; the partial widths times their integrals add up to one to 0.2 %. The grid contains all table energies, is strictly increasing, starts and ends with them, and has no ratio above 1.25 between neighbours; only standard points are added, only in wider gaps. Fewer than two energies, more than 4 degrees of freedom, none for the elastic channel, duplicate (l,J) or no groups are refused.",
     ["inputs", "histories"], "1-4 groups, 2-5 energies each over up to 12 decades, widths over nine decades, fission and competition present, absent or 0 in part of the table",
     "the tests use two evaluations and a few hand-made integrals; combinations of degrees of freedom and of absent widths are not sampled",
     [L + "unresolved/src/calculateFluctuationIntegrals.hpp", L + "unresolved/SpinGroup/src/", L + "unresolved/ResonanceTable.hpp", L + "unresolved/CompoundSystem/src/"],
     [("quadrature", L + "unresolved/src/calculateFluctuationIntegrals.hpp"), ("cross sections", L + "unresolved/SpinGroup/src/evaluate.hpp"), ("grid", L + "unresolved/CompoundSystem/src/grid.hpp")],
     "property-based testing against independent quadrature and interpolation; invariants of the grid", "generated systems; points within rounding of a vanishing fission or competitive width are skipped")

B = R + "breitWigner/"
prop("C18", "Older interface: Breit-Wigner cross sections from ENDF data",
     "breitWigner::singleLevel::Apply and multiLevel::Apply give, for every resonance range of their kind, an object whose elastic, capture and fission cross sections equal the ENDF-102 formulae: any l = 0..4 and J, bound levels, fission, a competitive width per l (GX = GT - GN - GG - GF, opened at E > -QX (A+1)/A, none below), penetrability radius and scattering radius chosen by NRO (constant or tabulated) and NAPS (formula 0.123 (A m_n)^(1/3) + 0.08, AP, or the table). Single-level and multi-level agree for one resonance. Ranges of another kind, unknown NAPS values and unsupported l are refused with an exception.",
     ["inputs", "configurations"], "1-4 l values, 0-6 resonances each, all NRO/NAPS combinations, all five interpolation laws in several regions, energies from 1e-3 to 1e6 eV",
     "the tests evaluate two materials with one NRO/NAPS combination and no competitive width, and are not among the stable ones",
     [B + "singleLevel/", B + "multiLevel/", B + "lvalue/", B + "resonance/", R + "src/"],
     [("channel radius and scattering radius by NRO and NAPS", B + "singleLevel/Apply/src/, multiLevel/Apply/src/"), ("widths at E", B + "lvalue/Type/src/"), ("sum over resonances", B + "singleLevel/Lvalue, multiLevel/Lvalue")],
     "property-based testing against the ENDF-102 formulae in long double with a rounding error bound, from generated ENDF data", "generated resonance ranges; resonances below the competitive threshold are excluded (the format does not define them)")
prop("C19", "Older interface: Reich-Moore cross sections from ENDF data",
     "reichMoore::Apply gives, for every Reich-Moore range, an object whose elastic, capture and fission cross sections equal those of the Reich-Moore collision matrix (one per l and J): any l = 0..4 and J, both signs of J as the same J, bound levels, none, one or two fission channels with widths of either sign, l-dependent radius APL, NRO and NAPS as for Breit-Wigner. Ranges of another kind, unknown NAPS values and unsupported l are refused with an exception.",
     ["inputs", "configurations"], "1-4 l values, 0-6 resonances each, all NRO/NAPS combinations, energies from 1e-3 to 1e6 eV",
     "the tests evaluate three materials at a few energies, and are not among the stable ones",
     [R + "reichMoore/"],
     [("neutron-only and fission resonances, 3x3 inversion", R + "reichMoore/"), ("radii", R + "reichMoore/Apply/src/")],
     "property-based testing against the collision matrix in long double with a rounding error bound, from generated ENDF data", "generated resonance ranges")
prop("C20", "Reich-Moore data (LRF=3) through fromENDF",
     "For every Reich-Moore range, the Reconstructor returned by rmatrix::fromENDF gives the elastic, capture and fission cross sections of the Reich-Moore formula: every (l, channel spin, J) with l < NLSC contributes, with potential scattering where it has no resonance; the sign of J selects the channel spin where both are possible; widths become reduced widths with the penetrability at |Er|; radii follow APL, AP, NRO and NAPS. They do not depend on evaluations made before, nor on copying the object. Where both apply, they agree with the older interface. (Two resonances of the same J and parity but different l at exactly the same energy are merged on the current tree: a recorded finding.)",
     ["inputs", "configurations", "histories"], "1-3 l values and NLSC up to two more, 0-5 resonances each (bound, at, near, far), target spin 0..11/2, all NRO/NAPS combinations, energies from 1e-3 to 1e6 eV",
     "the tests evaluate a few materials at a few energies, and are not among the stable ones; none has an l-dependent radius for a spin without resonances, or two fission channels for both channel spins",
     [M + "src/fromENDF.hpp", M + "src/makeReichMooreCompoundSystem.hpp", M + "src/makeReichMooreChannelData.hpp", M + "src/makeQuantumNumbers.hpp", M + "src/makeChannelRadii.hpp", M + "src/makeChannelRadiusTable.hpp", M + "src/makeParticleChannelData.hpp"],
     [("quantum numbers required and used", M + "src/makeQuantumNumbers.hpp"), ("reduced widths", M + "src/makeReichMooreChannelData.hpp"), ("merging channels into spin groups", M + "CompoundSystem/src/makeSpinGroups.hpp, SpinGroup/src/makeResonanceTable.hpp")],
     "property-based testing against the collision matrix per (l,s,J) in long double with a rounding error bound; differential against the older interface", "generated resonance ranges; ill-conditioned cases are skipped and counted")
prop("C21", "R-matrix limited data (LRF=7) through fromENDF",
     "For every R-matrix limited range with the Reich-Moore formalism, the Reconstructor returned by rmatrix::fromENDF gives the cross sections of the R-matrix of the data, for all reactions with a width: particle pairs in any number and order (masses in neutron masses, spins and parities by sign), channels in any order and number, each with the type, Q value, radii and boundary condition of its own pair and line; the MT 102 channel is the eliminated one wherever it stands, and absent if there is none; widths (IFG=0) become reduced widths with the penetrability at the resonance, reduced widths (IFG=1) are used as they are; the shift factor flag of the incident pair selects the boundary condition; groups of the same spin and parity are merged without interaction.",
     ["inputs", "configurations", "histories"], "1-7 particle pairs, 1-3 spins and parities in one or two groups each, 1-6 channels, 0-5 resonances, open and closed channels, energies from 1e-3 to 2e6 eV",
     "the tests evaluate a few materials whose pairs are in the usual order, and are not among the stable ones",
     [M + "src/fromENDF.hpp", M + "src/makeCompoundSystem.hpp", M + "src/makeParticlePairs.hpp", M + "src/makeParticleChannels.hpp", M + "src/makeParticleChannelData.hpp", M + "CompoundSystem/src/makeSpinGroups.hpp", M + "SpinGroup/src/makeResonanceTable.hpp", M + "SpinGroup/src/makeChannels.hpp"],
     [("pairs", M + "src/makeParticlePairs.hpp"), ("channels", M + "src/makeParticleChannels.hpp"), ("widths and the eliminated channel", M + "src/makeParticleChannelData.hpp")],
     "property-based testing against an independent multi-channel R-matrix in long double with a rounding error bound, from generated ENDF data", "generated resonance ranges; charged-particle functions are taken from the library (decided by C03 and C07)")
prop("C22", "Breit-Wigner data (LRF=1,2) through fromENDF",
     "For every single-level or multi-level Breit-Wigner range, the Reconstructor returned by rmatrix::fromENDF gives the elastic, capture and fission cross sections of the ENDF-102 formulae: penetrability and shift factor of a level at |Er|, competition opened at E > -QX (A+1)/A for l values with LRX=1, radii by AP, NRO and NAPS, potential scattering for every l. They do not depend on evaluations made before, nor on copying the object.",
     ["inputs", "configurations", "histories"], "1-4 l values, 1-6 resonances each (bound, at, near, far), all NRO/NAPS combinations, energies from 1e-3 to 1e6 eV",
     "the tests evaluate a few materials at a few energies without competition, and are not among the stable ones",
     [M + "src/fromENDF.hpp", M + "src/makeLegacyBreitWignerCompoundSystem.hpp", M + "src/makeLegacyBreitWignerSpinGroups.hpp", M + "src/makeChannelRadii.hpp", M + "src/makeChannelRadiusTable.hpp", L + "resolved/"],
     [("P, Q, S and widths of each level", M + "src/makeLegacyBreitWignerSpinGroups.hpp"), ("radii", M + "src/makeChannelRadii.hpp")],
     "property-based testing against the ENDF-102 formulae in long double with a rounding error bound, from generated ENDF data", "generated resonance ranges; J >= 0 and consecutive l from 0; resonances below the competitive threshold are excluded")
prop("C23", "Unresolved data (LRU=2) through fromENDF",
     "For every unresolved range in each of the three representations (energy-independent, energy-dependent fission widths, energy-dependent), the Reconstructor returned by rmatrix::fromENDF gives the average cross sections of the ENDF-102 formulae with linear interpolation of the parameters, and a grid that contains all table energies (or the bounds of the range, for energy-independent data), spans exactly the range, is strictly increasing and has no ratio above 1.25.",
     ["inputs", "configurations"], "1-3 l values with 1-3 J each, 2-5 energies, all NRO/NAPS combinations",
     "the tests evaluate one material per representation, and are not among the stable ones",
     [M + "src/fromENDF.hpp", M + "src/makeLegacyUnresolvedCompoundSystem.hpp", M + "src/makeLegacyUnresolvedSpinGroups.hpp", M + "src/makeLegacyUnresolvedResonanceTable.hpp", L + "unresolved/"],
     [("tables of average parameters", M + "src/makeLegacyUnresolvedResonanceTable.hpp"), ("energies", M + "src/makeLegacyUnresolvedCompoundSystem.hpp")],
     "property-based testing against independent quadrature and interpolation, from generated ENDF data", "generated resonance ranges; the interpolation law INT is taken as linear, the only one the library has")
prop("C24", "The Reconstructor respects its energy range, and unsupported data are refused",
     "For every kind of range, the Reconstructor reports the bounds of the range and whether it is resolved, returns no cross section outside of the closed interval and all of them inside; the bounds change neither the values nor the grid points inside; the grid is strictly increasing, inside the bounds and contains every resonance or table energy inside. fromENDF refuses with an exception: the special case and unknown types, representations or formalisms, parameters of another kind than announced, an unknown NAPS value for a tabulated radius, an unknown interpolation law, a J that l and the spins cannot give.",
     ["inputs", "configurations"], "every kind of range, bounds anywhere (also at resonances and one representable number away from the energy)",
     "the tests evaluate inside the bounds only, and none passes unsupported data",
     [M + "Reconstructor.hpp", M + "src/fromENDF.hpp", M + "src/makeChannelRadii.hpp", M + "src/makeChannelRadiusTable.hpp", M + "src/makeQuantumNumbers.hpp"],
     [("bounds", M + "Reconstructor.hpp"), ("choice by LRU, LRF and KRM", M + "src/fromENDF.hpp")],
     "property-based testing: metamorphic relation between narrow and wide bounds, membership and order of the grid, mutation of valid data", "generated resonance ranges and mutations")

prop("C25", "Evaluations in different threads do not disturb each other",
     "There is no hidden shared state: the free functions (penetrability, shift factor and phase shift of every channel type, spin coupling, quantum number identifiers, fluctuation integrals), the const members of a channel shared between threads, and compound systems, Reconstructors and older-interface evaluations that belong to one thread each give, while other threads evaluate at the same time, bit for bit the result of the same call made alone, whatever the schedule.",
     ["inputs", "schedules"], "2-4 threads with generated calls, repeated; schedules are those of the operating system on 8 oversubscribed cores",
     "every test is sequential; a static or cached work array is invisible to all of them",
     ["src/resonanceReconstruction/src/", M + "src/coh3-coulomb.hpp", M + "src/calculatePenetrability.hpp", M + "Channel/", M + "SpinGroup/", L + "unresolved/src/calculateFluctuationIntegrals.hpp", M + "src/fromENDF.hpp"],
     [("work arrays of the Coulomb functions", M + "src/coh3-coulomb.hpp"), ("work matrices are members of the spin group", M + "SpinGroup.hpp")],
     "property-based testing: generated concurrent call sequences, differential against the same calls made alone", "thread schedules are sampled, not enumerated")

prop("C26", "Objects keep and return exactly the data they were given",
     "Particles, channels, resonances, tables, spin groups and compound systems of every formalism return, from every accessor, exactly the data they were constructed from (bit for bit, in order): the parameters of each resonance, the channels of a spin group and the pair of each, its incident pair (the first channel's incident pair) and incident channels, the l and J of a Breit-Wigner or unresolved group, the number and order of the groups of a system. A system built from data given channel by channel has per group the channels in the order given and one resonance per energy, ascending, with exactly the widths given and 0 for the others. Copies, moved and assigned objects are equal to the original, independent of it and outlive it, and evaluations change none of the data.",
     ["inputs", "histories"], "tables of up to 50 resonances and 14 channels, 1-3 spin groups, with evaluations, copies, moves and assignments in between",
     "the tests construct about one object per class and look at it once, before any copy or evaluation",
     [M + "Resonance.hpp", M + "ResonanceTable.hpp", M + "ParticleChannelData.hpp", M + "SpinGroup.hpp", M + "CompoundSystem.hpp", M + "Channel.hpp", L + "resolved/", L + "unresolved/"],
     [("accessors", M + "*.hpp"), ("channel data combined into a table", M + "SpinGroup/src/makeResonanceTable.hpp"), ("copies of a spin group with its calculators and work matrices", M + "SpinGroup.hpp")],
     "property-based testing: round trip of generated data through objects, copies, moves and assignments", "generated objects")
prop("C27", "The systems made from ENDF data have the structure and parameters of the file",
     "The compound system behind fromENDF contains what the file says: for R-matrix limited data one spin group per J and parity with the given channels, quantum numbers, pairs, Q values, radii, boundary conditions and reduced widths; for Reich-Moore data exactly one neutron channel for every l, channel spin and J, every resonance once with its reduced neutron, fission and eliminated widths; for Breit-Wigner data every l and J with all its resonances, their widths and their P, Q and S at the energy of the resonance; for unresolved data every l and J with its energies, average parameters and degrees of freedom. The T matrix of a Reconstructor is that of these parameters.",
     ["inputs", "configurations"], "every kind of resolved and unresolved range, with every NRO/NAPS, IFG and SHF",
     "the tests look at one evaluation per formalism and need files that are not part of the stable tests; cross sections alone do not show e.g. a width of a closed channel",
     [M + "src/fromENDF.hpp", M + "src/makeReichMooreCompoundSystem.hpp", M + "src/makeReichMooreChannelData.hpp", M + "src/makeCompoundSystem.hpp", M + "src/makeParticleChannelData.hpp", M + "src/makeLegacyBreitWignerCompoundSystem.hpp", M + "src/makeLegacyUnresolvedCompoundSystem.hpp", M + "Reconstructor.hpp"],
     [("conversion functions", M + "src/make*.hpp")],
     "property-based testing: independent reading of the generated ENDF data, compared with every accessor of the resulting system", "generated resonance ranges")
prop("C28", "Every cross section of every supported range is a finite number",
     "For every supported range made from ENDF data and every energy in [1e-5, 2e7] eV inside it - at the resonances, next to them, at points of the grid, at a bound, exactly at the threshold of a channel or one representable number away from any of these - every cross section the Reconstructor returns is a finite number: no NaN, no infinity, no exception. (Exactly at a resonance without any eliminated width the R-matrix is infinite, as the documentation of the Resonance class says; energies that close are left out.)",
     ["inputs", "configurations"], "every kind of range and every special energy of it",
     "the special energies of a file (exact zeros of a denominator or of a wave number) are single numbers a test hits only if it is written for them",
     [M + "Reconstructor.hpp", M + "Channel/", M + "src/calculateCoulombPhaseShift.hpp", M + "src/calculatePenetrability.hpp", M + "SpinGroup/", L + "resolved/", L + "unresolved/"],
     [("1/k^2, Coulomb functions at k = 0", M + "Channel/src/"), ("denominators of the line shapes", L + "resolved/")],
     "property-based testing: generated ranges evaluated at their special energies, finiteness as the oracle", "generated resonance ranges")

prop("C29", "Equivalent ENDF data give the same cross sections",
     "The same physics written down in different ways in ENDF gives the same cross sections to rounding: one s-wave resonance per J as single-level Breit-Wigner, multi-level Breit-Wigner, Reich-Moore or R-matrix limited; any Reich-Moore range (constant radii) translated to R-matrix limited; R-matrix limited widths given as widths or as the reduced widths they stand for, and pairs, groups, channels and resonances in any order; a constant radius given by AP or as a table, with the NAPS that means the same radii; constant average parameters of the unresolved range in its three representations. A resonance with neutron width 0 changes nothing, nor does exchanging the two fission widths of every resonance of a Reich-Moore range or reversing the sign of one fission column.",
     ["inputs", "configurations"], "every representation of resolved and unresolved data, every NRO and NAPS",
     "the tests check each representation against its own numbers; that two representations agree is a relation between evaluations that no test has both of",
     [M + "src/fromENDF.hpp", M + "src/makeReichMooreCompoundSystem.hpp", M + "src/makeReichMooreChannelData.hpp", M + "src/makeCompoundSystem.hpp", M + "src/makeParticleChannelData.hpp", M + "src/makeParticleChannels.hpp", M + "src/makeLegacyBreitWignerCompoundSystem.hpp", M + "src/makeLegacyUnresolvedCompoundSystem.hpp", M + "src/makeChannelRadii.hpp", M + "src/makeChannelRadiusTable.hpp", L + "resolved/", L + "unresolved/"],
     [("one conversion per representation", M + "src/make*.hpp"), ("choice of the radii by NRO and NAPS", M + "src/makeChannelRadii.hpp")],
     "property-based testing: metamorphic and differential relations between representations of generated data", "generated resonance ranges; the reference model only bounds the rounding error")
prop("C30", "Symmetries of the collision matrix",
     "Cross sections of a compound system obey the symmetries of the R-matrix theory: detailed balance, k^2 (2i+1)(2I+1) sigma(a->b) at one energy equals the same product for b->a in the system entered through b at the corresponding energy; channels of the same reaction with equal penetrability, shift and phase (fission or photon channels, channel spins) can be mixed by any rotation of their reduced widths common to all resonances; for a single resonance an eliminated capture width is the same as an explicit photon channel with that width; the phase shifts change no reaction other than elastic scattering. Both boundary conditions.",
     ["inputs"], "generated systems of 1-3 groups with neutron, proton, alpha, photon and fission channels",
     "no test evaluates two systems that are related by a symmetry; an error in a spin factor, a mass ratio or one off-diagonal element can agree with every reference value at the tested point",
     [M + "SpinGroup/", M + "CompoundSystem/", M + "Channel/", M + "ParticlePair/", M + "RLMatrixCalculator/", M + "LMatrixCalculator/", M + "Resonance/src/rmatrix.hpp"],
     [("T matrix and cross sections of a spin group", M + "SpinGroup/src/evaluate.hpp"), ("wave number and statistical factor", M + "Channel/src/")],
     "property-based testing: metamorphic relations between transformed systems", "generated systems; the reference model only bounds the rounding error of the transformation")


def main():
    claimed = [p for props in run.GROUPS.values() for p in props]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                   technique=t, level="exploration", level_note=n) for p, t, n in P if p["id"] in claimed]
    manifest = dict(version=1, setup_cmd="python3 run.py --build-all", checks=checks,
                    not_applicable=[dict(property=p["id"], reason="check under construction") for p, _, _ in P if p["id"] not in claimed])
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    assert set(claimed) <= {p["id"] for p, _, _ in P}


main()
