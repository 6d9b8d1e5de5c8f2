#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/rxn_network/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "state": state or [], "hook_needed": None}})

p("R01", "Balanced reactions conserve every element",
  "Whenever balancing a set of reactants and products (compositions, formulas, or entries; closed or open) reports zero errors, the resulting coefficients conserve every element, are strictly negative for every given reactant and strictly positive for every given product, and the reaction is marked balanced. The number of errors reported otherwise is exactly the number of species whose coefficient has the wrong sign or vanishes, and species that cannot be balanced at all give an unbalanced composition reaction. A reaction built directly from compositions and coefficients is marked balanced exactly when its coefficients conserve every element.",
  ["inputs"], "every list of reactant and product compositions/entries, every coefficient vector",
  "Tests balance a dozen fixed chemistries; the guarantee is over all compositions, including rank-deficient systems and ones where species change side.",
  ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
  [("pseudo-inverse balancing with constraint search", "reactions/basic.py:_balance_coeffs"), ("balanced flag", "reactions/basic.py:BasicReaction.__init__"), ("ComputedReaction.balance / OpenComputedReaction.balance", "reactions/computed.py, reactions/open.py")],
  ["BasicReaction.balance", "BasicReaction.from_formulas", "ComputedReaction.balance", "OpenComputedReaction.balance", "BasicReaction(...)"])

p("R02", "Normalizing, reversing and copying keep the same reaction",
  "Normalizing a reaction to one of its compositions (or elements) multiplies all coefficients by one common positive factor, so that composition's coefficient has exactly the requested magnitude (or that element the requested amount) and every sign is kept; reversing negates every coefficient; copying changes nothing. All of these keep species order, entries, data and error count of a computed reaction, never modify the original reaction, and a doubly reversed reaction equals the original.",
  ["inputs"], "every reaction (basic, computed, open), every composition or element in it, every positive factor",
  "Tests normalise two or three reactions by factor 1; scale-invariance and non-mutation are over all coefficient vectors and factors.",
  ["reactions/basic.py", "reactions/computed.py", "reactions/open.py"],
  [("normalize_to / normalize_to_element / reverse / copy", "reactions/basic.py, reactions/computed.py, reactions/open.py")])

p("R03", "Mixing fractions of a balanced reaction are a partition of unity",
  "For a balanced reaction the atomic fractions of the reactants, the atomic fractions of the products, the molar fractions of the reactants and the molar fractions of the products are all positive and each sum to one; each molar fraction is proportional to the species' coefficient and each atomic fraction to coefficient times the species' number of atoms. For a reaction with open elements the same holds with atoms counted over the non-open elements only. Asking an unbalanced reaction for fractions raises an error.",
  ["inputs"], "every balanced reaction with closed or open elements",
  "Tests check fractions for single reactions; a missing factor shows only when coefficients differ from one.",
  ["reactions/basic.py", "reactions/open.py"],
  [("reactant/product atomic and molar fractions, num_atoms", "reactions/basic.py, reactions/open.py")])

p("R04", "Reaction energy is the coefficient-weighted sum of formula energies",
  "The energy of a computed reaction equals the sum over its species of coefficient times the entry's energy per reduced formula unit; with open elements each non-open-element phase contributes its energy minus the chemical potential times its amount of each open element, and the pure open element contributes its own energy. Energy per atom is that energy divided by the number of (non-open) atoms on one side, so it is unchanged when the reaction is scaled and changes sign when it is reversed, and the propagated uncertainty is non-negative and independent of the formula multiple an entry is written in.",
  ["inputs"], "every reaction, every entry (any multiple of its reduced formula), every chemical potential",
  "Tests compare a few reaction energies with recorded numbers; linearity, reduction factors and chemical potential terms quantify over all entries.",
  ["reactions/computed.py", "reactions/open.py"],
  [("energy, energy_per_atom, energy_uncertainty, elements/num_atoms", "reactions/computed.py, reactions/open.py, reactions/base.py")])

p("R05", "Reaction equality and identity compare chemistry, not notation",
  "Reaction equality is reflexive, symmetric and independent of the order in which species are listed; two reactions compare equal only if they have the same reactants and the same products in which each phase has the same coefficient (and, for computed reactions, the same energy per atom), and reactions built from the same species with the same coefficients always have the same hash. A reaction is an identity exactly when its reactants and products coincide with equal and opposite coefficients. A target is separable exactly when every other product is a common gas or made only of elements absent from the target.",
  ["inputs"], "every pair of reactions, every permutation of species, every target",
  "Tests compare a handful of pairs; order-independence and hash agreement quantify over all pairs and permutations.",
  ["reactions/basic.py", "reactions/computed.py"],
  [("__eq__/__hash__/is_identity/is_separable", "reactions/basic.py, reactions/computed.py")])

p("R06", "A reaction set stores and returns exactly the reactions put into it",
  "Building a reaction set from a collection of reactions (entries identified by their id, open reactions sharing one open-element treatment) and iterating it yields exactly those reactions (same entries, coefficients, data, open element and chemical potential), each as often as it was given, and its length is their number. Adding reactions or another set with the same entries gives the multiset union and leaves the operands unchanged; a different entry list is rejected. Re-assigning a chemical potential changes only the open-element treatment, and set statistics such as costs or the data frame have one value per stored reaction computed from that reaction.",
  ["inputs", "histories"], "every collection of reactions of mixed sizes, every sequence of add / set-chempot operations",
  "Tests round-trip one fixed set; grouping by size, index mapping and shared-entry lookups must hold for every mixture of reactions.",
  ["reactions/reaction_set.py"],
  [("from_rxns, get_rxns, add_rxns, add_rxn_set, set_chempot, calculate_costs, to_dataframe", "reactions/reaction_set.py")])

p("R07", "Duplicate filtering keeps exactly one representative per reaction",
  "Filtering duplicates from a reaction set returns a subset in which no reaction is a positive multiple of another on the same phases (unless the caller asked to keep both), yet every original reaction is a positive multiple of some kept one. Every reaction the caller asked to keep is kept (a request to keep one that is absent is an error), and the parallel and serial modes give the same reactions for any number of CPUs and any completion order of the workers.",
  ["inputs", "schedules"], "every reaction set with repeated, scaled, reversed or column-permuted reactions; every ensured subset; every worker schedule and CPU count",
  "Tests filter one set with one CPU count; multiples hidden behind permuted columns, ensured duplicates and worker orders are not enumerated.",
  ["reactions/reaction_set.py", "utils/ray.py", "utils/funcs.py"],
  [("filter_duplicates, _get_idxs_to_keep, _process_duplicates", "reactions/reaction_set.py")])

p("R08", "Queries by reactant or product return exactly the matching reactions",
  "Asking a reaction set for the reactions that make a product returns all and only the stored reactions in which a phase of that formula is produced; asking by reactants returns all and only those whose reactants are all in the given list. The reactions come back unchanged, in iterable or set form, wherever the phase sits in the entry list.",
  ["inputs"], "every reaction set, every formula, every reactant list, every entry order",
  "Tests query one formula in one set; index-zero phases, polymorphs and absent formulas are not tried.",
  ["reactions/reaction_set.py"],
  [("get_rxns_by_product, get_rxns_by_reactants, _get_rxns_by_indices, _get_rxn_set_by_indices", "reactions/reaction_set.py")])

p("R09", "Entry sets behave as mutable sets with coherent caches",
  "After any sequence of additions, removals, discards and set operations an entry set contains exactly the entries that ordinary set algebra predicts, and its length, iteration and membership agree with that. Every derived view (entry list, phase diagrams, minimum-energy lookup, chemical system) always reflects the current content and never a state before the last change, and copies and set operations do not modify their operands.",
  ["histories", "inputs"], "every sequence of mutations interleaved with reads of the derived views",
  "Tests mutate a set once; stale caches only show for particular read/mutate interleavings.",
  ["entries/entry_set.py"],
  [("add/discard/remove/update/copy, cached properties and cache clearing", "entries/entry_set.py")],
  state=[{"name": "_entries", "meaning": "the backing set", "where": "entries/entry_set.py"}])

p("R10", "Entry selection returns the ground state and the right chemical subsystem",
  "The minimum-energy entry of a formula has that reduced formula and no other entry with it has lower energy per atom, and an unknown formula is an error. The subset for a chemical system contains all and only the entries whose elements lie in it. Filtering by stability with a tolerance keeps all and only the entries whose energy above hull is within the tolerance (always all entries on the hull), at most one, the lowest, per composition unless polymorphs are requested, and stabilizing an entry puts it on the hull without altering others.",
  ["inputs"], "every set of entries, formula, chemical system and tolerance",
  "Tests use two recorded entry sets and one tolerance; ties, polymorphs and boundary tolerances are not covered.",
  ["entries/entry_set.py"],
  [("get_min_entry_by_formula, get_subset_in_chemsys, filter_by_stability, get_stabilized_entry, get_entries_with_new_temperature", "entries/entry_set.py")])

p("R11", "Conversion to Gibbs entries covers every compound once from the right source",
  "Converting computed entries into a Gibbs entry set at a temperature yields, for each compound, the estimated Gibbs entry unless a tabulated experimental source that is switched on contains the compound, in which case only the tabulated entries are used for it; every element is represented by its reference phase with zero formation energy. No compound is lost or duplicated, switched-off sources are never used, the requested temperature is carried by every entry, and the requested stability pre-filter and corrections are applied on every code path.",
  ["inputs", "configurations"], "every phase diagram, temperature and combination of source/correction switches",
  "Tests convert one data set with default switches; the combinations of sources, size limits and temperatures are not enumerated.",
  ["entries/entry_set.py", "entries/nist.py", "entries/freed.py", "entries/corrections.py"],
  [("from_computed_entries, from_pd", "entries/entry_set.py")])

p("R12", "Temperature changes are path-independent",
  "Changing an entry, a reaction, a reaction set or an entry set to a new temperature gives the same energies as creating it at that temperature in the first place, whatever temperatures it visited before, and leaves the original unchanged (tabulated entries outside their tabulated range are left out or refused). Energies of tabulated temperatures equal the table; between tabulated temperatures they follow the linear interpolation of the two neighbours, and energies scale with the formula multiple while per-atom energies do not.",
  ["histories", "inputs"], "every sequence of temperature changes in the supported range, every entry kind and formula multiple",
  "Tests change temperature once to a table value; histories, non-table temperatures and formula multiples are not explored.",
  ["entries/gibbs.py", "entries/experimental.py", "entries/entry_set.py", "reactions/computed.py", "reactions/open.py", "reactions/reaction_set.py"],
  [("get_new_temperature, gf_sisso, _sum_g_i, _get_energy, set_new_temperature, compute_at_temperatures", "entries/gibbs.py, entries/experimental.py, reactions/*.py")])

p("R13", "Enumeration returns all and only the reactions the settings allow",
  "In a chemical system of two to nine elements, every reaction returned by an enumerator is balanced without errors, is not an identity, uses only phases of the given entry set, has at most the allowed number of (non-open) phases per side, and satisfies the precursor, target and exclusivity settings; open reactions involve the open phases. Conversely every zero-error balanceable reaction between the candidate phase combinations that satisfies the settings is returned (up to multiples), so enumeration is sound and complete.",
  ["inputs", "configurations"], "every entry set, every combination of precursors, targets, open phases, exclusivity, size limit",
  "Tests compare counts on one recorded entry set; missing or extra reactions for other settings stay invisible.",
  ["enumerators/basic.py", "enumerators/utils.py"],
  [("BasicEnumerator/BasicOpenEnumerator.enumerate, _react, combination filters", "enumerators/basic.py, enumerators/utils.py")])

p("R14", "Free-energy-minimizing enumeration finds the convex-hull reactions",
  "Each reaction found by the minimizing enumerators for a set of reactants is balanced, consumes only those reactants (plus the open element), and has as products the phases that minimize the (grand) free energy at its mixing ratio, so no product decomposes favourably. Precursor, target and chemical-system settings restrict the combinations of phases exactly as for basic enumeration, and the reaction at every kink of the hull along the mixing line of two allowed reactants is found (given an open element: if it takes part in that reaction).",
  ["inputs", "configurations"], "every entry set and every setting of the minimizing enumerators, every chemical potential",
  "Tests compare counts on one data set.",
  ["enumerators/minimize.py", "enumerators/utils.py"],
  [("MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator, react_interface", "enumerators/minimize.py, enumerators/utils.py")])

p("R15", "Parallel work is neither lost nor repeated",
  "Splitting work into chunks keeps every item exactly once and in order with only the fill value as padding; size-limited subsets are enumerated exactly once each, from single items up to the limit. Collecting results of parallel tasks yields each task's result exactly once under every completion order, and running several enumerators gives the union of their reactions; serial and parallel execution and every chunk and batch size give the same reactions.",
  ["inputs", "schedules", "configurations"], "every iterable, chunk size and subset limit; every completion order of tasks; every chunk/batch/parallel setting",
  "Tests run one chunk size on one machine schedule.",
  ["utils/funcs.py", "utils/ray.py", "enumerators/utils.py", "enumerators/basic.py"],
  [("grouper, limited_powerset, to_iterator, run_enumerators, chunked enumeration", "utils/funcs.py, utils/ray.py, enumerators/utils.py, enumerators/basic.py")])

p("R16", "Cost functions depend only on the weighted parameters and are monotone",
  "The weighted-sum cost equals the sum of weight times parameter, where a parameter is read from the reaction's data if present there and otherwise from the reaction itself, and a missing parameter is an error. The softplus cost equals ln(1 + (273/T) exp(weighted sum)): it is always positive, strictly increases with the weighted sum, and decreases with temperature; a non-positive temperature is rejected. Evaluating a cost never changes the reaction.",
  ["inputs"], "every reaction, parameter list, weight vector and temperature",
  "Tests evaluate one or two reactions with default weights.",
  ["costs/functions.py"],
  [("Softplus.evaluate, WeightedSum.evaluate", "costs/functions.py")])

p("R17", "The Pareto front is exactly the set of non-dominated reactions",
  "For any table of reactions and any choice of metrics (minimized), the reported front contains exactly the distinct points not dominated by any other: no reported point is dominated by another point of the table, and every row left out is dominated by, or has the same metrics as, a reported one. The input table is not modified, and mask and index forms agree.",
  ["inputs"], "every finite cost matrix, including ties, duplicates and single rows",
  "Tests use one small frame; ties, duplicates and late dominators need particular row orders.",
  ["costs/pareto.py"],
  [("get_pareto_front, is_pareto_efficient", "costs/pareto.py")])

p("R18", "Calculators annotate copies and never alter the reaction",
  "Decorating a reaction returns a new reaction equal to the original with exactly one more data item, under the calculator's name, holding the calculated value; the original reaction and its data stay unchanged, and the batch forms agree element by element and in order with the single forms. The chemical potential distance equals the chosen aggregate (sum, mean, maximum or a supplied function) over all reactant-product and product-product pairs of the shortest domain distance with metastability offsets.",
  ["inputs"], "every calculator, every reaction, every aggregation function",
  "Tests decorate one reaction per calculator.",
  ["costs/base.py", "costs/calculators.py"],
  [("Calculator.decorate/decorate_many/calculate_many, ChempotDistanceCalculator", "costs/base.py, costs/calculators.py")])

p("R19", "Interface reaction hulls give exact convex-hull competition metrics",
  "In an interface reaction hull every reaction sits at its reactant mixing ratio with its energy per atom, energies above hull are non-negative and zero exactly for the reactions on the lower hull. The primary competition of a reaction is its energy minus the most negative competing energy (or zero when there is none below zero); the recursive and non-recursive secondary competition agree and are the negated mean, over all ways of decomposing both sides of the hull, of the total decomposition energy, hence never below zero. The weight-normalized decomposition counts follow the Catalan numbers.",
  ["inputs"], "every set of reactions between two reactants, every reaction on or above the hull",
  "Tests compare recorded numbers for two hulls; hulls with many vertices or with reactions off the hull vary freely.",
  ["reactions/hull.py"],
  [("InterfaceReactionHull: coordinates, hull, primary/secondary competition", "reactions/hull.py")])

p("R20", "The network graph encodes exactly its reactions, precursors and target",
  "The reaction network contains for every reaction a path from its reactant set node to its product set node whose cost is the reaction's cost, and joins any product node to every reactant node that can be formed from those products together with the precursors at zero cost (reactant nodes contained in the precursors alone are reached from the precursors node instead). Setting precursors or a target adds links from the precursors and to the target exactly where contained phases allow, and the resulting graph depends only on the reactions and the current precursors and target, not on the order or number of earlier settings.",
  ["histories", "inputs"], "every reaction set, every sequence of precursor and target settings",
  "Tests build one network and count nodes and edges; stale or duplicated links after re-setting precursors are not looked for.",
  ["network/network.py", "network/base.py", "network/entry.py"],
  [("build, set_precursors, set_target, get_loopback_edges, update_edge_costs", "network/network.py, network/base.py, network/entry.py")])

p("R21", "Shortest-path search returns the k cheapest distinct simple paths",
  "The path search returns paths that start at the source, end at the target and follow existing edges, visit no node twice, are pairwise distinct and come in order of non-decreasing total cost. They are the k cheapest such paths (all of them if fewer exist), the search never changes the graph, and the reactions listed for a path are those on its edges.",
  ["inputs"], "every weighted directed graph, source, target and k",
  "Tests search one small network with k up to 5; deviation bookkeeping errors show only on graphs with shared prefixes.",
  ["network/network.py", "network/base.py"],
  [("yens_ksp, ReactionNetwork.find_pathways, path_to_reactions", "network/network.py")])

p("R22", "Balanced pathways add up to the net reaction",
  "Every pathway returned by the pathway solver has strictly positive multiplicities with which its reactions sum to the requested net reaction for every phase, each of its reactions carries its own cost, and pathways come sorted by average cost without repetition. Every combination of candidate reactions up to the size limit (other than the net reaction itself, and with the interdependence filter off) with a unique such positive combination is found, regardless of chunk or batch size.",
  ["inputs", "configurations"], "every set of candidate reactions, every net reaction, every chunk and batch size",
  "Tests solve one chemistry and check the number of paths.",
  ["pathways/solver.py", "pathways/balanced.py"],
  [("PathwaySolver.solve, _create_comp_matrices, _balance_path_arrays_cpu", "pathways/solver.py")])

p("R23", "Pathways report consistent members, costs and equality",
  "A pathway's overall reactants are the phases consumed but never produced in it, its products those produced but never consumed, its intermediates those both; total cost is the sum and average cost the multiplicity-weighted mean of the step costs. Two pathways compare equal only if they consist of the same steps (and for balanced pathways the same costs), equal pathways have equal hashes whenever their reactions do, and storing pathways in a pathway set and reading them back returns the same pathways in the same order.",
  ["inputs"], "every list of reactions, costs and multiplicities, every collection of pathways",
  "Tests compare a few fixed pathways of equal length.",
  ["pathways/base.py", "pathways/basic.py", "pathways/balanced.py", "pathways/pathway_set.py"],
  [("Pathway properties, __eq__/__hash__, average_cost, PathwaySet.from_paths", "pathways/*.py")])

p("R24", "Phase-diagram expansion and chemical potential distances are consistent",
  "Expanding entries into phase diagrams covers every chemical system spanned by the entries with a diagram containing all and only its entries, and looking up a composition always finds one that covers it. In a chemical potential diagram the distance between two phases is symmetric, zero for a phase with itself and for adjacent phases, never negative, metastable phases are handled by an offset equal to their energy above hull divided by the norm of their composition vector, and asking for distances never changes the diagram or its entries.",
  ["inputs", "histories"], "every entry set, every pair of phases, every sequence of queries",
  "Tests query a few pairs once each.",
  ["thermo/utils.py", "thermo/chempot_diagram.py"],
  [("expand_pd, ChemicalPotentialDiagram.shortest_domain_distance/get_offset", "thermo/utils.py, thermo/chempot_diagram.py")])

p("R25", "Serialization round-trips every object",
  "Converting an entry, entry set, reaction, reaction set, pathway, pathway set, cost function, enumerator, reaction hull or network to its dictionary form and back yields an equal object (same species, coefficients, energies, temperatures, open elements, chemical potentials, settings, graph and data), also after a pass through JSON. Serializing or deserializing does not modify the object or the dictionary it was given.",
  ["inputs"], "every object of these kinds with every option set",
  "Tests round-trip default-constructed fixtures.",
  ["reactions/open.py", "reactions/reaction_set.py", "network/network.py", "entries/gibbs.py", "entries/experimental.py", "entries/interpolated.py", "pathways/pathway_set.py"],
  [("as_dict/from_dict overrides and MSONable constructors", "across the package")])

p("R26", "Job-level selectivity scores follow from the competing reactions",
  "The synthesis-planning jobs annotate each target reaction with scores computed from exactly the competing reactions that share its one or two non-open reactants, at the same chemical potential and temperature; each target reaction appears exactly once in the output with its own scores, and chemical potential distances are those of the reaction's own chemical system, whatever the batch size or order in which workers finish.",
  ["inputs", "schedules", "configurations"], "every set of target and competing reactions, every chunk and batch size, every worker schedule",
  "Tests run the job once on one data set.",
  ["jobs/core.py", "jobs/utils.py"],
  [("CalculateCompetitionMaker, _get_decorated_rxn", "jobs/core.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
