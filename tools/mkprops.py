"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

R = "abcvoting/abcrules.py"
G = "abcvoting/abcrules_gurobi.py"
M = "abcvoting/abcrules_mip.py"
O = "abcvoting/abcrules_ortools.py"
S = "abcvoting/scores.py"
P = "abcvoting/properties.py"
F = "abcvoting/fileio.py"
PR = "abcvoting/preferences.py"
MI = "abcvoting/misc.py"
GE = "abcvoting/generate.py"
OU = "abcvoting/output.py"

props = []


def add(id, title, statement, over, text, why, files, mech, observe):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


add("C01", "Every rule returns well-formed committees",
    "For every valid profile, committee size k, rule, available algorithm and resolute setting, the result is a non-empty list of CandidateSet objects, each consisting of exactly k distinct existing candidates (at most k for Equal Shares without completion). No committee occurs twice, the list is in canonical sorted order, and with resolute=True it contains exactly one committee.",
    ["inputs", "configurations"], "all profiles (unit, integer and fractional weights; empty ballots; unapproved candidates; two-digit candidate numbers), all k, all rule x algorithm x resolute combinations",
    "the tests run about 20 fixed profiles with mostly unit weights and at most 8 candidates; well-formedness is never asserted for arbitrary profiles",
    [R, G, M, O, MI], [("sorted_committees / CandidateSet", MI), ("enumeration loops of the solver back ends", G), ("compute functions", R)],
    ["return value of abcrules.compute()"])
add("C02", "Resolute and truncated results are drawn from the full winner set",
    "The committee returned with resolute=True is one of the committees returned with resolute=False by the same rule and algorithm. With max_num_of_committees=N the result consists of exactly min(N, number of winning committees) distinct members of the full set of winning committees.",
    ["inputs", "configurations"], "all profiles, all k, all N, all rule x algorithm combinations supporting resolute=False",
    "tests check max_num_of_committees on a handful of profiles and N values",
    [R, G, M, O], [("early exit of enumeration / parallel-universe search", R), ("blocking constraints and termination of ILP enumeration", G)],
    ["return value of abcrules.compute()"])
add("C03", "All algorithms of a rule compute the same winners",
    "For every rule with several available algorithms (ILP solvers, CP solver, branch-and-bound, brute-force, float and exact arithmetic), all of them return the same set of winning committees for the same profile and committee size. The choice algorithm=\"fastest\" gives this set, too.",
    ["inputs", "configurations"], "all profiles with moderate weights, all k, all pairs of available algorithms of a rule",
    "the tests compare algorithms on some fixed and few random profiles; solver tolerance, enumeration and tie bugs need particular tie structures",
    [R, G, M, O], [("committeescorefct verification inside the ILP loops", G), ("_optimize_rule_mip", M), ("_optimize_rule_ortools", O), ("float tie comparison via isclose", R)],
    ["return value of abcrules.compute() per algorithm"])
add("C04", "Thiele rules and lex-CC return exactly the optimal committees",
    "For PAV, SLAV, CC and the geometric rules, the winning committees are exactly the size-k committees with maximum weighted Thiele score as defined by the rule's marginal score function. For lex-CC they are exactly the committees whose vector (total weight of voters with at least 1, at least 2, ... approved members) is lexicographically maximal.",
    ["inputs"], "all profiles and committee sizes; every algorithm of the rule",
    "expected outputs exist for a few profiles only; optimality is a for-all over all committees of every profile",
    [R, G, M, O, S], [("get_marginal_scorefct / thiele_score", S), ("_thiele_methods_branchandbound", R), ("_gurobi_thiele_methods, _gurobi_lexcc", G), ("_mip_thiele_methods", M), ("_ortools_cc", O)],
    ["return value of abcrules.compute()"])
add("C05", "AV and SAV return exactly the committees with maximum total score",
    "Under AV (SAV) a candidate's score is the total weight of its approvers (each divided by the size of the approver's ballot). With resolute=False the result is exactly the set of all size-k committees with maximum total score, including every tie; the scores are compared exactly.",
    ["inputs"], "all profiles and committee sizes, in particular ties between sums of different fractions",
    "ties between different sums of fractions do not occur in the test profiles",
    [R], [("_separable_rule_algorithm", R)], ["return value of compute_av / compute_sav"])
add("C06", "Minimax AV rules minimise the Hamming distances exactly",
    "Minimax AV returns exactly the size-k committees minimising the maximum Hamming distance to a voter's ballot. Lexicographic minimax AV returns exactly the committees whose vector of Hamming distances, sorted from largest to smallest, is lexicographically minimal.",
    ["inputs"], "all profiles (unit weights for the lexicographic variant), all committee sizes, all algorithms",
    "few expected outputs; empty and full ballots and multi-level ties are rare in them",
    [R, G, M, O, S], [("_minimaxav_bruteforce, _lexminimaxav_bruteforce", R), ("_gurobi_minimaxav, _gurobi_lexminimaxav", G), ("minimaxav_score", S)],
    ["return value of compute_minimaxav / compute_lexminimaxav"])
add("C07", "Monroe and Greedy Monroe follow balanced assignments",
    "Monroe returns exactly the size-k committees with the largest number of voters represented by an approved member in a balanced assignment, in which every member is assigned floor(n/k) or ceil(n/k) voters. The committee of Greedy Monroe results from repeatedly picking a candidate with most approvals among the remaining voters and removing up to one district of its supporters.",
    ["inputs"], "all unit-weight profiles and committee sizes (dividing n or not, k larger than n), all algorithms",
    "tests contain few profiles where k does not divide n",
    [R, G, M, O, S], [("monroescore_matching / monroescore_flowbased", S), ("_gurobi_monroe, _mip_monroe, _ortools_monroe", G), ("_greedy_monroe_algorithm", R)],
    ["return value of compute_monroe / compute_greedy_monroe"])
add("C08", "minimax- and leximax-Phragmen return exactly the optimal load balancings",
    "When each member of a committee distributes one unit of load over its approvers, minimax-Phragmen returns exactly the committees whose smallest achievable maximum load per voter is minimal, and leximax-Phragmen exactly those whose sorted load vector is lexicographically minimal. A voter with integer weight w counts as w voters; if fewer than k candidates are approved by anyone, the winning committees are all completions of the approved candidates.",
    ["inputs"], "all profiles, committee sizes, available algorithms",
    "the tests have a few expected outputs with unit weights; load optima are continuous quantities computed by solvers with tolerances",
    [G, M, R], [("_gurobi_minimaxphragmen, _gurobi_leximaxphragmen", G), ("_mip_minimaxphragmen", M)],
    ["return value of compute_minimaxphragmen / compute_leximaxphragmen"])
add("C09", "Sequential Thiele rules follow their greedy process with all ties",
    "Sequential (reverse sequential) Thiele rules return, with resolute=False, exactly the committees reachable by repeatedly adding a candidate with maximum marginal score (removing one with minimum marginal score) under every possible way of breaking ties. With resolute=True, ties are broken in favour of candidates with smaller index.",
    ["inputs"], "all profiles, committee sizes, Thiele score functions",
    "parallel-universe results are tested on a few profiles with few ties",
    [R, S], [("_seq_thiele_*, _revseq_thiele_*", R), ("marginal_thiele_scores_add / _remove", S)],
    ["return value of compute_seq_thiele_method / compute_revseq_thiele_method"])
add("C10", "seq-Phragmen and maximin support follow their definition with all ties",
    "seq-Phragmen repeatedly adds a candidate that minimises the new (equal) load of its approvers; the maximin support method repeatedly adds a candidate that maximises the smallest support over the committee in an optimal distribution of votes. With resolute=False, exactly the committees reachable under all tie-breakings are returned; with resolute=True ties are broken in favour of the smaller index.",
    ["inputs"], "all profiles (integer and fractional weights of any magnitude), committee sizes, available algorithms",
    "few profiles, no small fractional weights, few unapproved candidates",
    [R, G, M], [("_seqphragmen_resolute / _irresolute", R), ("_maximin_support_* ", R), ("maximin support score functions", G)],
    ["return value of compute_seqphragmen / compute_maximin_support"])
add("C11", "The Method of Equal Shares spends budgets as defined",
    "Each voter gets budget k*weight/total weight; while some candidate is affordable at price 1, one with minimal maximum payment per unit of weight is bought. Remaining seats are filled as requested: by seq-Phragmen started with the leftover budgets, by approval score, by increasing the budgets as for the smallest larger virtual committee size that fills all seats, or not at all; with resolute=False all tie-breakings (in both phases) are explored.",
    ["inputs", "configurations"], "all profiles, weights, committee sizes, completions, arithmetic back ends",
    "tests sample a few profiles, mostly without ties in both phases and without fractional weights",
    [R], [("_equal_shares_algorithm", R), ("_equal_shares_algorithm_with_increment_completion", R)],
    ["return value of compute_equal_shares"])
add("C12", "Enestroem, consensus, EPH, RSD and trivial rules follow their process",
    "Phragmen-Enestroem, the consensus rule and E Pluribus Hugo return exactly the committees reachable in their defining budget, payment and elimination processes under all tie-breakings. Random serial dictatorship returns a committee that a random order of the voters produces, all orders being equally likely; the trivial rule returns all size-k committees.",
    ["inputs"], "all profiles (unit weights for RSD), committee sizes, arithmetic back ends, random seeds",
    "few expected outputs; exhausted budgets and unapproved candidates are rare",
    [R], [("_phragmen_enestroem_algorithm", R), ("_consensus_rule_algorithm", R), ("_eph_algorithm", R), ("compute_rsd", R)],
    ["return value of abcrules.compute()"])
add("C13", "Rules are anonymous and neutral",
    "Reordering the voters of a profile does not change the set of winning committees (resolute=False) of any rule. Renaming the candidates by a permutation changes the set of winning committees exactly by that permutation.",
    ["inputs"], "all profiles and permutations, all rules with resolute=False, every algorithm",
    "no test permutes voters or candidates",
    [R, G, M, O], [("compute functions", R)], ["return value of abcrules.compute()"])
add("C14", "Integer weights mean copies of voters",
    "For every rule that accepts weighted profiles, replacing a voter of integer weight w by w identical voters of weight 1 (also via the profile's conversion methods) does not change the set of winning committees. Multiplying all weights by the same positive factor does not change it either.",
    ["inputs"], "all profiles with integer weights, all factors (integer and fractional), all rules supporting weights",
    "tests use weighted profiles on a few rules and never compare with expanded profiles across all rules",
    [R, G, M, PR, S], [("voter.weight factors in every rule", R), ("convert_to_unit_weights / convert_to_weighted", PR)],
    ["return value of abcrules.compute()"])
add("C15", "Computing winners is a pure function of profile and parameters",
    "Computing any rule leaves the profile (voters, weights, approval sets, candidate names) and the global verbosity unchanged. The result does not depend on earlier calls or on how the profile came about (modifications and copies in between), on the verbosity level, or on candidate names, and repeating a call gives the same list of committees (except for RSD and for the order or choice among tied committees of the parallel solver ortools-cp).",
    ["histories", "configurations"], "all sequences of calls on shared profiles, all verbosity levels, all rules and algorithms",
    "tests run each rule in isolation, and only compare outputs of the examples at some verbosity",
    [R, G, M, O, OU], [("copies of budgets and loads", R), ("optional output sections", R)],
    ["return values, profile contents, output.verbosity"])
add("C16", "Invalid parameters are rejected, valid ones accepted",
    "Every compute function rejects committee sizes below 1 or above the number of candidates, empty profiles, non-positive or non-integer max_num_of_committees, max_num_of_committees together with resolute=True, unsupported weights, unknown rules, and unknown algorithms with ValueError (or a subclass), and unsupported resolute values with NotImplementedError. Axiom checks reject unknown properties, a quota where none is used and committees with invalid candidates (ValueError or TypeError), and unknown algorithms (NotImplementedError). Rejected calls leave the profile unchanged, and every other call succeeds.",
    ["inputs", "configurations"], "all combinations of valid and invalid parameters for all rules",
    "tests cover single invalid parameters for some rules",
    [R], [("Rule.verify_compute_parameters", R), ("Rule.__init__", R)], ["exceptions raised by compute functions and Rule()"])
add("C17", "Rules satisfy the representation axioms proved for them",
    "Every committee returned by PAV or Equal Shares (with Phragmen, AV or no completion) satisfies EJR+ (hence EJR); every committee of seq-Phragmen, leximax-Phragmen and maximin support satisfies PJR; every committee of CC, lex-CC, seq-CC and (if k divides the number of voters) Monroe and Greedy Monroe satisfies JR. seq-Phragmen and Equal Shares committees are priceable; PAV, SLAV, geometric, AV and lex-CC committees are Pareto optimal. On party-list profiles PAV, seq-PAV, seq-Phragmen and maximin support distribute seats by the D'Hondt method, SLAV and seq-SLAV by the Sainte-Lague method, Monroe and Greedy Monroe by the largest remainder method (if k divides the number of voters). On laminar elections seq-Phragmen and Equal Shares (with Phragmen, AV or no completion) elect laminar proportional committees. For committee-monotone rules (sequential and reverse sequential Thiele rules, seq-Phragmen, maximin support, consensus rule) the resolute committee of size k is contained in that of size k+1.",
    ["inputs"], "all unit-weight profiles, committee sizes, tie-breakings",
    "these are theorems over all profiles; tests sample a few",
    [R, P], [("rule implementations", R), ("property checkers", P)], ["committees returned by compute(); verified against independent definitions"])
add("C18", "JR, PJR, EJR, EJR+ and FJR checks decide their definitions",
    "For every profile, non-empty committee and quota, the JR, PJR, EJR, EJR+ and FJR checks return True exactly if the committee satisfies the definition of the axiom, stated via groups of voters with total weight at least ell times the quota (default: total weight / committee size). All available algorithms of a check return the same answer.",
    ["inputs", "configurations"], "all profiles incl. weighted, all committees incl. smaller or of any size, all quotas, both algorithms",
    "the tests have about a dozen fixed committees per axiom and default quota only",
    [P], [("_check_JR, _check_PJR_*, _check_EJR_*, _check_EJR_plus, _check_FJR_*", P)],
    ["properties.check, check_JR, check_PJR, check_EJR, check_EJR_plus, check_FJR"])
add("C19", "Pareto, priceability and core checks decide their definitions",
    "For every profile and non-empty committee, the Pareto check returns True exactly if no committee of the same size weakly improves all voters and strictly improves one; the (stable) priceability checks exactly if a (stable) price system exists; the core check exactly if no group of voters of sufficient total weight can deviate to a set of candidates it can afford (at most proportional size) that each member strictly prefers. All available algorithms of a check return the same answer.",
    ["inputs", "configurations"], "all profiles, committees, quotas (core), algorithms",
    "few fixed committees; ILP feasibility needs particular weights and sizes to go wrong",
    [P], [("_check_pareto_optimality_*, _check_priceability_gurobi, _check_stable_priceability_gurobi, _check_core_*", P)],
    ["properties.check and check_* functions"])
add("C20", "Property checks are consistent with each other and with full_analysis",
    "The answers of the checks respect the known implications (FJR implies EJR implies PJR implies JR, EJR+ implies EJR, core implies FJR, priceable with full committees implies PJR, stable priceability implies priceability and core). full_analysis returns exactly the individual answers for every property and leaves verbosity, profile and committee unchanged; the details printed for a failed check name a genuine counterexample.",
    ["inputs", "histories"], "all profiles, committees, verbosity levels",
    "implications are never tested; details are only compared as text for a few examples",
    [P], [("full_analysis", P), ("check", P), ("optional output of the checks", P)],
    ["properties.full_analysis return value, printed details"])
add("C21", "Score functions agree with their definitions",
    "The Thiele, Monroe (both methods), minimax AV and related scores of a committee equal their definitions exactly (as rationals), for every profile and committee of any size. The marginal contributions reported for adding or removing a candidate equal the difference of the total scores, and the cumulative score is the sum of the marginal scores.",
    ["inputs"], "all profiles, weights, committees (incl. empty and full), score functions",
    "tests use three fixed profiles",
    [S], [("thiele_score, cumulative_score, marginal_thiele_scores_*", S), ("monroescore*", S), ("minimaxav_score, num_voters_with_upper_bounded_hamming_distance", S)],
    ["functions of abcvoting.scores"])
add("C22", "Profiles behave like lists of weighted approval sets under any history",
    "After any sequence of adding, replacing, converting, copying and reading operations, a profile equals the list of (approval set, weight) pairs that the operations describe: length, iteration, indexing, total weight, unit-weight test, approved candidates, party-list test and text representations all agree with it. Copies (copy method, copy and deepcopy) are equal to the original in voters, weights and candidate names, and independent of it; conversions between weighted and unit-weight form preserve the weight of every approval set.",
    ["histories", "inputs"], "all operation sequences on profiles",
    "tests check single operations on fixed profiles",
    [PR], [("Profile methods", PR), ("_unique_voter", PR)], ["public methods of Profile and Voter"])
add("C23", "Invalid approval data never enters a profile",
    "Creating a voter, candidate set or profile, and adding or replacing voters, either succeeds with exactly the given data or raises TypeError or ValueError, and a rejected voter is never part of the profile. It is rejected exactly if approval sets contain duplicates, non-integers, negative numbers or numbers not below the number of candidates, if weights are not positive, or if there is no candidate or too few names.",
    ["inputs", "histories"], "all data handed to constructors and modifying methods, valid or not",
    "tests try a few invalid values",
    [PR, MI], [("CandidateSet.__init__", MI), ("Voter.__init__, Profile.__init__", PR)],
    ["exceptions and profile contents"])
add("C24", "YAML instances survive a write/read round trip",
    "Writing an instance (profile, committee size, description, list of rule computations with parameters and results) to a file and reading it back gives the same voters in the same order with the same weights, number of candidates, committee size, computations and results (candidate names are not stored). This holds for every valid profile.",
    ["inputs"], "all profiles incl. weighted ones and empty ballots, all computations",
    "tests round-trip a couple of fixed profiles",
    [F], [("write_abcvoting_instance_to_yaml_file, read_abcvoting_yaml_file", F)], ["file contents and returned objects"])
add("C25", "Preflib files survive a write/read round trip",
    "Writing a profile to a Preflib cat file and reading it back (with and without weights) gives the same number of candidates, the same candidate names and the same total weight for every approval set (for integer-valued weights and at least one voter; names are single-line strings without surrounding spaces).",
    ["inputs"], "all profiles with integer weights, names, empty ballots",
    "tests round-trip a few fixed profiles",
    [F], [("write_profile_to_preflib_cat_file, read_preflib_file", F)], ["file contents and returned profiles"])
add("C26", "Preflib ordinal and categorical files are read as documented",
    "Reading a Preflib file (soc, soi, toc, toi, cat) gives one approval set per ballot line, with the line's multiplicity either as weight (use_weights) or as that many voters in order. With setsize the approval set contains whole ties from the top until at least that many candidates are included (all candidates if fewer, but at least one, are ranked; none for an empty vote), with top_ranks exactly the candidates in the first ranks.",
    ["inputs", "configurations"], "all well-formed files, all values of setsize, top_ranks, use_weights",
    "tests read a few sample files and compare lengths",
    [F], [("read_preflib_file", F)], ["returned Profile"])
add("C27", "Malformed or unsuitable files are rejected cleanly",
    "Reading a file that is damaged (missing header, inconsistent counts, unknown candidates, non-numbers, wrong or missing keys) raises an exception, or returns a valid profile; never an invalid one (missing keys, unknown keys, wrong numbers of weights and unparsable Preflib text raise MalformattedFileException, Preflib files without ordinal or categorical preferences ValueError). Reading a directory returns the profiles of exactly its readable files in sorted order.",
    ["inputs", "fault_sequences"], "all corruptions of well-formed files; all directory contents",
    "tests contain two damaged files",
    [F], [("read_preflib_file, read_abcvoting_yaml_file, get_file_names, read_preflib_files_from_dir", F)], ["exceptions and returned objects"])
add("C28", "Random generators always return valid profiles of the requested shape",
    "Every documented probability distribution returns, for every admissible number of voters and candidates and every admissible parameter choice, a unit-weight profile with exactly these numbers whose approval sets are valid; with a fixed approval-set size every ballot has exactly this size. Equally seeded calls (generate.rng) return equal profiles and points. Parameters out of range, wrong numbers of points or radii, and mismatching dimensions are rejected with ValueError (missing or unknown parameters with KeyError or TypeError).",
    ["inputs", "configurations"], "all distributions, sizes, parameters and random seeds",
    "tests use one or two sizes and parameter values per distribution",
    [GE], [("random_profile and the distribution functions", GE)], ["returned Profile, exceptions"])
add("C29", "Structured generators keep their structural promise",
    "Euclidean models return ballots that are exactly determined by the distances between the returned voter and candidate points (radius, threshold or fixed size), and return given points unchanged. With extreme parameters (probabilities 0 or 1, dispersion 0, huge urn replacement, maximal sizes and radii) all models return the documented central, identical, disjoint, empty or full ballots; otherwise approval frequencies follow the documented parameters. Points drawn from a point distribution have its dimension, lie in its support and scatter around its center with its width.",
    ["inputs", "configurations"], "all parameters, sizes and random seeds",
    "tests check that no exception occurs, structure is not checked",
    [GE], [("random_euclidean_*_profile, PointProbabilityDistribution, random_point", GE), ("random_urn_partylist_profile, random_disjoint...", GE)],
    ["returned Profile and points"])
add("C30", "Output appears exactly when the verbosity says so",
    "Text sent to an output level is printed exactly if the level is at least the current verbosity, completely and (wrapping aside) unchanged; a configured logger receives it exactly according to its own level. At the default verbosity computing rules and checking properties prints nothing (at INFO or below it prints a report), and no such call, failing ones included, changes the verbosity.",
    ["histories", "configurations"], "all sequences of verbosity changes and messages; all rules at default verbosity",
    "tests check fixed messages",
    [OU], [("Output class", OU)], ["stdout and log records"])
add("C31", "Printed reports are truthful",
    "At verbosity INFO or more detailed, the report printed by a rule lists exactly the returned committees, with the profile's candidate names and the correct count. Scores, loads, budgets, tie-breaking and assignments given in the detailed report are those of the computation.",
    ["inputs", "configurations"], "all rules, profiles, names, verbosity levels",
    "the expected output of the examples pins a few runs",
    [R, MI, OU], [("optional output sections", R), ("str_committees_with_header", MI)], ["stdout"])
add("C32", "Committee helper functions satisfy their laws",
    "hamming, powerset, dominate, binom, sorted_committees, compare_list_of_committees and verify_expected_committees_equals_actual_committees agree with their mathematical definition for all arguments: symmetric difference size, all subsets up to a size in order, Pareto dominance between committees, binomial coefficients, canonical sorting without loss, and set equality of committee lists (membership for resolute results). Formatting functions list every candidate name in sorted order.",
    ["inputs"], "all candidate sets, profiles, lists of committees",
    "tests check single values",
    [MI], [("functions of abcvoting.misc", MI)], ["return values"])

add("C33", "Identifiers, entry points and defaults of a rule are interchangeable",
    "Every way of asking for the same computation gives the same committees: compute(rule_id), Rule(rule_id).compute, get_rule(rule_id).compute, the function of the rule, the generic functions (Thiele, sequential, reverse sequential, separable, Equal Shares with its completions), alternative and deprecated identifiers, positional or keyword arguments, and default parameters given explicitly or omitted. compute(..., result=expected) returns the committees if they are the expected ones (for resolute computations: if the committee is among them) and raises ValueError otherwise. A Rule object reports names, algorithms, available algorithms and resolute values consistently, and its default algorithm is its fastest available one.",
    ["inputs", "configurations"], "all profiles, committee sizes, rules, identifiers, algorithms and combinations of given and omitted parameters",
    "tests compare entry points on one or two profiles and with default parameters",
    [R], [("Rule, get_rule, compute", R), ("compute_rule_x, compute_equal_shares, compute_thiele_method, compute_separable_rule", R)],
    ["return values of all entry points"])
add("C34", "Related rules agree where theory demands it",
    "With one seat, AV, Thiele rules, sequential Thiele rules, Phragmen rules, Monroe rules, completed Equal Shares and the consensus rule elect exactly candidates with maximum total approval weight (reverse sequential rules excepted); with as many seats as candidates every rule (except Equal Shares without completion) elects all of them, and if a single candidate is left out, reverse sequential Thiele rules agree with the optimising rule. Winners of lex-CC, lexicographic minimax AV and leximax-Phragmen win under CC, minimax AV and minimax-Phragmen, and SAV equals AV if all ballots have one size. Candidates nobody approves do not influence which committees of other candidates win, empty ballots do not change the winners of AV, SAV, Thiele and Phragmen rules, full ballots do not change those of AV and Thiele rules, and the only candidate approved by all voters is elected by AV, Thiele rules with positive marginal scores, Phragmen rules and Equal Shares.",
    ["inputs", "configurations"], "all profiles, committee sizes and algorithms of these rules",
    "these relations between computations are not tested; each test looks at one rule and one profile",
    [R, G, M, O, S], [("compute functions of all rules", R), ("ILP formulations", G)], ["return values of abcrules.compute() on related inputs"])

add("C35", "Only the value of a voter's weight counts, not its numeric type",
    "Weights given as int or Fraction, as float, as NumPy integer or float, as gmpy2 number, or as a mixture are the same weights if they have the same values (floats arise when Preflib and YAML files with fractional weights are read): every rule and algorithm that accepts the type elects the same committees (for Thiele rules and SAV with float weights: committees whose score is maximal up to rounding, never an exception), score functions return the same scores, property checks give the same answers (also for custom quotas of these types), and profiles report the same total weight, unit-weight status and merged or split voters. Computations leave the weights' types unchanged.",
    ["inputs", "configurations"], "all profiles, weights, numeric types, rules, algorithms, properties and committees",
    "tests use int and Fraction weights nearly everywhere; rounding and type errors depend on the combination of type, weights, rule and algorithm",
    [R, G, M, S, PR, P], [("arithmetic on voter.weight", R), ("comparison of objective values", G), ("thiele_score, marginal scores", S), ("quota arithmetic", P), ("Voter, Profile.total_weight, has_unit_weights", PR)],
    ["return values for equal profiles with weights of different types"])

add("C36", "Rules respond consistently to changes of the electorate",
    "Electorates which elect common committees on their own elect exactly these together (AV, Thiele rules, lex-CC, lexicographic minimax AV; for minimax AV: at least these). If one electorate is multiplied by a large factor, further voters only decide between its winners (AV, Thiele rules, sequential Thiele rules, seq-Phragmen). If a voter additionally approves a member of a winning committee, this candidate is still a member of some winning committee (AV, SAV, Thiele rules, lex-CC, minimax AV rules, Monroe, sequential Thiele rules, Phragmen rules), and of all of them for AV, PAV, SLAV and geometric rules. If a losing candidate leaves, the winning committees without her are exactly the winners of the smaller election (AV, Thiele rules, lex-CC, Monroe, minimax- and leximax-Phragmen) or at least still win (sequential Thiele rules, seq-Phragmen, maximin support, Equal Shares with AV, seq-Phragmen or no completion, Enestroem, consensus rule).",
    ["inputs", "configurations"], "all profiles, pairs of electorates, committee sizes and algorithms of these rules",
    "these are relations between several elections; the tests look at one profile at a time",
    [R, G, M, O, S], [("compute functions of all rules", R), ("ILP formulations", G), ("thiele_score, marginal scores", S)],
    ["return values of abcrules.compute() on related inputs"])

add("C37", "Reports of axiom checks are truthful and give real counterexamples",
    "At verbosity INFO or more detailed, a property check prints a verdict that is its return value, for this committee and quota (the quota is mentioned exactly if it was given). If the property is violated, the reason printed in the detailed report is a counterexample by definition: the group has the printed share of the weight, which suffices for the seats it claims; the named candidates are approved as claimed; the voters are as badly represented by the committee as claimed; a dominating committee has the same size and dominates. full_analysis prints exactly the results it returns.",
    ["inputs", "configurations"], "all profiles, committees, quotas, algorithms and verbosity levels",
    "the tests compare return values only; the printed reasons are not checked at all",
    ["abcvoting/properties.py", OU], [("output of the check_* functions", "abcvoting/properties.py")], ["stdout", "return values"])

add("C38", "Results, reports and files are reproducible in every process",
    "Deterministic calls (rules with every algorithm except ortools-cp, property checks, full_analysis, text of profiles and committees, writing and reading files) and seeded random generators and RSD give the same committees in the same order, the same printed text, the same files and the same random profiles in every interpreter process, whatever the hash seed of strings, the memory layout or earlier calls.",
    ["inputs", "configurations", "histories"], "all profiles, rules, algorithms, verbosity levels and seeds; any two processes",
    "tests run in one process; iteration over sets of strings or objects only differs between processes",
    ["abcvoting/abcrules.py", "abcvoting/properties.py", OU, "abcvoting/misc.py", "abcvoting/preferences.py", "abcvoting/fileio.py", "abcvoting/generate.py"], [("all entry points", "abcvoting/abcrules.py")], ["stdout", "return values", "files"])

add("C39", "Property checks depend only on the election and the committee",
    "The answer of every property check stays the same if voters are reordered or candidates renamed, a voter of integer weight is replaced by copies (or split into two, or equal ballots merged), all weights (and the quota, if given) are multiplied by a factor, voters with empty ballots or candidates without approvals are added (for the same quota), the committee is given in another container or order, candidates get other names, or other checks ran before; JR and EJR+ also if a candidate outside the committee is cloned. A larger quota never makes a satisfied axiom violated, nor does a further approval for a committee member violate JR. Neither profile nor committee are modified.",
    ["inputs", "configurations"], "all profiles, committees, quotas, algorithms and transformations",
    "the tests have a handful of profiles per axiom and no pairs of related ones",
    ["abcvoting/properties.py"], [("check and the check_* functions", "abcvoting/properties.py")], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(props))
