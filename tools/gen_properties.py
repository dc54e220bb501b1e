"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, state=state or [], hook_needed=None)))
M="giddy/markov.py"; E="giddy/ergodic.py"; R="giddy/rank.py"; S="giddy/sequence.py"; D="giddy/directional.py"; PL="giddy/plotting.py"; U="giddy/util.py"; MO="giddy/mobility.py"; C="giddy/components.py"

p("C01","Classic Markov transition counts are exact",
  "For every panel of class labels, entry (i, j) of the transition count matrix of a classic Markov chain equals the number of (unit, consecutive period) pairs that are in class i and then in class j, with classes in the reported order. The entries therefore add up to n(t-1), and classes that are supplied but never visited get zero rows and columns.",
  ["inputs"],"every (n, t) panel of labels, with the classes inferred or given explicitly (possibly including unvisited ones)",
  "The tests check a handful of income panels; counting, label lookup and period pairing have to be right for every panel, including absent start or end classes.",
  [M],[("counting loop over consecutive periods","Markov.__init__")],["Markov(...).transitions","Markov(...).classes","Markov(...).k"])
p("C02","Transition probabilities are the maximum likelihood estimates",
  "Every row of the estimated transition probability matrix of a classic Markov chain is the row of counts divided by its total; rows without any observation stay all zero by default. When filling of empty classes is requested such rows get exactly a one on the diagonal, so that every row sums to one and nothing else changes.",
  ["inputs","configurations"],"every panel of labels and both settings of the fill option",
  "Only a few panels, almost all without empty classes, are tested.",
  [M,U],[("row normalisation","Markov.__init__"),("empty-row fill","fill_empty_diagonals")],["Markov(...).p"])
p("C03","Communicating, recurrent, transient and absorbing states are classified exactly",
  "For every panel, the reported communicating classes are the strongly connected components of the estimated transition graph, the recurrent classes are those that cannot be left, the transient classes are all the others, and the absorbing states are exactly the states that are never left. States without outgoing observations count as absorbing, and the classification does not depend on how many observations a state has.",
  ["inputs"],"every panel of labels, every number of observations per state",
  "Tests use a few irreducible or simply reducible chains; the classification must hold for every zero pattern and for every count, where floating point rounding of a single row total can lose an absorbing state.",
  [M],[("classification via the estimated matrix","Markov.__init__")],["Markov(...).cclasses_indices","rclasses_indices","tclasses_indices","astates_indices","num_*"])
p("C04","Steady state results are the stationary distributions of the chain",
  "For every transition matrix the steady state computation returns one stationary probability distribution per recurrent class, each invariant under the matrix, non-negative, summing to one and supported on that class; a chain with a single class gives a single vector. Rows without observations are rejected with an error unless filling is requested, in which case the state is treated as absorbing.",
  ["inputs","configurations"],"every stochastic matrix (irreducible, periodic, reducible), optionally with empty rows, both settings of the fill option",
  "Tests fix three or four matrices; invariance must hold for all entries and all reducibility structures.",
  [E],[("dispatch on communicating classes and fill","steady_state"),("eigenvector solution","_steady_state_ergodic")],["giddy.ergodic.steady_state","Markov(...).steady_state"])
p("C05","Mean first passage times satisfy the first-step equations",
  "For every transition matrix, the mean first passage time from i to j is one plus the average over the next state of the remaining passage time to j (zero once j is reached), the diagonal holding mean recurrence times. It is infinite exactly when the chain started in i does not reach j with probability one, and finite otherwise; no input raises an error except matrices with empty rows when filling was not requested.",
  ["inputs","configurations"],"every stochastic matrix of any reducibility structure, integer or float valued, both settings of the fill option",
  "Tests contain a few chains; reducible chains with several recurrent classes, absorbing states in the middle or integer matrices are not covered.",
  [E],[("ergodic closed form","_mfpt_ergodic"),("per-destination linear systems","mfpt")],["giddy.ergodic.mfpt","Markov(...).mfpt"])
p("C06","Variances of first passage times satisfy the second-moment equations",
  "For every ergodic transition matrix the reported variance of the first passage time from i to j, together with the mean first passage time, satisfies the second-moment first-step equation, so that it is the true variance of the passage time.",
  ["inputs"],"every ergodic (irreducible) stochastic matrix",
  "One 3x3 matrix is tested; the closed form must be right for all entries.",
  [E],[("closed form","var_mfpt_ergodic")],["giddy.ergodic.var_mfpt_ergodic"])
p("C07","Sojourn times are 1/(1-p_ii) and infinite exactly for absorbing states",
  "For every transition matrix the expected sojourn time of state i is 1/(1-p_ii) when the state can be left and infinity when it cannot (including states with an empty row). The input matrix is not altered and printing of the summary does not affect the result.",
  ["inputs","configurations"],"every stochastic matrix, with or without absorbing states and empty rows, summary on or off",
  "Tests use two matrices.",
  [M],[("sojourn computation","sojourn_time")],["giddy.markov.sojourn_time","Markov(...).sojourn_time"])
p("C08","Mobility indices follow their definitions",
  "For every transition matrix the Prais conditional index and the P, D, L2, B1 and B2 mobility measures equal their published definitions (trace, determinant, second largest eigenvalue modulus, initial-distribution weighted stay and move lengths), with the uniform initial distribution as the default for B1 and B2. A chain in which nobody ever moves has mobility zero on every index.",
  ["inputs","configurations"],"every stochastic matrix, every initial distribution",
  "Tests evaluate each index on one matrix, with which many wrong weightings agree.",
  [MO,M],[("index formulas","markov_mobility"),("Prais index","prais")],["giddy.mobility.markov_mobility","giddy.markov.prais"])
p("C09","Spatially conditioned transitions partition the overall transitions",
  "In a spatial Markov analysis every observed transition is counted exactly once, under the lag class its unit had at the start of the transition, so the conditional count matrices add up to the overall one. Every conditional probability matrix is the row-normalised count matrix, with empty rows zero or, when filling is requested, a one on the diagonal.",
  ["inputs","configurations"],"every panel, weights, cutoffs, lag cutoffs (numbers of classes k and lag classes m possibly different), continuous or categorical lags, both fill settings",
  "Tests use one income panel with large samples in which no regime is empty.",
  [M],[("conditional counting","Spatial_Markov._calc")],["Spatial_Markov(...).T","P","transitions","p"])
p("C10","Discretisation respects the cutoffs for the values and for the spatial lags",
  "In a spatial Markov analysis every value is assigned the number of cutoffs strictly below it, and likewise for the spatial lag with the lag cutoffs; the numbers of classes follow the cutoffs supplied. Without cutoffs quantiles of the pooled series are used when fixed is set and quantiles of each period separately otherwise, and with categorical data the conditioning classes are the categorical lags.",
  ["inputs","configurations"],"every panel, weights, cutoff vectors, and the fixed / not fixed / discrete options",
  "Tests check a few settings of one data set.",
  [M],[("classification helper","Spatial_Markov._maybe_classify")],["Spatial_Markov(...).class_ids","lclass_ids","cutoffs","lag_cutoffs","k","m"])
p("C11","Spatial Markov permutation inference compares like with like",
  "With permutations the pseudo p-value of the spatial Markov homogeneity test is (1 + number of permuted statistics at least as large as the observed one)/(permutations + 1), every permuted statistic being the same sum over all lag classes as the observed one, for any numbers of classes and lag classes. The observed counts, classes, lag classes and cutoffs reported afterwards are those of the observed data.",
  ["inputs","configurations","histories"],"every panel, k and m equal or different, every sequence of permutations drawn",
  "Tests seed the generator once with k = m and never look at the stored lag classes after permuting.",
  [M],[("permutation loop","Spatial_Markov.__init__")],["Spatial_Markov(...).x2_rpvalue","x2_realizations","lclass_ids","lag_cutoffs"])
p("C12","Spatial Markov tests are computed per lag class from the right matrices",
  "The conditional steady states, mean first passage times, chi-squared tests and steady state tests of a spatial Markov analysis are, for every lag class, those of that lag class's own matrix compared with the overall chain, and the overall statistic is the sum over all lag classes. The printed summary works for every number of classes and lag classes.",
  ["inputs","configurations"],"every analysis, k and m equal or different",
  "Tests only ever have one data set with similar k and m.",
  [M],[("derived properties","Spatial_Markov.S/F/chi2/shtest/x2"),("summary","Spatial_Markov.summary")],["Spatial_Markov(...).S","F","s","f","chi2","x2","shtest","summary()"])
p("C13","Chi-squared comparison of two transition matrices",
  "For every pair of count matrices the chi-squared statistic is the sum over cells of (observed - expected)^2/expected, where expected distributes each observed row total by the reference row proportions; cells with zero expectation add the squared count. The degrees of freedom are (non-empty observed rows - 1)(non-empty reference rows - 1) and the p-value is the upper tail of that chi-squared law.",
  ["inputs"],"every pair of k x k count matrices, including empty rows and zero cells",
  "One pair of matrices is tested.",
  [M],[("chi2 function","chi2")],["giddy.markov.chi2"])
p("C14","Homogeneity tests give the right Q, LR and degrees of freedom for every table",
  "For every list of regime count matrices (integer or float valued, possibly with empty rows or empty regimes) the test reports pooled and regime probabilities that are the row proportions, the Pearson Q and likelihood ratio LR computed from them, and degrees of freedom summing, over pooled rows that are observed, (regimes observed in the row - 1)(reachable columns - 1). Identical regimes give Q = LR = 0, and the per-cell tables add up to the statistics.",
  ["inputs"],"every list of count matrices of equal shape, integer or float",
  "Tests use float tables from one panel without pooled empty rows; integer tables and pooled empty rows are never exercised.",
  [M],[("homogeneity statistics","Homogeneity_Results._homogeneity")],["giddy.markov.homogeneity(...)","Q","LR","dof","p_h0","p_h1"])
p("C15","Kullback statistic is the conditional homogeneity information",
  "For every set of transition count tables the Kullback statistic equals twice the sum over strata, origin and destination of f ln( f * pooled row total / (stratum row total * pooled cell) ), so that it is zero exactly when the strata share one transition matrix, never negative, and invariant to relabelling of destinations. Its degrees of freedom are r(s-1)(r-1).",
  ["inputs"],"every array of s count tables with zero cells allowed",
  "The one published table tested has equal row and column totals, which hides a wrong marginal.",
  [M],[("information decomposition","kullback")],["giddy.markov.kullback"])
p("C16","LISA transitions are typed by quadrants and significance",
  "In a LISA Markov analysis the move type of a unit between two periods is 4(q0-1)+q1 for its start and end quadrant, and with permutations the significant move code adds 16 for each combination in the order both, start only, end only, none significant. A unit counts as significant exactly when its pseudo p-value does not exceed the significance level, and the transition counts use all four quadrants in order.",
  ["inputs","histories"],"every history of quadrants and p-values, every significance level, both quadrant numbering schemes",
  "Two rows of one data set are looked at by the tests.",
  [M],[("move type tables","TT, MOVE_TYPES"),("typing loop","LISA_Markov.__init__")],["LISA_Markov(...).move_types","significant_moves","q","p_values","transitions"])
p("C17","LISA independence test uses the quadrant scheme of the analysis",
  "The expected LISA transitions under independence keep the observed row totals and distribute them by the product of the own-value and lag chains, each quadrant being matched to its own high/low combination under the numbering scheme in use. Switching the numbering scheme only relabels quadrants: expected counts are permuted accordingly and the test statistic is unchanged.",
  ["inputs","configurations"],"every panel and weights, both quadrant numbering schemes, also when all values lie on one side",
  "Only the default scheme is tested, on one data set.",
  [M],[("Kronecker expectation","LISA_Markov.__init__")],["LISA_Markov(...).expected_t","chi_2"])
p("C18","Spillover detection follows cluster components in every period",
  "For each period, two units have the same non-zero component number exactly when they are linked through clusters formed by significant units of the chosen quadrant and their neighbours (plus neighbours of neighbours if requested), and units outside any cluster have zero. A unit is a spill-over in a period exactly when it is in no cluster then but belongs in the next period to a cluster that contains a unit clustered before.",
  ["inputs","histories"],"every history of quadrants and significance, every neighbour graph, both neighbourhood options, every period including the last",
  "Tests count members for two middle periods of one data set.",
  [M,C],[("cluster graphs per period","LISA_Markov.spillover"),("connected components","Graph.connected_components")],["LISA_Markov(...).spillover()"])
p("C19","Full rank Markov ranks each period completely",
  "In every period the ranks are a permutation of 1..n with larger values ranking higher (smaller number), ties broken by storage order, and the chain's counts are the rank transitions of each unit. Hence every rank is left exactly t-1 times and entered t-1 times.",
  ["inputs"],"every real panel including ties",
  "One panel of incomes is tested, with aggregates only.",
  [M],[("ranking","FullRank_Markov.__init__")],["FullRank_Markov(...).ranks","transitions","p"])
p("C20","Geographic rank Markov follows who holds each rank",
  "The counts of the geographic rank chain are, for each rank and consecutive periods, the transitions from the unit holding that rank to the unit holding it next, with ties broken by storage order; every unit is left and entered exactly t-1 times.",
  ["inputs"],"every real panel including ties",
  "One panel of incomes is tested.",
  [M],[("rank holders","GeoRank_Markov.__init__")],["GeoRank_Markov(...).transitions","p"])
p("C21","Kendall's tau counts every pair correctly, with ties",
  "For every two series the concordant, discordant, x-tied and y-tied pair counts are exact, tau is (concordant - discordant) over the geometric mean of pairs untied in x and in y, and the p-value is the normal two-sided tail with the documented variance. Swapping the series leaves tau unchanged and negating one negates it.",
  ["inputs"],"every pair of real series, with any pattern of ties",
  "Two series without complicated ties are tested; the tree-based counting must be right for every order and tie pattern.",
  [R],[("binary tree counting","Tau._calc")],["Tau(...).tau","concordant","discordant","extraX","extraY","tau_p"])
p("C22","Spatial tau restricts Kendall's tau to neighbour pairs",
  "Spatial tau counts each unordered neighbour pair once, classifies it as concordant, discordant or tied exactly, and equals the signed count over the geometric mean of pairs untied in each series; the number of neighbour pairs reported is the number of joins. The embedded classic tau is that of all pairs.",
  ["inputs"],"every pair of series and every symmetric neighbour graph",
  "One regime weights example is tested.",
  [R],[("pair loop","SpatialTau._calc")],["SpatialTau(...).tau_spatial","concordant_spatial","discordant_spatial","pairs_spatial"])
p("C23","Local and neighbour tau decompose the global statistics",
  "Local tau of unit i is the average concordance sign of i with every other unit, the neighbour version averages over its neighbours only, and the regular global tau is the mean of the local values. The weights of the neighbour statistic are the unit's share of all joins, so their weighted sum equals the signed join count over all joins; reported signs agree with the statistics.",
  ["inputs"],"every pair of series, every neighbour graph without islands",
  "Examples check printed numbers for one data set.",
  [R],[("sign matrix","Tau_Local.__init__"),("neighbour average","Tau_Local_Neighbor._calc")],["Tau_Local(...).tau_local","tau","Tau_Local_Neighbor(...).tau_ln","tau_ln_weights","sign"])
p("C24","Neighbourhood and regional tau average the right blocks of pairs",
  "The neighbourhood statistic of a unit is the average concordance sign over all pairs inside the unit and its neighbours; the regional matrix holds, for each pair of regimes in sorted order, the average concordance sign over all pairs joining them (or inside one). The regional matrix is symmetric and its pair-weighted mean is the global tau.",
  ["inputs"],"every pair of series, every neighbour graph, every regime assignment with regimes of two or more units",
  "One data set is tested.",
  [R],[("sub-matrix averages","Tau_Local_Neighborhood.__init__"),("block averages","Tau_Regional._calc")],["Tau_Local_Neighborhood(...).tau_lnhood","Tau_Regional(...).tau_reg"])
p("C25","Permutation inference for rank statistics is exact for every draw and type",
  "For every sequence of permutations drawn, simulated values of the spatial, neighbour, neighbourhood and regional tau are the same statistic evaluated on the permuted series (the focal unit kept fixed for local ones), whatever the number types of the series, and the pseudo p-values follow the documented (extremes + 1)/(permutations + 1) rule. Observed statistics and the caller's series are unaffected.",
  ["inputs","histories"],"every pair of series of any mix of integer and float types, every sequence of permutations",
  "Tests fix one seed and use float series only.",
  [R],[("simulation loops","SpatialTau/Tau_Local_Neighbor/Tau_Local_Neighborhood/Tau_Regional.__init__"),("pseudop","pseudop")],["tau_spatial_psim","taus","tau_ln_sim","tau_ln_pvalues","tau_lnhood_sim","tau_lnhood_pvalues","tau_reg_sim","tau_reg_pvalues"])
p("C26","Theta measures regime cohesion of rank changes",
  "In every period theta is the sum over regimes of the absolute net rank change divided by the total absolute rank change, hence between 0 and 1 whenever there is any change; the maximum total follows from reversing all ranks. With permutations the first simulated row is the observed one, left and right p-values are the shares of rows not above and above it and add up to one.",
  ["inputs","histories"],"every panel (ties averaged), every regime assignment, every sequence of permutations",
  "One data set and seed is tested.",
  [R],[("cohesion","Theta._calc"),("inference","Theta.__init__")],["Theta(...).theta","ranks","total","max_total","pvalue_left","pvalue_right"])
p("C27","Optimal matching distance is the minimal edit cost",
  "For every pair of sequences, substitution matrix and indel cost, the optimal matching distance equals the cheapest total cost over all alignments of the two sequences by substitutions, insertions and deletions. With symmetric costs the distance is symmetric, and it is zero for equal sequences.",
  ["inputs"],"every pair of sequences (equal or different length), every non-negative substitution matrix and indel cost",
  "A few fixed sequences are tested; minimality must hold for all cost structures.",
  [S],[("dynamic programme","Sequence._om_pair_dist")],["Sequence(...).seq_dis_mat"])
p("C28","Sequence distance matrices cover all pairs with the advertised costs",
  "For every collection of sequences the distance matrix is symmetric with zero diagonal and entry (i, j) is the distance of the sequences i and j themselves, also when sequences repeat, have different lengths or use any number of classes. The hamming, interval, arbitrary, markov and transition-oriented types use exactly their documented substitution and indel costs.",
  ["inputs","configurations"],"every collection of label sequences, every distance type, any number of classes",
  "Tests use few sequences with at most ten classes, so encodings that collide for more classes go unnoticed.",
  [S],[("pair matrix over unique sequences","Sequence._om_dist"),("cost structures","Sequence.__init__")],["Sequence(...).seq_dis_mat","subs_mat","indel","classes"])
p("C29","Rose sectors partition the full circle",
  "For every number of sectors k the rose has k equal sectors from 0 to a full turn, every movement vector of value and spatial lag falls into exactly one of them by its direction, and the k counts add up to n. Lengths and angles are those of the movement from the first to the last period.",
  ["inputs","configurations"],"every panel, weights and every number of sectors k",
  "Tests use k = 8 and 4; sector edges built from rounded steps can gain or lose a sector for other k.",
  [D],[("sector edges and histogram","Rose.__init__, Rose._calc")],["Rose(...).counts","cuts","bins","theta","r","lag"])
p("C30","Rose permutation inference counts extremes and keeps the observed rose",
  "After permuting, for each sector the larger and smaller counts are the numbers of draws at least and at most as large as the observed count, and the one- and two-sided p-values follow from them as documented for the chosen alternative, the sectors of positive association being those of joint increase or decrease. The observed directions, counts, values and lags remain those of the observed data, whatever draws were made.",
  ["inputs","histories","configurations"],"every panel and weights, every sequence of draws, every alternative, repeated calls",
  "Tests compare seeded p-values only.",
  [D],[("inference","Rose.permute")],["Rose(...).larger_perm","smaller_perm","expected_perm","p","counts","Y","lag"])
p("C31","Matrix utilities do what they say and nothing else",
  "Filling empty diagonals sets the diagonal entry of exactly the all-zero rows to one (for single matrices and stacks) in a copy; extracting the lower triangle lists exactly the entries below the diagonal row by row; shuffling applies one and the same permutation to rows and columns. Other dimensions are rejected.",
  ["inputs"],"every matrix or stack of matrices, every permutation",
  "Tests check one example each.",
  [U],[("helpers","fill_empty_diagonals, get_lower, shuffle_matrix")],["giddy.util.*"])
p("C32","Contiguity of a set without one member is decided exactly",
  "Asking whether a set of units stays contiguous after one leaves is answered true exactly when the remaining units form at most one connected component in the neighbour graph, for every graph, set and leaver. The caller's list of units is unchanged.",
  ["inputs"],"every symmetric neighbour graph, every subset and leaver",
  "A doctest checks two cases on a lattice.",
  [C],[("traversal","is_component, check_contiguity")],["giddy.components.check_contiguity"])
p("C33","LISA transition heat maps cross-tabulate significant quadrants under their names",
  "The heat map of LISA transitions counts, for each start and end category, the units whose significant quadrant (none when the pseudo p-value is not below the level) at the start and at the end are that pair; the counts cover every unit once and only the diagonal is masked. Each category is shown under the name of its quadrant.",
  ["inputs"],"every combination of quadrants and pseudo p-values at both dates, every level",
  "Plot tests only check that labels exist and compare with fixed values of one data set.",
  [PL],[("cross tabulation","_dynamic_lisa_heatmap_data"),("labels","_dynamic_lisa_heatmap")],["dynamic_lisa_heatmap"])
p("C34","Plotting leaves global state as it found it, even on failure",
  "After any plotting call, successful or failing at any point (bad arguments or an error in the drawing back end), the global plotting defaults are what they were before. The draws for start and end dates start from the same random state, and the global random state is unchanged by the call.",
  ["fault_sequences","inputs"],"every call of the rose, heat map, vector and composite plots, a failure injected at any drawing call",
  "Tests run successful plots only and never compare global state.",
  [PL],[("saved and restored defaults","dynamic_lisa_rose, dynamic_lisa_composite"),("saved random state","_moran_loc_from_rose_calc")],["matplotlib.rcParams","numpy.random.get_state()"])
p("C35","Analyses never modify the caller's data",
  "No analysis changes the arrays and matrices handed to it: class panels, series, transition matrices, count tables, cost matrices and regime vectors have the same contents after the call as before, whether it fills empty classes, permutes or sorts internally.",
  ["inputs","configurations"],"every input and option of every analysis entry point",
  "Tests almost never look at their inputs after the call.",
  [M,E,R,S,D,U,MO],[("copies before in-place updates","fill_empty_diagonals, permutation loops")],["arguments after the call"])
p("C36","Printed and exported summaries report the computed results",
  "The summary of a homogeneity test, printed or exported as a LaTeX table, gives the numbers of classes, regimes and transitions, both statistics, their degrees of freedom and p-values, the matrix under the hypothesis and each regime's own matrix, all equal to the computed results and under the labels and title that were given. A spatial Markov summary reports the homogeneity of its own conditional counts. The printed description of a chain names exactly its recurrent, transient and absorbing states, and nothing is printed when no summary is asked for.",
  ["inputs","configurations"],"every count table, any kind of labels (words, numbers, arrays), every reducibility structure, printed and exported",
  "No test looks at printed or exported text; every figure in it has its own format line that can report the wrong quantity.",
  [M],[("text and LaTeX tables","Homogeneity_Results.summary"),("title and names","Spatial_Markov.summary"),("description of the states","Markov.__init__, sojourn_time")],["standard output","the exported .tex file"])
p("C37","Rose, vector and composite plots depict the movements of their own rose",
  "A rose plot shows one point per unit at the direction and length of its movement, coloured by the attribute; a vector plot shows one line per unit from value and lag of the first period to those of the last one, with an arrow head in that direction exactly when asked for, and leaves none of them outside its limits; the plot from the origin shows the movements themselves. The composite puts the map of the first period under 'Start time', that of the last under 'End time', at the given significance. The exploring widget offers exactly the columns with the given ending and draws the composite of the chosen start and end. Axes and styles given by the user are used, and randomisations done before do not change what is shown.",
  ["inputs","configurations","histories"],"every panel of values, every attribute, level and choice of columns, before and after permuting, own or new axes",
  "Plot tests look at a few labels and colours of one data set; swapped periods, axes or limits leave them green.",
  [PL,D],[("points, lines, arrows and limits","dynamic_lisa_rose, dynamic_lisa_vectors, _add_arrow, Rose.plot_origin"),("panels","dynamic_lisa_composite"),("choice of columns","dynamic_lisa_composite_explore, _dynamic_lisa_widget_update")],["arguments of the drawing calls"])
p("C38","Results depend on the data alone, not on what was asked for before",
  "Every derived result of a Markov object has the same value, or fails the same way, whichever other results, summaries or spill-over analyses were asked for before, in any order and number; repeating an analysis of the same data gives the same results whatever other data were analysed in between. Deprecated names give the results of their replacements.",
  ["histories","inputs"],"every history of requests (any two before each result, three for classic chains) on each kind of Markov object, every kind of analysis repeated around one of other data",
  "Tests ask for each result once, in a fixed order, on fresh objects.",
  [M,E,S,R,D,U,MO],[("results computed on first use and kept","properties of Markov and Spatial_Markov"),("deprecated names","fmpt, _fmpt_ergodic, var_fmpt_ergodic")],["derived results of Markov, Spatial_Markov, LISA_Markov, FullRank_Markov, GeoRank_Markov, Homogeneity_Results"])
p("C39","Components of a weighted graph follow the condition on the edges",
  "For every undirected graph, threshold and comparison, the reported components contain every node exactly once, two nodes being in the same component exactly when a chain of edges meeting the condition joins them; each component carries all edges among its own nodes with their latest weights, and the graph itself stays as it was. Directed graphs are declined.",
  ["inputs"],"every graph up to the sizes listed, all weights and thresholds, different comparisons",
  "Only reached through one LISA spill-over example with one weight and one condition.",
  [C],[("depth-first search and induced subgraphs","Graph.connected_components, Graph.dfs"),("edges both ways","Graph.add_edge")],["Graph(...).connected_components()"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,q["title"]
        f.write(json.dumps(q)+"\n")
print(len(P))
