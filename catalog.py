#!/usr/bin/env python3
"""The list of properties; `python3 catalog.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
CM = 'ylearn/causal_model/'
EM = 'ylearn/estimator_model/'
TECH = 'contract-based deductive verification: VC generation by symbolic execution of the real source, discharged by z3 / cvc5'
BASE = 'Every obligation is generated from the source in /repo on each run and discharged by z3/cvc5, unbounded in %s; floats are reals. Trusted: the verifier in vp/, and the contracts assumed on dependencies (listed in the evidence). A seeded concrete evaluation of the same contracts on the real code is run beside it (bounded, not counted as proved).'
P = []
def prop(id, mod, title, statement, over, text, why, files, mech, state=(), bound='', level='proof', note='', theorems=()):
    P.append(dict(id=id, mod=mod, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, bound=bound, level=level, note=note))

prop('C01', 'graph_surgery', 'Graph surgery changes exactly the nodes, edges and arcs it names',
  'Adding or removing nodes, edges or latent confounding arcs, taking a subgraph, and cutting the incoming or outgoing edges of a set yields exactly the causal graph that the operation defines, with its two stored representations in agreement. The variants that return a new graph leave the original untouched, and a graph never shares its parent lists with the caller.',
  ['inputs', 'histories'], 'all well-formed causal graphs (any number of nodes, edges and arcs) and all argument sets or lists; each operation preserves the invariant, so all histories of operations',
  'the tests build two or three fixed graphs and compare a handful of results; the guarantee is about every graph and the untouched rest of it',
  [CM + 'graph.py', CM + 'utils.py'], [('surgery methods of CausalGraph', CM + 'graph.py')],
  [('causation', 'parent table, node -> list of parents', CM + 'graph.py'), ('dag', 'network with directed edges under key 0 and latent arcs under key "n"', CM + 'graph.py')], 'graphs, argument sets and lists')
prop('C02', 'graph_ancestry', 'Ancestors, descendants, parents and topological order are those of the graph',
  'Queries for the ancestors and descendants of a set return exactly the nodes from which, respectively to which, a directed path of observed edges leads, the set itself included; parents are the stored parents; the topological order lists every node once after its parents; cutting incoming or outgoing edges of the plain network removes exactly those edges, and unknown nodes are rejected.',
  ['inputs'], 'all well-formed causal graphs and all argument sets', 'tests query two fixed graphs; reachability is a closure over graphs of any size',
  [CM + 'graph.py', CM + 'utils.py'], [('ancestor/descendant closure helpers', CM + 'utils.py'), ('query methods', CM + 'graph.py')], (), 'graphs and argument sets')
prop('C03', 'graph_latents', 'Latent arcs, confounded components and d-separation follow the mixed graph',
  'Each latent arc is listed once; the explicit graph replaces each arc by one new latent parent of its two ends and changes nothing else; the confounded components partition the nodes into the classes connected by arcs; a separation query answers d-separation in that explicit graph; the adjacency matrix has the edges of the graph.',
  ['inputs'], 'all well-formed causal graphs with any set of latent arcs, all query sets', 'tests compare component counts of two fixed graphs',
  [CM + 'graph.py'], [('explicit graph, arcs, components, separation', CM + 'graph.py')], (), 'graphs and query sets')
prop('C04', 'backdoor', 'Backdoor adjustment sets are exactly those meeting the backdoor criterion',
  'A set is accepted, or listed among all sets, exactly when it contains no treatment and no descendant of a treatment and separates treatments from outcomes once the edges out of the treatments are cut; the minimal choice is a smallest such set; failure is reported only when no set qualifies. A path is said to have a collider exactly when two of its consecutive edges point at the same inner node.',
  ['inputs'], 'all well-formed graphs, all treatments and outcomes (one name or sets), all candidate sets, paths of any length', 'the tests look at one or two fixed graphs each; the criterion quantifies over all subsets of nodes of any graph',
  [CM + 'model.py', CM + 'utils.py', CM + 'graph.py'], [('get_backdoor_set / is_valid_backdoor_set / has_collider', CM + 'model.py'), ('powerset', CM + 'utils.py')], (), 'graphs, sets and paths')
prop('C05', 'iv', 'Graphical instruments are exactly the valid ones',
  'The instruments reported for a treatment and an outcome are exactly the parents of the treatment that are separated from the outcome once the edges into the treatment are cut, never the outcome itself; none is reported exactly when none exists, and a proposed set or single name is accepted exactly when all of its members are instruments.',
  ['inputs'], 'all well-formed causal graphs with latent arcs, all treatments, outcomes and proposed sets', 'one fixed graph is tested; the criterion quantifies over all graphs',
  [CM + 'model.py', CM + 'utils.py', CM + 'graph.py'], [('get_iv / is_valid_iv', CM + 'model.py')], (), 'graphs and sets')
prop('C06', 'frontdoor', 'Frontdoor adjustment sets are exactly those meeting the frontdoor criterion',
  'A set is accepted exactly when it intercepts every directed path from the treatment to the outcome, no backdoor path from the treatment to one of its members is open, and the treatment blocks every backdoor path from it to the outcome. Searching lists exactly the qualifying sets of nodes on directed paths, or a smallest non-empty one; failure is reported only when there is none, and neither the graph nor the argument sets change.',
  ['inputs'], 'all well-formed causal graphs with latent arcs, all treatments, outcomes and candidate sets; paths of any length', 'one fixed graph is tested; the criterion quantifies over all paths and subsets of any graph',
  [CM + 'model.py', CM + 'utils.py', CM + 'graph.py'], [('is_frontdoor_set / get_frontdoor_set / get_backdoor_path', CM + 'model.py')], (), 'graphs, sets and paths')
prop('C07', 'identification', 'General identification expresses the interventional distribution',
  'The general identification of P(y | do(x)) raises an identification failure exactly when the effect is not identifiable in the mixed graph; otherwise its estimand, evaluated on the observational distribution of any causal model compatible with the graph, is the interventional distribution. The graph and the given names are left alone.',
  ['inputs'], 'all well-formed graphs with latent arcs, all disjoint non-empty y and x (one name, sets, lists), all compatible models (the step contracts are those of the ID algorithm, whose correctness is assumed)', 'one fixed graph is tested; the claim quantifies over graphs and over all models compatible with them',
  [CM + 'model.py', CM + 'prob.py', CM + 'graph.py'], [('CausalModel.id', CM + 'model.py'), ('Prob', CM + 'prob.py'), ('ancestors, subgraph, components', CM + 'graph.py')], (), 'graphs, sets and distributions',
  note='Known finding: the value of the estimand when line 7 of the algorithm is followed by line 6 or 7.')

prop('C08', 'meta_learners', 'Meta-learner effects are contrasts of models fitted on the right rows',
  'The S-learner fits one model on the features joined with treatment indicators and contrasts its predictions at two treatment values; the T-learner contrasts models fitted each on exactly the rows of one treatment group; the X-learner mixes models of imputed effects. This holds for every choice of treated and control value, one or several treatment and outcome columns, values or class probabilities, training or new data, repeated estimates, and refits.',
  ['inputs', 'histories'], 'all data frames and all base models (a prediction is an arbitrary function of the row and of the fit), any number of rows and features; sequences of fits and estimates', 'tests check that a few fixed models run and score well on one data set; nothing pins the values for other labels, repeats, refits or outcomes',
  [EM + 'meta_learner.py', EM + 'utils.py', EM + 'base_models.py'], [('fit / estimate / effect_nji of SLearner, TLearner, XLearner', EM + 'meta_learner.py'), ('get_groups, get_tr_ctrl, get_wv, convert2array', EM + 'utils.py')], [('_fitted_dict_separa', 'models of separate treatments', EM + 'meta_learner.py')], 'rows, features, values and models; 2-3 treatment values per column, at most 2 treatment columns, 1-2 outcomes, 3 outcome classes')
prop('C09', 'double_ml', 'Double machine learning regresses outcome residuals on treatment residuals',
  'Outcome and treatment are predicted from adjustment set and covariates, on held-out folds when cross-fitting; the final model is fitted to the outcome residuals on products of treatment residuals and (1, covariates), and its coefficients give the effects: F(v)(treat - control), on new or training data, by row or averaged, for any pair of treatment values (or arrays of them), repeated estimates and refits. RLoss.score is the mean square, per outcome, of the outcome residuals minus the treatment residuals times the effects that the given estimator reports for the same rows (of the compared treatment value when discrete).',
  ['inputs', 'histories'], 'all data frames with covariates and all base models (a prediction is an arbitrary function of the row and of the fit), any number of rows, features; sequences of fits and estimates', 'tests check that a few fixed models run and score well on one data set; nothing pins residuals, folds, coefficients or the choice of treatment values',
  [EM + 'double_ml.py', EM + 'effect_score.py', EM + 'utils.py', EM + 'base_models.py'], [('DoubleML.fit / estimate / effect_nji', EM + 'double_ml.py'), ('cross-fitting', EM + 'double_ml.py'), ('RLoss.fit / score', EM + 'effect_score.py'), ('nd_kron, get_groups, get_tr_ctrl, convert2array', EM + 'utils.py')], [('x_hat_dict, y_hat_dict', 'stage-one models and fold-wise predictions', EM + 'double_ml.py')], 'rows, features, values and models; 2-3 treatment values, at most 2 treatment and outcome columns, 1-3 folds')
prop('C10', 'doubly_robust', 'Doubly robust effects use propensity-corrected outcome predictions',
  'For each treatment value the corrected outcome is the prediction under that value plus, on rows that received it, the prediction error over the propensity (with the stated regularizer), both predicted on held-out folds when cross-fitting; effects are differences to the control value, regressed on the covariates when there are any. This holds for each treated and control value, several treatments and outcomes, new or training data, averages, and refits.',
  ['inputs', 'histories'], 'all data frames and all base models (a prediction is an arbitrary function of the row and of the fit), any number of rows, features; sequences of fits and estimates', 'tests check that a few fixed models run on one data set; nothing pins the corrected outcomes or which treatment each column belongs to',
  [EM + 'doubly_robust.py', EM + 'double_ml.py', EM + 'utils.py'], [('DoublyRobust.fit / estimate / effect_nji', EM + 'doubly_robust.py'), ('cross-fitting', EM + 'doubly_robust.py'), ('get_groups, get_tr_ctrl, convert2array', EM + 'utils.py')], [('x_hat_dict, y_hat_dict', 'stage-one models and fold-wise predictions', EM + 'doubly_robust.py')], 'rows, features, values and models; 2-3 treatment values, at most 2 treatment and outcome columns, 1-3 folds')
prop('C11', 'bounds', 'Effect bounds contain every effect the data allow',
  'From outcome predictions, treatment probabilities (given, counted or modelled) and the range of outcomes (given or observed), the bounds are those of no assumption: they contain the effect for every value of the unseen outcomes in the range. Monotone assumptions cut them at zero; optimal selection gives its documented bounds for two treatment values. This holds for each pair of treatment values, training or new data, discrete or continuous covariates, and refits.',
  ['inputs', 'histories'], 'all data frames and all base models, any number of rows and covariates, all given ranges and probabilities; sequences of fits and estimates', 'the only test checks that the bounds are not constant',
  [EM + 'approximation_bound.py', EM + 'utils.py'], [('ApproxBound.fit / estimate / _prepare4est', EM + 'approximation_bound.py'), ('get_groups, get_tr_ctrl, convert2array', EM + 'utils.py')], [('x_prob', 'treatment probabilities', EM + 'approximation_bound.py')], 'rows, features, values and models; 2-3 treatment values or two columns of 2')

prop('C12', 'pipeline', 'Estimation uses the identified query and only valid adjustment sets',
  'Identification answers under the name of each method for the treatment and outcome asked, remembers them and fails only if every method asked for fails. Estimation fits an unfitted model once, on the data and names given (else those of the model and the last identification), adjusting for the given sets, which must satisfy the backdoor criterion for these names, or by default for sets found for these same names or the parents of the treatments, and returns its estimate; the combined call fits and reports one fresh copy of the model per backdoor set, in order, leaving the given model alone. Unknown names are refused.',
  ['inputs', 'histories'], 'all well-formed graphs, all names (one name, lists, sets), adjustment and covariate sets, data frames and estimators; histories of identifications and estimations', 'no test calls identify with its default, or estimate after two identifications; the tests use one graph and lists of names',
  [CM + 'model.py', CM + 'utils.py', 'ylearn/utils/_common.py'], [('CausalModel.identify / estimate / identify_estimate', CM + 'model.py')], [('treatment, outcome, _adjustment_set', 'last identification and the sets found', CM + 'model.py')], 'graphs, sets, data frames and numbers of sets')
prop('C13', 'why', 'Why fits and reports the effects of the treatments named, in original terms',
  'Why.fit encodes a discrete outcome and discrete treatments, preprocesses the adjustment, covariate and instrument columns, and fits one estimator for each treatment and, when discrete, each ordered pair, with the sets given (treatment names removed) or, when none is given, the other columns as covariates; treatments not given are the strongest causes found of one kind, at most treatment_count_limit. causal_effect, individual_causal_effect, whatif, uplift_model, score and the effects handed to policy_interpreter are those of the estimator fitted for the treatments named, for the encoded treat, control and target outcome (defaults: every other class, first class, last class), on test data preprocessed as in fit, with the cost function applied by causal_effect, whatif and policy_interpreter to the row of each effect, labelled by original values. Neither the data frames nor the name lists of the caller are modified, and a refit does not depend on earlier fits.',
  ['inputs', 'histories'], 'all data frames, fitted estimators (an effect is an arbitrary function of the row, treat, control and target outcome), preprocessors, cost functions and questions; sequences of fits and questions', 'the tests run the interface on a few data sets and look at shapes; nothing compares an effect with that of the estimator it should come from',
  ['ylearn/api/_why.py', 'ylearn/api/utils.py', 'ylearn/api/_identifier.py'], [('Why.fit / identify', 'ylearn/api/_why.py'), ('Why.causal_effect, individual_causal_effect, whatif, uplift_model, score, policy_interpreter', 'ylearn/api/_why.py'), ('cost_effect, select_by_treat_control, transform_treat_control, ...', 'ylearn/api/utils.py')], [('estimators_, x_encoders_, y_encoder_, preprocessor_', 'fitted estimators, encoders and preprocessor', 'ylearn/api/_why.py')], 'rows, cell values, effects and cost functions; 1-2 treatments with 2-3 values, 2-3 outcome classes, 1 adjustment, 2 covariates and 1 instrument column')
prop('C14', 'npiv', 'Instrumental two-stage estimates contrast the second stage at given treatments',
  'NP2SLS regresses the treatment functions on the products of instrument and covariate functions with the adjustment set and a constant, then the outcome on the products of the predicted treatment functions and covariate functions with the same; a discrete treatment enters by its code, a discrete instrument by its indicators. Effects are differences of second-stage predictions at the treat and control values (given once or row by row, as labels when discrete; 1 and 0, or the second and first value, when not given), by row or averaged; effect_nji is against the first value and CF is the prediction at the recorded treatments. This holds with and without covariates and adjustment, for any basis, on training and new data and after refits.',
  ['inputs', 'histories'], 'all data frames, base models (a prediction is an arbitrary function of the row and of the fit) and basis functions, any number of rows and adjustment features; sequences of fits and estimates', 'tests check that the estimator runs with a few models and covariates and that its effects are not constant; nothing pins the stages, the averages or the values compared',
  [EM + 'iv.py', EM + 'utils.py', EM + 'base_models.py'], [('NP2SLS.fit / estimate / effect_nji', EM + 'iv.py'), ('nd_kron, get_wv, cartesian, convert2array', EM + 'utils.py')], [('_x, _w, _v_transformed', 'training treatments, adjustment set and covariate functions', EM + 'iv.py'), ('treatment_transformer, instrument_transformer', 'codes of discrete treatments and instruments', EM + 'iv.py')], 'rows, adjustment features, values, models and bases; 1-2 treatments (2-3 values), 1-2 instruments, 0-2 covariates, 1-2 outcomes')
CD = 'ylearn/causal_discovery/'
prop('C15', 'discovery', 'A discovered causal structure is acyclic and keeps the learned weights',
  'Every discovery method returns a square weight matrix over the variables (labelled with the columns of a frame) without directed cycles or self loops, whose entries are zero or learned weights (one above the threshold for Golem and Dagma). Weights below the threshold in magnitude and the weaker direction of each pair vanish, and trim_cycle then removes, by magnitude, only lightest arcs of cycles, so an arc on no cycle stays and its argument is left alone. matrix2dict maps each variable to its direct causes (depth 1) or to all its ancestors (no depth), and matrix2array and matrix2df list for every pair of variables the direction of larger magnitude once, with its weight.',
  ['inputs'], 'all real weight matrices of any size, signed or not, all thresholds, arrays and frames with any column names', 'tests train on one generated data set and look at types and shapes only; whether every cycle is broken, at its lightest arc, for every matrix needs a proof over an unbounded loop',
  [CD + '_base.py', CD + '_discovery.py', CD + '_dydiscovery.py'], [('BaseDiscovery.trim_cycle / matrix2dict / matrix2array / matrix2df', CD + '_base.py'), ('__call__ and _to_dag of the methods', CD + '_discovery.py'), ('__call__ and _to_dag of the dynamic methods', CD + '_dydiscovery.py')], [('matrix', 'weight of the arc row -> column', CD + '_base.py')], 'number of variables, weights, thresholds and labels')
UP = 'ylearn/uplift/'
prop('C16', 'uplift', 'Uplift curves and scores accumulate the outcomes of the top-ranked units',
  'For each score column, rows are ranked by the score from high to low and the curve at k looks at the top k rows: lift(k) is their mean outcome among the treated minus that among the controls (with a true effect column, the mean effect of the top k), gain(k) = k * lift(k), and qini(k) is the treated outcome total minus the control total scaled by N_treated/N_control (mean effect times N_treated). Curves start at 0 and cover 0..n; points where a group is still missing are interpolated; the random column averages random rankings; normalised curves are divided by the magnitude of their last point. A top point is where a curve is highest. The AUUC score is the mean of the gain curve, the Qini score the mean of the qini curve minus that of the random one. UpliftModel.fit keeps the curves, top points and scores that the functions give for the same data and columns; its getters return them unchanged as copies (normalised on request), and its score and top-point tables leave the random column out unless it is asked for by name. The data passed in are left alone.',
  ['inputs'], 'all frames with any number of rows, all outcome, treatment, effect and score columns with distinct or tied scores as ranked by pandas, all column names and treatment labels, normalised or not', 'tests plot one data set and check types and column names; the value of each curve at every depth is never checked',
  [UP + '_metric.py', UP + '_model.py'], [('get_cumlift / get_gain / get_qini and their accumulators', UP + '_metric.py'), ('auuc_score / qini_score / top points', UP + '_metric.py'), ('UpliftModel.fit and its getters', UP + '_model.py')], [('lift_, gain_, qini_', 'curves kept by a fitted UpliftModel', UP + '_model.py')], 'number of rows, values of outcomes, treatments and scores')
prop('C17', 'permuted', 'Permuted learners give the effect of every ordered pair of treatment values',
  'PermutedLearner.fit leaves the learner it was given alone and fits one fresh copy of it for each unordered pair of treatment values (combinations of values when there are several treatments) on the whole data with the roles given. estimate(treat, control) is the effect estimated by the copy for that pair, or its negative when the pair was fitted the other way round; by default the last value is compared with the first, a pair that was not fitted is refused, and for a discrete outcome the last class is the target unless one is given. effect_nji has one column for each treatment value, in order, with its effect against the control (the first value unless given; zero for the control itself), on new data or, without data, on the training data, for any number of outcomes or the target class asked for, one by one or in parallel. A refit does not depend on earlier fits.',
  ['inputs', 'histories'], 'all data frames, learners (an effect is an arbitrary function of the fit, the row and the outcome), treatment values and questions; sequences of fits and questions', 'tests look at the shape of the effects of one data set; which learner answers for which pair, with which sign and in which column is never checked',
  [EM + '_permuted.py', EM + 'base_models.py'], [('PermutedLearner.fit / estimate / effect_nji', EM + '_permuted.py'), ('_copy_and_fit, _effect_nji', EM + '_permuted.py')], [('learners_', 'fitted learner of each (treat, control)', EM + '_permuted.py'), ('treats_', 'values of each treatment', EM + 'base_models.py')], 'rows, values and effects; one treatment of 2-3 values or two of 2, 1-2 outcomes or a discrete outcome')
NA = []
def write():
    ids = {p['id']: p['mod'] for p in P}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
    na = dict(NA)
    checks = [dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s' % p['id'],
                   technique=TECH + p.get('tech', ''), level=p['level'], level_note=(BASE % p['bound']) + (' ' + p['note'] if p['note'] else '')) for p in P if p['id'] not in na]
    m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='check.py ID: obligations from /repo source (vp/ verifier, props/ contracts), then concrete cross-check (oracle/). known_findings.json: findings and fixed defects.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(ids, open(os.path.join(ROOT, 'ids.json'), 'w'), indent=1)
if __name__ == '__main__': write()
