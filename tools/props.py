"""The table of properties (source of properties.jsonl and MANIFEST.json)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None,
      state=None, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={"files": ["chainladder/" + f for f in files],
                 "mechanism": [{"name": n, "where": "chainladder/" + w} for n, w in mech],
                 **({"state": state} if state else {}),
                 **({"observe_at": observe} if observe else {})},
        technique=technique, note=note, na=na))


P("C01", "Fitting and predicting never change the data the caller passed in",
  "For every exported estimator, calling fit, fit_transform, fit_predict, transform or predict "
  "leaves the X triangle and the sample_weight triangle passed by the caller exactly as they "
  "were: values, labels, flags, and any learned patterns attached to them.",
  ["inputs", "configurations", "programs"],
  "every estimator x every option setting x every triangle (any back-end, cumulative or "
  "incremental, with or without attached patterns)",
  "Tests compare results, almost never the inputs afterwards; sharing between the input, its "
  "copies and attached patterns only shows on particular back-ends, options and attribute sets.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/", "core/"],
  [("copy before edit", "core/triangle.py:Triangle.copy"),
   ("back-end conversion copies", "core/common.py:Common.set_backend"),
   ("transform builds X_new from a copy", "development/*.py, tails/base.py, adjustments/*.py")],
  "whole-program alias and effect analysis (abstract interpretation of the syntax trees)",
  "Decides the no-write half for all inputs and options up to the recursion bound recorded in "
  "the evidence; library effects come from a hand-written table.")

P("C02", "Triangle operations leave their operands and arguments unchanged",
  "Reading, slicing, grouping, comparing and combining triangles, constructing a triangle, "
  "concatenating, and every method or function that is not asked to work in place leave all "
  "operand triangles and all caller-supplied frames, lists, arrays and keys unchanged. In-place "
  "operations change only the triangle they are called on, never their arguments.",
  ["inputs", "programs"],
  "every public Triangle operation and module-level function x every operand and argument",
  "Tests check what an operation returns for sample triangles; whether an operand was edited "
  "through a shared array, label list or cached accessor is not asserted.",
  ["core/triangle.py", "core/base.py", "core/dunders.py", "core/pandas.py", "core/slice.py",
   "core/common.py", "core/display.py", "utils/utility_functions.py"],
  [("copy-on-operation", "core/dunders.py:TriangleDunders._arithmetic_cleanup"),
   ("slicing builds a new object", "core/slice.py:_LocBase.get_idx"),
   ("constructor works on its own frame", "core/triangle.py:Triangle.__init__")],
  "whole-program alias and effect analysis (abstract interpretation of the syntax trees)",
  "One abstract program per public operation; decides absence of writes for all operands.")

P("C04", "Predicting and reading results never alter the fitted estimator",
  "Once fitted, an estimator is not changed by transform, predict or by reading any of its "
  "public attributes, nor are the triangles, arrays and sub-estimators it holds, so repeating "
  "a call in any order gives the same answer.",
  ["histories", "inputs", "configurations"],
  "every fitted estimator x every history of transform/predict/attribute reads",
  "Tests call predict once on a fresh estimator; a write to learned state only shows in a "
  "second call or in another consumer of the same fitted object.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/", "core/common.py"],
  [("predict builds X_new from a copy", "methods/base.py:MethodBase"),
   ("derived results are properties", "core/common.py:Common"),
   ("transform re-uses learned patterns", "development/base.py, tails/base.py")],
  "whole-program alias and effect analysis (abstract interpretation of the syntax trees)",
  "Decides absence of writes to everything reachable from the fitted estimator.")

P("C05", "Estimator options are stored as given and never rewritten",
  "Constructing an exported estimator stores every option exactly as given under its own name, "
  "and fit, transform and predict neither rebind nor edit it, so get_params, clone and "
  "grid search see what the user set. fit returns the estimator itself.",
  ["inputs", "configurations", "histories"],
  "every exported estimator x every option value (lists, dicts, frames, callables included)",
  "Tests pass scalars and do not read options back after fit; normalising or filling an option "
  "in place is invisible until the estimator is cloned, refitted or searched.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/"],
  [("__init__ stores options verbatim", "every estimator's constructor"),
   ("per-fit copies of options", "development/base.py, tails/bondy.py, adjustments/bootstrap.py")],
  "whole-program alias and effect analysis (abstract interpretation of the syntax trees)",
  "Identity of the stored option and of fit's result decided on the abstract heap.")

P("C03", "inplace=True and inplace=False do the same thing to different objects",
  "Every Triangle method with an `inplace` option gives the receiver, when inplace=True, exactly "
  "the changes it gives to the returned triangle when inplace=False: form (cumulative or "
  "incremental), grain, back-end, values and labels. inplace=True returns the receiver itself; "
  "inplace=False returns another object. incr_to_cum ends cumulative, cum_to_incr incremental, "
  "set_backend on the requested back-end.",
  ["inputs", "configurations"],
  "every method with inplace x every start form, back-end and grain",
  "Tests compare the two modes for a few methods on one numpy sample; the modes share no code "
  "on some start states and drift apart unnoticed.",
  ["core/triangle.py", "core/common.py", "core/pandas.py"],
  [("inplace branch", "core/triangle.py:Triangle.incr_to_cum/cum_to_incr/dev_to_val/val_to_dev/"
    "grain/set_index"), ("back-end switch", "core/common.py:Common.set_backend"),
   ("fillna, astype", "core/pandas.py:TrianglePandas")],
  "abstract interpretation: heap states after both modes compared field by field",
  "All start flags are enumerated; values and labels are compared as changed / not changed.")

P("C20", "Refitting starts from scratch",
  "A second fit of the same estimator depends only on its options and the new data: nothing "
  "learned by an earlier fit is consulted, and nothing learned by an earlier fit survives in a "
  "learned attribute of the refitted estimator.",
  ["histories", "inputs", "configurations"],
  "every estimator x every option setting x every pair of successive fits (with and without "
  "sample_weight, with and without attached patterns)",
  "Tests fit each object once; leftovers of an earlier fit only show on the second one, and only "
  "when the two data sets take different branches.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/"],
  [("learned attributes are assigned in fit", "every estimator's fit"),
   ("optional results", "development/clark.py, tails/clark.py, tails/base.py, methods/mack.py")],
  "whole-program abstract interpretation with a stale mark per learned attribute",
  "Decided for all data and options up to the recursion bound.")

P("C06", "Every option has an effect, and only its own",
  "Each constructor option of an exported estimator is consulted by fitting, predicting or "
  "reading results; an option handed to an inner estimator arrives under its own name; and the "
  "documented values of an option are told apart, so that choosing another value never silently "
  "gives the default behaviour.",
  ["configurations", "inputs"],
  "every constructor option of every exported estimator x the documented values of the options "
  "with a fixed set of choices",
  "Tests try a handful of option settings and compare a few numbers; an option that is dropped "
  "on the way to an inner estimator, or read under another's name, passes them.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/"],
  [("option use in fit", "development/base.py, development/development.py, "
    "development/incremental.py"), ("hand-over to inner estimators", "adjustments/bootstrap.py, "
    "development/glm.py, development/outstanding.py, tails/clark.py"),
   ("option tables", "development/development.py: average; tails/curve.py: curve")],
  "whole-program option-flow analysis and per-value reachability comparison",
  "Shows that options are read, wired to the right name and told apart; not that the numbers "
  "computed under them are right.")

P("C12", "Requests that cannot be honoured are refused",
  "A request the package does not support ends in an exception instead of a silently computed "
  "result, and its supported counterpart completes: unknown values of documented options "
  "(average, sigma_interpolation, curve, errors, growth, Trend dates and axis, groupby lists of the "
  "wrong kind), exposure-based methods without sample_weight, estimators handed a triangle of a "
  "shape they do not support (valuation form, several indices), unknown axes, back-ends and "
  "grains, finer grains than the data has, arithmetic between triangles of different origin "
  "grain, composites made of parts of another kind (VotingChainladder of estimators that are no "
  "methods), concatenation of no triangles or of a bare one, and results the object has no basis for (cdf_ or ibnr_ without a fitted pattern).",
  ["inputs", "configurations"],
  "every listed class of unsupported request; all data, other options and back-ends",
  "Tests seldom try wrong requests; a lost guard yields a plausible number, never a failing test.",
  ["development/", "tails/", "methods/", "adjustments/", "workflow/", "core/"],
  [("option guards", "development/base.py, tails/curve.py, methods/base.py, adjustments/trend.py"),
   ("exposure guards", "methods/bornferg.py, benktander.py, capecod.py, expectedloss.py"),
   ("axis, grain and back-end guards", "core/base.py, core/triangle.py, core/common.py, "
    "core/dunders.py, core/slice.py")],
  "abstract interpretation: must-raise analysis per request class, paired with a may-complete one",
  "230 request classes are enumerated; that the raised exception is the best one is not checked.")

P("C10", "Random numbers come only from random_state",
  "With an integer random_state, every random draw made while fitting, transforming, predicting or "
  "reading results comes from a generator freshly seeded from that option, wherever in the "
  "package it is made (also in the inner estimator of a composite and in the simulated triangles "
  "handed to a later method). Nothing in the package draws from or reseeds a process-wide "
  "generator, keeps a generator between calls, or lets a clock or process identity into a result.",
  ["inputs", "configurations", "histories"],
  "every exported estimator and Triangle operation; random_state fixed to several integers, 0 "
  "included",
  "Tests compare one seeded run with a stored number or two runs in one process; an unseeded "
  "draw on an untested branch stays unseen.",
  ["adjustments/bootstrap.py", "methods/", "core/"],
  [("simulation", "adjustments/bootstrap.py:_get_simulation, _get_process_variance"),
   ("a priori noise", "methods/benktander.py:_get_benktander_aprioris"),
   ("hand-over", "methods/bornferg.py, capecod.py, expectedloss.py")],
  "abstract interpretation: seed constants followed to every generator construction",
  "Reproducibility of the streams themselves is numpy's.")

P("C11", "No call leaves traces outside its own objects",
  "Fitting, transforming, predicting, reading results and Triangle operations change nothing that "
  "other code can see: no chainladder option, package module variable, class attribute, function "
  "attribute or default argument, nothing inside another library, no interpreter-wide setting "
  "(numpy error state or seed, pandas options, warning filters beyond a catch_warnings block, "
  "environment, working directory), and no memoised function hands the same mutable object to two "
  "callers. options.set_option changes exactly the named option, get_option returns it, "
  "reset_option restores every option's initial value; array_backend and auto_sparse set their "
  "own option only.",
  ["inputs", "configurations", "histories"],
  "every exported estimator and Triangle operation, every option",
  "Tests run in one process with default options and do not look at global state afterwards.",
  ["__init__.py", "core/", "development/", "tails/", "methods/", "adjustments/", "workflow/"],
  [("options", "__init__.py:Options"), ("warning filters", "adjustments/berqsherm.py"),
   ("module tables", "core/pandas.py, core/dunders.py, utils/")],
  "whole-program effect analysis (abstract interpretation) on frozen globals",
  "Attributes set on third-party modules during import (utils/sparse.py, dask.py, cupy.py) are "
  "outside the property.")

P("C18", "Results do not share editable state with the data they were made from",
  "A triangle returned by a read, selection, grouping, arithmetic or non-inplace operation is a "
  "new triangle: editing it in place (column assignment, loc/iloc/at/iat assignment, in-place "
  "methods, virtual columns) leaves the operand as it was, and the reverse, also when the "
  "operation had nothing to do (shift by 0, adding 0, copy, converting to the form it already "
  "has). A fitted estimator and what its transform or predict returns keep no reference to the "
  "caller's triangle or to its values, so editing that triangle afterwards changes no result.",
  ["inputs", "histories", "configurations"],
  "every Triangle operation and every exported estimator of triangles; all back-ends and options",
  "Sharing shows only when one of the two triangles is edited later, which tests of a single "
  "operation never do.",
  ["core/", "methods/", "development/", "tails/", "adjustments/", "workflow/"],
  [("copy", "core/triangle.py:Triangle.copy"), ("item assignment", "core/slice.py"),
   ("stored data", "methods/base.py, development/outstanding.py")],
  "alias analysis: editable footprint of the in-place operations, points-to sharing of results",
  "Labels may be shared (the check proves no operation edits them); attached patterns too.")

P("C13", "An axis means the same however it is written",
  "Every Triangle operation with an axis argument (sum, mean, max, std and the other aggregations, "
  "groupby, shift, rename, drop, dropna, fillna, sort_axis, concat) gives the same result for an axis "
  "given as number, negative number or name (0/-4/'index', 1/-3/'columns', 2/-2/'origin', "
  "3/-1/'development'); it works along that axis only, leaving the labels of the other axes in "
  "place; and an axis that does not exist is refused.",
  ["inputs", "configurations"],
  "every Triangle method with an axis argument x 4 axes x 3 spellings + unknown axes; all data",
  "Tests use one or two spellings per method; a lost case in an axis table or a branch on the "
  "number of the axis only shows for the spelling that was not tried.",
  ["core/base.py", "core/pandas.py", "core/triangle.py", "utils/utility_functions.py"],
  [("axis tables", "core/pandas.py:_get_axis"), ("aggregations", "core/pandas.py:add_triangle_agg_func"),
   ("groupby", "core/pandas.py:TriangleGroupBy"), ("concat", "utils/utility_functions.py:concat")],
  "abstract interpretation: equality of abstract results across the spellings of each axis",
  "Equality is of abstract results: completion, labels, library axes, positions; not of numbers.")

P("C07", "Triangle operations keep or convert the triangle's form as documented",
  "Selection, arithmetic with scalars and triangles, comparison, aggregation, groupby, concat and "
  "label operations keep what kind of triangle it is: cumulative or incremental, amounts or "
  "development pattern, origin and development grain, origin close (and the valuation date, unless "
  "the operation selects or moves valuations). Conversions (incr_to_cum, cum_to_incr, link_ratio, "
  "grain, dev_to_val, val_to_dev, trend, shift) reach the documented form whatever form they start "
  "from. A pattern combined with amounts gives amounts, in the form of the left operand; the "
  "constructor stores `cumulative` and `pattern` as given.",
  ["inputs", "configurations", "programs"],
  "every public Triangle operation x cumulative/incremental x amount/pattern operands",
  "A lost or wrong flag leaves the numbers of the single operation right and is only noticed when "
  "a later conversion silently does nothing or converts twice.",
  ["core/triangle.py", "core/base.py", "core/dunders.py", "core/pandas.py", "core/slice.py",
   "utils/utility_functions.py"],
  [("form conversions", "core/triangle.py:Triangle.incr_to_cum, cum_to_incr, link_ratio, grain"),
   ("arithmetic", "core/dunders.py:TriangleDunders._arithmetic_cleanup"),
   ("selection", "core/slice.py:_LocBase.get_idx")],
  "abstract interpretation: typestate of the result's form for each start form",
  "Form flags only; the numbers of conversions are numpy's.")

P("C08", "Fitted results have the documented form",
  "After any successful fit, ldf_, sigma_, std_err_ and zeta_ are incremental development patterns "
  "valued at the ultimate date (IncrementalAdditive.ldf_ keeps the data's date), cdf_ and cum_zeta_ "
  "are cumulative patterns, ultimate_ and ibnr_ are cumulative amounts and not patterns, "
  "full_triangle_ and full_expectation_ have the form of X, and transform(X) returns a triangle in "
  "the form of X, whether X is cumulative or incremental and whatever the options.",
  ["inputs", "configurations"],
  "every exported estimator of triangles x cumulative/incremental X x all option settings",
  "Tests fit cumulative sample data almost exclusively; a result in the wrong form has the right "
  "numbers and fails only in the estimator that consumes it.",
  ["development/", "tails/", "methods/", "adjustments/", "core/common.py"],
  [("learned patterns", "development/base.py, tails/base.py, core/common.py"),
   ("results", "methods/base.py:MethodBase, core/common.py:full_triangle_")],
  "abstract interpretation: typestate of every fitted attribute's form",
  "Incremental full_triangle_ and the learning estimators' values are decided as `may be`, since "
  "their form reaches the result through weak updates.")

P("C16", "What was learned is what later steps use",
  "transform attaches to the triangle it returns exactly the patterns and factors the estimator "
  "learned (ldf_, sigma_, std_err_, w_, tail_, olf_, trend_, the fitted parameters ...), on every "
  "path, whatever patterns the given triangle carried before. predict applies the ldf_ of the fit to "
  "the new triangle, also when that triangle carries a pattern of its own, and MackChainladder also "
  "the fitted sigma_ and std_err_. Fitting a tail, "
  "MunichAdjustment or an IBNR method on a triangle that carries a development pattern starts from "
  "that pattern, and CapeCod also from the trend_ and olf_ it carries.",
  ["inputs", "configurations", "programs"],
  "every exported transformer and IBNR method x triangles with and without patterns of their own",
  "Tests transform the triangle they fitted on, where mine and yours are the same numbers; a "
  "forgotten or stale attribute only shows on another triangle that already carries patterns.",
  ["development/", "tails/", "methods/", "adjustments/"],
  [("transform", "development/*.py, tails/base.py, adjustments/*.py"),
   ("predict", "methods/base.py:MethodBase.predict"),
   ("starting pattern", "methods/base.py:MethodBase.validate_X, tails/base.py:TailBase.fit")],
  "abstract interpretation: lineage marks on pattern triangles, points-to comparison of results",
  "Estimators that work the pattern out for each triangle (learning, CaseOutstanding, Munich) are "
  "held to `not the triangle's own`.")

P("C14", "Every name a function reads has a value by then",
  "No function of the package reads a local name before it was assigned, whatever branch the data, "
  "the options, or a missing optional library (dask, cupy, IPython) lead to: no operation ends in an "
  "UnboundLocalError or a NameError. Arguments outside what a function handles are refused by name "
  "(ValueError and the like) rather than by tripping over a variable none of its branches set, and "
  "every name imported from one of the package's modules exists there.",
  ["inputs", "configurations"],
  "every function, method and nested function of the package; every path through it",
  "Tests take the common branch; a variable set in one branch and read after both fails only for "
  "the shape, form or option that takes the other one.",
  ["core/", "development/", "tails/", "methods/", "adjustments/", "workflow/", "utils/"],
  [("branching code", "core/triangle.py, core/dunders.py, core/base.py, development/, tails/"),
   ("optional libraries", "core/pandas.py, core/triangle.py, core/display.py, utils/cupy.py, "
    "utils/dask.py")],
  "path-sensitive definite-assignment analysis over the syntax tree",
  "Conditions on the same attribute are taken to agree within one call; attributes (rather than "
  "names) that may be missing are C15's subject.")

P("C15", "Documented results exist after every successful fit",
  "After any successful fit, whatever the options, the triangle and the sample_weight, every "
  "attribute the class documentation lists can be read: fit stored it on every path, or it is a "
  "property that does not need anything fit may have left out. No code of fit, transform or predict "
  "reads an attribute of the estimator that an earlier step may not have set, and what predict "
  "returns has the documented results (ultimate_, ibnr_, full_triangle_, the risk measures ...) "
  "as well. Only elr_ of the Clark estimators depends on a sample_weight being given.",
  ["inputs", "configurations"],
  "every exported estimator x option setting x X with and without patterns x sample_weight or none",
  "Tests read a few attributes of a few fits; an attribute set in one branch only fails for the "
  "option or input that takes the other branch, and only when somebody reads it.",
  ["development/", "tails/", "methods/", "adjustments/", "core/common.py"],
  [("learned attributes", "every estimator's fit"),
   ("derived results", "core/common.py:Common, methods/mack.py, development/munich.py"),
   ("results of predict", "methods/base.py:MethodBase.predict, methods/mack.py")],
  "definite-assignment analysis (abstract interpretation with 'may be missing' field marks)",
  "Documented properties are held to `some path completes`: failures that depend on values are out "
  "of reach.")

P("C09", "What is written to JSON is what is read back",
  "read_json(x.to_json()) gives back an estimator of the same class whose every option equals the "
  "one it was given, in kind and content, for options made of text, numbers, None, tuples, lists, "
  "dicts with any such keys and other estimators, nested as they may be; a Pipeline keeps the names, "
  "order, classes and options of its steps. A triangle read back keeps its cumulative and pattern "
  "flags and its valuation date, and every triangle, frame or series attached to it (ldf_, sigma_, "
  "ultimate_, lambda_ ...) is attached under the same name with its own flags and dates.",
  ["inputs", "configurations"],
  "every exported estimator and Pipeline x every kind of option value; triangles x cumulative, "
  "pattern and valuation forms, with and without attachments",
  "Tests write a few default estimators and compare the text written again; an option kind JSON "
  "cannot express (a tuple, a numeric key, a nested estimator) is silently changed or lost.",
  ["core/io.py", "utils/utility_functions.py", "workflow/gridsearch.py"],
  [("write", "core/io.py:TriangleIO.to_json, EstimatorIO.to_json"),
   ("read", "utils/utility_functions.py:read_json")],
  "abstract interpretation: structural comparison of written and read values under a model of JSON",
  "Cell values, labels and the valuation/development layout of the triangle read are not decided: "
  "they pass through pandas.")

import na  # noqa
na.add(P)
