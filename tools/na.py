def add(P):
    inp = ["inputs"]

    def N(id, title, statement, text, why, files, mech, na, over=inp):
        P(id, title, statement, over, text, why, files, mech, na=na)

    N("N01", "Cumulative and incremental forms convert back and forth without loss",
      "Converting a triangle from cumulative to incremental and back, or the reverse, returns "
      "the original values on every observed cell.",
      "every triangle, shape, back-end", "Tests convert a few samples.",
      ["core/triangle.py"], [("cum_to_incr / incr_to_cum", "core/triangle.py:Triangle")],
      "Equality of floating-point values after two array computations; no sound static argument "
      "bounds the runtime values. (That each direction leaves its operand alone and honours "
      "inplace is claimed in C02/C03.)")
    N("N02", "Development and valuation views hold the same amounts",
      "dev_to_val and val_to_dev are inverse to each other and preserve every amount and its "
      "origin and valuation date.",
      "every triangle, grain, back-end", "Tests convert a few samples.",
      ["core/triangle.py"], [("coordinate shift", "core/triangle.py:Triangle._val_dev")],
      "Depends on runtime coordinates of a sparse array; numeric round trip, not visible in the "
      "shape of the code.")
    N("N03", "Changing grain conserves amounts",
      "Changing to a coarser grain aggregates exactly the finer cells it covers; totals per "
      "origin and valuation agree.",
      "every triangle and grain pair", "Tests use a few sample triangles.",
      ["core/triangle.py"], [("grain", "core/triangle.py:Triangle.grain")],
      "A statement about sums of runtime values and calendar bucketing; only the grain tables "
      "are decidable statically and are claimed in C07.")
    N("N04", "All array back-ends give the same numbers",
      "Every operation gives numerically equal results on numpy, sparse, cupy and dask arrays.",
      "every operation x back-end", "cupy and dask are not exercised.",
      ["core/", "utils/sparse.py"], [("array module dispatch", "core/base.py")],
      "Numerical equality between two array libraries is a runtime fact.",
      ["inputs", "configurations"])
    N("N05", "Ultimates, IBNR and development factors satisfy their identities",
      "The chainladder ultimate equals latest times cumulative factor, IBNR equals ultimate "
      "minus latest, and cumulative factors are the products of age-to-age factors.",
      "every triangle and estimator", "Tests compare with R for samples.",
      ["methods/", "core/common.py"], [("ibnr_, cdf_", "core/common.py:Common")],
      "Arithmetic identities over runtime arrays.")
    N("N06", "Mack, Munich and bootstrap statistics equal their published formulas",
      "Standard errors, correlations, residuals and simulated distributions equal the published "
      "estimators.",
      "every triangle", "Tests compare a handful of samples with R.",
      ["methods/mack.py", "development/munich.py", "adjustments/bootstrap.py"],
      [("formulas", "methods/mack.py:MackChainladder")],
      "Numerical correctness of formulas; needs an oracle over values.")
    N("N07", "JSON and pickle round trips preserve every number",
      "Writing a triangle or estimator and reading it back gives an equal object.",
      "every triangle and estimator", "Tests round-trip a few samples.",
      ["core/io.py", "utils/utility_functions.py"], [("to_json/read_json", "core/io.py")],
      "Equality of round-tripped values is a runtime fact; the agreement of what the writer "
      "emits with what the reader consumes is claimed in C09.")
    N("N08", "Period and outlier exclusions remove exactly the cells they name",
      "n_periods, drop, drop_high, drop_low, drop_valuation, drop_above and drop_below give "
      "zero weight to exactly the cells described by their documentation.",
      "every triangle and exclusion", "Tests pick a few exclusions on samples.",
      ["development/base.py"], [("weight construction", "development/base.py:DevelopmentBase")],
      "Depends on sorting and counting runtime values per development age.")
    N("N09", "On-level and trend factors carry the documented values",
      "Parallelogram on-level factors and trend factors equal the compounded rate changes over "
      "exposure time.",
      "every rate history and date", "Tests use two rate histories.",
      ["adjustments/", "utils/utility_functions.py"],
      [("parallelogram_olf", "utils/utility_functions.py")],
      "Calendar arithmetic on runtime dates and rates.")
