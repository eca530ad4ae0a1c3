TESTS = "The existing tests pin a few hand-made or random inputs"

prop("C01", "OHLCV bars summarise exactly their own trades",
     "For every trade sequence and every set of bar boundaries, each bar's open, high, low, close, volume, trade count, volume-weighted "
     "average price and median trade size are those of exactly the trades between the previous boundary and its own; no trade is lost, "
     "counted twice or attributed to a neighbouring bar. A bar without trades repeats the previous close with zero volume and zero trades.",
     ["inputs"], "all trade sequences and all ways to cut them into bars, including empty bars",
     TESTS + " with mostly regular bars; they cannot cover every relation between boundaries, empty bars and extreme trades.",
     [B, KIT], [("per-bar aggregation kernel", B), ("build_ohlcv", B)], ["build_ohlcv()"])

prop("C02", "Time bars lie on the interval grid and partition the trades",
     "Time bar close timestamps are consecutive multiples of the interval, and every trade between the first and last grid point falls into "
     "exactly the bar whose half-open interval contains it. The grid depends only on the interval and the first and last trade, and quiet "
     "intervals yield empty bars, not missing ones.",
     ["inputs"], "all non-decreasing timestamp sequences, phases of the first trade relative to the grid, and intervals",
     TESTS + " at small timestamps; gaps, exact grid hits and present-day epochs are sampled only.",
     [LOGIC, KIT], [("time bar indexer", LOGIC)], ["TimeBarKit.bar_close_timestamps", "build_ohlcv().index"])

prop("C03", "Tick, volume and dollar bars close at the first trade reaching the threshold",
     "A tick, volume or dollar bar closes at exactly the first trade at which the accumulated count, volume or dollar value reaches the "
     "threshold. Count and volume restart from zero for the next trade; dollar value beyond the threshold carries over into the next bar. "
     "Closes are therefore strictly increasing trade positions, and the "
     "unfinished remainder forms no bar.",
     ["inputs"], "all trade sequences, thresholds and value ties",
     TESTS + "; exact threshold hits, oversize trades in a row and remainders are combinations no sample exhausts.",
     [LOGIC, KIT], [("tick/volume/dollar bar indexers", LOGIC)], ["kit close timestamps and indices"])

prop("C04", "CUSUM bars close exactly when the symmetric CUSUM crosses the threshold",
     "A CUSUM bar closes at exactly the first trade at which the running positive or negative cumulative sum of log returns reaches the "
     "volatility-scaled threshold (never below its floor); the sum that reached it restarts from zero, the other one runs on. A bar never "
     "closes between trades of one timestamp, the volatility is read at the closing trade, and where it is missing the last known one counts.",
     ["inputs"], "all price paths, volatility paths, multipliers and floors",
     TESTS + "; resets, two-sided accumulation and threshold floors interact over the whole history.",
     [LOGIC, KIT], [("CUSUM bar indexer", LOGIC)], ["CUSUMBarKit closes"])

prop("C05", "Directional bar features split every bar's flow exactly by aggressor side",
     "Per bar, ticks, volume and dollars are split into buys and sells by the trades' own sides, cumulative extrema of the signed flow are "
     "the true minima and maxima over the bar's prefixes, and spread statistics compare consecutive trades of different sides only. The totals "
     "of both sides equal the bar totals, whatever the magnitude of the flow.",
     ["inputs"], "all trade sequences with sides, all bar cuts including empty bars, all magnitudes",
     TESTS + "; running extrema depend on the order of trades within a bar and on empty bars.",
     [B], [("directional feature kernel", B)], ["build_directional_features()"])

prop("C06", "Trade-size features describe exactly the bar's own size distribution",
     "For every bar, the mean relative size, the large-trade share and the size-concentration measures are computed from exactly that "
     "bar's trades relative to the supplied reference size. Bars without trades report no activity.",
     ["inputs"], "all trade sequences, bar cuts and reference sizes",
     TESTS + "; block boundaries and ties at the size threshold are not enumerated.",
     [B], [("trade size feature kernel", B)], ["build_trade_size_features()"])

prop("C07", "Footprints account for every trade at its own price level",
     "A bar's footprint holds, for every price level between its low and high, exactly the buy and sell volume and ticks of its own trades "
     "at that level; imbalance flags follow the diagonal rule with the given factor, and the derived summaries follow from those levels. "
     "The inferred tick size places every trade on its true level.",
     ["inputs"], "all trade sequences on a price grid, bar cuts, tick sizes and imbalance factors",
     TESTS + "; the interaction of level offsets, diagonals and skipped levels is combinatorial.",
     [B, U], [("footprint kernels", B), ("tick size inference", U)], ["build_footprints()"])

prop("C08", "Footprint containers never mix, drop or alter bars",
     "Any sequence of slicing, indexing by position or time, casting and exporting of a footprint container yields exactly the selected "
     "bars with all per-bar arrays still belonging to their bar. The exported table lists every level of every bar once.",
     ["histories"], "all container contents, selection expressions and operation sequences",
     TESTS + "; equal-length bars, single bars and repeated casts form histories the tests do not walk.",
     [DM, U], [("footprint container", DM), ("footprint_to_dataframe", U)], ["FootprintData"])

prop("C09", "A closed bar never changes when later trades arrive",
     "Extending a trade history never changes any already closed bar: its boundary, OHLCV, directional, size and footprint rows are the same "
     "whether or not later trades exist. Bars therefore carry no look-ahead.",
     ["histories"], "all trade histories, all prefixes, all bar kinds",
     TESTS + " on complete data sets only; prefix stability quantifies over every cut of every history.",
     [B, LOGIC, KIT], [("bar indexers", LOGIC), ("aggregation kernels", B)], ["all kits, all products"])

prop("C10", "Preprocessing conserves every trade once, whatever order rows arrive in",
     "Preprocessed trades are sorted by time, hold every distinct trade id exactly once, and merging split fills conserves the amount traded "
     "at each instant, price and side; each trade keeps its own side. The result does not depend on the arrival order of the rows or on "
     "duplicated rows (of rows that share an id but differ, the first to arrive is the trade), and timestamps are exact multiples of the requested resolution in nanoseconds.",
     ["inputs"], "all sets of raw trades, all arrival orders, duplicated rows, units, resolutions and price scales",
     TESTS + " that are already ordered; permutations of rows with per-row attributes are not explored.",
     [DM, U], [("preprocessing pipeline", DM), ("merge_split_trades", U)], ["TradesData.data"])

prop("C11", "The tick rule decides trade sides exactly when no maker flag is given",
     "Without maker flags, a trade's side is +1 after an up-tick and -1 after a down-tick, unchanged prices inherit the previous side, and "
     "trades before the first price change carry no side. With maker flags, sides are exactly the flags and prices play no role.",
     ["inputs"], "all price paths at all price scales, with all split-trade groupings",
     TESTS + " of a handful of prices; zero-ticks and merging interact along the path.",
     [U, DM], [("comp_trade_side_vector", U)], ["TradesData.data side column"])

prop("C12", "A view range exposes exactly the trades inside it, ends inclusive",
     "After a view range is set, every consumer (data access and bar building) sees exactly the trades with timestamps inside the closed "
     "range, the last view set wins, and a range whose start is not before its end is rejected without effect.",
     ["histories"], "all trade timestamps, all view bounds, all orders of successive views",
     TESTS + " with one view per object.",
     [DM], [("set_view_range / data", DM)], ["TradesData.data", "bars built through a view"])

prop("C13", "Stored trades come back exactly, for every save history and query",
     "After any history of saves (new month, overwrite, append, explicit month key, fresh file), a query by month, by time range or by both "
     "returns exactly the stored trades in range, in time order with ties in stored order, whether loaded sequentially or in parallel. "
     "A query that matches nothing is refused instead of answered wrongly.",
     ["histories"], "all histories of save operations over overlapping frames and all queries",
     TESTS + " that save once and query once; metadata of appended months and ranges across months need histories.",
     [DM], [("save_h5", DM), ("group discovery by metadata", DM), ("load_trades_h5", DM)], ["load_trades_h5()"])

prop("C14", "Loading survives every pattern of failing groups and completion orders",
     "When some monthly groups cannot be read, or workers die or finish in any order, loading returns exactly the trades of the readable "
     "groups in time order and reports each lost group as an error. If the worker pool itself fails, everything is still loaded; if nothing "
     "can be loaded, an error is raised.",
     ["fault_sequences", "schedules"], "all subsets of failing groups, all completion orders, fault kinds and pool failures",
     TESTS + " without faults; completion order of real processes is not controllable in tests.",
     [DM], [("parallel loading and fallback", DM)], ["load_trades_h5()", "error log"])

prop("C15", "Integrity reports tell exactly which trades are missing",
     "The missing percentage counts exactly the skipped trade ids, the discontinuity report lists exactly the id gaps longer than one "
     "minute, and the integrity flag is false exactly when duplicates or such gaps exist. Stored reports, metadata, statistics and gap "
     "inspections always describe the data currently stored, after any history of overwrites and appends.",
     ["inputs", "histories"], "all id/time histories with duplicates; all store histories",
     TESTS + " with one planted gap.",
     [DM, IO], [("_validate_data", DM), ("save_h5 metadata", DM), ("H5Inspector", IO)], ["TradesData fields", "H5Inspector"])

prop("C16", "Stored 1-second bars and their resamplings neither lose nor invent activity",
     "Stored 1-second bars equal the bars of the stored trades, are rebuilt only on request, and reading a closed time range returns exactly "
     "its bars across month partitions. Resampling keeps first/max/min/last prices, total volume and trades, the volume-weighted price and "
     "the trade-weighted median of exactly the grouped bars, and drops the last requested day only if it is incomplete.",
     ["inputs", "histories"], "all trade layouts, ranges and timeframes; all histories of saving and building bars",
     TESTS + " for key handling; resampling and range semantics are untested combinations.",
     [IO], [("AddTimeBarH5.process_key", IO), ("TimeBarReader.read/_resample", IO)], ["TimeBarReader.read()"])

TB = "finmlkit/label/tbm.py"
LK = "finmlkit/label/kit.py"
W = "finmlkit/label/weights.py"
prop("C17", "Triple-barrier labels follow the first barrier the price path touches",
     "For every event, the label, touch index, return and vertical-touch weight are those of the first bar inside the vertical window at "
     "which the (side-adjusted) log return reaches an enabled horizontal barrier after the minimum close time, else of the last bar inside "
     "the window. Disabled barriers never touch, and events without any bar in their window are neutral.",
     ["inputs"], "all price paths, bar timings, barrier multipliers, vertical windows, minimum close times, sides and targets",
     TESTS + " on a few hand-made paths with one event each; interactions of barrier order, disabled barriers, minimum close time and sides "
     "need all paths.",
     [TB], [("triple_barrier", TB)], ["triple_barrier()"])

prop("C18", "The labelling kit evaluates events against the right bars and only full events",
     "TBMLabel labels exactly the requested events that have a usable target and full history and enough future, in order, at the timestamps "
     "requested, against exactly the supplied bar series, whatever the time unit or timezone of the indexes. Labels, touch times, returns, weights and "
     "the full output frame describe the same events and equal the triple-barrier rule applied to them.",
     ["inputs", "configurations"], "all event sets over short trade series, target patterns, index units, windows and label configurations",
     TESTS + " with one dataset; boundary events, units and NaN targets interact.",
     [LK, "finmlkit/label/tbm.py"], [("TBMLabel", LK), ("SampleWeights", LK)], ["TBMLabel.features/labels/full_output", "compute_weights()"])

prop("C19", "Average uniqueness counts every concurrent label",
     "Concurrency at a bar is the number of labels whose inclusive event-to-touch span contains it; a label's average uniqueness is the mean "
     "of the inverse concurrency over exactly its own span, whatever the nesting, order or number of the labels.",
     ["inputs"], "all lists of label spans over short series",
     TESTS + " on two hand-made span sets; nested, identical and touching spans are combinations no sample exhausts.",
     [W], [("average_uniqueness", W)], ["average_uniqueness()"])

prop("C20", "Sample weights follow their definitions and combine exactly",
     "Return attribution is the absolute sum over the label's span of each bar's log return divided by its concurrency, optionally scaled to sum to the number of events. Time decay "
     "is linear in cumulative uniqueness: newest sample one, oldest end the requested weight, negative values erase the oldest share. Class balancing gives each class equal "
     "total weight. Final weights are the product of exactly the requested parts.",
     ["inputs", "configurations"], "all short label lists, price paths, uniqueness vectors, decay intercepts and combinations of parts",
     TESTS + " at a handful of values.",
     [W, LK], [("return_attribution", W), ("time_decay", W), ("class_balance_weights", W), ("SampleWeights", LK)],
     ["return_attribution()", "time_decay()", "class_balance_weights()", "SampleWeights.compute_final_weights()"])

FB, FK, FU, TR = "finmlkit/feature/base.py", "finmlkit/feature/kit.py", "finmlkit/feature/utils.py", "finmlkit/feature/transforms.py"
CORE = "finmlkit/feature/core/"
CV, CVOL, CM, CMA, CT, CTR, CR, CC, CU = (CORE + x for x in ("volatility.py", "volume.py", "momentum.py", "ma.py", "time.py", "trend.py", "reversion.py",
                                                             "correlation.py", "utils.py"))
CS = CORE + "structural_break/cusum.py"
FS = "finmlkit/sampling/filters.py"
ALLCORE = [TR, CV, CVOL, CM, CMA, CT, CTR, CR, CC, CU]

prop("C21", "The CUSUM filter samples exactly the threshold crossings",
     "cusum_filter returns, in order, exactly the positions at which the running positive or negative sum of log returns exceeds the threshold of that position; only the side that "
     "exceeded restarts from zero. Constant and per-position thresholds mean the same, and inconsistent lengths are refused.",
     ["inputs"], "all price paths and threshold vectors",
     TESTS + " of random prices; resets, ties and two-sided accumulation depend on the whole history.",
     [FS], [("cusum_filter", FS)], ["cusum_filter()"])

prop("C22", "No feature looks ahead",
     "The value of a feature at a bar is a function of that bar and earlier bars only: computing it on any prefix of the data gives the prefix of its values, in every backend and for "
     "every option.",
     ["inputs", "histories"], "all bar sequences, all cut points, all windowed and recursive features and their options",
     TESTS + " of one random series, checking final values; a leak shows only when the same data is cut in several places.",
     ALLCORE, [("feature functions", CORE), ("transforms", TR)], ["transform(df)"])

prop("C23", "Both backends of a feature return the same result",
     "Where a feature has a pandas and a numba implementation, both give the same values, missing values, output names and index for the same frame, so that choosing a backend only "
     "affects speed.",
     ["inputs", "configurations"], "all frames incl. zeros, negative, missing values and irregular timings, all options",
     TESTS + " of one random series without missing values, zeros or flat stretches.",
     ALLCORE, [("BaseTransform backends", FB), ("transforms", TR)], ["transform(df, backend='pd'|'nb')"])

prop("C24", "Return and momentum features equal their definitions",
     "Lags, returns over bars and over time, rate of change, percentage change, RSI, stochastic K, trend slope, ADX and direction run length equal their stated formulas at every bar, with "
     "missing values exactly where the definition has no answer.",
     ["inputs"], "all short bar sequences, timings, windows and options",
     TESTS + "; warm-up, missing values, equal prices and irregular gaps interact bar by bar.",
     [TR, CM, CTR, CU], [("momentum and trend functions", CM), ("lagged returns", CU)], ["transform(df)"])

prop("C25", "Averages and volatility estimators equal their definitions",
     "Simple and exponential averages, exponential and time-decayed deviations, z-scores, realised and bipower variation, Bollinger position, Parkinson and true range, ATR, rolling variance, "
     "variance ratio, kurtosis and Hurst exponent equal their stated formulas over exactly their window at every bar.",
     ["inputs"], "all short bar sequences, timings, windows and options",
     TESTS + "; flat windows, missing values, warm-up and irregular timings are not enumerated.",
     [TR, CV, CMA, CR], [("moving averages", CMA), ("volatility estimators", CV), ("z-score", CR)], ["transform(df)"])

prop("C26", "CUSUM break statistics are those of exactly their window",
     "The rolling, developing and last structural-break statistics are the Chu-Stinchcombe-White statistics and critical values of exactly their own window with the noise estimated only "
     "from that window; break flags, scores and ages follow from them.",
     ["inputs"], "all price paths, window sizes and warm-up periods",
     TESTS + " of a few shapes on random data; the maximum over anchors and the noise estimate depend on every return of the window.",
     [CS, TR], [("CUSUM test", CS), ("CUSUMTest", TR)], ["cusum_test_*()", "CUSUMTest(df)"])

prop("C27", "Volume profiles come from exactly the volume of their window",
     "The point of control, value area bounds and share above it of a rolling, developing or ranged volume profile come from exactly the footprints inside that window, all of their "
     "volume, and no later bar.",
     ["inputs"], "all footprint sequences, spacings, windows and bin settings",
     TESTS + " of a single profile; alignment of price grids between bars and window edges are combinatorial.",
     [CVOL], [("VolumePro", CVOL), ("volume profile kernels", CVOL)], ["VolumePro.compute*/volume_profile_*()"])

prop("C28", "Order flow and volume features equal their definitions",
     "Flow acceleration, VPIN, VWAP distance, burst ratio and price-volume correlation equal their stated formulas over exactly their window at every bar, and are missing exactly where "
     "undefined.",
     ["inputs"], "all short sequences of prices and volumes incl. zero and missing volumes, windows and options",
     TESTS + "; empty bars, one-sided flow and flat windows are the rare cases.",
     [TR, CVOL, CC], [("volume functions", CVOL), ("correlation", CC)], ["transform(df)"])

prop("C29", "Calendar, timing and candle features follow their definitions",
     "Session, hour, day and week cues, bar rate, bar duration and its average, daily gap, opening range breaks and candle shapes equal their definitions for every timestamp and bar.",
     ["inputs"], "all timestamps around every session, day, week, month and year boundary, all bar timings",
     TESTS + " of a few timestamps inside a session.",
     [TR, CT], [("time_cues", CT), ("transforms", TR)], ["transform(df)"])

prop("C30", "Feature expressions evaluate to the arithmetic of their parts",
     "An expression built from features with operators, constants and functions evaluates elementwise to that arithmetic of its parts' values, in both backends; caching of common parts, "
     "within one evaluation or in a kit, never changes a value.",
     ["programs", "configurations"], "all expressions up to a depth over all operators, and all kits of features sharing parts or names",
     TESTS + "; cache reuse depends on which names and parts coincide.",
     [FK, FB], [("operators and cache", FK), ("operator transforms", FB)], ["Feature(df, cache=...)", "FeatureKit.build()"])

prop("C31", "A feature kit survives its configuration round trip",
     "A feature or kit saved to its configuration and loaded again, through text, computes the same columns under the same names, and saves to the same configuration; what cannot be saved "
     "or is damaged is refused, never silently replaced.",
     ["programs", "configurations"], "all transforms with all parameter sets, all expressions up to a depth, all operation sequences incl. renaming, kits",
     TESTS + " for a few features; every combination of operator, parameter type and name has its own encoding.",
     [FK, FB, FU, TR], [("to_config/from_config", FK), ("transform_to_config/transform_from_config", FU)], ["FeatureKit.from_dict(kit.to_config())"])

prop("C32", "Topological execution respects dependencies and is deterministic",
     "Topological execution runs every feature exactly once and after everything it reads; a cycle is reported. The order depends on the features only, not on the order or names in which "
     "hashing presents them, and repeats in every process.",
     ["programs", "configurations"], "all labelled dependency graphs up to a size, all link styles, several hash seeds",
     TESTS + " of one or two graphs in one process.",
     [FK, FU], [("ComputationGraph", FU), ("topological_order", FK)], ["FeatureKit.topological_order()/build(order='topo')"])

prop("C33", "A kit's output holds exactly the retained columns and all features",
     "Building a kit returns the retained columns, then every feature under its own name, in order, on the input's index, and leaves the input frame as it was, for every backend, execution "
     "order and repetition.",
     ["programs", "configurations"], "all ordered selections of features of all naming styles, retained columns, orders and backends",
     TESTS + " of one kit; name collisions and multi-output features are combinations.",
     [FK], [("FeatureKit.build", FK)], ["FeatureKit.build()"])

prop("C34", "Features depend on values, not on how they are stored",
     "Integer or float columns, array strides, write protection, column order, unrelated columns, index resolution and timezone have no influence on any feature's values.",
     ["inputs", "configurations"], "all short value sequences in every storage representation",
     TESTS + " with float64 columns and nanosecond UTC indexes only.",
     ALLCORE, [("BaseTransform", FB), ("feature functions", CORE)], ["transform(df)"])

prop("C36", "Computations leave their inputs alone and depend on no earlier call",
     "No computation changes the trades, frames, arrays, results or feature objects it is given, nor a result handed out earlier; the result of every operation is the one it would give "
     "alone on fresh inputs, whatever was computed before.",
     ["histories"], "all operation sequences up to a depth over the operations of every part of the library",
     TESTS + " one operation at a time on fresh data.",
     [KIT, DM, LK, FK, TR], [("bar kits", KIT), ("labelling kit", LK), ("features", FK)], ["every public operation"])

prop("C39", "Values outside a feature's window have no influence on it",
     "A windowed feature depends on the bars of its window only: whatever came before, including missing values, zeros and outliers, leaves it unchanged.",
     ["inputs", "histories"], "all window contents behind a set of extreme histories",
     TESTS + "; residues of running sums appear only behind specific histories.",
     ALLCORE, [("rolling feature functions", CORE)], ["transform(df)"])

prop("C40", "What cannot be answered is refused, what can be answered is answered",
     "Requests that cannot be answered (missing columns, unknown options, lengths that do not match, values out of range) are refused with the documented error and leave object, frame and "
     "store as they were, so that the next request is answered as before; every request within the documented range, its edges included, is answered.",
     ["inputs", "configurations", "histories"], "all combinations of acceptable and unacceptable arguments of the public entry points",
     TESTS + " of one wrong argument at a time, and never of the object's state afterwards.",
     [FB, FK, TR, LK, DM, FS], [("input validation of features", FB), ("TBMLabel", LK), ("TradesData", DM)], ["every public entry point"])

prop("C41", "Results do not depend on the units of price and volume, nor on the epoch",
     "Quoting prices or volumes in another unit, or moving the whole data set by whole weeks, changes results only by that unit: no hidden absolute tolerance, floor, or time range decides "
     "sides, bars, features, labels or weights.",
     ["inputs", "configurations"], "all short inputs, each under several exact changes of unit and of epoch",
     TESTS + " around price 100 and one year; absolute thresholds and narrow time types show only at other scales.",
     ALLCORE + [KIT, DM, LK], [("feature functions", CORE), ("bar kits", KIT), ("labels", LK)], ["every public computation"])

prop("C42", "The amount of data is not visible in the results",
     "However many trades a bar, bars a series, events a set, levels a footprint, months a store or columns a frame has, counts and sums are complete: nothing wraps, truncates or changes at a "
     "size limit.",
     ["inputs"], "every size on both sides of each machine and decimal limit up to 65 537, against closed-form results",
     TESTS + " with tens of rows; counters and buffers fail at their limits only.",
     [B, KIT, DM, IO, LK, W, CVOL], [("bar kernels", B), ("TradesData", DM), ("labels", LK)], ["every public computation"])

prop("C35", "Parallel loops give the same result for every schedule",
     "Every function that runs its loop in parallel returns the same result for every thread count, chunking and order of its iterations: no iteration writes data that another one reads or "
     "writes.",
     ["schedules", "inputs"], "all orders of iterations and, by independence of their memory accesses, all interleavings, for all small inputs",
     TESTS + " on one machine's default schedule, where a race rarely shows.",
     [B, TB, W, CS, CVOL, CV, CU, CMA, CT, FS], [("parallel kernels", B), ("parallel features", CV)], ["every function with parallel=True"])

prop("C37", "The download pipeline stores exactly the months that arrived intact",
     "After a run of binance2h5, the store of a symbol and market holds, for every month whose archive arrived intact, exactly its trades and bars, whatever failed for other months and "
     "in whatever order they finished. Interrupted downloads are never taken for complete, altered archives are never stored, earlier months are never lost, and a later run repairs what failed.",
     ["crash points", "schedules", "histories"], "all combinations of server faults, write failures, completion orders and histories of runs",
     "The script has no tests; faults, completion orders and repeated runs multiply.",
     ["scripts/binance2h5.py", DM, IO], [("download_file", "scripts/binance2h5.py"), ("process_all", "scripts/binance2h5.py"), ("orchestrate_symbol", "scripts/binance2h5.py")],
     ["files under workdir/h5 and workdir/raw"])

prop("C38", "What is finished does not change when later trades arrive",
     "Bars that closed, trades that were merged, events that were sampled and labels whose window has passed stay exactly as they are when later trades are appended and everything is "
     "computed again.",
     ["inputs", "histories"], "all trade sequences, all cut points, all bar kinds and label configurations",
     TESTS + " of a single run each; repainting shows only when two runs over growing data are compared.",
     [LOGIC, B, KIT, DM, TB, LK, FS], [("bar indexers", LOGIC), ("bar features", B), ("labelling", LK)], ["bar kits", "TBMLabel.compute_labels()", "cusum_filter()"])
