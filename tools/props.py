PNB = "vectorbt/portfolio/nb.py"
PB = "vectorbt/portfolio/base.py"

prop("C01", "Every order is executed exactly within its own limits and the account's",
     "Given any account state and any order request, the outcome (filled, ignored or rejected, with its reason) and the resulting cash, position, debt and free cash follow from the documented order semantics: size type, direction, slippage, proportional and fixed fees, minimum and maximum size, size granularity, cash locking, partial fills and rejection. "
     "A fill never spends cash that is not there, never crosses zero against a long-only or short-only direction, and moves cash by exactly the signed value plus fees; an order that is not filled leaves the account untouched. "
     "Every fill and every logged order produces exactly one faithful record, and running out of record space or a rejection flagged as fatal raises an error.",
     ["inputs", "histories"], "all account states x all order field combinations, and all sequences of orders",
     "Tests pin a few dozen hand-picked orders; the field combinations (6 size types x 3 directions x limits x locking) and histories are unbounded.",
     [PNB, "vectorbt/portfolio/enums.py", "vectorbt/utils/math_.py"],
     [("order execution", PNB + ": execute_order_nb, buy_nb, sell_nb"), ("record keeping", PNB + ": process_order_nb")],
     True, "Random search against an independent reference model of order execution plus model-free account laws; boundary cases within 1e-6 of a floating-point decision are not judged.",
     [("cash, position, debt, free_cash", "account state threaded through the orders")],
     "execute_order_nb / process_order_nb results, order and log records")

prop("C02", "Simulating arrays of orders equals replaying them one by one",
     "A portfolio simulated from arrays of orders contains exactly the order and log records that a sequential ledger produces when it walks rows in time order and, within a row, the columns of each group in the call sequence, with cash shared inside a group when requested, prices and valuation prices resolved as documented (infinite means current or previous close), and per-element arguments broadcast against the price. "
     "With the automatic call sequence, orders within a row are executed by ascending approximate order value. "
     "The result does not depend on whether an argument is passed as a scalar, a row, a column or a full array.",
     ["inputs", "histories", "configurations"], "all price and order arrays, groupings, call sequences and valuation options",
     "Tests use one 5-row price series with mostly constant arguments; interactions between grouping, call sequence, valuation and order limits are sampled at isolated points.",
     [PNB, PB], [("order loop", PNB + ": simulate_from_orders_nb"), ("broadcasting of arguments", PB + ": Portfolio.from_orders"), ("call sequence", PNB + ": build_call_seq, approx_order_value_nb")],
     True, 'Random search against a sequential reference ledger (and model-free relations); simulations where the reference meets a floating-point decision within 1e-6 are not judged; shapes up to 12x4.')

prop("C03", "Signals turn into the documented orders, including conflicts and stops",
     "A portfolio simulated from entry and exit signals contains exactly the orders that follow from the documented signal pipeline applied bar by bar: stop-loss, trailing-stop and take-profit signals first, then resolution of entry/exit, direction and opposite-entry conflicts, then accumulation rules and size. "
     "A stop fires on the first later bar whose range reaches the stop level, at the level or at the open if the bar gaps past it, a trailing level only ever ratchets in the favourable direction, and stops are set, kept, overridden and cleared with the position as configured. "
     "Direction-based and long/short signal formats, static arrays and the generic callback form all give the same orders.",
     ["inputs", "histories", "configurations"], "all signal arrays, price bars, conflict, accumulation and stop modes",
     "Tests enumerate each mode on one tiny series; the modes interact through the position history, so the space of histories is not covered.",
     [PNB, PB], [("signal pipeline", PNB + ": simulate_from_signals_nb, simulate_from_signal_func_nb"), ("conflict resolution", PNB + ": resolve_signal_conflict_nb, resolve_dir_conflict_nb, resolve_opposite_entry_nb, signals_to_size_nb"), ("stops", PNB + ": get_stop_price_nb, generate_stop_signal_nb")],
     True, 'Random search against a bar-by-bar reference of the signal pipeline; simulations where the reference meets a floating-point decision within 1e-6 are not judged; shapes up to 12x3.')

prop("C04", "All simulation routes give the same portfolio",
     "The same orders produce the same order records, logs and portfolio value whether they are passed as arrays, returned by a per-element order callback in column-major or row-major traversal, or placed through the flexible multi-order callback. "
     "Callbacks are invoked in the documented nesting and order (simulation, group or row, segment, order), skip masked segments, receive contexts that agree with the records written so far (cash, position, value, return, open position statistics), and orders created in them take effect immediately.",
     ["programs", "inputs", "schedules"], "all order programs expressible in every route, traversal orders, segment masks and call sequences",
     "Tests compare routes on single examples; agreement must hold for all order programs, masks and groupings.",
     [PNB, PB], [("column-major loop", PNB + ": simulate_nb"), ("row-major loop", PNB + ": simulate_row_wise_nb"), ("flexible loops", PNB + ": flex_simulate_nb, flex_simulate_row_wise_nb")],
     True, 'Random order programs; every callback event and context is compared with a python reference traversal, and records with the array route; shapes up to 6x4.')

prop("C05", "Nothing computed for a bar depends on later bars",
     "Truncating or arbitrarily changing the data after some bar leaves everything computed up to that bar unchanged: simulated orders and logs, portfolio value, cash and returns, indicator outputs, rolling, expanding and exponentially weighted statistics, cumulative and rolling return metrics, forward fills, crossovers, ranks and stop signals. "
     "Label generators and explicitly backward-looking fills are the only exceptions.",
     ["inputs", "histories"], "all inputs, all cut points and all replacement futures",
     "Look-ahead shows only when the future is varied while the past is fixed, which example tests never do.",
     [PNB, "vectorbt/generic/nb.py", "vectorbt/indicators/nb.py", "vectorbt/signals/nb.py", "vectorbt/returns/nb.py"],
     [("time-ordered loops", "all of the above")], True, 'Random cut points and futures; automatic initial cash and backward filling excluded.')

prop("C06", "Independent columns stay independent, and selecting columns commutes",
     "In a portfolio without cash sharing, each column's records and metrics equal those of simulating that column alone; with cash sharing the same holds for each group. "
     "Selecting columns, groups or reordering columns of a portfolio afterwards and computing any metric gives the same result as computing first and selecting afterwards, and permuting input columns permutes the results (automatic initial cash aligned over all columns excepted, as it is defined over the columns at hand).",
     ["inputs", "configurations"], "all multi-column inputs, groupings and column selections",
     "Tests index one fixed portfolio with a handful of selections; cross-column leakage shows only for specific multi-column histories.",
     [PB, "vectorbt/base/array_wrapper.py", "vectorbt/records/base.py", "vectorbt/base/column_grouper.py"],
     [("portfolio indexing", PB + ": Portfolio.indexing_func"), ("group bookkeeping", "vectorbt/base/array_wrapper.py: indexing_func_meta")], True, 'Metamorphic relations on the real code; automatic initial cash aligned over columns is excluded by definition.')

prop("C07", "Portfolio accounting reconciles with the order records",
     "For any portfolio and any grouping or direction filter, cash, free cash, assets, position coverage, asset value, portfolio value, profit, returns, market value and benchmark value derived from the portfolio equal those obtained by replaying its order records against the closing prices, and value always equals cash plus asset value. "
     "Automatic initial cash equals the smallest starting cash that could have funded the recorded orders bar by bar (1 if none was needed; the maximum over columns or groups when aligned), and total profit equals final minus initial value.",
     ["histories", "configurations"], "all order histories, groupings, initial cash modes, directions and price gaps",
     "Tests pin numeric outputs for one 5x3 example per method; identities must hold for every history.",
     [PB, PNB], [("reconstruction", PNB + ": asset_flow_nb, assets_nb, cash_flow_nb, cash_nb, asset_value_nb, value_nb, total_profit_nb, returns_nb"), ("user API", PB + ": Portfolio properties")], True, 'Random order records (also several per bar) and simulated portfolios against a plain replay; ratios with a vanishing denominator are not compared.')

prop("C08", "Trades and positions partition the orders and their profit",
     "Entry trades, exit trades and positions derived from any order history equal those obtained by tracking the position order by order: every filled unit belongs to exactly one entry trade and at most one closed exit trade, sizes, weighted average prices, pro-rated fees, profit, return, direction and open/closed status are as documented, and reversals close one position and open the next. "
     "Per column, profits of entry trades, exit trades and positions each add up to the portfolio's total profit (when the last close is known), and the derived trade statistics (win rate, expectancy, SQN, profit factor, streaks and similar) follow from those records.",
     ["histories"], "all order histories, with partial exits, reversals, fees, price gaps and open positions at the end",
     "Tests use a single 8-order pattern per direction; bookkeeping errors need specific sequences of increases, partial exits and reversals.",
     [PNB, "vectorbt/portfolio/trades.py", "vectorbt/portfolio/orders.py"],
     [("trade reconstruction", PNB + ": get_entry_trades_nb, get_exit_trades_nb, get_positions_nb"), ("statistics", "vectorbt/portfolio/trades.py")], True, 'Random order records and simulated portfolios against an order-by-order position tracker; near-degenerate SQN values are not compared.')

prop("C09", "Drawdown and range records describe the series exactly",
     "For any series, drawdown records contain each maximal stretch below a running peak exactly once, with the right peak, start, valley, end (recovery) and status, also with missing values; drawdown depth, decline and recovery durations, active and recovered views and the maximum and average statistics follow from them. "
     "Range records contain each maximal run of true (non-gap) values exactly once, and their masks, durations and coverage agree with the input.",
     ["inputs"], "all series, including NaN patterns, ties, plateaus and open drawdowns",
     "Tests use two short series; ties, plateaus, gaps and end-of-series states are not enumerated.",
     ["vectorbt/generic/nb.py", "vectorbt/generic/drawdowns.py", "vectorbt/generic/ranges.py"],
     [("drawdown records", "vectorbt/generic/nb.py: get_drawdowns_nb"), ("range records", "vectorbt/generic/nb.py: find_ranges_nb, range_coverage_nb")], True, 'Random series/records up to 15 bars x 3 columns against a direct scan.')

prop("C10", "Return metrics equal their textbook definitions",
     "For any return series, total, cumulative, annualized and daily/annual returns, volatility, Sharpe, deflated Sharpe, downside risk, Sortino, information ratio, beta, alpha, capture ratios, Calmar, Omega, tail ratio, value at risk, conditional value at risk and drawdown metrics equal their definitions computed independently per column with the configured frequency, risk-free and required returns. "
     "Each rolling metric at a bar equals the metric of the trailing window ending there, and portfolio-level return metrics equal those of the portfolio's return series.",
     ["inputs", "configurations"], "all return matrices, frequencies and metric parameters, window lengths and minimum periods",
     "Tests pin the metrics for one five-row table; degenerate series and parameter interactions are not covered.",
     ["vectorbt/returns/nb.py", "vectorbt/returns/accessors.py"],
     [("metrics", "vectorbt/returns/nb.py"), ("annualization", "vectorbt/returns/accessors.py")], True, 'independent definition per metric, full and rolling, accessor and portfolio level')

prop("C11", "Fast array operations equal their pandas counterparts",
     "Every vectorized operation on time series (shift, difference, fills, rolling, expanding and exponentially weighted statistics with minimum periods, reductions, products, describe, value counts, applying functions over windows, groups and resampled bins, scaling, crossovers and similar) returns per column what pandas or a per-window loop returns, for Series and DataFrames alike, with NaN handled the same way, and does not modify its input. "
     "Series results equal the single-column DataFrame results, and index, columns and name are preserved.",
     ["inputs", "configurations"], "all arrays with NaN, all window lengths, minimum periods and groupers",
     "Tests compare with pandas on one 5x3 frame; window/minimum-period/NaN interactions need many shapes.",
     ["vectorbt/generic/nb.py", "vectorbt/generic/accessors.py"],
     [("kernels", "vectorbt/generic/nb.py"), ("accessor methods", "vectorbt/generic/accessors.py")], True, 'pandas/NumPy differential testing with NaN, minimum periods, groups and irregular bins.')

prop("C12", "Broadcasting follows NumPy for values and the documented rules for labels",
     "Broadcasting any mix of scalars, arrays, Series and DataFrames yields the values NumPy broadcasting yields, with the index and columns resolved as documented (kept, stacked or taken from a chosen argument), regardless of whether full copies or flexible views are requested. "
     "An element read through flexible indexing from an unbroadcast argument equals the element of the fully broadcast array, and incompatible shapes raise an error. "
     "Reshaping helpers (to one/two dimensions, repeat, tile, unstacking to frames or arrays, broadcasting to another object) satisfy the same value and label rules.",
     ["inputs"], "all compatible and incompatible shapes, index/column combinations and broadcasting options",
     "Tests enumerate a dozen shape pairs with default label settings.",
     ["vectorbt/base/reshape_fns.py", "vectorbt/base/index_fns.py", "vectorbt/base/accessors.py"],
     [("broadcast", "vectorbt/base/reshape_fns.py: broadcast, broadcast_index, wrap_broadcasted"), ("flexible indexing", "vectorbt/base/reshape_fns.py: flex_choose_i_and_col_nb, flex_select_nb")], True, 'label resolver written from the documentation, values from NumPy')

prop("C13", "Wrapped arrays keep their labels through indexing, grouping and reduction",
     "Wrapping an array or a reduction attaches exactly the labels, name and group labels of the source; pandas-style row, column and group selection of any wrapped object selects the same data as selecting the plain pandas object, with the grouping of the remaining columns preserved. "
     "Grouping columns by levels, labels or explicit arrays maps every column to its group, in order, with the right group count and labels, and disallowed grouping changes raise an error.",
     ["inputs", "configurations"], "all shapes, labels, groupings and selections",
     "Tests select from one 3x4 frame with two groups.",
     ["vectorbt/base/array_wrapper.py", "vectorbt/base/column_grouper.py", "vectorbt/base/indexing.py"],
     [("indexing", "vectorbt/base/array_wrapper.py: indexing_func_meta"), ("grouping", "vectorbt/base/column_grouper.py")], True, 'selection on frames of distinct numbers')

prop("C14", "Record collections behave like lists of their records",
     "Filtering, selecting columns or groups, sorting, mapping, masking, top/bottom selection, applying and reducing per column or group, value counts, stacking back to a table and conversion to readable form of any collection of records or mapped values give what the same operation gives on the plain list of (column, position, value) triples. "
     "Column lookups used internally agree with a linear scan whether or not records are sorted, and records survive round trips through selection and regrouping.",
     ["inputs", "histories"], "all record collections, including empty columns, unsorted records and groupings",
     "Tests use one 9-record collection over 4 columns.",
     ["vectorbt/records/nb.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/records/col_mapper.py"],
     [("kernels", "vectorbt/records/nb.py"), ("collections", "vectorbt/records/base.py, mapped_array.py")], True, 'plain list of entries as oracle')

prop("C15", "Built-in indicators match their definitions",
     "Moving averages, moving standard deviation, Bollinger bands, RSI, stochastic, MACD, average true range and on-balance volume, run on any price series and any list of parameters, equal straightforward per-column reference computations (simple and exponential variants), and signal-like helpers such as above/below comparisons and crossovers on their outputs equal elementwise comparison. "
     "Running several parameter combinations at once equals running each one separately.",
     ["inputs", "configurations"], "all price series and parameter combinations",
     "Tests pin values on a single 5x3 price table and one or two windows.",
     ["vectorbt/indicators/nb.py", "vectorbt/indicators/basic.py"],
     [("kernels and caches", "vectorbt/indicators/nb.py"), ("pipelines", "vectorbt/indicators/basic.py")], True, 'definitions over quarter-step walks')

prop("C16", "An indicator run over many parameters equals one run per parameter",
     "An indicator built by the factory and run with any lists of parameters (zipped or as a product, per-column or broadcast, with default values, hidden parameters, duplicates, caching or unique-only execution, combinations of several instances) yields for every input column and parameter combination exactly the output of calling the underlying function once for them. "
     "Column labels identify the parameters and input column in order, selecting by parameter value, row or column returns the matching slice of inputs, outputs and parameters together, and comparison helpers equal elementwise operations.",
     ["configurations", "inputs"], "all parameter lists and execution options, numbers of inputs/outputs/in-place outputs",
     "Tests use two hand-written functions with fixed parameter lists.",
     ["vectorbt/indicators/factory.py", "vectorbt/utils/params.py", "vectorbt/base/combine_fns.py"],
     [("pipeline", "vectorbt/indicators/factory.py: run_pipeline"), ("indexing", "vectorbt/indicators/factory.py: IndicatorBase.indexing_func")], True, 'param lists x inputs x execution options against scalar twins')

prop("C17", "Generated and transformed signals satisfy their stated constraints",
     "Signal generators and transformers (placement by function, random by count or probability, cleaning, alternating entries and exits, stop exits from prices or bars, chained generation, ranking, partition and range extraction, first/nth/from-nth selection, distances between signals) return for every input what a direct per-column reading of their description returns: exits only within the window after their entry, requested counts and spacing respected, at most one exit per entry where promised, and stop exits on the first bar reaching the stop. "
     "Random generation is reproducible under a seed and stays within the allowed bars.",
     ["inputs", "configurations"], "all signal matrices, prices, waits, stops and seeds",
     "Tests check one 5x3 mask per function and fixed seeds.",
     ["vectorbt/signals/nb.py", "vectorbt/signals/accessors.py", "vectorbt/signals/factory.py", "vectorbt/signals/generators.py"],
     [("kernels", "vectorbt/signals/nb.py"), ("accessor methods", "vectorbt/signals/accessors.py"), ("signal factory", "vectorbt/signals/factory.py")], True, 'signals')

prop("C18", "Label generators report exactly the documented future statistic",
     "Every look-ahead label (future mean, standard deviation, minimum, maximum, fixed horizon change, binary/ratio/percent trend labels, mean-based and breakout labels, local extrema) equals a direct computation over the stated future window of each bar, with bars lacking enough future left unlabelled. "
     "Local extrema alternate, moves between them reach the thresholds, and each is the most extreme price since the previous one and until the move confirming it; the first bar with a price counts as the first extremum.",
     ["inputs", "configurations"], "all series and label parameters",
     "Tests pin a single short series per label.",
     ["vectorbt/labels/nb.py", "vectorbt/labels/generators.py"], [("kernels", "vectorbt/labels/nb.py")], True, 'labels')

prop("C19", "Splits cover what they claim and never leak the future",
     "Rolling, expanding and range splits return, for any index and any window length, count and set configuration, contiguous, correctly labelled pieces in which sets of one split never overlap, appear in time order, lie inside the split's window and have exactly the configured lengths; together the splits cover the documented part of the index. "
     "The split data equals the source data at the returned positions.",
     ["inputs", "configurations"], "all index lengths, window lengths, split counts and set lengths (absolute, fractional, from left or right)",
     "Tests pin a few configurations on one index.",
     ["vectorbt/generic/splitters.py", "vectorbt/generic/accessors.py"], [("splitters", "vectorbt/generic/splitters.py"), ("split", "vectorbt/generic/accessors.py: split")], True, 'splits')

prop("C20", "Data containers align, merge and update without losing or inventing values",
     "Combining per-symbol data keeps every original value at its own timestamp and symbol and, as configured, marks, drops or rejects timestamps and columns that some symbols lack; selecting features or symbols returns the source values, and downloads honour per-symbol arguments. "
     "Updating appends or overwrites only from the last known timestamp on, is idempotent, and yields the same container as fetching everything at once; scheduled updating runs exactly the requested number of times.",
     ["inputs", "histories", "configurations"], "all per-symbol tables, missing-data policies and update sequences",
     "Tests use one synthetic source with aligned symbols and a single update.",
     ["vectorbt/data/base.py", "vectorbt/data/custom.py", "vectorbt/data/updater.py"],
     [("alignment", "vectorbt/data/base.py: align_index, align_columns"), ("update", "vectorbt/data/base.py: Data.update")], True, 'data')

prop("C21", "Configuration containers merge, freeze, reset and copy as promised",
     "For any sequence of operations, a configuration behaves like a dictionary with the documented extra rules: frozen keys and read-only configurations reject changes, reset and checkpoints restore the saved state, copies of each mode share or isolate nested values as stated, and merging nested dictionaries gives precedence to the later one without altering its inputs. "
     "Attribute access, pickling and serialization round trips preserve contents and flags, and objects built from configurations are equal exactly when their configurations are.",
     ["histories", "inputs"], "all operation sequences on nested configurations",
     "Tests check each option in isolation on one small dictionary; interactions over histories are open-ended.",
     ["vectorbt/utils/config.py", "vectorbt/_settings.py"], [("Config", "vectorbt/utils/config.py")], True, 'model-based histories over nested configs and settings')

prop("C22", "Caching and persistence never change results",
     "Accessing any cached property or method of a portfolio, records collection or similar object in any order, with caching enabled, disabled, filtered by name, class or instance, or cleared in between, returns the same values as computing afresh, and cached results are per object and per argument list. "
     "Saving an object and loading it back yields an equal object with equal metrics, and no computation modifies the object's inputs or records.",
     ["schedules", "histories", "configurations"], "all access orders, caching settings and object contents",
     "Tests exercise the decorators on toy classes and compare a pickled portfolio once.",
     ["vectorbt/utils/decorators.py", "vectorbt/utils/config.py", PB], [("cached_property / cached_method", "vectorbt/utils/decorators.py"), ("Pickleable", "vectorbt/utils/config.py")], True, 'token-based reference cache and fresh-object differential')

prop("C23", "Statistics tables agree with the individual metrics",
     "For any portfolio, records collection, return series, signal or data object, every row of its statistics table equals the individually computed metric for that column or group, aggregation over columns equals the chosen aggregation of the per-column values, and selecting metrics by name or tag, overriding settings, grouping, or silencing warnings affects only what is stated. "
     "Metrics that need missing information are dropped or raise as configured.",
     ["configurations", "inputs"], "all objects, metric selections, tags, settings and groupings",
     "Tests pin whole tables for single objects.",
     ["vectorbt/generic/stats_builder.py", "vectorbt/generic/accessors.py", PB, "vectorbt/portfolio/trades.py", "vectorbt/signals/accessors.py"],
     [("stats builder", "vectorbt/generic/stats_builder.py")], True, 'tables vs. public attributes')

prop("C24", "Parameter grids, index algebra, mappings and templates are exact",
     "Parameter combinations and broadcasts enumerate exactly the requested product or zip in order; stacking, repeating, tiling, combining, dropping and selecting index levels and aligning one index to another yield for every position the tuple of source labels; value mappings translate every value forward and back and report unknown ones as documented. "
     "Template substitution replaces every template anywhere inside nested containers with its evaluated value and leaves everything else unchanged.",
     ["inputs"], "all lists, index structures, mappings and nested templates",
     "Tests check single examples for each helper.",
     ["vectorbt/utils/params.py", "vectorbt/base/index_fns.py", "vectorbt/utils/mapping.py", "vectorbt/utils/template.py", "vectorbt/utils/enum_.py"],
     [("helpers", "the listed files")], True, 'models of grids, indexes, mappings and templates')

prop("C25", "Schedules fire at the requested times and date parsing is consistent",
     "A job scheduled with any of the supported notations (intervals, units, weekdays, clock times, ranges) runs exactly when that notation says as time advances, for any start instant, synchronously or asynchronously, and jobs that were cancelled or are past their deadline never run again. "
     "Converting between timestamps, time zones, clock times, datetimes, exchange intervals and frequencies preserves the instant or duration, and the frequency taken from an index is the distance of its rows.",
     ["schedules", "inputs"], "all schedule expressions, start instants and clock advances",
     "Tests check the created job's fields, not the firing times.",
     ["vectorbt/utils/schedule_.py", "vectorbt/utils/datetime_.py"], [("scheduling", "vectorbt/utils/schedule_.py: ScheduleManager.every")], True, 'calendar model under a simulated clock')

prop("C26", "Figures show exactly the data of the object they are made from",
     "Every plotting method draws traces whose points, labels, names and cells are exactly the data of the object: bars, lines, histograms (after dropping missing values and cutting at the requested quantiles), heatmaps and volumes built from index levels put each value at its own labels, areas between two series follow their pointwise relation, and updating a widget replaces the data and nothing else. "
     "Order, trade, profit, drawdown and range figures carry one marker per record at its index and price in the trace of its side, outcome or status, with its id and fields, and zones from its start to its end. "
     "Portfolio, indicator, signal, OHLCV and data figures show the named series of the selected column or group, and a figure of several subplots shows in every cell, in the requested order, what the corresponding method shows alone.",
     ["inputs", "configurations"], "all data, records, portfolios, index levels, groupings and plotting options",
     "Tests only count traces and check names on one example; a figure built from the wrong rows, labels or column looks fine to them.",
     ["vectorbt/generic/plotting.py", "vectorbt/generic/accessors.py", "vectorbt/generic/plots_builder.py", PB, "vectorbt/portfolio/trades.py", "vectorbt/portfolio/orders.py", "vectorbt/generic/drawdowns.py", "vectorbt/generic/ranges.py"],
     [("trace updaters", "vectorbt/generic/plotting.py"), ("subplots", "vectorbt/generic/plots_builder.py: PlotsBuilderMixin.plots"), ("record figures", "plot methods of orders, trades, drawdowns, ranges")],
     True, 'Traces of the returned figures are read back and compared with the data; looks (colours, sizes, hover text) are not judged.')
