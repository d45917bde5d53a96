#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so the text stays reviewable)."""
import json, pathlib

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


T, TP, EP, ST, TK = ("estrade/trade.py", "estrade/trade_provider.py", "estrade/epic.py",
                     "estrade/strategy.py", "estrade/tick.py")
FS, BI, TF = "estrade/graph/frame_set.py", "estrade/graph/base_indicator.py", "estrade/mixins/timeframe.py"
CS, PV, RS, SM = ("estrade/graph/indicators/candle_set.py", "estrade/graph/indicators/pivot.py",
                  "estrade/graph/indicators/rsi.py", "estrade/graph/indicators/simple_moving_average.py")
CSV = "estrade/reporting/csv.py"
TD = "estrade/mixins/timed.py"

p("C01", "Trades fill and are marked at the correct side of the market",
  "A trade opened on an epic is filled from the epic's last accepted tick: a BUY at the ask and a SELL at the bid, at that tick's time, so that its result right after opening is minus the spread times its quantity. "
  "After every later tick of that epic the result of a still open, never closed trade is (close price - open price) x quantity for a BUY and the opposite for a SELL, to the cent, where the close price is the tick's bid for a BUY and its ask for a SELL. "
  "This holds for every price, zero and negative ones included.",
  ["inputs", "histories"],
  "All bid/ask prices (cent grid, negative, zero and positive), both directions, all positive quantities, every sequence of ticks after the opening.",
  "The tests open trades at a handful of fixed positive prices; a zero bid, a negative price or a particular sign combination is never sampled.",
  [T, EP, TP], [("open_from_tick / open_from_epic", T), ("update_from_tick", T), ("_update_open_trades", EP)],
  [("open_value", "fill price", T), ("current_close_value", "price at which the trade could be closed now", T)],
  ["trade.open_value", "trade.current_close_value", "trade.result", "trade.opened_result", "trade.datetime"])

p("C02", "Trade quantities are conserved by any sequence of closes",
  "After any sequence of closes with positive quantities (through the trade, its epic or its strategy), a trade's closed quantity is the sum of its closes' quantities, opened plus closed quantity equals the quantity it was opened with, and the opened quantity never becomes negative. "
  "A close takes exactly the requested quantity, everything that is still open when no quantity is given, and never more than what is still open. "
  "A trade reports itself closed exactly when nothing is left open.",
  ["inputs", "histories"],
  "All initial quantities and all sequences of (possibly over-sized or omitted) close quantities up to the stated bound, interleaved with ticks.",
  "Tests close a trade once or twice with chosen quantities; conservation is a statement about every sequence, including over-sized closes after partial ones.",
  [T, EP, ST], [("close", T), ("opened_quantities / closed_quantities", T), ("close_trade", EP)],
  [("closes", "list of partial closes", T), ("open_quantity", "quantity opened", T)],
  ["trade.opened_quantities", "trade.closed_quantities", "trade.closed", "trade.closes"])

p("C03", "A trade's result is the exact sum of its closed and open parts",
  "At any time a trade's result equals, to the cent per part, the sum over its closes of (close price - open price) x closed quantity (sign reversed for a SELL) plus the same expression for the still open quantity at the epic's last tick, and the per-quantity averages are those sums divided by the matching quantity. "
  "Each close of an open trade is priced and dated at the epic's last tick when it was made and never changes afterwards. "
  "Once a trade is entirely closed, no later tick changes its result.",
  ["inputs", "histories"],
  "All price paths, directions, quantities and interleavings of ticks and partial closes up to the stated bound.",
  "P&L accounting has to hold for every interleaving of ticks and partial closes; tests sample a few with hand-computed numbers.",
  [T, EP], [("TradeClose.result", T), ("result / opened_result / closed_result", T), ("update (no-op when closed)", T)],
  [("closes", "list of partial closes", T)],
  ["trade.result", "trade.closed_result", "trade.result_avg", "trade.closed_result_avg", "close.close_value", "close.datetime", "close.result"])

p("C04", "A trade's min/max results are the running extremes of its result",
  "The maximum (minimum) result of a trade is at all times the largest (smallest) result the trade has had at its opening and after each tick received while it was open, for the quantity actually opened. "
  "Both extremes are attained values: they never include a result the trade did not have, they never move backwards, and they stop moving once the trade is closed.",
  ["inputs", "histories"],
  "All price paths, both directions, all quantities, including trades whose quantity was reduced because they first netted an opposite trade, and partially closed trades.",
  "Tests call the update with one value against preset extremes; they never follow a whole price path nor a netted opening.",
  [T, TP], [("_update_min_max", T), ("__init__", T), ("netting in open_trade", TP)],
  [("max_result", "running maximum", T), ("min_result", "running minimum", T)],
  ["trade.max_result", "trade.min_result"])

p("C05", "Backtest netting closes exactly the opposite quantity, newest first",
  "In backtests, opening a trade of quantity Q first closes open trades of the same strategy in the opposite direction, newest first, for a total of exactly min(Q, their total open quantity), at the current market price; only the remainder, if any, is opened and registered as a new trade. "
  "No other trade is touched: trades in the same direction, trades of other strategies, and opposite trades beyond the quantity being netted keep their open quantity. "
  "Consequently the strategy's net open position changes by exactly plus or minus Q, and the strategy never holds open trades in both directions.",
  ["inputs", "histories"],
  "All sequences of openings (direction, quantity, strategy) and partial closes up to the stated bound, from the empty book.",
  "The unit tests use a single pre-existing mocked trade; two or more opposite trades, exact cover and over-cover are never combined.",
  [TP, T, EP], [("TradeProviderBacktests.open_trade", TP), ("close_from_epic", T)],
  [("trades", "book of the provider", TP)],
  ["trade.opened_quantities of every trade", "trade_provider.trades", "strategy.trades", "trade.closes"])

p("C06", "Epics sharing a trade provider or a strategy do not disturb each other",
  "A tick received by one epic never changes the result, valuation or extremes of a trade opened on another epic, and opening or closing a trade on one epic never closes or resizes a trade of another epic. "
  "This holds whether the epics share a trade provider, a strategy, or both.",
  ["inputs", "histories", "configurations"],
  "All price pairs, directions, quantities and interleavings of two epics' ticks, openings and closes up to the stated bound, in every sharing configuration.",
  "Every existing test uses one epic with its own provider.",
  [EP, TP, ST], [("_update_open_trades", EP), ("TradeProviderBacktests.open_trade", TP)],
  [("trades", "book shared by epics", TP)],
  ["trade.result", "trade.current_close_value", "trade.opened_quantities"])

p("C07", "Every trade and close reaches the provider exactly once, on any schedule",
  "Each opened trade that is not entirely netted away is registered once and handed exactly once to the provider's open request, each close made through an epic or a strategy (or by netting) exactly once to its close request, and nothing else is requested. "
  "In backtests all of them are CONFIRMED once the request threads have run, the provider reports itself alive exactly while some request is unfinished, and quantities and results do not depend on when the threads run.",
  ["schedules", "histories"],
  "All interleavings of request threads (each running at any point after it was started, in any order) with openings, closes and ticks up to the stated bound.",
  "Tests replace threading.Thread by a mock or let the thread finish immediately; no schedule is explored.",
  [TP, EP], [("BaseTradeProvider.open_trade / close_trade", TP), ("is_alive", TP)],
  [("threads", "request threads", TP), ("status", "transaction status", "estrade/mixins/transaction.py")],
  ["open_trade_request / close_trade_request calls", "trade.status", "close.status", "provider.is_alive"])

p("C08", "Trade listings return exactly the matching trades, newest first",
  "The provider's opened trades are exactly the registered trades that still have an open quantity, newest first. "
  "A strategy's trade listing returns exactly its own trades satisfying all the given filters (epics, still open, opened at or after a date), newest first, for trades opened in chronological order; asking a strategy to close its opened trades leaves it with none open and does not touch other strategies' trades.",
  ["inputs", "histories"],
  "All books of trades up to the stated bound (any mix of strategies, epics, directions, open/partly closed/closed, opening dates) and all filter combinations.",
  "Tests filter lists of two or three mocks, one filter at a time.",
  [ST, TP, T], [("get_trades", ST), ("close_opened_trades", ST), ("opened_trades", TP)],
  [("trades", "trades of a strategy / provider", ST)],
  ["strategy.get_trades()", "provider.opened_trades"])

p("C09", "Strategy statistics are computed over exactly the given trades",
  "A strategy's result over a list of trades is the sum of their results rounded to the cent, and its profit factor is gains divided by losses rounded to two decimals (losses smaller than 1 counting as 1, and the plain gains when there is no loss), never negative. "
  "Both are computed over exactly the trades passed (a list or an iterator, an empty one included) and over all the strategy's trades when none are passed.",
  ["inputs"],
  "All lists of trade results up to the stated length, all sub-selections including the empty one, lists and generators.",
  "Tests use three fixed result lists; the empty selection, all-negative and tiny-loss cases with arbitrary values are not settled by samples.",
  [ST], [("result", ST), ("profit_factor", ST)], [],
  ["strategy.result(trades)", "strategy.profit_factor(trades)"])

p("C10", "Ticks are accepted in chronological order and rejected ticks leave no trace",
  "An epic accepts a tick if and only if its instant is not before the instant of the last accepted tick, whatever timezones the ticks and the epic are in. "
  "A rejected tick raises the epic's exception and changes nothing: last tick, market state, frames, indicators and trades are as before and no strategy is called.",
  ["inputs", "histories"],
  "All sequences of tick instants up to the stated bound, equal instants included, in UTC and in a timezone with daylight saving transitions.",
  "One unit test rejects one anterior tick in UTC and checks only the exception.",
  [EP, TD], [("on_new_tick", EP)], [("last_tick", "last accepted tick", EP)],
  ["epic.last_tick", "epic.frame_sets", "trade.result", "strategy callbacks", "EpicException"])

p("C11", "Market open state follows hours, trading days and holidays",
  "After every accepted tick the epic's market is open if and only if the tick's time of day in the epic's timezone is between the opening and closing times (both included), its weekday is a trading day and its date is not a holiday.",
  ["inputs", "configurations"],
  "All tick instants within the stated range, all opening/closing times, all non-empty sets of trading days, all holiday lists up to the stated length.",
  "Tests probe one instant per clause, never the boundaries to the microsecond nor combinations of clauses, nor a date that changes with the timezone.",
  [EP], [("is_market_open / _in_market_hours", EP)], [("market_open", "market state", EP)],
  ["epic.market_open", "epic.is_market_open()"])

p("C12", "Strategies get exactly the right callbacks for every tick",
  "For each accepted tick every active strategy of the epic gets, in this order and each at most once: the market-open or market-close event if the market state differs from the one before the tick, the market-open tick event if the market is open, and the every-tick event. "
  "A strategy that is stopped, or paused until a date the tick has not reached, gets nothing; a pause ends with the first tick at or after its date. "
  "Strategies do not influence each other's callbacks.",
  ["inputs", "histories", "configurations"],
  "All tick sequences up to the stated bound moving in and out of market hours, with several strategies each independently active, stopped or paused until any date.",
  "Tests check one callback at a time on one tick with mocks; order and multi-tick histories are not covered.",
  [EP, ST], [("_execute_strategies", EP), ("is_active / _is_paused", ST)],
  [("paused_until", "pause end", ST), ("stopped", "stop flag", ST), ("market_open", "market state", EP)],
  ["on_market_open", "on_market_close", "on_every_tick_market_open", "on_every_tick"])

p("C13", "A strategy callback sees a state that already includes the tick",
  "When a strategy is called for a tick, the epic's last tick, its market state, every frame set's current frame and indicators, and every open trade of the epic already reflect that tick. "
  "A trade opened or closed inside the callback is priced and dated at that very tick, and every frame set and open trade of the epic receives each accepted tick exactly once.",
  ["inputs", "histories"],
  "All price and time sequences up to the stated bound, with several frame sets and trades, and strategies acting on arbitrary ticks.",
  "Tests check that each collaborator is called, with mocks, but never the state visible from the callback.",
  [EP], [("on_new_tick (order of updates)", EP)], [("last_tick", "last accepted tick", EP)],
  ["state read inside on_every_tick / on_market_open / on_market_close / on_every_tick_market_open"])

p("C14", "An epic works in its own timezone without shifting instants",
  "A tick handed to an epic keeps its instant and is expressed in the epic's timezone; market hours and frame boundaries are then those of the epic's local wall clock, whatever timezone the tick was created in. "
  "Outside the hour repeated at the end of daylight saving time, two streams with the same instants expressed in different timezones lead to identical frames and market states.",
  ["inputs", "configurations"],
  "All instants in the stated range (including both daylight saving transitions), ticks given in UTC, a fixed offset or a daylight-saving timezone, for the stated epic timezones.",
  "One test converts one date and compares the tzinfo object only.",
  [EP, TD, TF], [("on_new_tick (.to(timezone))", EP), ("datetime_utc", TD)], [],
  ["epic.last_tick.datetime", "frame.period_start", "frame.period_end", "epic.market_open"])

p("C15", "Timeframe boundaries contain the date, are aligned and tile time",
  "For every unit, valid quantity and date, the timeframe start is at or before the date and the timeframe end is after it, the start is the same for every date of the timeframe, and the end is the start of the next timeframe, so that timeframes tile time without gap or overlap. "
  "Starts are aligned on the calendar: multiples of the quantity of seconds in the minute, minutes in the hour, hours in the day, days from Monday, weeks from Monday, months from January and years, with all smaller fields zero.",
  ["inputs", "configurations"],
  "All dates of the stated years (leap years, month and year ends included), every unit and every valid quantity.",
  "Tests pin about a hundred dates; tiling and idempotence are relations over all dates.",
  [TF], [("get_frame_start", TF), ("get_frame_end", TF)], [],
  ["get_frame_start", "get_frame_end"])

p("C16", "Timed frames tile the period covered by the ticks",
  "After any sequence of accepted ticks the kept frames of a timed frame set are in order and contiguous: each starts exactly where the previous one ends, each spans exactly one timeframe, and the last one contains the last tick. "
  "Every tick is recorded in exactly one frame, the one whose period contains its time, and a period without ticks is represented by exactly one filler frame whose first, high, low and last tick are the last tick received before it.",
  ["inputs", "histories", "configurations"],
  "All tick time sequences up to the stated length and time range, for the units and quantities stated.",
  "Tests check one gap and one boundary with fixed dates.",
  [FS, TF], [("_create_new_frame_timed", FS), ("is_frame_over_timed", FS), ("create_new_frame", FS)],
  [("frames", "kept frames", FS)],
  ["frame_set.frames", "frame.period_start", "frame.period_end", "frame.nb_ticks", "frame.first_tick"])

p("C17", "A frame's first, high, low, last tick and count summarise its ticks",
  "For every frame, the first tick is the first one received in it, the last tick the latest, the high (low) tick is the earliest one having the largest (smallest) value, and the tick count is the number of ticks received in it. "
  "The same holds for the ticks of an indicator value, over the ticks received since the indicator value was created.",
  ["inputs", "histories"],
  "All price sequences up to the stated length, ties included, for timed and tick frames.",
  "Tests feed two or three fixed prices.",
  [FS, BI], [("Frame.on_new_tick", FS), ("BaseIndicatorValue.on_new_tick", BI)],
  [("high_tick", "highest tick", FS), ("low_tick", "lowest tick", FS), ("nb_ticks", "count", FS)],
  ["frame.first_tick", "frame.high_tick", "frame.low_tick", "frame.last_tick", "frame.nb_ticks"])

p("C18", "Tick-count frames hold exactly n ticks and never cross a day",
  "In a frame set counting ticks with quantity n, a tick starts a new frame if and only if there is no frame yet, the current frame already holds n ticks, or the tick's date (in the epic's timezone) is later than the previous tick's date. "
  "Hence every closed frame that is not the last one of its day holds exactly n ticks, and no frame mixes two days.",
  ["inputs", "histories", "configurations"],
  "All n and tick time sequences up to the stated bounds, fed through an epic.",
  "The unit test sets the epic's last tick by hand, which is not the state the epic is in when it delivers a tick.",
  [FS, EP], [("is_frame_over_tick", FS), ("on_new_tick", EP)], [("nb_ticks", "ticks in the frame", FS)],
  ["frame_set.frames", "frame.nb_ticks", "frame.period_start"])

p("C19", "Frame memory is bounded and eviction only forgets the oldest frames",
  "A frame set never keeps more frames than its limit, the kept frames are the most recent ones, they are linked to each other in order in both directions, the oldest kept one has no predecessor and the current one no successor. "
  "For any two limits the frames kept by both have the same periods, counts and first, high, low and last ticks.",
  ["inputs", "histories", "configurations"],
  "All tick sequences up to the stated bound, all limits from 1 up to the stated bound.",
  "Tests apply the limit to lists of mocks and do not compare against an unlimited history.",
  [FS], [("clean_old_frames", FS), ("create_new_frame", FS)],
  [("frames", "kept frames", FS), ("previous_frame / next_frame", "links", FS)],
  ["frame_set.frames", "frame.previous_frame", "frame.next_frame", "frame.closed"])

p("C20", "A closed frame and its indicator values never change",
  "Once a newer frame exists, an older frame's period, tick count and first, high, low and last ticks, and the candle, pivot, moving average and RSI values attached to it keep the values they had when the frame was closed, whatever ticks arrive later. "
  "A frame is reported closed exactly when a newer frame exists, and a candle has a close value exactly then.",
  ["inputs", "histories"],
  "All tick sequences up to the stated bound after the closing of a frame, with every shipped indicator.",
  "No test looks at an old frame again after later ticks.",
  [FS, BI, CS, PV, RS, SM], [("closed", FS), ("add_tick_to_last", FS)],
  [("next_frame", "set when the frame is closed", FS)],
  ["values of frame_set.frames[k] recorded at closing time and later", "frame.closed", "candle.close"])

p("C21", "Invalid configurations are refused, valid ones accepted",
  "A frame set can be created if and only if its quantity is a positive number that divides 60 (seconds, minutes), 12 (hours, months), 7 (days) or 1 (weeks), any positive quantity being valid for ticks and years; otherwise creation raises the timeframe exception. "
  "An epic refuses a second frame set or strategy with an already used reference, keeping the first one, and an RSI that needs more frames than its frame set keeps is refused.",
  ["inputs", "configurations"],
  "All integer quantities in the stated range (negative and zero included) for all units, all pairs of references, all RSI periods and memory limits in the stated range.",
  "Tests try one invalid quantity per unit and never zero or negative ones.",
  [TF, EP, RS], [("_check_unit_consistency", TF), ("add_frame_set / add_strategy", EP), ("set_frame_set", RS)], [],
  ["TimeFrameException", "EpicException", "BaseIndicatorException"])

p("C22", "Japanese candles report the open/high/low/last of their frame",
  "A candle's open, high, low and last are the values of its frame's first, highest, lowest and last ticks rounded to the cent, with low <= open, last <= high; its close is its last once the frame is closed and absent before. "
  "Its colour is green, red or black as last is above, below or equal to open; its height is high - low, and body, head and tail are the non-negative distances between open and last, between high and the upper body end, and between the lower body end and low, to the cent.",
  ["inputs", "histories"],
  "All price sequences up to the stated length, zero and negative prices included.",
  "Tests patch the properties with fixed positive numbers.",
  [CS, BI], [("JapaneseCandle", CS), ("BaseCandle.color/height/body/head/tail", CS)], [],
  ["candle.open/high/low/last/close/color/height/body/head/tail"])

p("C23", "Heikin-Ashi candles follow their recurrence",
  "A Heikin-Ashi candle's last is the mean of its frame's first, high, low and last tick values, its open is the mean of the previous candle's open and last (the first tick's value for the first candle), its high the maximum and its low the minimum of open, last and the frame's high respectively low, all rounded to the cent. "
  "Hence low <= open, last <= high always, and the close is the last once the frame is closed and absent before.",
  ["inputs", "histories"],
  "All price sequences up to the stated number of frames and ticks, zero and negative prices included.",
  "Tests patch the previous candle with fixed positive numbers.",
  [CS], [("HeikinAshiCandle", CS)], [],
  ["candle.open/high/low/last/close"])

p("C24", "Pivot levels are the formulas applied to the previous frame",
  "A pivot is absent when no previous frame has a pivot value, and otherwise (high + low + close) / 3 of the previous frame, or (high + low + close + current open) / 4 for the OLHC type, to the cent. "
  "The supports and resistances are 2P-H, P-(H-L), L-2(H-P) and 2P-L, P+(H-L), H+2(P-L) to the cent; with the classic type they are ordered S2 <= S1 <= P <= R1 <= R2. "
  "This holds for every price, a pivot of zero included, and does not change while the current frame receives ticks.",
  ["inputs", "histories"],
  "All price sequences up to the stated number of frames and ticks, zero and negative prices included.",
  "Tests patch the pivot or the previous value with fixed positive numbers; a zero pivot is never tried.",
  [PV], [("PivotTypeClassic", PV), ("PivotTypeOLHC", PV)], [],
  ["pivot, support1..3, resistance1..3 of the indicator value"])

p("C25", "A simple moving average is the mean of the last closes",
  "For every number of periods up to the indicator's maximum, the average on a frame is the mean, rounded to the cent, of the last values of the current frame and of the preceding frames that make up these periods, fillers included, and is absent when fewer frames have been seen. "
  "It does not depend on how many frames are kept in memory.",
  ["inputs", "histories", "configurations"],
  "All price sequences up to the stated number of frames, every maximum and requested number of periods up to the stated bound, every memory limit.",
  "Tests feed fixed lists of closes; window sliding past the maximum is tried for one size.",
  [SM, BI], [("SimpleMovingAverageValue", SM)], [("last_closes", "closes of previous frames", SM)],
  ["value.get_value(periods)"])

p("C26", "RSI is bounded, correct and available once enough changes exist",
  "On a frame preceded by at least p frames, where p is the RSI's number of periods times the frame set's quantity, the RSI is 100 x gains / (gains + losses) over the last p changes of frame last values (100 when there is no loss), to the cent; before that it is absent. "
  "It is always between 0 and 100, is updated by every tick of the current frame, and stays available on all later frames.",
  ["inputs", "histories", "configurations"],
  "All price sequences up to the stated number of frames, p up to the stated bound, every admissible memory limit.",
  "Tests patch the list of changes with three fixed lists of length four; the window is never slid frame after frame.",
  [RS, BI], [("RSIValue", RS), ("extended_changes", RS)], [("last_changes", "changes of previous frames", RS)],
  ["value.value"])

p("C27", "Market-open-only indicators ignore ticks received while closed",
  "An indicator restricted to market hours gets a value on a frame when the frame receives its first tick while the market is open, and its first, high, low and last ticks then summarise exactly the ticks received by that frame while the market was open. "
  "An unrestricted indicator has a value on every frame and takes all ticks into account.",
  ["inputs", "histories", "configurations"],
  "All tick sequences up to the stated bound moving in and out of market hours, over one or several frames.",
  "One integration test follows one scenario over four days.",
  [BI, FS], [("BaseIndicatorValue.on_new_tick", BI), ("build_value_from_frame", BI), ("Frame._upsert_indicators", FS)],
  [("market_open_only", "restriction flag", BI)],
  ["frame[indicator_ref]", "value.first_tick/high_tick/low_tick/last_tick"])

p("C28", "Frame and indicator lookups return the requested position",
  "Asking an epic for a frame at offset k returns the k-th frame before the current one among the kept frames, and nothing when fewer are kept; asking for an indicator value returns the value attached to that frame, and nothing when the frame or the value does not exist. "
  "An indicator value's previous is the value of the nearest earlier kept frame having one, its next the one of the following frame if any.",
  ["inputs", "histories", "configurations"],
  "All offsets, numbers of frames and memory limits up to the stated bound, indicators with and without values on some frames.",
  "Tests use two-element lists of strings.",
  [EP, FS, BI], [("get_frame / get_indicator_value", EP), ("previous / next", BI)], [],
  ["epic.get_frame", "epic.get_indicator_value", "value.previous", "value.next"])

p("C29", "A tick's spread and value are consistent and bad ticks are refused",
  "A tick is created if and only if its bid and ask are numbers with bid <= ask and its date carries a timezone; otherwise the tick or time exception is raised. "
  "For prices on the cent grid its spread is exactly ask - bid to the cent and never negative, and its value lies between bid and ask, at most half a cent away from their mid-point; for arbitrary prices the spread and value are within one cent of ask - bid and of the mid-point.",
  ["inputs"],
  "All bid/ask pairs in the stated range (cent grid and arbitrary), integers and floats, zero and negative prices, zone-less dates.",
  "Tests sample a few positive prices.",
  [TK, TD], [("Tick", TK), ("TimedMixin.datetime", TD)], [],
  ["tick.bid/ask/spread/value", "tick.asdict()", "TickException", "TimeException"])

p("C30", "CSV reports contain every trade and every strategy exactly once",
  "A report writes one summary row per strategy with its reference, number of trades, result and profit factor and, when details are asked for, one row per trade of each strategy with the trade's fields, each under a header that appears once at the top of its file. "
  "This holds whether or not the target folder and files already exist: rows are added to an existing file, and nothing already there is lost.",
  ["inputs", "histories", "configurations"],
  "All numbers of strategies and trades up to the stated bound, with distinct or identical references, details on or off, folder and files pre-existing or not, repeated reports within the same second.",
  "The only reporting test is commented out.",
  [CSV, ST, T], [("ReportingCSV.report", CSV), ("CSVWriter.dict_to_csv / open_file", CSV), ("asdict", T)], [],
  ["contents of the CSV files"])

MM, RM, TPV = "estrade/mixins/meta.py", "estrade/mixins/ref.py", "estrade/tick_provider.py"

p("C31", "What an epic reports depends only on its own ticks and configuration",
  "The frames, indicator values, market state, strategy callbacks and trade results of an epic are a function of the ticks it accepted and of the configuration of the very frame set, indicator, strategy or trade looked at. "
  "Attaching other frame sets, other indicators or other strategies that trade on their own, or running other epics at the same time (fed in any interleaving, sharing a trade provider or a strategy, even with the same references) changes none of them.",
  ["inputs", "histories", "configurations"],
  "All tick sequences up to the stated bound, each run twice: alone and with the additions; every observable value of both runs is compared after every tick.",
  "Independence compares two runs of the same history; tests look at one run of one configuration.",
  [EP, FS, BI, ST, TP], [("_update_frame_sets / _update_open_trades / _execute_strategies", EP), ("Frame._upsert_indicators", FS)],
  [("frame_sets / strategies / indicators", "what is attached", EP)],
  ["frame_set.frames", "frame[indicator_ref]", "epic.market_open", "strategy callbacks", "trade.result / max_result / min_result"])

p("C32", "Objects keep what they are given and share no state",
  "A trade and a close keep the reference, metadata, status, direction, quantity, date, epic and strategy they were created with, whichever way they were created (class, epic or strategy), a tick its prices, instant and metadata, and each gets its own empty metadata and a CREATED status when none is given. "
  "The dictionaries of trades and ticks report the current values of the object, dates on the epic's wall clock. "
  "Objects created with default arguments share nothing: epics have their own trade provider, holidays, trading days, frame sets and strategies, frame sets their own frames and indicators, trades their own closes. A tick provider returns exactly the epics it was given, by reference.",
  ["inputs", "configurations"],
  "All quantities, prices, statuses, directions and dates in the stated ranges, each way of creating a trade or a close, with and without optional arguments.",
  "Tests check one object at a time; leaked defaults need two objects and a change of one of them.",
  [T, TK, EP, MM, RM, TPV, TP], [("MetaMixin / RefMixin / TransactionMixin", MM), ("asdict", T), ("asdict", TK), ("Epic.__init__", EP), ("get_epic_by_ref", TPV)], [],
  ["trade.ref/meta/status/strategy/epic/datetime", "trade.asdict()", "tick.asdict()", "close.ref/meta/status", "tick_provider.get_epic_by_ref"])

p("C33", "Components attached to a running epic work from the next tick on",
  "A frame set attached to an epic that has already received ticks builds, from the next tick on, exactly the frames and indicator values it would build on an epic that receives only these later ticks. "
  "A strategy attached then gets exactly the callbacks that a strategy attached from the start gets for the later ticks, and none for the earlier ones. "
  "A candle, pivot or moving average attached to a running frame set has a value on the current frame once it receives its next tick, summarising the frame's ticks received since, and none on older frames.",
  ["inputs", "histories", "configurations"],
  "All tick sequences before and after the attachment up to the stated bound.",
  "Tests attach everything before the first tick.",
  [EP, FS, BI], [("add_frame_set / add_strategy", EP), ("add_indicator / on_new_tick / is_frame_over_tick", FS), ("Frame._upsert_indicators", FS)],
  [("FrameSet.last_tick", "last tick received by the frame set", FS)],
  ["frame_set.frames", "frame[indicator_ref]", "strategy callbacks"])

p("C34", "Frame sets of different timeframes over the same ticks agree",
  "When two frame sets of an epic have timeframes of which one is a multiple of the other within the calendar (5 and 15 seconds, minutes and hours, days and weeks or months, months and years...), every fine frame lies in exactly one coarse frame. "
  "A coarse frame's first (last) tick is that of its first (last) fine frame having ticks of its own, its high (low) tick the earliest highest (lowest) of theirs, its tick count the sum of theirs, and it is a filler exactly when all of them are fillers.",
  ["inputs", "histories", "configurations"],
  "All values and all microseconds of the ticks in ranges of several coarse frames, for the stated pairs of timeframes.",
  "Tests look at one frame set at a time.",
  [FS, TF], [("FrameSet.on_new_tick / _create_new_frame_timed", FS), ("get_frame_start / get_frame_end", TF)], [("frames", "kept frames", FS)],
  ["frame_set.frames", "frame.first_tick/high_tick/low_tick/last_tick/nb_ticks", "frame.period_start/period_end"])

p("C35", "Trading from a callback equals trading right after the tick",
  "Opening and closing trades inside a strategy's tick callbacks leads to the same trades, fills, dates, quantities, netting, results and extremes, then and after every later tick, as making the same calls in the same order right after the epic has processed the tick.",
  ["inputs", "histories"],
  "All sequences of openings, partial closes and complete closes by one or two strategies up to the stated bound, all prices; each history is run both ways and compared.",
  "Comparing two ways of running the same history is outside what the tests do; they never trade inside a callback.",
  [EP, ST, TP, T], [("on_new_tick (order of updates)", EP), ("_execute_strategies", EP), ("open_trade / close_trade", TP)], [],
  ["trade.open_value/result/max_result/min_result", "trade.closes", "strategy.result()"])

p("C36", "Trades handled with explicit prices follow exactly these prices",
  "A trade created with explicit values or from any tick is opened at that value and date, and marked at the given close value (at the open value if none is given). Updating it with a price or a tick marks it there (BUY at the bid, SELL at the ask), closing it with a price or a tick closes the quantity there, and its quantities, result, open and closed parts follow exactly these prices to the cent; "
  "its extremes are those of the results at its opening and after each update. An update after the end changes nothing, and a trade that was not opened through an epic or a strategy is registered nowhere and not moved by its epic's ticks.",
  ["inputs", "histories"],
  "All prices, quantities, directions and orders of updates and closes up to the stated bound.",
  "Tests update or close a trade once with fixed numbers.",
  [T], [("Trade.__init__ / open_from_tick", T), ("update / update_from_tick", T), ("close / close_from_tick", T)],
  [("current_close_value", "price at which the trade could be closed now", T)],
  ["trade.result/opened_result/closed_result", "trade.max_result/min_result", "trade.closes"])

p("C37", "Live trade providers decide statuses and never net",
  "With a trade provider of one's own, every opened trade is registered with its full quantity with the provider and its strategy, and opening or closing a trade never closes or resizes another one, even in the opposite direction. "
  "The status and metadata of trades and closes are those their request set, CREATED until it has run or when it fails; a failing request affects nothing else. The base class itself answers no request.",
  ["inputs", "histories", "schedules"],
  "All sequences of openings, closes and ticks up to the stated bound, all quantities and prices, every answer of every request, requests run at once or after everything else.",
  "Tests call each provider method once on a mock.",
  [TP, EP], [("BaseTradeProvider.open_trade / close_trade", TP)], [("threads", "request threads", TP), ("trades", "registered trades", TP)],
  ["provider.trades", "trade.status/meta", "close.status/meta", "trade.opened_quantities"])

p("C38", "Settings changed between two ticks apply from the next tick on",
  "Market hours, trading days, holidays and the timezone of an epic, when replaced between two ticks, decide the market state, local time, callbacks and market-open-only indicators of the following ticks, and an unknown timezone is refused, keeping the previous one. "
  "A changed memory limit of a frame set is enforced when its next frame is created: the latest frames up to the new limit are kept, linked to each other.",
  ["inputs", "histories", "configurations"],
  "All ticks at any time and all changes between them up to the stated bound.",
  "Tests configure objects once.",
  [EP, FS], [("timezone setter / is_market_open / on_new_tick", EP), ("clean_old_frames", FS)], [("open_time / close_time / trade_days / holidays / timezone", "settings", EP), ("max_frames_in_memory", "limit", FS)],
  ["epic.market_open", "epic.timezone", "tick.datetime", "strategy callbacks", "frame_set.frames"])

p("C39", "Netting neither makes nor loses money",
  "However a strategy's orders are netted, split over trades and closed, its result (to the cent) is the money its orders brought in - bid x quantity for every sale, minus ask x quantity for every purchase, at the last tick when each was made - plus the value of the position it still holds on each epic at the current bid (long) or ask (short). "
  "The same holds per epic, and the results of all trades of the provider add up to the results of all its strategies.",
  ["inputs", "histories"],
  "All sequences of orders of both directions, ticks, partial closes and closes of everything by one or two strategies on one or two epics up to the stated bound, all quantities and prices on the cent grid.",
  "Tests check a netting against a hand-computed number; the identity has to hold whatever the orders are.",
  [TP, T, ST], [("TradeProviderBacktests.open_trade", TP), ("Trade.result", T), ("BaseStrategy.result", ST)], [("trades / closes", "open and closed parts", T), ("trades", "registered trades", TP)],
  ["strategy.result()", "strategy.result(trades)", "trade.result"])

p("C40", "A mirrored market gives mirrored results",
  "If every price is negated (bid and ask exchanged) and every BUY becomes a SELL and conversely, then trades, closes, quantities, results, extremes, strategy results and profit factors, the market state and callbacks are the same, while fills, ticks of frames, candles, averages and pivot levels are negated with highs and lows, heads and tails, supports and resistances exchanged, candle colours swapped and the RSI replaced by 100 minus it "
  "(up to a cent where a value is a rounded mean, and but for an RSI without gains and losses, which is 100).",
  ["inputs", "histories"],
  "All ticks with any prices on the cent grid, openings, closes of both directions and all quantities up to the stated bound, with candles of both kinds, pivots of both kinds, averages and RSI.",
  "Tests check long and short trades, highs and lows with different sampled numbers.",
  [T, TP, FS, CS, PV, RS, SM], [("direction dependent branches", T), ("update_ticks (high/low)", BI), ("candle parts", CS), ("levels", PV), ("_build_sums", RS)], [],
  ["trade.result/max_result/min_result", "frame ticks", "candle parts", "pivot levels", "SMA", "RSI", "strategy.result()/profit_factor()"])

p("C41", "Results do not depend on the price level",
  "If every price is moved by the same amount, trades, closes, quantities, results, extremes, strategy results and profit factors, the market state and callbacks, the parts and colours of japanese candles and the RSI stay the same, while fills, ticks of frames, candles, averages and pivot levels move by this amount (up to the cents lost by rounded means). "
  "In particular nothing special happens at or around zero.",
  ["inputs", "histories"],
  "All ticks with any prices on the cent grid and all shifts, negative prices included, openings, closes and quantities up to the stated bound, with candles of both kinds, pivots of both kinds, averages and RSI.",
  "Tests use a few positive prices.",
  [T, TP, FS, CS, PV, RS, SM], [("prices compared, subtracted and tested for presence everywhere", T), ("update_ticks", BI), ("candles", CS), ("levels", PV), ("averages", SM)], [],
  ["trade.result/max_result/min_result", "frame ticks", "candle parts", "pivot levels", "SMA", "RSI", "strategy.result()/profit_factor()"])

p("C42", "Repeated and inner ticks change nothing but counts",
  "When a data feed sends a tick again, at the same instant or later in the same period, timed frames (number, periods, first, high, low and last values), all indicator values, the results and extremes of trades, the market state and the market-open and market-close callbacks are the same as without the repetition. "
  "Further ticks within the range a frame has already seen, followed by another tick of the frame, change nothing in its values and indicators either.",
  ["inputs", "histories"],
  "All ticks, repetitions and inner ticks of any prices, with openings and closes in between, up to the stated bound.",
  "Tests never repeat a tick.",
  [BI, FS, EP, T, RS, SM, CS], [("update_ticks", BI), ("FrameSet.on_new_tick", FS), ("update / _update_min_max", T), ("_update_rsi", RS)], [("first_tick / high_tick / low_tick / last_tick", "summary", BI)],
  ["frame ticks", "indicator values", "trade results and extremes", "callbacks"])

p("C43", "A failed call changes nothing else",
  "An order with an unknown direction, an unknown or a missing argument, a close with an unknown argument or a date without timezone, a tick older than the last one or with its ask below its bid, a second frame set or strategy with a used reference, an invalid frame set and an unknown timezone each raise, and then and after every later tick, trades, quantities, results, extremes, requests, frames, indicators, market state and callbacks are the same as without that call. "
  "When a strategy's callback raises, the exception reaches whoever fed the tick and the tick counts all the same: frames, indicators, market state and trades are then and later the same as if the callback had returned, strategies before it got all their callbacks, and those after it miss the callbacks of that tick only.",
  ["inputs", "histories", "faults"],
  "Any failing callback of any strategy and any refused call between any ticks, openings and closes, with any prices and quantities up to the stated bound.",
  "Tests check that a call raises, not that everything else goes on as if it had not been made.",
  [EP, ST, T, TP, FS], [("on_new_tick / _execute_strategies", EP), ("open_trade / close_trade", EP), ("open_from_tick / close", T), ("open_trade", TP)], [("last_tick / market_open", "state of the epic", EP)],
  ["trades and results", "frames and indicator values", "callbacks", "provider threads"])

p("C44", "User-defined indicators get each tick of a frame exactly once",
  "An indicator of the user's (derived from the base classes) attached to a frame set is asked for a value when a frame starts (fillers included) and, as long as it has none on that frame, at each further tick of the frame; once it has one, the value is told each further tick of the frame exactly once, in order, with the market state at that tick, after the frame has counted the tick and before the strategies are called. "
  "Indicators restricted to market hours get no value from ticks received while the market is closed. A value knows its indicator, frame, tick count, previous and next value and whether its frame is closed, and the indicator its frame set and epic.",
  ["inputs", "histories"],
  "All ticks with any prices and any times up to the stated bound, with and without market_open_only, indicators that build no value at first, attached from the start or in the middle of a frame, and evicted frames.",
  "Tests use mocked indicators on single calls.",
  [FS, BI, EP], [("Frame._upsert_indicators", FS), ("build_value_from_frame", BI), ("BaseIndicatorValue.on_new_tick / previous / next", BI), ("_update_frame_sets", EP)], [("indicators", "values of a frame", FS)],
  ["calls received by the user's indicator", "value ticks", "previous / next"])

p("C45", "Moving a market by whole weeks moves everything with it and changes nothing else",
  "If every tick is received the same whole number of weeks later or earlier, on an epic whose timezone keeps the same offset, the periods of frames of up to a week, and the dates of trades and closes move by as much, and the number of frames, their counts and ticks, indicator values, market state, callbacks, trades, quantities, results and extremes are the same: nothing depends on the absolute date.",
  ["inputs", "histories"],
  "All ticks at any microseconds with any prices, market hours and trading days, openings and closes up to the stated bound, moved by weeks to decades.",
  "Tests use a few dates of one year.",
  [EP, FS, TF, T], [("is_market_open", EP), ("get_frame_start / get_frame_end", TF), ("is_frame_over_timed / is_frame_over_tick", FS)], [],
  ["frame periods and ticks", "callbacks", "trade results and dates"])

p("C46", "Quoting prices or sizes in another unit changes results by exactly that factor",
  "If every price is multiplied by the same factor and every quantity by the same (another) factor, fills and marks are multiplied by the first, quantities by the second and results, extremes and strategy results by both; frames have the same periods and counts with multiplied ticks, candles, averages and pivots are multiplied (up to the cents lost by rounded means, in the larger unit), colours and the RSI stay the same, and the same trades are opened, netted and closed.",
  ["inputs", "histories"],
  "All ticks with any prices on the cent grid, openings, closes and quantities up to the stated bound, factors of 10 to 10 000 for prices and 7 to 100 000 for quantities.",
  "Tests use prices and quantities of one size.",
  [T, TP, FS, CS, PV, RS, SM], [("results and quantities", T), ("netting", TP), ("candles", CS), ("levels", PV), ("averages", SM), ("_build_rsi", RS)], [],
  ["trade.result/max_result/min_result", "frame ticks", "candle parts", "pivot levels", "SMA", "RSI", "strategy.result()"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
