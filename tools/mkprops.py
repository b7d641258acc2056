"""Writes /verif/properties.jsonl (the list of properties, one JSON object per line)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook,
        },
    })


prop("C01", "A tick is well formed and its derived values follow from bid and ask",
     "A tick can only be created from a numeric bid and ask with bid not above ask, and from a timezone-aware time; any other price pair is refused with the tick error and any naive time with the time error. "
     "A created tick keeps the prices, the instant, the timezone and the metadata it was given, shares no default metadata with another tick, and its spread is ask minus bid and its value the middle of bid and ask, each rounded to two decimals. "
     "Its UTC time, its dictionary form and its text form show those same figures, also after its prices are corrected.",
     ["inputs"], "every pair of int/float prices (negative, zero, many decimals), every non-number, every aware datetime (python or arrow, any zone, both sides of a clock change) and every naive one",
     "The unit tests check about a dozen fixed price pairs and two timezones; the rounding of value/spread, zero and negative prices and folded times are never varied.",
     ["estrade/tick.py", "estrade/mixins/timed.py", "estrade/mixins/meta.py"],
     [("price validation", "estrade/tick.py Tick.__init__/ask/bid setters"), ("spread/value rounding", "estrade/tick.py Tick.spread, Tick.value"), ("aware datetime check and conversion", "estrade/mixins/timed.py")],
     ["Tick(...)", "Tick.bid/ask/spread/value/datetime/datetime_utc/meta", "Tick.asdict", "str(tick)"])

prop("C02", "An epic accepts exactly the chronological ticks and refuses others whole",
     "An epic accepts a tick if and only if its instant is not before the instant of the last accepted tick, whatever zones the tick or the epic are in and across clock changes; an accepted tick becomes the last tick, expressed in the epic's timezone at the same instant. "
     "An earlier tick is refused with the epic error and changes nothing: last tick, market state, frames, indicators, trades and strategy notifications stay as they were, and later valid ticks are processed as if it had never been sent. "
     "Every timezone name an epic accepts can be used to receive ticks, and unknown names are refused when the epic is created.",
     ["histories", "inputs"], "every sequence of ticks in and out of order, in any mix of input zones, for every supported epic timezone including around daylight-saving changes",
     "Two unit tests feed one older tick in UTC; no test crosses a clock change, mixes zones, or looks at what a refused tick left behind.",
     ["estrade/epic.py", "estrade/mixins/timed.py"],
     [("ordering guard and timezone conversion", "estrade/epic.py Epic.on_new_tick"), ("timezone validation", "estrade/epic.py Epic.timezone")],
     ["Epic.on_new_tick", "Epic.last_tick", "Epic.frame_sets", "Epic.trade_provider.trades", "strategy callbacks"])

prop("C03", "Market open state follows the epic's calendar in local time",
     "After each tick the market is open exactly when, in the epic's own timezone, the tick's time of day is between the opening and closing times (both included), its weekday is a trading day and its date is not a holiday, with the settings the epic has at that moment (they may be changed between ticks). "
     "The remembered market state and the on-demand query agree, and before any tick the market is not open.",
     ["inputs", "histories", "configurations"], "every opening/closing time, set of trading days, holidays and timezone, and every tick sequence, in particular ticks on the exact bounds and around local midnight",
     "Five fixed ticks, all in UTC, one condition at a time; combinations, exact bounds with microseconds and local-versus-UTC dates are not covered.",
     ["estrade/epic.py"], [("calendar test", "estrade/epic.py Epic.is_market_open, Epic._in_market_hours")],
     ["Epic.market_open", "Epic.is_market_open()"])

prop("C04", "Active strategies get exactly the notifications each tick calls for",
     "On every accepted tick, each strategy of the epic that is neither stopped nor paused is notified once of the tick, additionally once of the tick while the market is open if it is open, and once of the market opening or closing if this tick changed the market state, the opening/closing notice coming first and the general one last. "
     "A stopped strategy, or one paused until a later instant than the tick, gets nothing; a paused strategy is notified again from the first tick at or after the end of its pause, and pausing or stopping one strategy or registering others or taking them off, between ticks or from a notification, never changes what the rest receive.",
     ["histories"], "every sequence of ticks opening and closing the market, with strategies being added, paused, stopped and resumed between ticks",
     "Unit tests use mocks that answer is_active with a constant and look at one tick; sequences of transitions with pauses are never run.",
     ["estrade/epic.py", "estrade/strategy.py"],
     [("dispatch", "estrade/epic.py Epic._execute_strategies"), ("pause and stop", "estrade/strategy.py BaseStrategy.is_active")],
     ["BaseStrategy.on_every_tick/on_every_tick_market_open/on_market_open/on_market_close"])

prop("C05", "A strategy always sees a complete and current picture, even after failures",
     "Whenever a strategy is notified of a tick, the epic's last tick and market state, the current frame of every frame set, every indicator and every open trade's valuation already include that tick and nothing later, so that a trade opened or closed from the notification uses that tick's prices and time. "
     "A strategy that raises does not corrupt anything: the exception reaches the caller, market state, frames, indicators and trades include the tick exactly as without the failure, and later ticks are handled normally.",
     ["histories", "fault_sequences"], "every tick sequence, any number of frame sets, indicators, trades and strategies, and every choice of notifications that raise or trade",
     "Tests check the three updates separately with mocks; none looks from inside a notification or lets a strategy raise.",
     ["estrade/epic.py"], [("update order", "estrade/epic.py Epic.on_new_tick")],
     ["inside strategy callbacks: epic.last_tick, market_open, get_frame, get_indicator_value, trade results", "state after a raising callback"])

prop("C06", "Time frames tile local time and hold exactly the ticks of their period",
     "For a frame set in seconds, minutes, hours, days, weeks, months or years, each tick belongs to exactly one frame, the one whose period (start included, end excluded, in the epic's local time) contains it, periods start on the natural multiples of the unit and have the configured length, and each frame starts where the previous one ends. "
     "When no tick arrives for whole periods, those periods still get a frame, carrying only the last tick received before them; no other frame exists. ",
     ["histories", "configurations"], "every unit and allowed quantity, every chronological tick sequence (bursts, ticks on and one microsecond before a boundary, equal times, gaps of many periods) and every epic timezone",
     "Unit tests check one boundary and one three-frame gap with mocks; whole histories in local time, and boundaries for each unit through the epic, are not exercised.",
     ["estrade/graph/frame_set.py", "estrade/mixins/timeframe.py"],
     [("frame over decision", "estrade/graph/frame_set.py FrameSet.is_frame_over_timed"), ("gap filling", "estrade/graph/frame_set.py FrameSet._create_new_frame_timed"), ("period arithmetic", "estrade/mixins/timeframe.py")],
     ["FrameSet.frames[*].period_start/period_end/nb_ticks/first_tick/last_tick"])

prop("C07", "Tick-count frames hold their quota and never span two local days",
     "For a frame set in ticks, every tick belongs to exactly one frame, in order of arrival, and no frame holds more ticks than the configured quantity. "
     "A new frame starts exactly when the current one is full or when the tick is on a later day, in the epic's local time, than the tick before it, and it starts at the time of its first tick.",
     ["histories", "configurations"], "every quantity and every chronological tick sequence within and across local days",
     "The day rule is only tested on a mocked frame with a hand-set last tick, a state the epic never produces; quotas are tested on one 10-tick run.",
     ["estrade/graph/frame_set.py"], [("frame over decision", "estrade/graph/frame_set.py FrameSet.is_frame_over_tick")],
     ["FrameSet.frames[*].nb_ticks/first_tick/last_tick/period_start"])

prop("C08", "A frame records its first, highest, lowest and last tick and then freezes",
     "At any moment each frame's tick count, first tick, last tick, earliest highest and earliest lowest tick (by tick value) are exactly those of the ticks that fell into it, a frame without ticks of its own repeating the last tick before it. "
     "A frame is closed exactly when it has a successor, predecessor and successor links mirror the order of the frames, and nothing about a closed frame that is still kept ever changes again.",
     ["histories"], "every tick sequence with repeated, rising and falling values, in every unit, observed after each tick",
     "Tests add one or two ticks to a frame; ties, long runs and later mutation of a closed frame are not looked at.",
     ["estrade/graph/frame_set.py"], [("running extremes", "estrade/graph/frame_set.py Frame.on_new_tick"), ("linking", "estrade/graph/frame_set.py FrameSet.create_new_frame")],
     ["Frame.first_tick/high_tick/low_tick/last_tick/nb_ticks/closed/previous_frame/next_frame"])

prop("C09", "A bounded frame history keeps the newest frames and changes no value",
     "A frame set keeps the most recent frames up to its configured limit (which may be changed meanwhile), all of them and in order, and looking up a frame or an indicator by its distance from the current frame returns that frame or value, or nothing when it is beyond what is kept. "
     "The limit only decides what is kept: periods, contents, candles, moving averages and relative strength of the frames that are kept are the same as with a larger limit, and the oldest kept frame has no predecessor.",
     ["histories", "configurations"], "every limit of two frames or more, every tick sequence long enough to drop frames (one at a time or many in one gap) and every lookup distance",
     "Tests trim a list of mocks once; no test compares indicator values under different limits or runs past the default of 100 frames.",
     ["estrade/graph/frame_set.py", "estrade/epic.py", "estrade/graph/base_indicator.py", "estrade/graph/indicators/candle_set.py"],
     [("trimming", "estrade/graph/frame_set.py FrameSet.clean_old_frames"), ("lookup", "estrade/epic.py Epic.get_frame, Epic.get_indicator_value")],
     ["FrameSet.frames", "Epic.get_frame", "Epic.get_indicator_value"])

prop("C10", "Classic candles report the open, high, low, last and shape of their frame",
     "A classic candle's open, high, low and last are the values of its frame's first, highest, lowest and last tick; its close is the last value once the frame is closed and nothing before. "
     "Its colour says whether last is above, below or equal to open, its height is high minus low, its body the distance between open and last, and head and tail the distances from the body to high and low (these three rounded to two decimals), for any prices including zero and negative ones.",
     ["histories", "inputs"], "every tick sequence and every price level, observed after each tick, for candles created with the first frame or later",
     "Tests patch open/high/low/last with constants; no test has zero or negative prices or follows a candle through a history.",
     ["estrade/graph/indicators/candle_set.py", "estrade/graph/base_indicator.py"],
     [("candle values", "estrade/graph/indicators/candle_set.py JapaneseCandle, BaseCandle"), ("running extremes", "estrade/graph/base_indicator.py BaseIndicatorValue.on_new_tick")],
     ["JapaneseCandle.open/high/low/last/close/color/height/body/head/tail"])

prop("C11", "Heikin Ashi candles follow their recurrence over the whole history",
     "A Heikin Ashi candle's last is the mean of its frame's first, highest, lowest and last values; its open is the first value for the first candle and otherwise the mean of the previous candle's open and last; its high and low are the extremes of open, last and the frame's highest and lowest values, all rounded to two decimals. "
     "The values of a candle whose frame is closed do not change afterwards, however many frames are kept or dropped, and its close is its last value from then on and nothing before. Its colour, height, body, head and tail follow from these as for a classic candle.",
     ["histories", "configurations"], "every tick sequence and history limit, from two frames to several thousand",
     "Tests patch the previous candle with constants and run two frames; dropped history and long histories are not tested.",
     ["estrade/graph/indicators/candle_set.py"], [("recurrence", "estrade/graph/indicators/candle_set.py HeikinAshiCandle")],
     ["HeikinAshiCandle.open/high/low/last/close/color/height/body/head/tail"])

prop("C12", "A simple moving average is the mean of exactly the last closes",
     "On each frame the moving average over n periods is the mean, rounded to two decimals, of the last values of the n most recent frames including the current one, following every tick of the current frame, for any n up to the configured maximum. "
     "It has no value while fewer than n frames have been seen since the indicator was added, or when n is above the maximum, and the averages of closed frames do not change.",
     ["histories", "configurations"], "every maximum (one included), every n, every tick sequence with gaps, and indicators added before or in the middle of a history",
     "Tests set the list of closes by hand; the accumulation over frames, gaps, a maximum of one and trimming are covered by one eight-tick example.",
     ["estrade/graph/indicators/simple_moving_average.py"], [("accumulated closes", "estrade/graph/indicators/simple_moving_average.py")],
     ["SimpleMovingAverageValue.get_value"])

prop("C13", "RSI equals the gain/loss ratio over exactly its window of frame changes",
     "On each frame the RSI is 100 - 100/(1 + gains/losses), rounded to two decimals, over the last changes between the last values of successive frames, the window being the configured periods times the frame set's unit quantity and including the current frame as it moves; it is 100 without losses, 0 with losses and no gains, and always between 0 and 100. "
     "It has no value until the window is full, the values of closed frames do not change, and a window longer than the kept history is refused without leaving the indicator registered.",
     ["histories", "configurations"], "every window length (one included), every tick sequence with gaps and flat periods, indicators added before or during a history",
     "Tests patch the list of changes with constants; no test runs an RSI over frames.",
     ["estrade/graph/indicators/rsi.py", "estrade/graph/frame_set.py"], [("accumulated changes", "estrade/graph/indicators/rsi.py RSIValue"), ("window check", "estrade/graph/indicators/rsi.py RSI.set_frame_set")],
     ["RSIValue.value", "FrameSet.add_indicator"])

prop("C14", "Pivot levels derive from the previous kept frame by the documented formulas",
     "A classic pivot is the mean of the previous frame's high, low and last values, and an OLHC pivot the mean of these and the current frame's first value; supports and resistances follow the documented formulas (2P-H, P-(H-L), L-2(H-P); 2P-L, P+(H-L), H+2(P-L)), all rounded to two decimals, for any prices including zero and negative ones. "
     "All levels are absent when there is no earlier frame, are constant while the current frame develops, and are ordered: support 2 below or at pivot below or at resistance 2, and support 1 below or at pivot below or at resistance 1 whenever the pivot lies within the previous range.",
     ["histories", "inputs"], "every tick sequence and price level, both pivot types",
     "Tests patch pivot and previous with positive constants; pivots around zero and histories are not tested.",
     ["estrade/graph/indicators/pivot.py"], [("formulas", "estrade/graph/indicators/pivot.py PivotTypeClassic, PivotTypeOLHC")],
     ["pivot, support1-3, resistance1-3 of indicator values"])

prop("C15", "Market-hours-only indicators ignore everything outside market hours",
     "An indicator restricted to market hours is neither created nor changed by a tick received while the market is closed: its first, highest, lowest and last tick on a frame, and the candle, pivot and moving average values derived from them, come from exactly the ticks of that frame received while the market was open, starting with the first such tick even in the middle of a frame. "
     "A frame that received ticks but none in market hours has no value for it, and the previous value of an indicator is the one on the nearest earlier kept frame that has one; unrestricted indicators are not affected by market hours.",
     ["histories", "configurations"], "every calendar and every tick sequence alternating between open and closed market, for several units",
     "One integration test follows 14 ticks on daily frames for the base class only.",
     ["estrade/graph/base_indicator.py", "estrade/graph/frame_set.py", "estrade/graph/indicators/simple_moving_average.py"],
     [("gate on creation", "estrade/graph/base_indicator.py BaseIndicator.build_value_from_frame"), ("gate on update", "estrade/graph/base_indicator.py BaseIndicatorValue.on_new_tick"), ("late creation", "estrade/graph/frame_set.py Frame._upsert_indicators")],
     ["Frame.indicators[ref]", "Frame[ref]", "indicator value first/high/low/last tick, previous, next"])

prop("C16", "Trade results are the sum of price moves times quantities at the right side",
     "A trade opens at ask and is valued at bid when buying, and the reverse when selling, at the latest tick of its epic; its result is, for each closed part, the move from the opening price to that part's closing price in the trade's favour, rounded to two decimals, times its quantity, plus the same for the still open part at the current price, and the open, closed, total and average figures are consistent with each other. "
     "Its largest and smallest results are the extremes of the results it had when registered and at each later price update, a correction of the price a trade or a close was made at counts from then on, and a fully closed trade ignores price updates.",
     ["histories", "inputs"], "every direction, quantity, sequence of ticks and partial closes at market or explicit prices, and every price level including zero and negative prices",
     "Tests follow two trades through two closes and patch the figures elsewhere; zero prices, many closes, netted trades and extremes over histories are not covered.",
     ["estrade/trade.py", "estrade/epic.py", "estrade/trade_provider.py"],
     [("valuation side", "estrade/trade.py Trade.open_from_tick, Trade.update_from_tick"), ("result arithmetic", "estrade/trade.py Trade.opened_result.., TradeClose.result"), ("extremes", "estrade/trade.py Trade._update_min_max")],
     ["Trade.open_value/current_close_value/opened_result(_avg)/closed_result(_avg)/result(_avg)/max_result/min_result", "TradeClose.result/result_avg"])

prop("C17", "Closing never loses, invents or exceeds a trade's quantity",
     "At any moment the open and closed quantities of a trade add up to the quantity it was opened with, the closed quantity being the sum of its recorded closes; a close takes the requested quantity, or all that is left when none is given or more is requested, and is recorded once with the price and time it was made at. "
     "A trade is closed exactly when nothing is left open, further closes then take nothing, and closing one trade never changes another.",
     ["histories"], "every sequence of partial, full, excessive and repeated closes, through the trade, the epic and the strategy, mixed with ticks",
     "Tests make at most two valid closes per trade; excessive and repeated closes are tested on a mock.",
     ["estrade/trade.py", "estrade/epic.py", "estrade/strategy.py"], [("clamping", "estrade/trade.py Trade.close"), ("close all", "estrade/strategy.py BaseStrategy.close_opened_trades")],
     ["Trade.open_quantity/opened_quantities/closed_quantities/closed/closes", "TradeClose.quantity/close_value/datetime"])

prop("C18", "Backtest netting offsets opposite trades exactly and touches nothing else",
     "In backtests, opening a trade first closes opposite open trades of the same strategy on the same epic at the current price, newest first and only as far as the new quantity goes, and registers a trade for the remainder only, if any, so the strategy's net position on that epic moves by exactly the requested quantity. "
     "Trades in the same direction, of another strategy or on another epic are never closed or changed by it, and a strategy never ends up holding open trades in both directions on an epic.",
     ["histories"], "every sequence of openings and closings in both directions by several strategies (or none) on several epics, with or without a shared trade provider, with any quantities relative to what is open",
     "Unit tests use one existing mocked trade; two or more opposite trades, several epics and exact quantities are not covered.",
     ["estrade/trade_provider.py"], [("netting loop", "estrade/trade_provider.py TradeProviderBacktests.open_trade")],
     ["trade_provider.trades/opened_trades", "Strategy.trades", "Trade.closes"])

prop("C19", "Each opening and closing reaches the provider once, without blocking or leaking",
     "Every trade opened and every close made through an epic is registered at once and passed to the trade provider's request exactly once, in the background: the caller is not delayed by a slow request and not disturbed by a failing one, and ticks, further trades and closes continue to be processed meanwhile, also when several threads use one provider, each through its own epic. "
     "The provider reports running requests exactly while at least one has not finished, what the request sets on the trade or close (status, metadata) is visible on the registered object, and in backtests every opened trade and every close ends up confirmed.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of openings, closings, ticks (made by one thread or several) and completions or failures of pending requests",
     "Tests replace threads by mocks or use requests that return at once; no test holds, reorders or fails a request.",
     ["estrade/trade_provider.py", "estrade/epic.py"], [("request threads", "estrade/trade_provider.py BaseTradeProvider.open_trade/close_trade"), ("running state", "estrade/trade_provider.py BaseTradeProvider.is_alive")],
     ["open_trade_request/close_trade_request calls", "trades, opened_trades, is_alive, Trade.status/meta"])

prop("C20", "Strategy statistics and trade listings are exact over its trades",
     "Listing a strategy's trades yields its registered trades newest first, restricted to exactly those on the given epics, still open, and opened at or after the given time, when asked for. "
     "The result of a list of trades is the sum of their results, and the profit factor is gains over losses with losses counted as at least one (or the gains when there are no losses), rounded to two decimals; with no list given, all the strategy's trades count, with an empty selection nothing does, and lists and generators give the same figures.",
     ["histories", "inputs"], "every history of trades over several epics and every combination of filters and selections",
     "Tests use mocks with at most four constant results and one filter at a time; empty selections are not tested.",
     ["estrade/strategy.py"], [("filters", "estrade/strategy.py BaseStrategy.get_trades"), ("figures", "estrade/strategy.py BaseStrategy.result, profit_factor")],
     ["BaseStrategy.get_trades/result/profit_factor"])

prop("C21", "A CSV report contains every strategy and every trade once, readable back",
     "Reporting writes, for the given strategies, one row each with its reference, number of trades, result and profit factor, and if requested one file per strategy with one row per trade holding that trade's reference, status, epic, strategy, opening time, direction, quantities, opening value and result; reading the files back gives exactly these values, whatever characters the references contain. "
     "Nothing already reported is lost or overwritten when reports are written again to the same place, files have one header row, and missing target folders are created.",
     ["inputs", "histories"], "every set of strategies and trades, every reference text, repeated reports within the same second, existing or missing target folders",
     "The only reporting test in the repository is commented out.",
     ["estrade/reporting/csv.py", "estrade/trade.py"], [("report", "estrade/reporting/csv.py ReportingCSV.report"), ("file writing", "estrade/reporting/csv.py CSVWriter"), ("trade row", "estrade/trade.py Trade.asdict")],
     ["files in the target folder"])

prop("C22", "Registrations are unique and epics never influence one another",
     "A frame set or strategy whose reference is already registered on an epic is refused with the epic error, leaving the earlier registration and both objects as they were; references that are given are kept, missing ones are generated, and a tick provider finds each of its epics by reference and nothing for an unknown one. "
     "What happens on one epic (ticks, market state, frames, trades, strategy notifications) never changes another, even when they share a strategy or a trade provider or are used from different threads, and objects created with default settings share no state.",
     ["histories", "configurations"], "every interleaving of ticks and trades over several epics with shared or separate strategies and providers, in one thread or one thread each, compared with running each epic alone",
     "All tests use one epic; sharing is never tested.",
     ["estrade/epic.py", "estrade/tick_provider.py", "estrade/mixins/ref.py", "estrade/trade_provider.py"],
     [("registration", "estrade/epic.py Epic.add_frame_set/add_strategy"), ("trade updates", "estrade/epic.py Epic._update_open_trades"), ("lookup", "estrade/tick_provider.py")],
     ["Epic.frame_sets/strategies", "BaseTickProvider.get_epic_by_ref", "all per-epic state"])

prop("C23", "Timeframe quantities are validated and period arithmetic is consistent",
     "A timeframe is accepted exactly when its quantity is positive and divides its unit's cycle (60 seconds, 60 minutes, 12 hours, 7 days, 1 week, 12 months; any number of ticks or years) and is otherwise refused with the timeframe error. "
     "For any local time, the period start is at or before it and the period end after it, both are on the unit's natural grid (weeks and seven-day periods start on Monday), the start of a start is itself, the start of an end is that end, and later times never have an earlier period.",
     ["inputs", "configurations"], "every unit and quantity, valid or not, and every date from 1900 to 2036 including leap days, month, year and century ends, in any zone without a clock change nearby",
     "Tests list a few dozen datetimes, none for the end of weeks, months and years, and no algebraic relation.",
     ["estrade/mixins/timeframe.py"], [("validation", "estrade/mixins/timeframe.py TimeframeMixin._check_unit_consistency"), ("period arithmetic", "estrade/mixins/timeframe.py get_frame_start/get_frame_end")],
     ["FrameSet(unit, unit_quantity)", "FrameSet.get_frame_start/get_frame_end"])

prop("C24", "Results do not depend on how the same market history is represented",
     "Feeding the same instants and prices expressed in other timezones, as python datetimes instead of arrow ones or as ints instead of floats, with additional unrelated frame sets or idle strategies registered, on a machine set to another timezone, with everything logged, or one more time, gives the same frames, indicator values, trades and notifications. "
     "Frame sets of different sizes agree: a coarse frame's first, highest, lowest and last values and tick count are those of the finer frames it contains, and shifting all prices by a constant number of cents shifts candles and averages by that amount and leaves results and RSI unchanged.",
     ["inputs", "histories", "configurations"], "every market history and every such change of representation",
     "No test compares two runs or two frame sets.",
     ["estrade/epic.py", "estrade/graph/frame_set.py", "estrade/mixins/timed.py", "estrade/graph/indicators"],
     [("conversion on reception", "estrade/epic.py Epic.on_new_tick"), ("independent frame sets", "estrade/epic.py Epic._update_frame_sets")],
     ["whole observable state after the same history"])

prop("C25", "User-defined indicators are fed exactly the frames and ticks they should be",
     "An indicator defined by the user gets one value per frame of its frame set, created from that frame at the first tick of the frame since it was registered (for an indicator restricted to market hours, at the first one in market hours), and that value is then given each later tick of that frame exactly once, in order, with the market state at that tick, and no tick of another frame. "
     "The value read from the frame or the epic is that very object, its tick count, closed state, previous and next values are those of its frame and of the neighbouring frames, and neither its truth value, its length, nor other indicators on the frame set change any of this.",
     ["inputs", "histories", "configurations"], "every tick history, timeframe, frame limit, set of indicators and moment of registration, and every class of values",
     "The tests only use the built-in indicators, or mocks on a single frame.",
     ["estrade/graph/base_indicator.py", "estrade/graph/frame_set.py", "estrade/epic.py"],
     [("values of a frame", "estrade/graph/frame_set.py Frame._upsert_indicators"), ("neighbouring values", "estrade/graph/base_indicator.py BaseIndicatorValue.previous/next"), ("lookup", "estrade/epic.py Epic.get_indicator_value")],
     ["BaseIndicator.build_value_from_frame", "BaseIndicatorValue.on_new_tick/previous/next/nb_ticks/closed", "Frame.indicators", "Epic.get_indicator_value"])

prop("C26", "Memory stays bounded however long the history",
     "However many ticks were received, an epic and its frame sets keep alive only the frames within the configured numbers of frames in memory, their indicator values, the ticks those show and the last tick; frames which were dropped, their indicator values and the ticks only they showed are released, even while a program still holds some older frame. "
     "An epic without frame sets keeps no tick but the last one, refused ticks are not kept, and trades keep no tick they were opened, valued or closed at.",
     ["histories", "configurations"], "every tick history, set of frame sets and limits, and indicators of every kind",
     "Tests look at the length of one list on a few frames, never at what is still referenced.",
     ["estrade/graph/frame_set.py", "estrade/graph/base_indicator.py", "estrade/epic.py"],
     [("dropping frames", "estrade/graph/frame_set.py FrameSet.clean_old_frames"), ("links between frames", "estrade/graph/frame_set.py FrameSet.create_new_frame"), ("last tick", "estrade/epic.py Epic.on_new_tick")],
     ["objects still alive after garbage collection (weak references)"])

prop("C27", "A refused request leaves no trace",
     "A request the package refuses raises its documented error (trade error for an opening without legal direction, time error for a time without timezone, epic error for an anterior tick, an unknown timezone or a used reference, indicator error for an RSI longer than the frames kept, timeframe error for an illegal quantity, tick error for a price which is not a number) and changes nothing there is to see: trades, closes, provider requests, strategies, frames, indicators, ticks and settings are as before. "
     "Whatever is done later has the same results as if the refused requests had never been made.",
     ["histories", "inputs"], "every history of valid requests with refused ones anywhere in it",
     "Tests check that an error is raised, not what is left behind, and nothing after it.",
     ["estrade/epic.py", "estrade/trade.py", "estrade/mixins/timed.py", "estrade/mixins/timeframe.py", "estrade/tick.py", "estrade/graph/indicators/rsi.py"],
     [("directions", "estrade/trade.py Trade.open_from_tick"), ("times", "estrade/mixins/timed.py TimedMixin.datetime"), ("closes", "estrade/trade.py Trade.close"), ("registrations", "estrade/epic.py Epic.add_frame_set/add_strategy"), ("ticks", "estrade/epic.py Epic.on_new_tick")],
     ["exception types", "whole observable state of an epic, its trades and its provider"])

prop("C28", "Reading never changes what is read",
     "Reading frames, indicator values and levels at any distance, candles, averages, links between frames, the market state, trade figures, open trades, listings (read to the end or not), statistics, period starts and ends, texts, dictionaries and reports, at any time, from anywhere and any number of times, changes nothing: the same read made twice gives the same twice, and the history ends with the same frames, values, notifications, trades and statistics as without it. "
     "Lists and dictionaries given by such a query (open trades, listings, a tick or a trade as a dictionary) are the caller's own: what is done with them changes nothing.",
     ["histories", "schedules"], "every history and every placement of reads in it, inside notifications included",
     "Tests read each value once, at the end, and never use what a query returned.",
     ["estrade/epic.py", "estrade/strategy.py", "estrade/trade.py", "estrade/trade_provider.py", "estrade/tick.py", "estrade/graph/frame_set.py", "estrade/graph/indicators/candle_set.py", "estrade/graph/indicators/pivot.py", "estrade/graph/indicators/rsi.py", "estrade/graph/indicators/simple_moving_average.py", "estrade/reporting/csv.py"],
     [("lookups", "estrade/epic.py Epic.get_frame/get_indicator_value"), ("listings", "estrade/strategy.py BaseStrategy.get_trades, estrade/trade_provider.py BaseTradeProvider.opened_trades"), ("kept open values", "estrade/graph/indicators/candle_set.py HeikinAshiCandle.open"), ("dictionaries", "estrade/tick.py Tick.asdict, estrade/trade.py Trade.asdict")],
     ["values read twice", "whole observable state at the end of the history"])

prop("C29", "Frame sets added during a history start afresh",
     "A frame set may be added to an epic at any moment: it has no frame until the next tick, and from then on exactly the frames, contents and indicator values it would have on a new epic of the same settings receiving only the ticks since it was added, whatever its unit, its indicators (restricted to market hours or not) and its history limit. "
     "Adding it changes nothing of the frame sets, market state and notifications the epic already had.",
     ["histories", "configurations"], "every history, moment of the addition, unit and set of indicators",
     "Tests add frame sets before the first tick only.",
     ["estrade/epic.py", "estrade/graph/frame_set.py", "estrade/graph/base_indicator.py"],
     [("registration", "estrade/epic.py Epic.add_frame_set"), ("new frames", "estrade/graph/frame_set.py FrameSet.on_new_tick"), ("tick frames compare with the epic's last tick", "estrade/graph/frame_set.py FrameSet.is_frame_over_tick")],
     ["frames and indicator values of the added frame set and of those before it"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
import sys
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
