#!/usr/bin/env python3
# Generates properties.jsonl (single source of the property texts).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
IND=["channel/*.go","volume/*.go","oscillator/*.go","trend/*.go"]
NOIND="The indicator packages have no passing test in this tree (their tests need a data file that is not shipped), and a test could only sample a few histories and parameter sets."
p("C01","One output point per candle, stamped with that candle's time",
 "Every indicator's data series has exactly as many points as the candle history it was built from. The point at position i carries the timestamp of candle i, including the first point and the warm-up points.",
 ["inputs","configurations"],"for every candle history and every parameter setting of every indicator",
 NOIND,IND,[("each Calculation builds one element per candle and fills its Time","Calculation methods")],["GetData() of each indicator"])
p("C02","Recalculating an indicator changes nothing",
 "Running an indicator's calculation again, any number of times and mixed with reading its data, signals or values, yields the same data series as running it once. Nothing is accumulated or carried over from an earlier calculation.",
 ["histories","inputs"],"for every sequence of calls on one indicator object over one unchanged candle history",
 "Tests call each accessor at most once on a fresh object; "+NOIND,IND,[("data series is rebuilt from scratch by each calculation","Calculation methods")],["GetData() after repeated Calculation()"],
 [("data","the computed series cached in the indicator","every indicator struct")])
p("C03","Computing never alters the caller's candles, slices or shared state",
 "Constructing an indicator, calculating it, and reading its data, values or signals leave the candle history and every slice the caller passed in exactly as they were, and change no package-level state. The vector helpers return fresh slices and leave their arguments unchanged. Only operations whose purpose is in-place change (clearing, filtering, de-duplicating, sorting or padding a candle item, and the in-place NaN replacement helper) are exempt, and they change only the item or slice they are invoked on.",
 ["inputs","histories"],"for every input and every order in which several indicators are run on the same history",
 "A test observing one indicator's output cannot see that another consumer of the same candles was disturbed.",IND+["utils/ta/ta.go","utils/klines/*.go","utils/regression.go"],[("columns are copied out of the candles before computing","GetOHLC, HL2, HLC3, OHLC4"),("helpers allocate their result","utils/ta")])
p("C04","No output point depends on later candles",
 "For every indicator except the smart-money-concepts structure marker, the data point and the signal at position i depend only on candles 0..i and the configured parameters. Appending candles to a history never changes points already published.",
 ["inputs","histories"],"for every history, every extension of it, and every parameter setting",
 NOIND,IND+["utils/ta/ta.go","utils/regression.go"],[("only trailing windows and previous results are read","Calculation and AnalysisSide methods")])
p("C05","Every candle gets exactly one defined signal; Hold when nothing to compare",
 "A strategy's signal series has exactly one entry per candle, each of them Buy, Sell or Hold. The first candle, and every candle for which the rule's look-back is not available, is reported as Hold, never as Buy or Sell by default.",
 ["inputs","configurations"],"for every history length and parameter setting of every strategy",
 "The zero value of the signal type is Buy, so a position that is never assigned looks like a decision; "+NOIND,IND+["utils/Side.go","utils/interface.go"],[("AnalysisSide assigns every position","AnalysisSide methods")])
p("C06","Buy and Sell are emitted exactly when the indicator's rule fires",
 "At every candle after the look-back, a strategy reports Buy exactly when its documented buy condition on the current and previous published values holds, Sell exactly when the sell condition holds (and not the buy condition), and Hold otherwise. The conditions are the crossings and threshold crossings of the indicator's own published lines, the closing price and fixed levels (for example 20/80 for the relative strength index, -80/-20 for Williams %R, 10/90 for the money flow index, +-100 for the commodity channel index).",
 ["inputs"],"for every pair of consecutive points, hence every ordering of the compared values",
 NOIND,IND,[("if / else-if / else decision over current and previous item","AnalysisSide methods")])
p("C07","Any history length is accepted without panicking",
 "Building any indicator and reading its data and signals does not panic for an empty history, a history shorter than or equal to the look-back period, or any longer one, with look-back parameters of at least one. The same holds for the window helpers of the vector library.",
 ["inputs","configurations"],"for every history length n >= 0 and every positive period parameter",
 "Boundary lengths (0, 1, period-1, period, period+1) for every period cannot be enumerated by tests, and none are tested today.",IND+["utils/ta/ta.go","utils/klines/technical_analysis.go"],[("early returns on short input and loop bounds","utils/ta and Calculation methods")])
p("C08","No NaN or infinity from a zero denominator or negative radicand",
 "Given candles with finite prices and volumes, positive prices, and low <= open, close <= high, no indicator publishes NaN or an infinity: a ratio whose denominator can be zero on such data (flat window, zero volume, no movement) and a square root of a possibly negative value are guarded.",
 ["inputs"],"for every well-formed history, in particular flat windows and zero volume",
 NOIND,IND+["utils/ta/ta.go","utils/regression.go"],[("Divide replaces NaN/Inf by 0; explicit zero tests","utils/ta")])
p("C09","Constructors agree on parameters and defaults",
 "A default constructor yields the same results and name as the explicit constructor with the documented default parameters, and a constructor taking extracted price columns yields the same results as the one taking the candle item. Every parameter given to a constructor is recorded under its own public field, unmodified except for the documented clamping of the number of breakout lines to 1..5.",
 ["inputs","configurations"],"for every parameter setting and history",
 NOIND,IND,[("constructor literals","NewX, NewDefaultX, NewXOHLC")])
p("C10","True range and average true range mean the same everywhere",
 "Wherever a true range is computed, for every candle after the first it is the greatest of high-low, |high - previous close| and |low - previous close|. All components that expose or consume a true range agree on that definition.",
 ["inputs"],"for every consecutive pair of candles, including gaps up and gaps down",
 NOIND,["utils/ta/ta.go","trend/Atr.go","trend/AverageDirectionalIndex.go","trend/Vortex.go"],[("max of three distances","TRange, TrueRange, Atr.Calculation, calculateTR, Vortex.Calculation")])
p("C11","Column extraction and typical prices map each candle to its own fields",
 "Extracting columns from a candle item yields, at position i, exactly candle i's open, high, low, close, volume, bull flag and time in the respective column. The derived price series are (H+L)/2, (H+L+C)/3 and (O+H+L+C)/4, and a Heikin-Ashi candle is formed with close (O+H+L+C)/4, high the maximum and low the minimum of the candle's extreme with its averaged open and the candle's close, and the same time as its source candle.",
 ["inputs"],"for every candle history","Tests on klines are not part of the passing suite and check no column mapping.",["utils/klines/technical_analysis.go"],[("per-candle copy loops","GetOHLC, HL2, HLC3, OHLC4, ToHeikinAshi")])
p("C12","Interval conversion refuses unsuitable input with an error",
 "Converting a candle item to a new interval returns the specific error, and no item, for a missing item, an unset or negative old or new interval, a new interval not larger than the old one, one that is not a whole multiple, unpadded candle data, and too few candles. Date-range construction and date checks likewise report unset, equal or inverted dates and invalid intervals as errors, and no failure is reported by panicking.",
 ["inputs"],"for every combination of intervals, dates and candle data","The tests sample a few invalid combinations, in a package excluded from the stable suite.",["utils/klines/kline.go","utils/commonutils/common.go"],[("guard clauses returning sentinel errors","ConvertToNewInterval, addPadding, CalculateCandleDateRanges, StartEndTimeCheck")])
p("C13","Derived candle items keep the instrument's identity and are independent copies",
 "An item derived from another (interval conversion, Heikin-Ashi, range copy) carries the source's exchange, symbol and code, and the appropriate interval. Changing a candle of the derived item never changes the source item, and deriving leaves the source unchanged.",
 ["inputs","histories"],"for every source item and every later modification of either item","Tests compare a few prices only.",["utils/klines/kline.go","utils/klines/technical_analysis.go"],[("fresh Candle per element","ConvertToNewInterval, ToHeikinAshi, RemoveOutsideRangeCopy")])
p("C14","Range filtering, de-duplication and sorting keep exactly the right candles",
 "Range filtering keeps, in order, exactly the candles whose time is at or after the start and before the end; de-duplication keeps, in order, exactly the first candle of each timestamp. Sorting by time orders ascending, or descending when asked to.",
 ["inputs"],"for every candle history and range","Tests sample a few histories, in a package excluded from the stable suite.",["utils/klines/kline.go"],[("in-place two-pointer filter","RemoveOutsideRange, RemoveDuplicates"),("comparison closures","SortCandlesByTimestamp")])
p("C15","Stream helpers forward every value in order and always close their output",
 "Each stream helper delivers one output value per input value (after its documented shift, skip, fill or pairing), in order, computed from that value, and closes each output channel exactly once when its input ends. No helper leaves a goroutine blocked or an input unread when inputs end at different lengths, provided its outputs are consumed.",
 ["schedules","inputs"],"for every channel capacity, input length and scheduling of producer and consumer goroutines","Tests run one schedule with a few short inputs.",["helpertools/*.go"],[("defer close in the producing goroutine","helpertools"),("draining the longer input","Operate")])
p("C16","The queue is first-in first-out",
 "Dequeue returns the enqueued values in the order they were enqueued and removes exactly the one it returns; a queue is empty exactly when every enqueued value has been dequeued; dequeuing from an empty queue panics rather than returning a value.",
 ["histories"],"for every sequence of enqueue and dequeue operations","Tests run one short sequence.",["container/queue/queue.go"],[("push at back, remove at front","Enqueue, Dequeue")])
p("C17","The ordered tree keeps its ordering through insertions and removals",
 "Every insertion places the value on the side its comparison with each visited node demands, duplicates included, and every removal follows the same sides and deletes exactly one occurrence. Minimum and maximum are the extreme values of what is stored, and comparison of two values is -1, 0 or 1 as the first is less than, equal to or greater than the second.",
 ["histories","inputs"],"for every sequence of insertions and removals of totally ordered values","Tests run one short sequence.",["container/bst/bst.go","container/comparable.go"],[("comparison-driven descent","Insert, Remove, removeNode, minNode, maxNode, Compare")])
p("C18","The moving averages compute their documented recurrences",
 "At every position the simple, exponential, double exponential, Wilder (running), weighted and fixed-window moving averages equal their defining formula over the input and period: window mean (partial during warm-up for the simple average, zero for the fixed-window average), (2v+(p-1)prev)/(p+1) seeded with the first value, 2*EMA-EMA(EMA), ((p-1)prev+v)/p after a warm-up mean, and the linearly weighted window mean.",
 ["inputs","configurations"],"for every input series and period","Only one simple-average example is tested.",["utils/ta/ta.go"],[("recurrences","Sma, SmaT, Ema, Dema, Rma, Wma, MA")])
p("C19","Value accessors return the published series",
 "Every value accessor of an indicator (single values, several lines, list of one component) returns, position by position, exactly the corresponding field of the data series, computing it first if it has not been computed yet.",
 ["inputs","histories"],"for every history, whether or not a calculation was run before",NOIND,IND,[("projection loops and lazy calculation","GetValue(s), GetDifs, GetMACDs, GetListK/D/J")])
p("C20","Vector arithmetic helpers are exact element-wise operations",
 "Each element-wise helper of the vector library applies its named operation to the elements at the same position (or shifted by the stated amount) and nothing else: sums, differences, products, ratios (0 when undefined), powers, roots, absolute values, sign extraction and clipping, shifts with fill, lagged differences and percentages, running sums over a window, totals and means, rounding and NaN replacement.",
 ["inputs"],"for all element values and positions","No element-wise helper has a test.",["utils/ta/ta.go"],[("element loops","Add ... Nz")])
p("C21","Oscillators compute their documented formulas",
 "Each oscillator's published lines equal its documented formula over the candle columns and its parameters (absolute and percentage price, awesome, Chaikin, stochastic, Williams %R, volume, projection oscillators, Camarilla levels and Ichimoku lines), including which column, window, sign and scale factor each uses.",
 ["inputs","configurations"],"for every history and parameter setting",NOIND,["oscillator/*.go"],[("composition of vector helpers","Calculation methods")])
p("C22","Volume indicators compute their documented formulas",
 "Each volume indicator's published value equals its documented formula over prices and volume (accumulation/distribution, Chaikin money flow, ease of movement, force index, money flow index, negative volume index, on-balance volume, volume price trend, volume-weighted average), including which column, window, sign and scale factor it uses.",
 ["inputs","configurations"],"for every history and parameter setting",NOIND,["volume/*.go"],[("composition of vector helpers","Calculation methods")])
p("C23","Channel indicators compute their documented bands",
 "Bollinger bands are the moving average plus and minus the configured width times the standard deviation of closes; Donchian bands are the highest and lowest close of the window with their midpoint; Keltner bands are the exponential average plus and minus twice the average true range; the Ulcer index is the root of the smoothed squared percentage draw-down from the window's highest close.",
 ["inputs","configurations"],"for every history and parameter setting",NOIND,["channel/*.go"],[("composition of vector helpers","Calculation methods")])
p("C24","Trend indicators compute their documented formulas",
 "Each trend indicator's published lines equal its documented formula over the candle columns and its parameters (moving averages, MACD, KDJ, RSI, stochastic RSI, CCI variants, directional index, vortex, supertrend variants, Vegas tunnel, linear-regression candles, UT bot, stochastic heat, reversal counts), including which column, window, sign and scale factor each uses.",
 ["inputs","configurations"],"for every history and parameter setting",NOIND,["trend/*.go"],[("recurrences and composition of vector helpers","Calculation methods")])
p("C25","Regression and dispersion helpers compute their closed forms",
 "Least-squares slope and intercept, their moving versions, the moving linear-regression value, slope, intercept and angle, and the variance, standard deviation, mean deviation and mean absolute deviation helpers equal their textbook formula over the stated window at every defined position.",
 ["inputs","configurations"],"for every input series and window","Only the standard deviation of three samples is tested.",["utils/regression.go","utils/ta/ta.go"],[("window sums updated incrementally","MovingLeastSquare, LinearReg*, Variance, StdDev, Dev, MeanDeviation")])
p("C26","Window extremes and pivots consider exactly their window",
 "The moving maximum and minimum at position i are the extreme of the last period values up to and including i; the highest/lowest helpers consider exactly the last n values; a pivot high (low) is reported at the confirmation position exactly when the candidate equals the extreme of the window from left before it to right after it.",
 ["inputs","configurations"],"for every input series and window length","None of these helpers has a test.",["utils/ta/ta.go"],[("insert current, remove the value leaving the window, read extreme","Max, Min, Highest, Lowest, PivotHigh, PivotLow")])
p("C27","Multi-strategy runs keep order and names",
 "Running several strategies returns one signal series per strategy, in the order given, each the series that strategy itself reports under its own name. Signals render as their fixed labels.",
 ["inputs"],"for every list of strategies","Not tested.",["utils/interface.go","utils/Side.go"],[("indexed loop","RunStrategies"),("label switch","Side.String")])
p("C28","Aggregated candles summarise exactly their group",
 "When a candle item is converted to a larger interval, each new candle's open, high, low, close and volume are the first open, highest high, lowest low, last close and total volume of exactly the source candles in its time span, and its time is the start of that span.",
 ["inputs"],"for every padded candle history and whole-multiple interval","Tests sample one history, in a package excluded from the stable suite.",["utils/klines/kline.go"],[("single pass with a moving target candle","ConvertToNewInterval")])
p("C29","Smart-money structure marks are consistent with the price swings",
 "A break-of-structure or change-of-character mark carries the level of the swing that was crossed and spans from that swing to the crossing candle; order blocks describe an actual candle of that span and are dropped once invalidated.",
 ["inputs","histories"],"for every history and swing length",NOIND,["trend/SmartMoneyConcepts.go","trend/SmartMoneyConcepts_type.go"],[("swing state machine","SmartMoneyConcepts.Calculation")])
p("C30","Breakout probabilities are percentages of the counted cases",
 "The published win percentage of each line is the share of past candles of the same colour after which that line was reached, lines beyond the requested number stay empty, and the win/loss counters count each evaluated candle exactly once, as a win exactly when it reached the side (the previous high or low) that candles of its predecessor's colour had more often reached, up when even.",
 ["inputs","histories"],"for every history and number of lines",NOIND,["trend/BreakoutProbability.go"],[("count table updated per candle","BreakoutProbability.Calculation")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
