package main

// rules names the deciding rule of a property in violation reports.
var rules = map[string]string{
	"C03": "no store, append, copy or sort reachable from the call may land in memory the caller or the package owns",
	"C07": "every index, slice bound, nil and division obligation on a path must follow from the path's conditions",
	"C08": "no published value may divide by zero or take the root of a negative number",
	"C15": "the extracted stream function must equal its specification, and every sender, receiver and close must be matched",
	"C16": "every abstract outcome of the operation must be the queue word's required successor",
	"C17": "every abstract outcome of the operation must be the sorted word's required successor",
	"C27": "the extracted result must list each strategy's own series in order, independent of the schedule",
}

const graphText = "Each driver names an obligation over the repository's functions for a symbolic history, position and parameters. The functions are interpreted from SSA into a value graph (loops become recurrences, memory is split into regions, branches become decision diagrams); the obligation holds when both sides have one normal form. "

var explanation = map[string]string{
	"C01": graphText + "Sides: length and time stamp of each published series against the candle item.",
	"C02": graphText + "Sides: the series after repeated and interleaved calculation against the series after one.",
	"C03": "Write effects: every store, append, copy and in-place sort met while interpreting a constructor, accessor or helper is resolved to its memory region; regions of the caller or of package variables must stay unwritten.",
	"C31": graphText + "Sides: the plan's requests, slots and bounds and the padded candles against closed forms of the rounded window.",
	"C32": graphText + "Sides: the rendered text and conversion results against the same library calls on the documented fields.",
	"C04": graphText + "Sides: the point at i on the whole history against the point at i on a history cut after i.",
	"C05": graphText + "Sides: length of the signal series, membership in {Buy, Sell, Hold}, Hold before the look-back.",
	"C06": graphText + "Sides: the signal's decision diagram against the documented rule over the published lines.",
	"C07": "Bounds, nil, division and allocation-size obligations of every instruction met, for histories of any length from zero; discharged by the facts of the path, otherwise searched for a violating assignment of the extracted terms.",
	"C08": "Published values without partial operations are proved finite; otherwise the extracted expression is searched for an assignment that makes it NaN or infinite.",
	"C09": graphText + "Sides: default, explicit and alternative constructors: name, parameters and series.",
	"C10": graphText + "Sides: each true-range site and average against one definition.",
	"C11": graphText + "Sides: each extracted column or price at i against candle i.",
	"C12": graphText + "Sides: error identity and nil item for each unsuitable input; plus panic obligations inside the conversion.",
	"C13": graphText + "Sides: identity fields of derived items; source re-read after a write through the derived item.",
	"C14": graphText + "Sides: filtered, de-duplicated and sorted items against their definitions.",
	"C15": "Channels are streams (length, elements, closed); each helper, goroutines included, is interpreted to the streams it produces and what it leaves unread, which is schedule independent, and compared with its definition. Obligations: no send after close, no second close, no blocked sender, no unread input; and, by a rule over the SSA (order.go), no channel has two senders at once.",
	"C16": "Shape analysis: sites counts abstract steps, obligations counts abstract outcomes judged.",
	"C17": "Shape analysis over in-order words (sites counts abstract steps, obligations counts abstract outcomes judged), comparison graphs for Compare and bulk insertion.",
	"C18": graphText + "Sides: each average's recurrence against its definition.",
	"C19": graphText + "Sides: each accessor against the published series.",
	"C20": graphText + "Sides: element i of each helper against its named operation.",
	"C21": graphText + "Sides: oscillator lines against their formulas.",
	"C22": graphText + "Sides: volume lines against their formulas.",
	"C23": graphText + "Sides: band lines against their formulas.",
	"C24": graphText + "Sides: trend lines against their formulas.",
	"C25": graphText + "Sides: regression and dispersion helpers against closed forms.",
	"C26": graphText + "Sides: window extremes and pivots against their windows.",
	"C27": graphText + "Sides: result list against each strategy's own series; plus a schedule rule over the functions the runner calls.",
	"C28": graphText + "Sides: fields of each aggregated candle against its group.",
	"C29": graphText + "Sides: structure marks and order blocks against the swings.",
	"C30": graphText + "Sides: published probabilities against the counted cases.",
}
