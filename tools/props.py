#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
U = "packages/vlossom/src/"
M = "packages/vlossom-mcp/src/"
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = list(state)
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

IDX = U + "composables/list-index-selector/list-index-selector-composable.ts"
prop("P01", "Index navigation never lands on a disabled or missing item",
 "For every list, every disabled setting and every current selection, picking an index, moving with the arrow, Home or End key, or shrinking the list leaves the selection either empty or on an existing item, and a user move never lands on a disabled item. When there is an enabled item in its direction an arrow moves to the nearest one, Home and End move to the first and last enabled item, and on the last enabled item in its direction an arrow changes nothing.",
 ["inputs", "histories"], "all list lengths, all disabled predicates (none, boolean, per item), all selections, all key events and programmatic picks, in any order",
 "Tests use lists of three or four items with a few fixed disabled patterns; the guarantee is over every length and every pattern, including everything disabled and lists that shrink under the selection.",
 [IDX], [("forward/backward search for an enabled index", IDX), ("range and disabled guard on select", IDX), ("length watcher", IDX)],
 ["selected index", "list length"], ["selected index after every operation"])

PAG = U + "components/vs-pagination/VsPagination.vue"
prop("P02", "Pagination window is contiguous, in range and contains the current page",
 "For every page count, window size and current page, the page buttons shown are consecutive existing pages, exactly as many as the smaller of the window size and the page count, and include the current page. Previous and next move by exactly one page, first and last move to the ends, the current page is always an existing page or none, and every change of page is announced exactly once.",
 ["inputs"], "all page counts, all window sizes, all current pages",
 "The window arithmetic has separate branches for even and odd sizes and for both edges; examples cover a handful of the infinite (length, window, page) triples.",
 [PAG, IDX], [("page window computation", PAG), ("edge moves", PAG)], ["current page"], ["rendered page buttons", "current page"])

TP = U + "components/vs-table/composables/table-pagination-composable.ts"
TC = U + "components/vs-table/composables/table-composable.ts"
prop("P03", "Table pages partition the rows",
 "For every list of rows and every page size on offer, the pages shown from first to last contain every row that survives the search exactly once, in order, and no page holds more rows than the page size. Choosing to show all rows yields one page with everything, and in server mode the rows are shown as supplied.",
 ["inputs"], "all row counts, all positive page sizes (including 'all'), all pages",
 "Off-by-one errors appear only at particular (rows, page size, page) combinations such as exact multiples or a short last page.",
 [TP, TC], [("page slice", TP), ("page count", TP)], ["current page", "page size"], ["rows of the current page", "page count"])

TS = U + "components/vs-table/composables/table-sort-composable.ts"
CMP = U + "utils/compare-util.ts"
prop("P04", "Table sorting compares consistently and cycles predictably",
 "For every list of rows whose values in a column are all numbers, all texts, all booleans or all dates, possibly with nulls, sorting by that column (or by the field it names for sorting) shows the rows in the order of those values, descending is the exact reverse comparison, and rows with equal values keep their supplied order. With no sort active the supplied order is kept, the supplied rows are never modified, and pressing one header repeatedly cycles ascending, descending, none.",
 ["inputs", "histories"], "all pairs of cell values of the same comparable kind, all columns, all header click histories",
 "A comparison that is not antisymmetric or that ignores one direction goes unnoticed on already sorted or tiny samples.",
 [TS, CMP, TC], [("value comparison", CMP), ("row comparison", TS), ("sort cycle", TS)], ["sort column", "sort direction"], ["order of the rendered rows"])

TSEL = U + "components/vs-table/composables/table-select-composable.ts"
prop("P05", "Table select-all covers exactly the selectable rows",
 "For every set of rows and every selectable rule, select-all makes the selection exactly the selectable rows and pressing it again empties the selection, so a row the rule excludes is never selected by it. With a selection made of selectable rows the header shows 'all' when every selectable row is selected, 'some' when only part of them are, and neither when none is; a selection bound from outside is taken over and every change of the selection is announced once.",
 ["inputs", "histories"], "all row lists, all selectable predicates, all current selections",
 "Only quantifying over every predicate shows that an unselectable row can never enter the selection.",
 [TSEL], [("select-all toggle", TSEL), ("header state", TSEL)], ["selected items"], ["selection after toggling", "header checkbox state"])

TB = U + "components/vs-table/models/table-cell-builder.ts"
TX = U + "components/vs-table/composables/table-expand-composable.ts"
TSR = U + "components/vs-table/composables/table-search-composable.ts"
STR = U + "components/vs-table/models/strategy/"
prop("P06", "Table cells show each item's own values in its own row and column",
 "For every list of items and every column definition, the body has one row per item in item order and one cell per column in column order, each cell carrying that item's value for that column after the column's own formatting. Searching keeps exactly the matching rows in their order, and toggling expansion affects only the toggled expandable row.",
 ["inputs", "histories"], "all item lists, all column definitions, all search outcomes, all expand/collapse histories",
 "Row and column indices can be mixed up in ways invisible on one-row or one-column fixtures.",
 [TB, STR + "object-column-def-cell-strategy.ts", STR + "string-column-def-cell-strategy.ts", STR + "no-column-def-cell-strategy.ts", TX, TSR],
 [("cell matrix", TB), ("expand bookkeeping", TX), ("row search", TSR)], ["expanded rows"], ["rendered cells", "expanded rows"])

SV = U + "components/vs-select/composables/select-value-composable.ts"
prop("P07", "Select keeps a duplicate-free selection and respects disabled options",
 "For every option list and every current selection, toggling an option in a multiple select adds or removes exactly that option and leaves the others in order, and in a single select it leaves at most one option selected. Select-all and deselect-all never change a disabled option's state, an option that is disabled or filtered out cannot be newly selected, nothing is ever selected twice, and bound values that no option offers are dropped.",
 ["inputs", "histories"], "all option lists, all disabled patterns, all selections, all sequences of select operations",
 "Interactions between disabled options, already selected options and select-all need every combination of membership, not a few examples.",
 [SV, U + "components/vs-select/VsSelect.vue"], [("toggle", SV), ("select all", SV)], ["selected options", "model value"], ["model value after each operation"])

VM = U + "composables/value-matcher/value-matcher-composable.ts"
prop("P08", "Checkbox-style values add and remove exactly their own value",
 "For every group value and every own value, checking adds the own value once and never duplicates it, unchecking removes every equal entry and nothing else, and the box reads as checked exactly when its value is in the group (or equals the single value). Checking and then unchecking restores a group that did not contain the value, and the existing group array is not modified by either.",
 ["inputs", "histories"], "all group contents (including non-arrays), all own values, both modes",
 "Deep equality, duplicates and non-array models combine in ways samples do not enumerate.",
 [VM], [("membership", VM), ("update", VM)], ["group value"], ["updated value", "checked state"])

IO = U + "composables/input-option/input-option-composable.ts"
OL = U + "composables/option-list/option-list-composable.ts"
OLV = U + "composables/option-label-value/option-label-value-composable.ts"
prop("P09", "Changing the options drops exactly the values no longer offered",
 "When the options change, a multiple value keeps exactly the entries still offered, in order, and a single value is kept if still offered and cleared otherwise. Every option is presented once, in order, with its own label, value, position and disabled state, and can be told apart from every other.",
 ["inputs"], "all old and new option lists, all current values, all disabled settings",
 "Depends on membership of arbitrary values in arbitrary option lists.",
 [IO, OL, OLV], [("option watcher", IO), ("option presentation", OL)], ["input value"], ["input value after the options change", "presented options"])

IR = U + "composables/input-rules/input-rules-composable.ts"
IM = U + "composables/input-messages/input-messages-composable.ts"
prop("P10", "Validation messages always belong to the latest check",
 "Once all checks have settled, an input shows exactly the error messages its rules give for the latest checked value, each once, in whatever order asynchronous rules of this and earlier checks resolve. An input is valid exactly when there are none, so a slow answer about an old value never makes a valid input invalid; plain and asynchronous info messages follow the same rule.",
 ["schedules", "inputs"], "all rule lists, all values, all interleavings of overlapping checks and of their asynchronous results",
 "A test fixes one resolution order; the defect needs an older answer to arrive after a newer check.",
 [IR, IM, U + "composables/input/input-composable.ts"], [("rule check", IR), ("message check", IM)], ["rule messages"], ["messages and validity after each settled check"])

RULES = [U + "components/vs-input/vs-input-rules.ts", U + "components/vs-textarea/vs-textarea-rules.ts", U + "components/vs-select/vs-select-rules.ts", U + "components/vs-checkbox/vs-checkbox-set-rules.ts", U + "components/vs-date-picker/vs-date-picker-rules.ts", U + "components/vs-file-drop/vs-file-drop-rules.ts"]
prop("P11", "Built-in input rules reject exactly the values that violate them",
 "For every value and every limit, the required, minimum, maximum, minimum-length and maximum-length rules of the inputs return an error exactly when the value violates the limit, a value exactly at a limit is accepted, and an unset limit rejects nothing.",
 ["inputs"], "all values and limits of the declared types",
 "Boundary and empty-value cases form an infinite set per rule and per input.",
 RULES, [("required, min, max and length checks", r) for r in RULES], [], ["rule result"])

FS = U + "stores/form-store.ts"
IF = U + "composables/input-form/input-form-composable.ts"
prop("P12", "A form's validity and change state follow exactly its live inputs",
 "After any history of inputs mounting, changing state, changing id and unmounting, the form is valid exactly when every input still present is valid and changed exactly when some input still present is changed. An input that left or changed its id leaves no trace under its old id, and updating one input never alters another's entry.",
 ["histories"], "all sequences of register, update, rename and remove over any number of inputs",
 "Tests check short fixed histories; leftover entries only show after particular sequences.",
 [FS, IF, U + "components/vs-form/VsForm.vue"], [("registration", FS), ("id change", IF)], ["registered validity and change flags"], ["form validity and change state"])

OC = U + "stores/overlay-callback-store.ts"
prop("P13", "Only the top overlay reacts and closing removes exactly one overlay",
 "For every stack of open overlays, a key press runs only the handler of the most recently opened overlay, and closing the top or a named overlay runs that overlay's close handler and removes exactly it, leaving the others in order, whatever other overlays its close handler opens or closes. Clearing closes every overlay once.",
 ["histories", "inputs"], "all stacks, all ids, all handlers including ones that open or close overlays themselves",
 "Re-entrant handlers that change the stack while it is being changed are not exercised by tests.",
 [OC, U + "composables/overlay-callback/overlay-callback-composable.ts"], [("overlay stack", OC)], ["open overlays"], ["overlay stack and handlers run"])

MP = U + "plugins/modal-plugin/modal-plugin.ts"
prop("P14", "Closing a modal closes only that modal and honours its veto",
 "For every set of open modals in every container, opening adds one modal to its container and closing removes exactly the addressed modal from its container and from the overlay order, leaving all others open in order. When the modal's before-close guard answers no, nothing changes, even if modals are opened or closed while the guard is pending.",
 ["histories", "schedules"], "all sets of open modals and containers, all guard outcomes, all changes made while a guard is pending",
 "Needs a modal to open or close between asking the guard and its answer.",
 [MP, U + "stores/container-store.ts", OC], [("close with guard", MP)], ["open modals per container", "overlay order"], ["open modals and overlays after close"])

DP = [U + "plugins/alert-plugin/alert-plugin.ts", U + "plugins/confirm-plugin/confirm-plugin.ts", U + "plugins/prompt-plugin/prompt-plugin.ts"]
prop("P15", "Dialogs answer exactly what the user chose and close themselves",
 "An alert, confirm or prompt is answered with the user's choice - done, yes or no, or the submitted text - for whichever of its buttons, keys or closing gestures is used, and then closes its own dialog. Dismissing a confirm means no and dismissing a prompt returns nothing, and a prompt that does not validate stays open unanswered.",
 ["inputs", "histories"], "all option combinations, all user gestures, all validation outcomes",
 "Each gesture reaches the answer through a different callback, and they must agree for every option set.",
 DP, [("answer callbacks", d) for d in DP], ["dialog answer"], ["promise value and closed dialog"])

CS = U + "stores/container-store.ts"
TOAST = U + "plugins/toast-plugin/toast-plugin.ts"
prop("P16", "Toasts and modals of one container never affect another container",
 "For every content of the stores, adding, removing or clearing items in one container changes only that container: items are kept in insertion order, removal takes out exactly the items with that id, and an emptied container leaves nothing behind. A toast shown, closed or cleared follows the same rule and keeps its own settings.",
 ["inputs", "histories"], "all containers, all items, all ids, all operation sequences",
 "Isolation is a statement about every other container and item, which examples cannot enumerate.",
 [CS, TOAST], [("per-container list", CS), ("toast lifecycle", TOAST)], ["items per container"], ["items of every container after each operation"])

CSC = U + "composables/color-scheme/color-scheme-composable.ts"
SS = U + "composables/style-set/style-set-composable.ts"
OS = U + "stores/options-store.ts"
prop("P17", "Theme, colour and style settings resolve by fixed precedence",
 "For every combination of settings, a component's own colour scheme wins over the per-component default, which wins over the global default, and 'none' means no scheme; a component's additional styles win over its style set, which wins over its base style, key by key. The global radius ratio always stays between zero and one, and changing one setting leaves the others alone. A saved theme decides, else dark applies when the system prefers it or it is configured, and switching keeps page and setting in step.",
 ["configurations", "inputs"], "all combinations of present and absent settings, all keys, all ratios",
 "Precedence is over every subset of set values and every key.",
 [CSC, SS, OS], [("colour scheme", CSC), ("style set merge", SS), ("radius clamp", OS)], ["global options"], ["resolved scheme and styles"])

PO = U + "composables/positioning/positioning-composable.ts"
prop("P18", "Floating elements sit on the requested side and flip only without room",
 "For every target, floating size and viewport, a floating element sits on the requested side at the requested margin, or on the opposite side exactly when it does not fit on the requested side and the opposite side has more space, aligned with the requested edge or centre. It takes the target's width when asked to, and follows scrolling and resizing only while visible.",
 ["inputs"], "all rectangles, viewports, placements, alignments and margins",
 "Geometry over all real coordinates.",
 [PO], [("placement and flip", PO)], ["computed position"], ["position style of the floating element"])

SL = U + "composables/scroll-lock/scroll-lock-composable.ts"
prop("P19", "Releasing a scroll lock restores the page exactly",
 "For every page style and every history of one lock being taken and released, after the last unlock settles the scroll-related styles of the element are exactly what they were before the first lock, and while locked scrolling is off.",
 ["histories", "schedules"], "all initial styles and scrollbar geometries, all lock/unlock sequences and frame timings",
 "Needs unlock/lock sequences interleaved with the frame in which styles are restored.",
 [SL], [("lock and restore", SL)], ["saved styles", "element styles"], ["element styles after release"])

SU = U + "utils/string-util.ts"
RS = U + "components/vs-responsive/composables/responsive-composable.ts"
prop("P20", "Sizes and text are normalised the same way for every value",
 "A non-negative numeric size, or text holding only a plain decimal number, becomes that number of pixels, other text is kept, and an absent or empty size sets nothing while zero counts as a size, separately for every screen size. Converting a value to text keeps text, numbers and booleans readable and shows structured values as their structure, and a single text modifier changes only what it names. A file size is shown rounded to two decimals in the largest unit from bytes to terabytes in which it is at least one.",
 ["inputs"], "all numbers, texts and absent values",
 "Falsy values such as 0 and '' are easily mistaken for absence.",
 [SU, U + "composables/string-modifier/string-modifier-composable.ts", RS], [("size normalisation", SU), ("sizes per screen", RS)], [], ["returned text", "style variables and classes"])

LS = U + "stores/layout-store.ts"
LCC = U + "composables/layout-child/layout-child-composable.ts"
prop("P21", "Layout parts update independently of each other",
 "For every layout state, setting the header, the footer or one of the four drawers changes only that part, keeps the values supplied, and leaves all the others as they were; two layouts never share state. The page content is padded by exactly the covering header and footer and by the open pushing drawer of each side, and only directly inside a layout.",
 ["inputs", "histories"], "all layout states and updates",
 "A frame condition over every other part.",
 [LS, LCC], [("layout state", LS), ("own layout", LCC)], ["header, footer and drawer state"], ["layout state after each update"])

INP = U + "composables/input/input-composable.ts"
prop("P22", "Input values reach the outside once and reflect state consistently",
 "Whenever an input's value is replaced by a different one the new value is emitted to the outside exactly once and checked, equal values cause nothing (files are told apart by identity), and an outside change is taken over without being lost. A disabled or read-only form makes its inputs disabled or read-only, and an input shown as in error is never shown as successful at the same time; clearing leaves it unchanged with nothing shown as wrong.",
 ["histories", "inputs"], "all values, all states, all form settings",
 "Equality of arbitrary values and all combinations of flags.",
 [INP], [("value watcher", INP), ("computed state", INP)], ["input value", "changed flag"], ["emitted events", "computed state"])

VS = M + "internal/version/version-service.ts"
prop("P30", "MCP version support verdicts follow version order",
 "For every pair of versions, an entry introduced at or before the project's version is supported and one introduced later is unsupported, unknown versions give 'unknown' rather than a guess, and a release outranks an earlier one exactly by its numeric parts in order. The places searched for a version are tried in a fixed order without repetition, ending with the main branch.",
 ["inputs"], "all version triples and all availability records",
 "Numeric ordering across three components is over infinitely many versions.",
 [VS], [("version order", VS), ("support verdict", VS)], [], ["verdict"])

CSS_ = M + "internal/search/component-search-service.ts"
prop("P31", "MCP search returns only scored matches, best first, within the limit",
 "For every query and catalogue, search returns at most the requested number of results (between 1 and 50, 10 when unspecified), every result has a positive score, results are in non-increasing score order, and no result is left out in favour of one that scored lower; release notes are the exception and stay newest first.",
 ["inputs"], "all catalogues, all scores, all limits including fractional and out-of-range ones",
 "Order and limit hold for all score assignments.",
 [CSS_], [("limit clamp", CSS_), ("rank and cut", CSS_)], [], ["returned results"])

MR = M + "utils/mcp-response.ts"
prop("P32", "MCP session trace numbers and links every step",
 "For every sequence of recorded tool calls, steps are numbered 1, 2, 3 … without gaps within a session, each step without a parent given explicitly points to an earlier step of the session or to none, a session idle longer than its timeout starts afresh, and resetting starts from step one. Totals and the list of tools used agree with the recorded steps.",
 ["histories"], "all sequences of recorded steps, resets and idle times",
 "Histories of arbitrary length and timing.",
 [MR], [("step recorder", MR)], ["session steps"], ["trace in the response"])

GR = M + "services/github-registry-service.ts"
prop("P33", "MCP bounded-parallel fetching keeps order and loses nothing",
 "For every list of items, every concurrency limit and every completion order, the results come back one per item in item order, each item is processed exactly once, and no more than the limit run at the same time.",
 ["schedules", "inputs"], "all item counts, all positive limits, all completion schedules",
 "Schedules cannot be enumerated by tests.",
 [GR], [("worker pool", GR)], ["next index"], ["result list"])

prop("P34", "MCP caches never keep a failure or mix up requests",
 "For every sequence of requests and failures, a fetch that fails for a reason other than the content not existing is made again by the next request that needs it rather than remembered, a fetch that succeeds is reused for the same resource only, and an answer computed for one request's version never carries over another request's version details.",
 ["histories", "fault_sequences"], "all sequences of requests, versions and failures",
 "Needs a failure followed by a retry, or two differently phrased requests for the same version.",
 [GR], [("fetch cache", GR), ("version reference cache", GR)], ["caches"], ["returned data"])

VAL = M + "internal/validation/"
prop("P35", "MCP validation verdict agrees with its issues",
 "For every input, the verdict is 'valid' exactly when something was validated and no error-level issue is reported, and the numbers of errors and warnings in the summary are those of the reported issues; with nothing to validate, or when the library's data cannot be loaded, the code is never called valid. In 'prefer' mode the findings that recommend the library over other means are advisory and never make code invalid by themselves, and in 'off' mode there are none while all other issues stay the same.",
 ["inputs", "configurations"], "all issue lists and option settings",
 "Counts and verdict over arbitrary issue lists.",
 [VAL + "validate-vlossom-usage.ts", VAL + "validation-summary.ts"], [("summary", VAL + "validation-summary.ts")], [], ["validation response"])

SC = M + "internal/scaffold/"
prop("P36", "MCP scaffolding never emits code for an unavailable component",
 "For every list of requested components and every version, generated code is returned exactly when at least one component is requested, all of them exist, and none is known to be unsupported in that version; otherwise the answer carries no code and says why. The unknown components it names are exactly the requested ones that do not exist, and the unsupported ones exactly those the version does not support.",
 ["inputs", "configurations"], "all component names, availability records and versions",
 "Availability gating over all records.",
 [SC + "component-usage-scaffolder.ts", VS], [("availability gate", SC + "scaffold-service.ts")], [], ["scaffold response"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
