"""The properties, and how each is decided. properties.jsonl and MANIFEST.json are
generated from this table by gen.py."""

IND = "ta-lib-rt/c/src/ta_func/ta_*.c"
MEM = "ta-lib-rt/c/src/ta_common/ta_memory.h"
GEN = "ta-lib-rt/c/src/tools/gen_code/gen_code.c"
ABS = "ta-lib-rt/c/src/ta_abstract/ta_abstract.c"
import xmldoc
PROPS = []


def P(id, title, statement, over, text, why, files, mech, check=None, na=None, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    if check:
        d["check"] = check
    else:
        d["na"] = na or "under construction: no check claimed yet"
    PROPS.append(d)


STREAM_STATE = [("stream object", "options, position counter, history buffer, nested streams", "TA_<NAME>_StateInit in ta_<NAME>.c")]

P("S01", "A saved stream reloads to the same stream",
  "For every indicator, the file written when saving a stream in progress contains every item its further updates "
  "depend on (options, position, history buffers, running totals, nested streams), and loading reads the items back "
  "in the same order and size into the same places. Saving does not change the stream, and a reloaded stream carries "
  "no value that does not come from the file.",
  ["histories", "inputs"], "every indicator, every option choice, every moment of the stream's life at which it is saved",
  "The tests save and reload a stream at one point for one option set per indicator; modes selected by other "
  "options, the moments before the warm-up is over and fields that happen not to matter for that data are not reached.",
  [IND, MEM, "ta-lib-rt/c/src/ta_func/ta_utility.h", GEN],
  [("StateSave / StateLoad of each indicator", IND), ("circular buffer save/load macros", MEM)],
  check={"analysis": "saveload",
         "technique": "path-sensitive protocol extraction: symbolic item sequences of writer and reader compared for all compatible path pairs",
         "note": "Every acyclic success path of every save/load function is enumerated on LLVM IR with helpers inlined; "
                 "trusts the C library's fread/fwrite and that option cells determine the mode. Values' meaning is not interpreted.",
         "explain": "All success paths of every StateSave and StateLoad are extracted as sequences of (place,size) items with their "
                    "guards on options and saved flags; each compatible pair must be equal; every non-pointer field read by the update "
                    "function and every owned block or nested stream must occur in the saved sequence.",
         "assume": ["fread/fwrite transfer the requested bytes or report fewer items", "fields reached through computed indices are covered by their block's item"],
         "min": {"indicators": 130, "path_pairs": 500, "state_fields_read": 700}},
  state=STREAM_STATE, observe=["TA_<NAME>_StateSave", "TA_<NAME>_StateLoad", "TA_<NAME>_State after reload"])

P("S02", "File failures while saving or loading a stream are always reported",
  "Whenever a read or write of the stream file transfers less than requested, saving or loading the stream returns the "
  "input/output failure code and never success.",
  ["fault_sequences"], "every indicator and every single file operation that may fail or be short",
  "No test injects a failing or short file operation.",
  [IND, MEM, GEN], [("result checks after fread/fwrite", IND), ("circular buffer macros", MEM)],
  check={"analysis": "iofail", "technique": "path-sensitive typestate analysis of fread/fwrite results on LLVM IR",
         "note": "All paths of all functions that touch a file, including the nested save/load helpers; assumes fread/fwrite report short transfers in their return value.",
         "explain": "For every fread/fwrite call site: on every path the outcomes shorter than requested must reach a return of the I/O failure code.",
         "min": {"io_calls": 2500, "functions": 250}}, observe=["return code of TA_<NAME>_StateSave / TA_<NAME>_StateLoad"])

P("S03", "Releasing a stream frees everything it owns, once, and is repeatable",
  "Releasing a stream releases its history buffers, nested streams and the stream itself exactly once under every option "
  "choice, and sets the caller's handle to NULL. Releasing again through the same handle is harmless and reports success; a NULL "
  "handle pointer is answered with the bad-parameter code; nothing is accessed after it was released.",
  ["inputs", "histories"], "every indicator, every option choice, every stage of construction the stream may be in",
  "Leaks and double releases are invisible to result comparisons, and tests create streams with one or two option choices.",
  [IND, MEM, "ta-lib-rt/c/src/ta_func/ta_utility.h"],
  [("StateFree of each indicator", IND), ("FREE_CIRCBUF_STRUCT", MEM)],
  check={"analysis": "sfree", "technique": "ownership/typestate analysis: resources acquired by creation and load matched against release on all paths",
         "note": "Ownership is derived from the creation and load functions' stores; option-dependent ownership by interval guards. Assumes handles only come from creation or load.",
         "explain": "Resources a stream can own (with the option guards under which it owns them) are derived from StateInit/StateLoad; a typestate "
                    "simulation over all paths of StateFree proves each is released exactly once, the handle reset, NULL handled, no use after release.",
         "min": {"indicators": 130, "owned_resources": 180}}, state=STREAM_STATE, observe=["TA_<NAME>_StateFree"])

P("M01", "A failed memory allocation is reported as such, never used",
  "Whenever an allocation inside the library fails, the call that needed it returns the allocation error code (or, for functions without a return "
  "code, a NULL result) without having read or written through the missing block.",
  ["fault_sequences"], "every allocation site reachable from any public function, any subset of allocations failing",
  "No test makes an allocation fail.",
  [IND, MEM, "ta-lib-rt/c/src/ta_abstract", "ta-lib-rt/c/src/ta_common"],
  [("allocation macros and result checks", MEM), ("temporary buffers of the indicators", IND)],
  check={"analysis": "alloc", "technique": "path-sensitive typestate analysis of allocation results on LLVM IR",
         "note": "All malloc/calloc/realloc sites, all paths, helpers inlined; a block is followed through the variable or field it is stored in.",
         "explain": "For every allocation site: no access through the block and no success return before the result was found non-NULL; "
                    "the NULL outcome returns the allocation error code.",
         "min": {"alloc_sites": 500, "functions": 250}}, observe=["return codes"])

P("B10", "A failing nested calculation or operation fails the whole call",
  "When an indicator, stream operation or table operation uses another one of the library and that one reports a failure, the failure "
  "is returned to the caller; it is never dropped, overwritten or turned into success. A streaming update whose nested stream still needs "
  "data reports that it needs data too.",
  ["inputs", "fault_sequences"], "every call from one library function to another that returns a result code, on every path",
  "Nested failures (allocation, bad combinations of options) are not produced by the tests.",
  [IND, ABS, "ta-lib-rt/c/src/ta_abstract/frames"], [("result checks after nested calls", IND)],
  check={"analysis": "errprop", "technique": "path-sensitive result-code propagation analysis (interprocedural call sites, LLVM IR)",
         "note": "Every call site of a function returning the library's result code (including calls through the function table), all paths; result values tracked as success / need-more-data / other.",
         "explain": "For every such call site no path on which the callee may have failed may return success, drop or overwrite the code.",
         "min": {"call_sites": 1000, "callers": 900}}, observe=["return codes"])

P("B03", "Option values are validated as documented, and defaults substituted",
  "Every entry point taking options (double and float calculation, lookback, stream creation) accepts exactly the option values the indicator's "
  "description lists plus the default marker, answers any other value with the bad-parameter code (or a lookback of -1), and computes with the "
  "documented default wherever the marker was passed.",
  ["inputs"], "every indicator, entry point and option, every integer or real option value (NaN excepted)",
  "Tests call each indicator with a handful of valid options; no test sweeps the boundaries of each range on each entry point.",
  [IND, "ta-lib-rt/c/src/ta_abstract/tables", "ta-lib-rt/c/src/ta_abstract/ta_def_ui.c"],
  [("option validation at the top of each entry point", IND), ("documented ranges and defaults", "ta-lib-rt/c/src/ta_abstract/ta_def_ui.c")],
  check={"analysis": "options", "technique": "interval abstract interpretation of path conditions on each option, compared with the metadata initialisers",
         "note": "All paths up to the first use of an option, intervals exact on integer/real comparisons with constants; helpers inlined; metadata read from the linked initialisers. NaN options not considered.",
         "explain": "For every entry point and option: the union of intervals reaching acceptance equals the range in the function table (plus the default marker), the marker is "
                    "replaced by the documented default before any use, and rejection does not depend on other values.",
         "assume": ["options are not NaN"],
         "min": {"entry_points": 220, "options_checked": 350, "defaults_matched": 300}},
  observe=["return codes and lookback of TA_<NAME>, TA_S_<NAME>, TA_<NAME>_Lookback, TA_<NAME>_StateInit"])


FRAME = "ta-lib-rt/c/src/ta_abstract/frames/ta_frame.c"
TABLES = "ta-lib-rt/c/src/ta_abstract/tables"
SEARCH = {"TA_GetFuncHandle", "TA_ForEachFunc", "TA_FuncTableAlloc", "TA_FuncTableFree", "TA_GroupTableAlloc", "TA_GroupTableFree"}

P("A01", "The function table lists and describes every indicator correctly",
  "Every indicator the library exports appears exactly once in the table of its first letter, in one existing group, with a description whose name, "
  "inputs, options, outputs and counts are those of the actual C functions, whose defaults lie within their own ranges, whose list values are valid, and whose entries are "
  "of the kind (price, real, integer) the functions take. Its flags agree with its inputs and outputs.",
  ["inputs"], "every indicator and every table entry",
  "Tests walk the table but compare only a few indicators' descriptions with the functions' real parameters.",
  [TABLES, "ta-lib-rt/c/src/ta_abstract/ta_def_ui.c", "ta-lib-rt/c/src/ta_abstract/ta_group_idx.c", "ta-lib-rt/c/include/ta_func.h"],
  [("table initialisers", TABLES), ("shared descriptions of inputs, options, outputs", "ta-lib-rt/c/src/ta_abstract/ta_def_ui.c")],
  check={"analysis": "registry", "technique": "static evaluation of the linked table initialisers against the type-checked prototypes (LLVM IR and debug info)",
         "note": "All tables and all descriptions are constant initialisers, read completely; the exported C prototypes are the oracle.",
         "explain": "For each of the 26 letter tables and 165 descriptions: membership, uniqueness, terminators, counts, group, parameter order and type against the prototypes "
                    "of the calculation, lookback and stream functions, range/default/list consistency.",
         "min": {"source_files": 150}}, observe=["TA_GetFuncHandle", "TA_GetFuncInfo", "TA_GetInputParameterInfo", "TA_ForEachFunc"])

P("A02", "Abstract calls reach the right function with the right arguments",
  "For every indicator, a call through the abstract interface (calculation, lookback, stream creation, update, batch update, release, save, load) calls exactly that indicator's own "
  "function with the stored inputs, options and outputs, each in its documented place, and returns its result; it does not change the parameter holder otherwise.",
  ["inputs"], "every indicator, every kind of call, every stored parameter",
  "Tests call each indicator once through the abstract interface without comparing against the direct call for all parameters.",
  [FRAME, TABLES], [("frame functions", FRAME), ("function definitions", "ta-lib-rt/c/src/ta_abstract/ta_frame_priv.h")],
  check={"analysis": "frames", "technique": "guarded effect summaries of every frame function compared with the table entry and the callee's prototype",
         "note": "Every path of all 1320 frame functions; every argument traced to the parameter holder field it is loaded from.",
         "explain": "For each table entry the frame functions in its slots are resolved from the initialiser; each must call the indicator's function of that kind, with argument i loaded from the field "
                    "of the parameter that prototype position i names, as the right type.",
         "min": {"frames": 1320, "arguments": 4500}}, observe=["TA_CallFunc", "TA_GetLookback", "TA_InitNewState", "TA_CallFuncState", "TA_CallFuncBatchState", "TA_FreeState", "TA_SaveState", "TA_LoadState"])

_ABSNOTE = ("Every path of the 36 functions of ta_abstract.c with helpers inlined, loops followed for as many iterations as the tables need (parameter loops up to two); aliasing between "
            "the caller's buffers and the holder is excluded.")
P("A03", "A parameter holder faithfully keeps what was set and calls only when complete",
  "A new parameter holder describes its function's parameters, carries every option's documented default and marks every input and output as missing. Setting a parameter stores exactly that value in exactly that "
  "parameter, clears only that parameter's missing mark, and nothing else changes. A calculation or streaming call is refused until every input and output is set, and then goes to the holder's own function "
  "with the caller's arguments unchanged. Releasing the holder releases all its parts once.",
  ["histories", "inputs"], "every order of settings and calls, every parameter index, every function",
  "Tests set parameters in the documented order on a few functions and then call once.",
  [ABS, "ta-lib-rt/c/src/ta_abstract/ta_frame_priv.h"],
  [("TA_ParamHolderAlloc/Free", ABS), ("TA_SetInputParam*, TA_SetOptInputParam*, TA_SetOutputParam*", ABS), ("TA_CallFunc and its streaming counterparts", ABS)],
  check={"analysis": "absapi", "technique": "guarded effect summaries (all paths, canonical value names) checked against the holder's transition rules",
         "filter": lambda v: v["func"] not in SEARCH and v["rule"] not in ("null-argument",),
         "note": _ABSNOTE,
         "explain": "For each function the effect of every path (literals, stores, calls, result) is compared with its rule: initial contents, exact store set of each setter, missing-mark arithmetic, guards and "
                    "target of each call, release of each part.",
         "min": {"functions": 36, "setter_paths": 100, "dispatches": 8, "alloc_paths": 50}}, observe=["TA_ParamHolderAlloc", "TA_SetInputParamRealPtr", "TA_CallFunc"])

P("A04", "Misuse of the abstract interface is refused with the documented code",
  "NULL arguments, foreign or stale objects, out-of-range parameter indices, parameters of the wrong type, missing price components and incomplete parameter holders are answered with their documented error "
  "code, without following the bad pointer, indexing outside the description or changing anything; valid requests are never refused.",
  ["inputs"], "every function of the abstract interface, every combination of bad arguments",
  "Tests exercise a handful of misuse cases.",
  [ABS], [("argument checks of each function", ABS)],
  check={"analysis": "absapi", "technique": "guarded effect summaries: guard coverage of every success path and justification of every refusal",
         "note": _ABSNOTE,
         "filter": lambda v: v["rule"] in ("null-argument", "unguarded", "wrong-code", "free", "holder", "result", "price") or (v["rule"] in ("stored", "bitmap") and "refuses" in v["msg"]) or v["rule"] == "letter",
         "explain": "Every path that succeeds must carry each required literal; every path that fails must carry the negation of the requirement its code stands for; every dereference of an argument must be dominated "
                    "by a NULL test of it.",
         "min": {"functions": 36, "obligations": 1500, "pointer_uses": 3000}}, observe=["return codes of the abstract interface"])

P("A07", "Functions and groups can be looked up and enumerated completely",
  "Looking a function up by name finds it exactly when it exists, comparing whole names, for any string; the enumeration visits every function exactly once with the caller's data; the table of group names "
  "lists every group, and the table of a group's functions exactly that group's functions; tables are released once, and only tables of the right kind.",
  ["inputs"], "every name, every group, every function",
  "Tests look up existing names and never compare the complete lists.",
  [ABS, "ta-lib-rt/c/src/ta_abstract/ta_group_idx.c"], [("TA_GetFuncHandle, TA_ForEachFunc, TA_FuncTableAlloc, TA_GroupTableAlloc", ABS)],
  check={"analysis": "absapi", "technique": "guarded effect summaries with the constant tables folded in, compared with the registry",
         "filter": lambda v: v["func"] in SEARCH, "note": _ABSNOTE,
         "explain": "The enumeration loops are followed through the constant tables to the end and their calls compared with the registry; the name search is checked for letter bounds, full comparison and no early stop.",
         "min": {"enumerated": 165, "tables": 11, "search_paths": 4}}, observe=["TA_GetFuncHandle", "TA_ForEachFunc", "TA_FuncTableAlloc", "TA_GroupTableAlloc"])

P("A06", "The XML description and function list agree with the function tables",
  "The XML description handed out by the library and the function list name every function of the library once and give for each its real group, flags, inputs, options with ranges and defaults, outputs and entry points.",
  ["inputs"], "every function and every described fact",
  "No test compares the description with the tables.",
  ["ta-lib-rt/ta_func_api.xml", "ta-lib-rt/ta_func_list.txt", TABLES], [("TA_FunctionDescriptionXML", "ta-lib-rt/ta_func_api.xml")],
  check={"run": xmldoc.run, "technique": "structural comparison of the XML document with the statically evaluated function tables",
         "note": "Suggested ranges for optimisers and the lists of state fields are not compared.",
         "explain": "Every element of the XML naming a function, group, flag, input, option, range, default or output is compared with the table initialisers.",
         "min": {"xml_functions": 160, "options": 300, "facts": 1900}}, observe=["TA_FunctionDescriptionXML"])

GLOB = "ta-lib-rt/c/src/ta_common/ta_global.c"
_SETNOTE = ("Decided on LLVM IR of the functions with their helpers inlined; all acyclic paths with the constant tables folded in. "
            "Thread schedules are not considered: the settings are documented as process wide.")


def run_retcodes(work, tier, spec):
    import vlib, os, csv
    r = vlib.analyse("retcodes", work)
    viol = list(r["violations"])
    got = {int(x["code"]): (x["name"], x["info"]) for x in r["extra"]["codes"]}
    path = os.path.join(vlib.SRC, "src/ta_common/ta_retcode.csv")
    n = 0
    if os.path.exists(path):
        for row in csv.reader(open(path)):
            if len(row) < 3 or not row[0].strip().isdigit():
                continue
            code = int(row[0])
            if 5000 <= code <= 5999:
                continue
            n += 1
            if got.get(code) != (row[1].strip(), row[2].strip()):
                viol.append({"rule": "code-list", "func": "TA_SetRetCodeInfo", "file": "ta-lib-rt/c/src/ta_common/ta_retcode.csv", "line": n,
                             "instance": row[1], "msg": "code %d is described as %s, its defining list says %s" % (code, got.get(code), row[1:3])})
    counts = dict(r["counts"])
    counts["listed_codes"] = n
    counts["source_files"] = r["files"]
    return viol, counts, {}


P("C01", "Every result code is described by its own name",
  "For every value of the result code type, the description handed out names exactly that code: each defined code its own name and text, every value of the internal error range the internal error, "
  "every other value the unknown error; both texts are always set and nothing else is written.",
  ["inputs"], "every value of the result code",
  "No test walks the codes, and the undefined ones are unbounded.",
  ["ta-lib-rt/c/src/ta_common/ta_retcode.c", "ta-lib-rt/c/src/ta_common/ta_retcode.csv", "ta-lib-rt/c/include/ta_common.h"], [("TA_SetRetCodeInfo", "ta-lib-rt/c/src/ta_common/ta_retcode.c")],
  check={"run": run_retcodes, "technique": "guarded effect summaries with the constant table folded in, compared with the enumeration and the code list",
         "note": _SETNOTE,
         "explain": "All paths of TA_SetRetCodeInfo are enumerated with the table's constants; the set of codes of every path is compared with the name it stores.",
         "min": {"code_paths": 20, "codes": 19}}, observe=["TA_SetRetCodeInfo"])

P("C02", "Global settings change exactly the named cell and start at their defaults",
  "After initialisation every unstable period is zero, the compatibility is the default and every candle setting has its documented default; setting or restoring one identifier (or all) changes exactly the "
  "cells it names to exactly the given values and nothing else; reading returns the stored value; unknown identifiers are refused and touch no memory; shutdown resets, and using the library's settings "
  "again needs initialisation.",
  ["inputs", "histories"], "every identifier value, every setting value, every order of calls",
  "Tests change a few settings and never look at the neighbours or pass identifiers outside the range.",
  [GLOB, "ta-lib-rt/c/src/ta_common/ta_global.h", "ta-lib-rt/c/include/ta_common.h"],
  [("TA_Initialize, TA_Shutdown, TA_Set/GetUnstablePeriod, TA_Set/GetCompatibility, TA_SetCandleSettings, TA_RestoreCandleDefaultSettings", GLOB)],
  check={"analysis": "settings", "technique": "guarded effect summaries (all paths, complete memory effect) compared with each setting's transition rule",
         "note": _SETNOTE,
         "explain": "The memory image every path leaves behind is compared cell by cell with the rule of the function; the interval of the identifier must lie inside the table wherever it is used as an index.",
         "min": {"cells": 25, "default_fields": 80, "setting_paths": 15, "functions": 8}}, observe=["TA_SetUnstablePeriod", "TA_GetUnstablePeriod", "TA_SetCandleSettings", "TA_SetCompatibility"])

P("C03", "An indicator obeys the same settings in all its forms",
  "The calculation, its single precision version, its lookback and its streaming form of one indicator depend on the same global settings (unstable period, compatibility, candle settings); the unstable period used is the "
  "indicator's own; an indicator is described as having an unstable period exactly when it has an identifier for it, and then its lookback depends on it.",
  ["inputs", "histories"], "every indicator and every value of every setting",
  "Tests run nearly everything with default settings.",
  [IND, "ta-lib-rt/c/src/ta_common/ta_global.h", TABLES], [("reads of TA_GLOBALS_UNSTABLE_PERIOD, TA_GLOBALS_COMPATIBILITY, TA_CANDLEAVGPERIOD and related macros", IND)],
  check={"analysis": "setuse", "technique": "interprocedural effect analysis: the set of setting cells each entry point may read, compared within each indicator's family",
         "note": "May-read sets over the call graph of the LLVM IR; decides dependence, not the numeric use of a setting.",
         "explain": "The set of setting cells read by each entry point (closed over internal calls, nested indicators' own setting excluded from 'own') must agree between the forms of an indicator and with its description.",
         "min": {"families": 480, "indicators": 160, "setting_reads": 8000}}, observe=["TA_<NAME>", "TA_<NAME>_Lookback", "TA_<NAME>_State"])

P("C05", "Candlestick measures never mix two kinds of candle settings",
  "In every candlestick indicator each average, running total and trailing position belongs to exactly one kind of candle setting: what is added, removed, counted and divided by uses the range type, period and factor "
  "of that kind only, in the calculation, the single precision version and the streaming form.",
  ["inputs", "histories"], "every candlestick indicator, every assignment of candle settings",
  "With the default settings many kinds share range type and period, so a mix is invisible to tests; users change them one at a time.",
  ["ta-lib-rt/c/src/ta_func/ta_CDL*.c", "ta-lib-rt/c/src/ta_func/ta_utility.h"], [("TA_CANDLERANGE, TA_CANDLEAVERAGE, TA_CANDLEAVGPERIOD and their streaming forms", "ta-lib-rt/c/src/ta_func/ta_utility.h")],
  check={"analysis": "candlekinds", "technique": "dimension (type-qualifier) inference: kinds flow from setting fields through arithmetic, indices, local arrays and state fields",
         "note": "Flow of kinds is a fixpoint over each function's IR, with memory cells per state field or array element; decides consistency of kinds, not which kind a pattern should use.",
         "explain": "Every floating value and running total is assigned the set of candle setting kinds it is derived from; a set with two kinds, or an update decided by another kind's warm-up, is reported.",
         "min": {"indicators": 61, "measures": 25000, "guards": 700}}, observe=["TA_CDL<NAME>", "TA_CDL<NAME>_State"])

_CALCNOTE = ("All 330 calculation functions (double and single precision), split by the cases of their lookback and of the start and end positions; positions, options, settings and lookbacks stay symbolic. "
             "Options are taken inside their documented range (values outside it are B03's concern), input arrays as long as endIdx+1, output arrays as long as the number of values announced; nested calculations are replaced by this same contract. "
             "Several ways of keeping program paths apart are tried, each sound by itself; 32-bit overflow and the conversion of NaN to an integer are not modelled.")
_CALCASSUME = ["options are in range and not NaN", "input arrays hold endIdx+1 elements, output arrays the announced number", "no 32-bit overflow of positions", "outBegIdx and outNBElement are not NULL"]
CALCTECH = "abstract interpretation with convex polyhedra (relational bounds, pointer and resource states) on LLVM IR"

P("B01", "Invalid arguments of a calculation are refused, valid ones never",
  "Every calculation answers a negative start position, an end position before the start position or negative, and a NULL input or output array with the documented error code before touching any array; for in-range options and valid "
  "arguments it never fails except for lack of memory, a refused aliasing of outputs or a failing nested calculation.",
  ["inputs"], "every indicator in double and single precision, every pair of positions, every in-range option value, every combination of NULL arrays",
  "Tests call with valid arguments; the few misuse cases cover a few functions.",
  [IND], [("parameter checks at the top of TA_<NAME> and TA_S_<NAME>", IND)],
  check={"analysis": "calc", "rules": ["refused", "accepted", "null-argument", "index-unchecked", "result"], "technique": CALCTECH, "note": _CALCNOTE, "assume": _CALCASSUME,
         "explain": "At every return of every function the result code is compared with what the abstract state knows of positions, arrays and allocations: a success requires validated arguments, a refusal an invalid one; "
                    "every access to an argument array requires its validation.",
         "min": {"functions": 320, "returns": 8000, "accesses": 150000}}, observe=["return code of TA_<NAME>, TA_S_<NAME>"])

P("B04", "A calculation reports exactly the values its lookback promises",
  "Whenever a calculation succeeds, outBegIdx is the later of startIdx and the indicator's lookback for the same options and settings, and outNBElement the number of positions from there to endIdx; when the lookback leaves nothing to "
  "calculate, both are zero.",
  ["inputs"], "every indicator in double and single precision, every start and end position, every in-range option and every setting of unstable periods and candle averages",
  "Tests compare a handful of ranges per indicator with default options; boundaries next to the lookback with changed settings are not swept.",
  [IND], [("TA_<NAME>_Lookback and the adjustment of startIdx", IND), ("outBegIdx, outNBElement at the end of each calculation", IND)],
  check={"analysis": "calc", "rules": ["begin", "count"], "technique": CALCTECH, "note": _CALCNOTE, "assume": _CALCASSUME,
         "explain": "The lookback function is turned into cases (condition, formula over options and settings); at every successful return of the calculation, in each case, outBegIdx and outNBElement must equal the formula "
                    "as linear expressions over start, end, options and settings.",
         "min": {"functions": 320, "success_returns": 1200, "lookback_cases": 500, "cases": 1500}}, observe=["outBegIdx, outNBElement of TA_<NAME>, TA_S_<NAME>", "TA_<NAME>_Lookback"])

P("B05", "Calculations stay inside their arrays",
  "No calculation reads an input before its beginning or after endIdx, writes an output beyond the announced number of values, uses a local or temporary buffer outside its size, follows a NULL or released pointer, writes to an input array that is not also an output, or divides an integer by zero.",
  ["inputs"], "every indicator in double and single precision, every start and end position, every in-range option value, every setting",
  "Out-of-range accesses usually go unnoticed in tests, and depend on option combinations and positions that are not swept.",
  [IND, "ta-lib-rt/c/src/ta_func/ta_utility.h", MEM], [("index arithmetic of the main loops", IND), ("circular buffers", MEM)],
  check={"analysis": "calc", "rules": ["bounds", "null", "freed", "unresolved", "input-written", "division"], "technique": CALCTECH, "note": _CALCNOTE, "assume": _CALCASSUME,
         "explain": "For each memory access of each function in every abstract state reaching it: offset and size as linear expressions, inclusion in the block proved from the polyhedron; calls of nested calculations are accesses of the ranges they use.",
         "min": {"functions": 320, "accesses": 150000}}, observe=["memory accesses of TA_<NAME>, TA_S_<NAME>"])

P("B08", "Calculations release their temporary memory on every way out",
  "Every temporary buffer a calculation allocates is released exactly once before it returns, whether it succeeds, runs out of memory or a nested calculation fails; nothing else is ever released.",
  ["inputs", "fault_sequences"], "every indicator, every outcome of allocations and nested calculations",
  "Leaks on error paths are invisible to tests.",
  [IND, MEM], [("ARRAY_ALLOC/ARRAY_FREE, CIRCBUF_INIT/DESTROY", MEM)],
  check={"analysis": "calc", "rules": ["leak", "free", "size"], "technique": CALCTECH, "note": _CALCNOTE, "assume": _CALCASSUME,
         "explain": "Each allocation's block carries a live/released state through all abstract states; a return with a live block, a second release or the release of anything not allocated is reported, and allocation sizes must not be negative.",
         "min": {"functions": 320, "returns": 8000}}, observe=["allocations of TA_<NAME>, TA_S_<NAME>"])

P("B06", "A successful calculation stores every position it announces",
  "When a calculation returns success with a count, every output array has had every position from the first up to that count stored, whatever the values of the data (zero prices, flat or missing movement, ties): no announced result is left as the caller's memory was, and none of the calculation's own results is built from an output position not yet stored.",
  ["inputs"], "every indicator, single and double precision inputs, every data value, start and end position, in-range option and setting",
  "A skipped store is seen by tests only when the data takes the special branch in the middle of a range and the caller's memory differs from what should have been there; data-dependent branches (division guards, patterns not found) are where this goes wrong.",
  [IND], [("stores to the outputs on every branch of the main loops; nested calculations and buffers that are outputs", IND)],
  check={"analysis": "filled", "technique": CALCTECH + "; assume-guarantee for nested calculations", "assume": _CALCASSUME[:3] + ["different outputs are different arrays"],
         "note": "All 165 calculations in both precisions. Positions, options, settings and lookbacks stay symbolic; comparisons on data values go both ways. A nested calculation that succeeds is assumed to fill its own outputs (this same property).",
         "explain": "Along every path the length of the part of each output that is stored without a gap is carried as a linear expression (a store adjoining it extends it, any other store leaves it); at each successful return the polyhedron must show that it covers the announced count, and at each read of an output that the position lies below it.",
         "min": {"functions": 330, "outputs": 1500, "accesses": 100000}}, observe=["outputs of TA_<NAME> and TA_S_<NAME>"])

P("B07", "An input array may also be the output array",
  "A calculation gives the same result when an output array of real values is the very array given as one or several of the inputs (different outputs in different arrays): no position of such an input is read once the result of that position has been stored, and the call is not refused for it.",
  ["inputs"], "every indicator with real-valued outputs, every way of using its inputs as outputs, every start and end position, every in-range option value and setting",
  "Tests calculate in place for a few indicators, option sets and the first output only; which positions are read after which results are written depends on options, on period order and on start positions.",
  [IND], [("order of reads and writes in the main loops; choice of temporary buffers when arrays coincide", IND)],
  check={"analysis": "inplace", "technique": CALCTECH + "; assume-guarantee for nested calculations", "assume": _CALCASSUME[:3] + ["different outputs are different arrays"],
         "note": "All 165 calculations in double precision (inputs of the single precision forms cannot be outputs). For functions that compare array addresses every assignment of inputs to outputs is analysed separately, for the others all pairs at once. "
                 "Positions, options, settings and lookbacks stay symbolic; a nested calculation is assumed to allow the same for its own arguments, and must be given arrays that coincide position by position.",
         "explain": "Along every path the extent of each output already written is carried as a linear expression; at each read of an input (and each nested call reading it) the polyhedron must show that the position lies at or above what has been written of every output that may be the same array.",
         "min": {"functions": 165, "shared_reads": 3000, "shared_calls": 100, "cases": 700}}, observe=["outputs of TA_<NAME> called in place"])

P("B02", "The single precision version of an indicator makes the same calculation",
  "For every indicator, the version that takes single precision data carries out the calculation of the version that takes double precision data: the same formulas on the same positions, under the same conditions, with the same constants, answering in the same places. "
  "Its intermediate and final results are kept in double precision. A change of formula, condition or position in one of the two versions only is a defect.",
  ["inputs", "configurations"], "every indicator, every series, range, option value and setting",
  "The tests hardly ever call the single precision versions, and then with one series and the default options.",
  [IND, GEN], [("the generated single precision copy at the end of each indicator file", IND)],
  check={"analysis": "floatforms", "technique": "lockstep equivalence of two functions on LLVM IR: bisimulation of control flow graphs with value numbering modulo linear integer forms; difference localisation",
         "assume": ["data that both precisions hold exactly", "inputs and outputs of the single precision version are different arrays (they have different types)"],
         "note": "All 165 pairs are proved equal on the present code (control flow, every store, call, condition and returned value), up to double rounding where C adds two single precision operands. When two versions can no longer be matched, a violation is reported only if they are the same program but for one place "
                 "(a constant, operand, position, comparison, operation, or a statement missing); versions written differently in several places are listed as undecided in the evidence, because no static equivalence of arbitrary rewritings is in reach.",
         "explain": "equal: pairs proved to be the same program. undecided: pairs written too differently to be compared.",
         "min": {"calculations": 160, "instructions": 100000, "widened": 300}}, observe=["TA_S_<NAME> against TA_<NAME>"])

P("B12", "A candlestick stream and the float form recognise what the calculation does",
  "For each candlestick pattern, the double precision calculation, the single precision one and the stream decide on a pattern at a position by the same conditions on the same candles, and give the same answer. "
  "Every average candle range they compare with is made of the same number of candles ending at the same distance from the candle it is compared with: at the first position (or first answer) and at every later one. "
  "What is meant is the formulas: equal up to the rounding of running sums.",
  ["inputs", "histories"], "59 candlestick patterns (CDLHIKKAKE and CDLHIKKAKEMOD, which also remember an earlier pattern, are left out), all price series, all range kinds, average periods (>= 0), factors and penetrations, every length of history",
  "Tests run one price series with the default settings, never compare stream and calculation over settings, and a total that starts one candle off changes few answers: sixteen patterns had streams that differed.",
  [IND, "ta-lib-rt/c/src/ta_func/ta_utility.h"], [("pattern conditions in the double, single precision and state forms; the loops that build and move the running totals", IND)],
  check={"analysis": "candleforms", "technique": "symbolic normalisation of data and control dependences to canonical decision diagrams over polynomials (LLVM IR, no solver, no execution); equality of canonical forms, with window algebra for the running totals",
         "assume": ["no candle value is NaN and real arithmetic is exact (sums differ in rounding only)", "average periods are not negative and settings stay as they were when the stream was opened", "the lookback is at least 1 (with 0 the stream keeps no history: S07)", "the stream has been given every candle in order"],
         "note": "The decision at a position is rebuilt from each of the three forms as one function of candles by distance, settings, options and running totals; comparisons are brought into one normal form (max, min, absolute values, integer bounds), and equal functions have equal forms. "
                 "A running total is accepted only as the sum of one kind of range over a window: in calculations from the loop that builds it and the add and remove of each step, in streams from the position on which adding starts, related to the lookback. Where a form is too unusual to be rebuilt nothing is claimed about it (listed as undecided in the evidence; none on the present code).",
         "explain": "equal: pairs of forms found equal (two per pattern). totals: running totals shown to be windows. A difference is reported with a case in which the answers differ; a total with the position at which it goes wrong.",
         "min": {"indicators": 59, "forms": 150, "equal": 100}}, observe=["outputs of TA_CDL<NAME>, TA_S_CDL<NAME>, TA_CDL<NAME>_State"])

_STREAMNOTE = ("All 165 streams: opening the stream followed by any number of updates is analysed as one program (StateInit, then State for ever), for every case of the lookback and every sign of the comparisons on options and settings; "
               "options, settings, the number of updates and positions in history buffers stay symbolic, fields of the stream object and of buffers it owns are followed exactly. A nested stream is replaced by this same property (it answers after its own lookback); "
               "nested streams whose inside is touched are analysed as part of the owner. Several ways of keeping program paths apart are tried, each sound by itself.")
_STREAMASSUME = ["options are in range and not NaN", "global settings stay as they were when the stream was opened", "fewer than 2^31 updates", "a stream is not used further after an update was refused for a NULL output", "the stream comes from TA_<NAME>_StateInit (reloading is S01)"]
STREAMTECH = "abstract interpretation with convex polyhedra (relational invariants of the update loop, pointer and resource states) on LLVM IR; assume-guarantee for nested streams"

P("S06", "A stream answers from exactly the update its lookback promises",
  "After opening a stream, exactly the first as many updates as the indicator's lookback (for the same options and settings) ask for more data, and every later update succeeds and sets every output. An update with valid arguments never fails "
  "otherwise, and opening a stream with admissible options fails only for lack of memory.",
  ["inputs", "histories"], "every indicator, every in-range option value, every setting of unstable periods, compatibility and candle averages, every number of updates",
  "Tests stream a single option set per indicator with default settings; period 1, other moving average types, unstable periods and compatibility modes decide the warm-up through different code.",
  [IND, GEN, "ta-lib-rt/c/include/ta_defs.h"], [("TA_<NAME>_Lookback and the warm-up of TA_<NAME>_State", IND), ("NEED_MORE_DATA", "ta-lib-rt/c/include/ta_defs.h")],
  check={"analysis": "stream", "rules": ["early", "late", "refused", "code", "open", "unwritten"], "technique": STREAMTECH, "note": _STREAMNOTE, "assume": _STREAMASSUME,
         "explain": "At every return of an update the polyhedron relates the number of updates so far to the formula of the lookback: a request for data requires fewer values than the lookback, a success at least as many and every output stored.",
         "min": {"streams": 160, "update_returns": 1200, "cases": 300}}, state=STREAM_STATE, observe=["return code and outputs of TA_<NAME>_State", "TA_<NAME>_Lookback"])

P("S07", "Streams stay inside their memory",
  "Opening and updating a stream never reads or writes outside the stream object, its history buffers, arrays inside them and local buffers, never follows a NULL or released pointer, never passes on a nested stream that was not opened, and never divides an integer by zero.",
  ["inputs", "histories"], "every indicator, every in-range option value, every setting, every number of updates, every input value",
  "Out-of-range accesses usually go unnoticed in tests and depend on options, settings and the number of updates.",
  [IND, "ta-lib-rt/c/include/ta_defs.h", "ta-lib-rt/c/src/ta_func/ta_utility.h", MEM], [("PUSH_TO_MEM / POP_FROM_MEM", "ta-lib-rt/c/include/ta_defs.h"), ("circular buffers of streams", MEM), ("history positions of the update functions", IND)],
  check={"analysis": "stream", "rules": ["bounds", "null", "freed", "free", "size", "unresolved", "division"], "technique": STREAMTECH, "note": _STREAMNOTE, "assume": _STREAMASSUME,
         "explain": "For each memory access of opening and updating, in every abstract state reaching it: offset and size as linear expressions over options, settings and number of updates, inclusion in the block proved from the invariant of the update loop.",
         "min": {"streams": 160, "accesses": 90000, "array_accesses": 6000}}, state=STREAM_STATE, observe=["memory accesses of TA_<NAME>_StateInit, TA_<NAME>_State"])

P("S08", "A NULL stream or output is refused, not used",
  "Opening, updating, batch-updating and releasing with a NULL stream argument is answered with the bad-parameter code without touching anything, and an update that has an answer refuses a NULL output with the bad-parameter code instead of storing through it.",
  ["inputs"], "every indicator, every option value and setting, every moment of the stream's life, every combination of NULL arguments",
  "Tests pass valid streams and outputs.",
  [IND, GEN], [("checks at the top of TA_<NAME>_StateInit, _State, _BatchState, _StateFree", IND)],
  check={"analysis": "stream", "rules": ["null-argument", "accepted", "null-stream"], "technique": STREAMTECH, "note": _STREAMNOTE, "assume": _STREAMASSUME[:3],
         "explain": "Each access to an output requires a state in which it was found non-NULL, each success all outputs checked; with a NULL stream every path of the four functions must return the bad-parameter code without an access through it.",
         "min": {"streams": 160, "null_stream_functions": 640}}, state=STREAM_STATE, observe=["return code of TA_<NAME>_StateInit, TA_<NAME>_State, TA_<NAME>_BatchState, TA_<NAME>_StateFree"])

P("S09", "A batch update equals one update per position, in order",
  "Updating a stream with a range of positions makes exactly one update for every position from startIdx to endIdx in order, with the values of all inputs at that position, and puts each answer at that position's place in the same output; a position "
  "for which the stream still needs data is marked (not a number, or the largest integer). outBegIdx is startIdx and outNBElement the number of positions set; it stops at, and reports, the first update that fails; an empty range updates nothing "
  "and reports zero positions. Nothing outside the given arrays is touched and NULL arrays are refused.",
  ["inputs", "histories"], "every indicator, every start and end position with 0 <= startIdx, every sequence of outcomes of the updates",
  "Tests call the batch update for single positions or whole series with default options, and only when every update succeeds or needs data.",
  [IND, GEN], [("TA_<NAME>_BatchState", IND), ("its generator", GEN)],
  check={"analysis": "batchstate", "technique": "abstract interpretation with convex polyhedra on LLVM IR: the update calls, their arguments and the stores of their answers related to a ghost count of updates",
         "note": "All 165 batch updates, all paths; the update itself is replaced by its possible outcomes (success, needs data, failure). Negative start positions are outside the property: the functions do not check them.",
         "assume": ["0 <= startIdx", "input arrays hold endIdx+1 elements, output arrays one per position", "outBegIdx and outNBElement are not NULL"],
         "explain": "At each update call every argument must be the element startIdx+k of the input of the same name, k being the number of updates so far; each store to an output must be at element k-1 and come from the answer of the same name; "
                    "at each return the header values and the result code must agree with k and the last outcome.",
         "min": {"functions": 160, "update_calls": 400, "returns": 1200}}, observe=["outputs and return code of TA_<NAME>_BatchState"])

P("A08", "The described stream variables are those of the stream",
  "For every indicator the description lists exactly the variables its stream object holds after its header, in their order and each with its kind (number, integer, pointer), followed in the object by the options in the order of the option list; "
  "reading or writing a stream's variables by walking the description therefore meets the right ones.",
  ["programs", "inputs"], "every indicator and every variable of its stream",
  "Nothing in the tests compares the descriptions of stream variables with the stream objects.",
  ["ta-lib-rt/c/src/ta_abstract/tables/table_*.c", "ta-lib-rt/c/include/ta_func.h", GEN], [("tables of stream variables", "ta-lib-rt/c/src/ta_abstract/tables"), ("stream structures", "ta-lib-rt/c/include/ta_func.h")],
  check={"analysis": "statedesc", "technique": "agreement of constant table initialisers with structure types (debug info) on LLVM IR",
         "note": "All 165 streams, all variables, complete for the linked program. A variable that has a new name on one side only is accepted, an exchanged, missing or differently typed one is not.",
         "explain": "The list of stream variables in each definition and the option list, read from the initialisers, compared position by position with the members of struct TA_<NAME>_State.",
         "min": {"streams": 160, "variables": 800}}, observe=["TA_GetStructParameterInfo"])

P("G01", "Every call ends",
  "Every call into the library comes to an end: each repetition in it has a limit that gets nearer in every round whatever the data are, and nothing is called again while it is still running.",
  ["inputs"], "every function, every input value including infinities and NaN, every option value, every setting, every amount of data",
  "An endless repetition shows only for the values that keep it going; a test run is one set of values per function.",
  [IND, ABS, "ta-lib-rt/c/src/ta_common/*.c"], [("loops of calculations, streams and description functions", IND), ("nesting of calculations", IND)],
  check={"analysis": "loops", "technique": "termination analysis: linear ranking functions of all loops over SSA form with type-based alias analysis; acyclicity of the call graph with indirect calls resolved by type",
         "note": "All loops of all functions of the library, internal ones included. A loop is accepted when an exit test passed in every round compares a distance that shrinks by at least one in every round, independently of its data. Function pointers are taken to reach every function of their type whose address is taken; functions given by the user and the C library are trusted to return.",
         "assume": ["counters do not overflow (fewer than 2^31 elements)", "user callbacks and the C library return", "output arrays do not overlap loop limits kept in memory of another type"],
         "explain": "For each loop: a conditional exit whose block dominates every latch, with operands whose difference changes by a constant interval of the right sign per round (limits read from memory only when nothing in the loop can change them); no irreducible cycles; no cycle in the call graph.",
         "min": {"loops": 900, "ranked": 900, "functions": 2000, "calls": 4000}}, observe=["return of every public function"])

P("G02", "Calls share nothing they change",
  "Apart from the functions that exist to initialise, shut down or change settings, no call changes anything but its outputs, the object it was given and memory of its own: never the library's variables, settings or descriptions, never its inputs. "
  "Nothing but arguments, object and settings is consulted, so that a call gives the same answer whatever was called before, and calls on different objects may run at the same time.",
  ["schedules", "histories", "inputs"], "every public function, every earlier sequence of calls, every interleaving of calls on different objects",
  "Tests run one thread, mostly one call after another in a fixed order, and compare inputs only in a few places; a hidden variable goes unnoticed unless two uses collide.",
  [IND, ABS, "ta-lib-rt/c/src/ta_common/ta_global.c"], [("library-wide variable ta_theGlobals", "ta-lib-rt/c/src/ta_common/ta_global.c"), ("description tables", "ta-lib-rt/c/src/ta_abstract/tables"), ("const inputs", "ta-lib-rt/c/include/ta_func.h")],
  check={"analysis": "effects", "technique": "interprocedural side-effect (mod) analysis on LLVM IR with call-graph reachability; type-based identification of table objects",
         "note": "All stores, block writes and releases in all functions reachable from the public interface except TA_Initialize, TA_Shutdown, TA_SetUnstablePeriod, TA_SetCompatibility, TA_SetCandleSettings and TA_RestoreCandleDefaultSettings. Objects reached through two or more pointers are told apart by type.",
         "assume": ["no other thread changes settings meanwhile (the six functions are excluded)", "different calls are given different objects and outputs", "a pointer kept in a caller's object points to memory of that object unless its type is one of the library's table types"],
         "explain": "The memory each write goes to is traced to local, freshly allocated, argument, or library variable, through calls by summaries; a write to a library variable or table type, a write through a parameter declared const, or a call to an outside function that is neither pure nor memory management nor transfer on the caller's file is reported with its call path.",
         "min": {"public_functions": 1400, "functions": 2000, "writes": 8000, "input_parameters": 1000}}, observe=["every public function"])

# ---- properties that this family of technique does not decide here ----
P("V01", "An indicator's numbers are those of its published formula",
  "Every value an indicator reports equals what its documented definition gives for the data up to that position, up to the rounding of double precision arithmetic, however long the series and however large or small the values.",
  ["inputs"], "every indicator, every series, every option value",
  "Regression tests compare a few hundred values per indicator with recorded ones.",
  [IND], [("calculations", IND)],
  na="Equality with a formula and the growth of rounding errors over running sums of unbounded length are properties of floating point values; no static abstraction in reach bounds them for 165 different recurrences, and there is no machine-readable definition to compare with. What is structural about it is decided elsewhere: which candles enter which average (B12), which results are stored (B06), what is read (B05).")
P("V02", "A stream of a recursive or windowed indicator gives the calculation's numbers",
  "For indicators other than candlestick patterns, the answers of a stream are the values the calculation reports at the same positions, up to rounding.",
  ["inputs", "histories"], "every indicator that is not a candlestick pattern, every series, every option value",
  "The tests compare a few series with default options.",
  [IND], [("streaming updates", IND), ("calculations", IND)],
  na="The stream and the calculation are different recurrences over different storage (ring buffers against positions), with loops of unbounded length on both sides; showing the computed values equal needs an inductive equivalence proof about floating point sums per indicator, which is not a static analysis in reach. Decided instead: when a stream answers (S06), what it is fed in a batch (S09), what is saved (S01), which settings it obeys (C03), and for the candlestick patterns, whose streams are finite windows, the decisions themselves (B12).")
P("V03", "Oscillators stay inside their documented range",
  "Indicators documented as percentages or correlations (RSI, STOCH, WILLR, MFI, AROON, CORREL, ...) never report a value outside their range.",
  ["inputs"], "every bounded indicator, every series, every option value",
  "Tests check ranges on one recorded series.",
  [IND], [("bounded indicators", IND)],
  na="The bound follows from real-number inequalities between running sums that rounding breaks by small amounts; an interval analysis of the sums loses the relation at once, and the exact statement is false for floating point numbers, so that a static rule would either alarm on correct code or decide nothing.")
P("V04", "Concurrent calls on one object are not corrupted silently",
  "Two threads updating the same stream or parameter holder, or changing settings while calculating, get a defined outcome.",
  ["schedules"], "every interleaving of calls on one object",
  "Tests run one thread.",
  [IND, ABS], [("stream and holder objects", "ta-lib-rt/c/include/ta_func.h")],
  na="The library promises nothing of the kind: it contains no lock or atomic operation, and its documentation leaves serialisation to the caller, so there is nothing to decide. Calls on different objects are covered by G02.")
P("V05", "Work buffers are set before they are read",
  "No answer of a stream and no value of a calculation is built from a cell of a temporary or ring buffer that has not been filled with data of the series.",
  ["inputs", "histories"], "every indicator, every stream position, every option value",
  "Zero-filled or recycled memory hides the fault in a test.",
  [IND], [("temporary buffers", IND), ("ring buffers", IND)],
  na="Ring buffers are filled modulo their size over an unbounded history; whether the cell read was written needs the set of written cells modulo the size, which the convex domain used for B05, B06 and S07 cannot express without an alarm on correct code. Decided instead for outputs, whose cells are written in order (B06), and for the windows of candlestick streams (B12).")
