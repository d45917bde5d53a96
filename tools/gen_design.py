"""Rewrites the section "Per property" of DESIGN.md from properties.jsonl, the harnesses' stated bounds, seeded/*/meta.json and the texts below."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

ORACLE = {
 "C01": "ask/bid of the last tick and (close - open) x quantity written down over the tick's exact cents, for trades opened through the epic and the strategy, several at a time, in both worlds.",
 "C02": "a ledger of requested quantities kept by the harness (`trades.Story`); conservation, clipping and `closed` compared after every step.",
 "C03": "sum over the harness's own list of (price, quantity) of every close plus the open part at the last tick; closes compared with what they were when made.",
 "C04": "running maximum/minimum of the oracle result over the moments the statement names.",
 "C05": "an independent newest-first netting model over (direction, quantity, strategy, epic) rows; every trade, close and the net position compared with it.",
 "C06": "each epic's trades follow a ledger that ignores the other epic's events; equal references, shared providers and shared strategies included.",
 "C07": "the provider's requests are recorded; `threading.Thread` is replaced by a stand-in whose body runs at a scheduling point chosen by a solver variable (or at once), `is_alive` follows the stand-in.",
 "C08": "a filter over the harness's own rows, newest first; identity of objects compared.",
 "C09": "sums of the trades' results, gains and losses in exact arithmetic with the stated rounding; lists, generators, iterators, empty inputs.",
 "C10": "accept iff the instant (computed from wall clock and zone table by the harness) is not earlier; on refusal a full snapshot of the observable state is compared.",
 "C11": "inclusive comparison of exact microseconds of day, weekday arithmetic on day numbers, holiday day numbers.",
 "C12": "an automaton of market state, stop flag and pause date predicting the exact sequence of callbacks.",
 "C13": "the callback compares last tick, frames, indicators, trades and market state with the tick it was called for; fills made there are those of the tick.",
 "C14": "instants and offsets recomputed from the zone's transition table; twin epics fed with the same instants expressed in other zones are compared.",
 "C15": "modular arithmetic on exact microseconds since day 1; local wall clock from the transition table; containment, alignment and tiling checked on two dates of one frame.",
 "C16": "the list of frames expected from modular arithmetic over the ticks' exact times, fillers included, compared one by one.",
 "C17": "first/last/earliest maximum/earliest minimum over the harness's list of ticks per frame and per indicator value.",
 "C18": "a counter reset at day changes of the epic's wall clock.",
 "C19": "frame sets with several limits over the same ticks are compared pairwise, links followed in both directions.",
 "C20": "a snapshot of a frame and its values when the next one starts is compared with every later reading.",
 "C21": "divisibility of symbolic quantities; duplicate references; periods x quantity against the limit.",
 "C22": "values of the frame's ticks in exact cents; `near` allows only the rounding of a double.",
 "C23": "the recurrence evaluated by the harness from its own list of closed candles, rounding of means to the cent (either neighbour on a tie).",
 "C24": "the formulas in exact arithmetic over the previous frame's ticks; ordering of levels; null pivots.",
 "C25": "mean over the harness's list of last values, fillers included.",
 "C26": "gains and losses over the harness's list of changes; the quotient is compared by cross-multiplication, so no division is trusted.",
 "C27": "the ticks of a frame received while the harness's own market-hours oracle says open.",
 "C28": "position in the list of kept frames; nearest earlier frame having a value.",
 "C29": "exact differences and half a cent around the mid-point over arbitrary cents and over tenths of thousandths; types and naive dates refused.",
 "C30": "rows parsed with the real `csv` module and compared as a multiset with the trades' dictionaries; headers counted per file. Files are held in memory in the symbolic run and real in the replay.",
 "C31": "twin epics: one with additional components/neighbours, one without; all observables compared.",
 "C32": "the values given by the harness; dates formatted from a table; freshly made objects inspected for shared state.",
 "C33": "twin epics: attached late against attached to an epic that only gets the later ticks; callbacks against a strategy attached from the start.",
 "C34": "two frame sets over the same ticks; each coarse frame against the fold of its fine frames.",
 "C35": "twin epics: orders from callbacks against the same orders right after the tick.",
 "C36": "a ledger of explicit prices.",
 "C37": "a provider whose requests accept, refuse, set metadata or raise at a solver-chosen scheduling point; quantities, statuses and registrations compared with a non-netting model.",
 "C38": "the C11/C12 oracles with the settings in force at each tick; kept frames under a changing limit against a frame set that forgets nothing.",
 "C39": "cash account: bid x quantity for every sale, - ask x quantity for every purchase, plus the position at market.",
 "C40": "a twin epic fed with negated, exchanged prices and opposite orders.",
 "C41": "a twin epic fed with prices moved by a solver-chosen constant.",
 "C42": "a twin epic fed with repetitions chosen by the solver, or with further ticks inside the range of a frame.",
 "C43": "a twin epic on which nothing fails.",
 "C44": "the list of calls due to each indicator, written down from the frames touched by each tick, and the summaries of C17.",
 "C45": "a twin epic fed with the same ticks weeks away.",
 "C46": "a twin epic fed with multiplied prices and orders of multiplied quantities.",
}
OUT = {
 "C43": "failures of a user's indicator or of the disk; failing request threads are part of C37", "C44": "fillers evicted by the very tick that made them; whether restricted indicators are asked while the market is closed", "C45": "months, years and zones whose offset changes in between", "C46": "profit factors (losses below 1 count as 1)",
 "C01": "trades whose strategy closes them, threads", "C10": "ticks in the two hours around a change beyond those of the listed zones and years", "C15": "years whose frame would start before year 1; wall times skipped or repeated by a change of offset (C16 covers them for frames)",
 "C19": "a limit of 0", "C29": "NaN and infinite prices", "C30": "reports more than a second apart; failing disks", "C32": "collisions of generated references", "C12": "stopping or pausing a strategy in the middle of its own events of a tick",
 "C08": "`only_after` over trades not opened in chronological order (the statement excludes them)", "C14": "the repeated hour (statement); one Tick object given to epics in different zones", "C07": "preemption inside a request body (requests are atomic here)",
}
A, B = "<!-- per property: generated by tools/gen_design.py -->", "<!-- end -->"


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    seeded = {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeded.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)))
    known = {}
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        known.setdefault(f["property"], []).append(f["id"])
    out = [A, ""]
    for p in props:
        mod = importlib.import_module("harness." + p["id"].lower())
        out.append("### %s %s" % (p["id"], p["title"]))
        out.append("")
        out.append("* Oracle: " + ORACLE[p["id"]])
        for h in mod.HARNESSES:
            out.append("* `%s` (%d quick, %d thorough configurations): %s." % (h.name, len(h.configs("quick")), len(h.configs("thorough")), h.bounds))
        if p["id"] in OUT:
            out.append("* Outside: %s." % OUT[p["id"]])
        if p["id"] in known:
            out.append("* Known findings: %s." % ", ".join(known[p["id"]]))
        if p["id"] in seeded:
            out.append("* Catches the planted %s." % ", ".join(seeded[p["id"]]))
        out.append("")
    out.append(B)
    f = os.path.join(HERE, "DESIGN.md")
    s = open(f).read()
    new = "\n".join(out)
    s = s[:s.index(A)] + new + s[s.index(B) + len(B):] if A in s else s.rstrip() + "\n\n" + new + "\n"
    open(f, "w").write(s)


main()
