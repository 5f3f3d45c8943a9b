#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {}
def t(id, technique, note): T[id] = (technique, note)
REF = "Trusts the independent RFC 4506 reference codec in harness/ref and the pinned specifications in harness/units/specs. "
t("C01", "runtime oracle: reference RFC 4506 codec observing the real encoder", REF + "Values are generated per type from the specification (boundary lengths, all union arms), not enumerated.")
t("C02", "runtime oracle: reference codec, decoded value and reader position monitored", REF + "Sampled values, single and concatenated.")
t("C03", "runtime oracle: reference decoder over hostile bytes, crash monitor, re-encode law", REF + "Truncation at every offset of each sample; mutations and random bytes are sampled.")
t("C04", "allocation monitor (runtime TotalAlloc) with per-input linear budget", "Measures real allocation of decoder, generated code, client and server on announced-but-unsupplied lengths; the constant factor is a fixed budget, with fixed inputs and sampled ones.")
t("C05", "runtime oracle: accept/reject at and around every declared limit", REF + "Every bounded field of every shipped type is visited at max-1..max+several and far beyond; surrounding values are sampled.")
t("C06", "runtime monitor: operation histories on one state against a sticky-error model", "Histories are random sequences over all primitives and types with injected errors.")
t("C07", "aliasing monitor: poison writes/appends and snapshots of buffers and fields", "Every byte field of sampled values is written and appended to in random order while all others are watched.")
t("C08", "runtime oracle: decode into used value compared with decode into fresh value", REF + "Pairs and chains are sampled over all types.")
t("C09", "offline trace checker over recorded server histories (exactly-once, xid matching)", "Real server under simulated transport; schedules come from controlled handler release, segmentation, delays and many runs, not enumeration.")
t("C10", "trace checker: replies against a reference RFC 1057 dispatcher", "Registration sets and calls are sampled with all dispatch branches counted.")
t("C11", "stream monitor: record framing of the server's output under concurrency", "Transport with atomic individual writes; concurrent completions are forced at barriers.")
t("C12", "concurrency monitor: handlers re-check arguments and results while buffers recycle", "Interleavings are forced by held handlers and traffic in between; not exhaustive.")
t("C13", "liveness monitor: replies at quiescence with handlers held", "Quiescence is decided from goroutine states, so no timing assumption is made; sets of held handlers are sampled.")
t("C14", "Go race detector over concurrent serving workloads", "Finds races on executed happens-before graphs; counts goroutine overlaps and pool reuse actually reached.")
t("C15", "fault injection at every byte offset with trace checker", "Offsets of the sampled conversations are enumerated; record contents are sampled.")
t("C16", "trace checker over the client's output stream", REF + "Histories of calls incl. failing ones are sampled.")
t("C17", "runtime oracle: acceptance of altered reply records", "Every single-bit change of header words and every truncation of sampled replies.")
t("C18", "fault injection at every byte offset of request and reply, hang monitor", "Offsets enumerated for sampled conversations; hang is decided by quiescence.")
t("C19", "differential runtime oracle: generated code compiled and run against the reference codec", "Random specifications over the supported grammar; codecs compared by running them.")
t("C20", "recording implementations behind generated and shipped stubs, trace checker", "Random program definitions plus all shipped procedures.")
t("C21", "file-system monitor around generator runs on bad input and bad output locations", "Strict reference parser decides which inputs are specifications; truncation at every token and mutations are sampled.")
t("C22", "metamorphic runtime comparison of generator outputs", "Layouts, options and orders are sampled.")
t("C23", "differential runtime comparison of committed, regenerated and pinned packages", REF + "Constants compared completely; behaviour on sampled values and bytes.")
t("C24", "leak monitor: library goroutines and reachable heap at quiescence over long histories", "Growth is measured across thousands of units of work per scenario; a leak below about 10 bytes per unit or that needs a scenario not listed is not seen.")
t("C25", "cost monitor: allocation and processor time at sizes growing 8-fold, against the smallest in proportion", "Sizes up to 512-fold; sub-quadratic growth, or quadratic growth that stays below a factor of 6 (memory) or 12 (time) at the largest size, is not seen.")
try:
    exec(open(os.path.join(here, "mkmanifest_extra.py")).read())
except FileNotFoundError:
    pass
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": k, "quick_cmd": "bin/check " + k, "thorough_cmd": "VERIF_TIER=thorough bin/check " + k,
                 "technique": v[0], "level": "exploration", "level_note": v[1]} for k, v in sorted(T.items())],
     "not_applicable": [], "notes": "No hooks in /repo: every property is observed at public interfaces. Repairs are listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
