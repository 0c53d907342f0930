#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "C01": "random and structured-mutation fuzzing of every parser with panic, termination and allocation oracles",
 "C02": "property-based testing against a reference encoder",
 "C03": "property-based round-trip testing",
 "C04": "property-based testing against a reference encoder",
 "C05": "stateful property-based testing against a reference packetiser",
 "C06": "stateful property-based testing with injected fragment loss",
 "C07": "stateful property-based testing against a reference packetiser; exhaustive DonDiff ranges",
 "C08": "exhaustive short strings and property-based round-trip testing against a reference codec",
 "C09": "exhaustive short streams and property-based testing against the unit list",
 "C10": "model-based testing of operation sequences against a bit-string model",
 "C11": "property-based testing against a reference bit writer",
 "C12": "property-based testing against a reference parameter set writer",
 "C13": "property-based testing against a reference parameter set writer",
 "C14": "model-based testing of histories against a map model",
 "C15": "grammar-based generation compared with the description printed",
 "C16": "model-based testing of histories against a list model",
 "C17": "property-based testing with an independent URI decoder",
 "C18": "property-based testing against an independent RFC 2617 verifier",
 "C19": "grammar-based generation judged by an independent RFC 2617 verifier",
 "C20": "property-based round-trip testing and grammar-based generation",
 "C21": "property-based testing against an independent message parser",
 "C22": "property-based testing over generated streams and segmentations on sockets",
 "C23": "property-based testing over generated interleavings, segmentations and injected stalls on sockets",
 "C24": "model-based testing against a scripted camera",
 "C25": "model-based testing against a scripted camera with injected challenges",
 "C26": "model-based testing of command and answer histories against a scripted camera",
 "C27": "randomised concurrent schedules against a scripted camera",
 "C28": "model-based testing of UDP sessions against a scripted camera",
 "C29": "model-based testing of tunnelled sessions against a scripted camera with injected bad answers",
 "C30": "model-based testing with a scan of every byte sent",
 "C31": "model-based testing of timed sessions against a scripted camera",
 "C32": "property-based testing of the built program against scripted cameras",
 "C33": "property-based testing of concurrent use under the race detector, judged by what each case does alone",
 "C34": "property-based testing of generated URIs and injected connection failures against scripted cameras",
 "C35": "model-based testing of operation histories against a byte stream model, with injected delays",
 "C37": "model-based testing of set-up histories against the generated description",
 "C38": "model-based testing of whole sessions, from the NAL units a scripted camera encodes to those the user ends up with",
 "C36": "property-based testing of repeated histories with a bound on growth",
}
NOTE = "No violation among the generated cases (counts, classes and samples in the evidence file); trusts the harness's reference model and that the generator's domain covers the property's quantifier. "
SOCK = "Runs the real client over loopback sockets; a missed expectation counts only when it is missed twice while a canary shows the machine responsive, otherwise the case is inconclusive. "
checks = []
for p in props:
    i = p["id"]
    n = int(i[1:])
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i}", evidence_file=f"evidence/{i}.json",
        technique=TECH[i], level="exploration", level_note=NOTE + (SOCK if 22 <= n <= 36 or n == 38 else "")))
m = dict(version=1, setup_cmd="./check.sh list", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the checks use exported API, sockets and the built program only. VERIF_TIER selects quick or thorough; './check.sh replay FILE' re-runs a saved case. Repaired defects are listed in KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
