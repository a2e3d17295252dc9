#!/usr/bin/env python3
"""Emits /verif/MANIFEST.json from the property list and the checks the harness registers."""
import json, subprocess
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
have = set(subprocess.run(['/verif/harness/target/release/pbt', 'list'], capture_output=True, text=True).stdout.split())
NA = {}
try: NA = json.load(open('/verif/tools/na.json'))
except FileNotFoundError: pass
note = ("Generated inputs compared with an independent exact oracle; a pass means no counterexample among the cases "
        "counted in the evidence file, not a proof. Trusts rug's rational arithmetic and the oracle code in harness/src.")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks are needed: every observation goes through the public interface.", "source_commits": []},
    "checks": [
        {"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}",
         "technique": "property-based testing: generated inputs against an exact oracle, with integrated shrinking",
         "level": "exploration", "level_note": note}
        for i in ids if i in have],
    "not_applicable": [{"property": i, "reason": NA.get(i, "The check for this property is not part of this version yet.")} for i in ids if i not in have],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'not claimed')
