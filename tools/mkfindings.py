"""assemble known_findings.json: fixed: lines from /repo's log, plus open findings."""
import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
FIXED = {
    "SlidingLock let two": "C01", "an interrupted wait": "C02",
    "open_block failed if another": "C03", "delete_block ignored": "C10",
    "deactivating the shared": "C11", "deleting from a MetaTagIndex": "C07",
    "closing a nonempty index": "C08", "Notepad raised FileNotFoundError": "C05",
    "reading a MetaTagIndex": "C04", "a failed Notepad assignment": "C08", "GridPaper inverted": "C06",
    "GridPaper could not hold": "C06", "GridPaper could not return": "C06",
    "GridPaper returned structured": "C06", "GridPaper.clear": "C06", "Sticky could not": "C09",
    "deleting a reserved": "C08", "GridPaper shared the raw": "C06",
    "a failed Tracker.dump": "T02", "unloading a never-loaded": "D01",
    "Dynamic.from_function": "D01", "a failed MetaTagIndex": "C08", "a MaybePool": "S07",
    "rmerge ignored": "S04", "get_from raised": "S05",
    "make_scraper raised": "R01", "check_and_drop": "V02",
    "downcast returned": "V03", "downcast to nullable": "V03", "exceptions returned by": "S07", "pools changed their": "S07", "downcast failed on floats": "V03", "downcast_df discarded": "V03",
    "extract_constants treated": "V01", "extract_constants failed": "V01", "extract_constants rounded": "V01",
    "extract_constants overlooked": "V01", "typed_columns returned": "V02", "squeeze lost": "V02", "squeeze failed": "V02",
    "unpack_column modified": "V02", "unique_to_records dropped": "V02", "unique_to_records and": "V02",
    "dupe_df_block changed": "V02", "make_scraper failed": "R01",
    "extract_constants returned": "V01", "sort_chunked did not": "M01",
    "sort_chunked dropped the largest": "M01", "sort_chunked passed": "M01",
    "sort_chunked dropped rows": "M01", "read_between and sort_chunked": "M01",
    "sort_chunked failed if no row": "M01", "row groups without": "M02",
    "metadata of equally large": "M02", "constants of complex": "V01", "chunked sorts by decimal": "M01", "uncopied shared arrays": "C06", "replacing a step": "P04",
    "reindexing a tracked": "P04", "digging for items": "S01", "an exception in one record": "S07", "disjoint returned": "F01",
}
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True,
    capture_output=True, check=True).stdout.splitlines()
fixed = []
for line in log:
    h, _, subject = line.partition(" ")
    if not subject.startswith("fix: "):
        continue
    what = subject[5:]
    prop = [p for k, p in FIXED.items() if what.startswith(k)]
    assert len(prop) == 1, subject
    fixed.append(f"fixed: property={prop[0]} {h} {what}")
path = ROOT / "known_findings.json"
old = json.loads(path.read_text()) if path.exists() else {"findings": []}
path.write_text(json.dumps({"findings": old["findings"], "fixed": fixed}, indent=1) + "\n")
print(len(fixed), "fixed;", len(old["findings"]), "open")
