"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, pathlib

home = pathlib.Path(__file__).resolve().parent.parent
T = {
    "C01": "conservation monitor over recorded output files, across randomised hostile forcing",
    "C02": "invariant monitor (finite, non-negative, bounded) over output files against forcing files",
    "C03": "online comparison of every output with an independent reference model",
    "C04": "reachability monitor: support of each step's output against graph distance and donor side",
    "C05": "metamorphic monitor over pairs of runs (mirrored, shifted, scaled)",
    "C06": "metamorphic monitor over groups of runs (unions, scaled masks), caps observed inactive",
    "C07": "exact accounting of tagged moisture in output files against forcing records and mask",
    "C08": "forcing that identifies its record: outputs decoded and compared with the interpolation",
    "C09": "monitor of the output folder against the schedule computed from the configuration",
    "C10": "offline comparison of pairs of runs with different output frequency",
    "C11": "stop and restart at every output time, offline comparison with the uninterrupted run",
    "C12": "offline comparison of subdomain runs with runs on input cut independently",
    "C13": "relabelled input in nine calendars, offline comparison of results and dates",
    "C14": "monitor of accepted, exported, assigned and refused configurations",
    "C15": "independent column integration of raw input compared with preprocessed files",
    "C16": "surface water balance monitor over raw input and preprocessed files of three sources",
    "C17": "layout, completeness and location monitor over preprocessed files; sequential against parallel schedules",
    "C18": "fault injection (damaged, missing, transiently unreadable input), monitor of exit and outputs",
    "C19": "history monitor: repeated and interleaved runs in one process, checksums of inputs",
    "C20": "log monitor: reported percentages and warnings against totals recomputed from output files",
    "C21": "exact polygon clipping as oracle for recorded masks and tagged amounts",
    "C22": "loopback server with injected faults, monitor of the target directory and exit",
    "C23": "monitor of warnings on data with single injected defects and defect-free data",
    "C24": "monitor of folders, log and embedded configuration; the embedded configuration is run again",
    "C25": "values captured from the saved figure compared with sums over input and output files",
    "C26": "mask files compared cell by cell with an independent point-in-region computation, and with the moisture a run tags with them",
    "C27": "fault injection (kill, failing writes, leftover files) at every opening of a result file, offline comparison with the undisturbed run",
    "C28": "independent column integration and simulation of the whole chain compared with output files and figures",
    "C29": "traced allocations and open files of the real commands, compared between a short and a several times longer run",
    "C30": "real download scripts against a recording stand-in for the data service with injected failures, interruptions and kills; offline checks of requests and files",
    "C31": "attributes of all files written by the real commands compared with what was run, when, with which version and on which input",
}
NOTE = (
    "Held on the executions recorded in the evidence file (randomised from VERIF_SEED), not for all inputs. "
    "Trusts numpy, netCDF4 and cftime, the synthetic input writer and the oracle in wamcheck; runs the real command line code."
)
LEVEL = {"C27": "fault_enumeration", "C18": "fault_enumeration", "C22": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for pid, tech in T.items():
    if (home / "wamcheck" / "props" / f"{pid.lower()}.py").exists():
        m["checks"].append({
            "property": pid, "quick_cmd": f"./run.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
            "technique": tech, "level": LEVEL.get(pid, "exploration"), "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": pid, "reason": "no monitor built yet"})
m["notes"] = "No hooks in /repo: everything is observed at the command line, in files, logs and captured calls. Repairs of genuine defects are 'fix:' commits, see KNOWN_FINDINGS.txt."
(home / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")
