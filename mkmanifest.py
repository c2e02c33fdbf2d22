"""Writes MANIFEST.json and known_findings.json (run by hand when the list of checks changes)."""
import json
PY = "/opt/venv/bin/python check.py "
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": ("fault_enumeration", T + "trainer on a simulated disk, seeded kill/power-loss/I/O-error placement in every storage operation, all checkpoints loaded afterwards",
         "Seeded search over crash and fault placements in sequences of trainer starts; a clean batch is evidence, not proof. Trusts the disk model (prefix of unsynced writes and of uncommitted name changes survive) and a small model in place of the four networks."),
 "C02": ("exploration", T + "histories of trainer starts, crashes and restarts on a simulated disk against a numbering and rotation oracle",
         "Seeded search over histories of starts of one to three models sharing a directory with misleading files; the last start is fault-free and must complete. Same trusted base as C01."),
 "C03": ("exploration", T + "seeded interleavings of several data loaders over simulated directories against an exactly-once multiset oracle",
         "Seeded search over directory contents, listing orders, batch sizes and call interleavings. A game's identity is what processing it alone gives."),
 "C04": ("exploration", T + "data loaders and whole training runs over damaged logs with injected I/O errors, removals and replacements",
         "Seeded search over kinds and places of damage and I/O faults. Logs with overwritten digits may be delivered as processing them alone says."),
 "C05": ("exploration", T + "twin training runs with and without usable validation games, compared step by step",
         "Seeded search; the twin comparison covers weights, losses, game order, mode and the random state at every training step. A small model stands in for the networks."),
 "C06": ("exploration", T + "trainer starts under clock jumps, same-second starts, kills and log write faults; log compared with what was reported",
         "Seeded search over clock behaviour and kill instants. Messages are the time-stamped lines on standard output."),
 "C07": ("exploration", T + "every weight update followed by an independent reference trainer through faults, restarts and 1000+ update runs",
         "Seeded search; reference AdamW in numpy at 1e-9. Updates beyond a few thousand per run (the tail of the cosine) are not reached."),
 "C08": ("fault_enumeration", T + "scraper against a simulated archive server, network and disk",
         "Seeded search over network faults, disk faults, kills and power losses; requests itself is a stand-in (it is not installed)."),
 "C09": ("fault_enumeration", T + "the bash script with every tool call behind a planned stand-in that fails, dies or kills the script",
         "Seeded search over file names and interruption points; real bash, rm and gunzip, run as an unprivileged user in a scratch directory."),
 "C10": ("exploration", T + "histories of processing calls with failing logs, injected allocation failures and interrupts, line-level thread interleavings",
         "Seeded search; results compared with those of a fresh process."),
 "C11": ("exploration", T + "seeded table simulator (four players, stacked walls) against an independent model of the table",
         "Seeded search over whole rounds; the reference model was checked against the two real logs of the repository."),
 "C12": ("exploration", T + "seeded table simulator against independently kept counts of unseen tiles", "As C11."),
 "C13": ("exploration", T + "seeded table simulator against an independent model of riichi, double riichi and ippatsu", "As C11."),
 "C14": ("exploration", T + "seeded table simulator against an independently decoded history and cut positions", "As C11."),
 "C15": ("exploration", T + "seeded table simulator against an independent generator of legal calls", "As C11."),
 "C16": ("exploration", T + "seeded table simulator against an independent win and furiten oracle",
         "As C11; the installed mahjong library decides whether a complete hand has a yaku."),
 "C17": ("exploration", T + "simulated games, batches in seeded order, every example compared with an independently computed one", "As C11."),
 "C18": ("exploration", T + "twin worlds that differ only in what a player cannot see, inputs compared", "As C11."),
 "C19": ("exploration", T + "simulated games with injected randomness seeds and subsampling through the real networks", "As C11; real networks on CPU."),
 "C22": ("exploration", T + "twin decisions of simulated games that differ in one presented fact, outputs of the real networks compared", "As C19; seeded random weights, four draws before an output is called blind."),
}
NA = {
 "C20": "Encoding and decoding a call is a pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour enters, so there is nothing to simulate. (The calls that occur in simulated games are checked under C14.)",
 "C21": "The stand-alone solver is a pure function of a hand, with no schedule, clock, I/O, fault or other party involved.",
}
FIXED = [
 ("C11", "8e4bd66", "states recorded for earlier turns changed with the later course of the round (shared arrays)"),
 ("C13", "33e0c1c", "after a kan the number of draws left was one too low"),
 ("C13", "4ab5f3d", "ippatsu ended at the declaring discard instead of at the player's next discard or a call"),
 ("C13", "4fae279", "a call did not end the first go-around, so a later riichi counted as double"),
 ("C12", "18f9089", "a revealed red-five indicator was not taken out of the unseen tiles"),
 ("C15", "481e980", "the added kan was offered for a tile that is not in hand, or not offered"),
 ("C15", "40e44ae", "possible chi, pon and open kan were missing from the offers or could not be matched"),
 ("C15", "60dbb1b", "calls were offered to players in riichi and on the last discard"),
 ("C15", "2608af7", "different calls shared one action index"),
 ("C14", "e2959de", "discard tokens carried the tag of calls"),
 ("C14", "40b1091", "the history shown to responders lacked the discard they respond to"),
 ("C16", "8a615e0", "wins were evaluated with a winning tile that is not part of the hand"),
 ("C16", "9e09d59", "wins of all players were evaluated with one seat wind"),
 ("C16", "d2096ab", "houtei and rinshan wins were not recognised"),
 ("C16", "f5ca930", "a win that was taken was not marked as executed"),
 ("C17", "33af85f", "draw-turn examples were labelled with an action that was not taken"),
 ("C18", "be9ecce", "responders were shown the discarder's private view"),
 ("C01", "b1e51f4", "a kill or full disk during a save left a torn checkpoint under its final name"),
 ("C06", "89ab947", "a run started in the same second truncated the earlier run's log"),
 ("C04", "be8c6b9", "a bad log ended the pass or delivered an empty batch"),
 ("C05", "f692348", "an empty validation set ended the training run"),
 ("C09", "88f7d60", "after an interrupted extraction the archive was never extracted again"),
 ("C08", "04adc31", "a failed download ended the run or left a partial log under its final name"),
 ("C01", "e2f6471", "a checkpoint reported as saved could vanish after a power loss"),
 ("C02", "5db63f0", "files such as model_x_checkpoint_iter_7.pt.bak.pt were taken for checkpoints"),
 ("C02", "95fc844", "an unreadable checkpoint directory made training start over at iteration 0"),
 ("C04", "2bc606f", "a damaged log whose name or error the console cannot print ended the pass"),
 ("C22", "d576f42", "event masks of three agents were inverted: discarded tiles, calls and players did not reach the network"),
]
if __name__ == "__main__":
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import torch, numpy, mahjong\"",
         "checks": [{"property": p, "quick_cmd": PY + p, "thorough_cmd": "VERIF_TIER=thorough " + PY + p, "technique": t,
                     "level": l, "level_note": n} for p, (l, t, n) in sorted(CHECKS.items())],
         "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
         "notes": "No hooks in /repo: Python's own seams (open, os, time, sys.modules, PATH) are patched from outside by the simulator."}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    json.dump({"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
              open("known_findings.json", "w"), indent=1)
