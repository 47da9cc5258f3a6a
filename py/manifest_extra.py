"""Checks besides the trace validation of scripts: id -> (technique, level, note)."""
EXTRA = {
    "C05": ("TLA+ specification checked with TLC; recorded concurrent histories of the real library must be linearizable with respect to it",
            "model_checking",
            "Threads of the real library run random operations at the same time; TLC searches, with the actions of PoloDB.tla, for a linearization of each recorded history that respects real-time order and every result. Holds for the explored histories and the schedules the machine produced. Trusts TLC, the specification and the recording harness (public API only)."),
    "C21": ("TLA+ specification checked with TLC; results of the real function validated against it",
            "model_checking",
            "LineDiff.tla defines correct and minimal edit scripts; TLC proves the specification's own function right for all small texts, and judges the output of the real function for all small and many larger random texts."),
}
for _p, _what in (("C17", "the CRUD commands and many malformed ones"), ("C18", "server cursors with small batches"), ("C19", "several sessions with transactions")):
    EXTRA[_p] = ("TLA+ specification checked with TLC; conversations with the real server validated against it",
                 "model_checking",
                 "Random scripts of wire messages from several connections (%s) are sent to the real server binary; every reply, and the database it leaves behind when it is killed, must be explained by Server.tla, which extends PoloDB.tla by sessions, server cursors and commands of several statements. Holds for the explored scripts. Trusts TLC, the specification and the recording client." % _what)
EXTRA["C22"] = ("TLA+ specification checked with TLC; conversations with the real server, damaged messages among them, validated against it",
                "model_checking",
                "Random scripts of wire messages, about half of them damaged (cut, flags, lengths, kinds, bytes, compression headers, deep nesting) or sent while the server has no file descriptors left. Wire.tla decides from the bytes what is to happen with each of them: carried out, refused, or one of both; the rest of the conversation and the database left behind must then be explained by Server.tla. A damaged message that is another well-formed command ends the judgement of its script, except that the server must go on. Holds for the explored scripts. Trusts TLC, the specification and the recording client.")
EXTRA["C01"] = ("TLA+ specification checked with TLC; what is found after simulated crashes of the real library validated against it",
                "model_checking",
                "Random scripts run in a process whose file operations are recorded by a preloaded library; the files are rebuilt as a killed process or a power failure (unsynced contents and directory entries lost, or torn) can leave them at a chosen record, several times in a row, and the database is opened on them. Every result before and after must be a behaviour of PoloDB.tla with its action Crash: everything acknowledged is there, what was in progress is there completely or not at all. Holds for the explored scripts and crash points. Trusts TLC, the specification, the shim and its model of a disk.")

EXTRA["C20"] = ("TLA+ specification checked with TLC; calls of the real Python binding validated against it",
                "model_checking",
                "Random scripts of which a first part runs in the library, the rest through the Python binding (built from the working tree), and a last dump in the library again, on one database. Every result of the binding, and every exception, must be explained by PyTrace.tla: the calls of PoloDB.tla seen through what Python shows of a value. Holds for the explored scripts. Trusts TLC, the specification and the recording driver.")
HIST = " In addition TLC explores small models (MCPoloDB.tla: %s) exhaustively, checking their invariants and that flawed variants are refuted; histories of these models are replayed in the library and validated as well."
