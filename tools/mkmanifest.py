#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]

TV = "TLA+ specification model-checked with TLC; its behaviours replayed into the real code, whose recorded traces TLC validates against it (%s)"
KDF = " The key derivation is replaced by a cheap function of the same inputs."
APP = " Terminal line editor and clipboard are recording stand-ins; the files are read by an independent codec." + KDF
C = {
 "C01": (TV % "TxLog, TxLogImpl, TxLogTrace", "Exhaustive design check for 2 entries, 1 key, 1 value, logs of up to 5 (6) changes; every transition of a smaller graph and hundreds (thousands) of random histories run on package txlogs. Bounded, hence not a proof of the code."),
 "C02": (TV % "TxLog, TxLogImpl, TxLogTrace, Session", "As C01, with transactions abandoned at every point, and add/addsync abandoned at every prompt in the program." + APP),
 "C03": (TV % "TxLog, TxLogTrace, Session", "As C01, with all queries of the past on random histories, and show <n> in the program." + APP),
 "C04": (TV % "Merge, Replicas, MergeTrace", "Exhaustive for small replica sets; thousands of pairs of histories with equal and skewed clocks merged by the real package, every one judged by TLC."),
 "C05": (TV % "Merge, Replicas, MergeTrace", "As C04; merges in both directions, repeated, and of three copies in every order."),
 "C06": (TV % "Merge, Replicas, MergeTrace", "As C04, with conflicts and every sequence of answers up to a length."),
 "C07": (TV % "Crypt, CryptModel, CryptTrace, KeyTrace", "Symbolic design check for two files and one alteration; files of every length up to 200 (1200), up to 40 (300) users, odd names and passphrases, made and read by the code and by an independent implementation of the format; files written by the original release; some runs with the real key derivation, the others with a cheap function of the same inputs."),
 "C08": (TV % "Crypt, CryptModel, CryptTrace", "Every byte of several files altered, every truncation, odd headers, near-miss credentials, remembered keys, behaviours of the cut-and-paste model; the program run on a sample of them." + KDF),
 "C09": (TV % "KeyMgmt, KeyModel, KeyTrace", "Exhaustive for 2 names, 1 passphrase besides the first, 2 sessions' worth of commands; hundreds (thousands) of histories of several sessions replayed, the saved file opened with every combination of every name and passphrase seen." + APP),
 "C10": (TV % "Durable, DurableModel, DurableTrace", "Every system call of real runs that changes files is traced; TLC goes through every state that a crash may leave behind after each of them, in a file system where names are ordered and contents are only sure when synced. Every operation is also made to fail, cut short or be the last, and signals are sent at random moments; nothing is known of file systems weaker than that." + APP),
 "C11": (TV % "Session, SessionModel, SessionTrace", "Sessions opened at moments before, between, at and after changes; every command judged." + APP),
 "C12": (TV % "Session, SessionModel, SessionTrace, BlobTrace", "Sessions and package calls on histories with and without duplicate names." + APP),
 "C13": (TV % "Session, SessionModel, SessionTrace, BlobTrace", "Sessions and package calls with protected keys in all spellings and odd values." + APP),
 "C14": (TV % "Session, SessionModel, SessionTrace, BlobTrace", "Sessions and package calls over label lists." + APP),
 "C15": (TV % "Session, SessionModel, SessionTrace, BlobTrace, FuzzyTrace", "Sessions, package searches and raw matches; of text that is not valid UTF-8 only termination, reflexivity and the empty query are judged." + APP),
 "C16": (TV % "Sync, SyncModel, SyncTrace", "Devices with file:// and scp:// remotes in every state (there, not there, unreadable, garbage, truncated, of another file, broken, empty, a link, not writable, not reachable), sessions that sync automatically, by command and by name, on leaving, with answers of every kind; histories of SyncModel with syncs cut short replayed on the real program." + APP),
 "C17": (TV % "Sync, SyncModel, SyncTrace", "Single and multi-user copies with changed passphrases, salts, users and master keys on either side; what opens the files is found out by an independent implementation of the format, trying every user with every passphrase." + APP),
 "C18": (TV % "HostKeys, HostModel, HostTrace", "Exhaustive for an entry moved between 2 hosts with 3 keys, keys changing between and within 4 (5) syncs; hundreds (thousands) of histories of the model and random ones, with every kind of line recorded, of the real program against ssh servers that show the keys asked of them and watch what they are sent." + APP),
 "C19": (TV % "Scp, ScpModel, ScpTrace", "Exhaustive for every message of 12 kinds followed by 4 (6) bytes of 3 kinds, every answer and every end; histories of the model, random deviations and real scp processes against Recv and Send, contents to 3 MB."),
 "C20": (TV % "Passwords, PasswordsModel, PasswordsTrace", "The construction is shown to make exactly the passwords that meet the request, for all small requests over small alphabets; hundreds (thousands) of dialogues with the real gen command, every combination of settings around what is feasible, and tens of thousands of passwords for the same request, in which everything possible must occur (chance of a false alarm below 1e-9)."),
 "C21": (TV % "Transfer, TransferModel, TransferTrace", "Exhaustive for up to 3 (4) rows over clashing names and every small file; hundreds (thousands) of imports from a scripted lpass, well formed and broken in every way the format can be, and of exports, read back by another csv implementation." + APP),
 "C22": (TV % "EditTmp, Session, SessionTrace", "Sessions with an observing editor that ends in every way; the file it was given is watched through open descriptors." + APP),
 "C23": (TV % "Session, SessionModel, SessionTrace", "Sessions over the whole command set, every command judged for everything that can be observed of it." + APP),
 "C24": (TV % "Session, SessionModel, SessionTrace", "Sessions with copies and logins, every way of ending, both settings. The clipboard is a recording stand-in." + KDF),
 "C25": (TV % "Pinentry, PinentryModel, PinentryTrace", "All dialogues with up to 5 settings and one unexpected answer or end in any place; every one, and many payloads, replayed by a scripted pinentry program against the package and the program."),
 "C26": (TV % "SyncEntry, SyncEntryModel, SyncEntryTrace", "Exhaustive for every dialogue of up to 7 (8) answers over texts of separators and escapes, and for two entries over smaller ones; hundreds (thousands) of wizards of the real program with odd answers in every place, and syncs of what they made and of entries made by hand, with ssh servers and files that show where they led. How a shell at the remote takes a path apart is not judged." + APP),
 "C27": (TV % "Invoke, InvokeModel, InvokeTrace", "Exhaustive for every single run over a small world of files; hundreds (thousands) of histories of five runs of the model replayed on the real program, with every spelling of names and flags, every state of the files compared after each." + APP),
}
try:
    exec(open(os.path.join(here, "tools", "claims.py")).read())
except FileNotFoundError:
    pass
LEVEL = globals().get("LEVEL", {})
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i, "technique": C[i][0],
                 "level": LEVEL.get(i, "model_checking"), "level_note": C[i][1]} for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in C]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
