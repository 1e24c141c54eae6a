#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property list, kept readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "What is shown is exactly the replay of the recorded history",
     """At any moment, after any mix of adding, setting and deleting entries and keys, transactions, undoing changes, and
     saving and reading back, the view of the entries equals the recorded changes applied in order from the start, however
     much of it had been computed before. Every change is recorded once, in order, as it was asked for and stamped with the
     time it was made. A history that cannot be applied (an entry added twice, a change to an entry that does not exist) is
     reported as an error.""",
     "histories inputs", "every history of operations, every moment at which the view is brought up to date, every key and value",
     """The tests apply a handful of fixed histories and look at the view once at the end; the defect that was found
     (a stale view after rolling back) needs the view to be computed at a particular moment in between.""",
     "txlogs/txlogs.go txlogs/tx.go", [("UpdateSnapshot", "txlogs/txlogs.go"), ("applySnapshot", "txlogs/txlogs.go"), ("NewLog/Save", "txlogs/txlogs.go")],
     [("Log", "the recorded changes", "txlogs.DB"), ("Snapshot, Version", "the cached view and how much of the log it covers", "txlogs.DB")],
     ["exported API of txlogs", "dumpall in a session"])

prop("C02", "Transactions and undo are all or nothing",
     """After a transaction is rolled back, or an interactive add or addsync is abandoned at any of its prompts, the history
     and the view are exactly what they were when it began; after a commit every change made in it is kept, once and in order.
     Undoing the last n changes removes exactly those n and is refused, changing nothing, if there are fewer. A transaction
     cannot be begun inside another one, nor ended or saved when that is not possible, and refusing changes nothing.""",
     "histories crash_points", "every history, every point at which a transaction is abandoned, every state the cached view is in",
     """The tests roll back one transaction over one untouched view; the number of applied changes, the view's progress
     and the prompt at which a user gives up are what matters.""",
     "txlogs/txlogs.go commands.go", [("Begin/Commit/Rollback/Do/RollbackN", "txlogs/txlogs.go"), ("addNew, addSync", "commands.go")],
     [("txPoint", "where the open transaction began", "txlogs.DB")], ["exported API of txlogs", "dumpall in a session"])

prop("C03", "Past versions answer for every point of the history",
     """Looking n changes back, at the whole file or at one entry, yields exactly what the changes before those last n
     produce; the number of versions of an entry is the number of changes made to it and its last-updated moment is that of
     the one recorded last. A point that does not exist (too far back, negative, before the entry existed, or where it was deleted) is an
     error and never a crash or a wrong answer. Looking never changes the history or the present view.""",
     "histories inputs", "every history, every entry, every number of versions back, including nonsensical ones",
     "The tests ask for two snapshots of one history; bounds, deletions and foreign changes in between are not covered.",
     "txlogs/txlogs.go commands.go", [("SnapshotAt, EntrySnapshotAt, NVersions, LastUpdated", "txlogs/txlogs.go"), ("show", "commands.go")],
     (), ["exported API of txlogs", "show <query> <snapshot>"])

prop("C04", "Merging two copies loses, invents and duplicates nothing",
     """When two copies of a file that grew apart are merged without conflict, the result holds every change of both copies
     exactly once and nothing else, keeps the order each copy had them in, and can be replayed. Between changes of different
     copies the earlier one comes first. The copies themselves are not altered by merging.""",
     "histories schedules", """every pair of histories with a common beginning, whatever the clocks of the devices did
     (equal, skewed or backward timestamps), with copies exchanged in any order""",
     "The tests merge a few hand-written logs with distinct increasing timestamps.",
     "txlogs/txlogs.go merging.go sync.go", [("Merge", "txlogs/txlogs.go"), ("mergeLogs", "merging.go")],
     (), ["exported API of txlogs", "files after a sync"])

prop("C05", "Copies converge whoever syncs first",
     """Merging gives the same history whichever of two copies it is done on, merging again or with an older copy changes
     nothing, and three copies end up the same in whatever order they meet, as long as there is no conflict. Copies which
     agree are recognised as such.""",
     "histories schedules", "every set of copies, every order in which they meet, clocks included",
     "No test merges in both directions or more than once; equal timestamps decide it.",
     "txlogs/txlogs.go merging.go sync.go", [("Merge, Tx.before, SameLog", "txlogs/txlogs.go")], (),
     ["exported API of txlogs", "files after a sync"])

prop("C06", "Conflicts are reported and resolved as decided",
     """A change made to an entry after it was deleted in the other copy, and copies that share no beginning, are always
     reported and never merged silently, and nothing else is reported. Restoring drops the deletion and keeps the changes;
     deleting keeps the deletion and drops the later changes of that entry only; merging unrelated files happens only when
     confirmed. Answering the questions always ends them, every conflict having been put to the user, and giving up leaves
     the file as it was.""",
     "histories inputs", "every pair of copies, every number and overlap of conflicts, every sequence of answers",
     "The tests resolve one conflict in one log; several deletions, several rounds and the interactive prompt are not run.",
     "txlogs/txlogs.go merging.go", [("Merge with conflicts, Conflict", "txlogs/txlogs.go"), ("mergeLogs prompts", "merging.go")], (),
     ["exported API of txlogs", "prompts of a sync"])

prop("C07", "Encrypted files read back exactly, and old files stay readable",
     """Whatever is saved is read back byte for byte with the right credentials of any of the file's users, for any contents,
     passphrases and user names. Files keep the published version 1 format, in both directions: files written by earlier
     releases open, and those written now are what an independent implementation of the format expects. Every new passphrase
     gets a fresh salt, and every save of a single-user file a fresh initialisation vector.""",
     "inputs configurations", "every plaintext (length and content), passphrase, user name, number of users and which of them opens it",
     "The tests encrypt a few short texts and read them back with the same code, so a change of format on both sides passes.",
     "crypt/crypto.go crypt/crypto_v1.go crypt/params.go pkcs7/pad.go", [("Encrypt, Decrypt", "crypt/crypto.go"), ("encryptV1*, decryptV1*", "crypt/crypto_v1.go"), ("Pad, Unpad", "pkcs7/pad.go")], (),
     ["exported API of crypt and pkcs7", "saved files"])

prop("C08", "Wrong credentials and damaged files are refused",
     """Opening with a wrong passphrase, a wrong or missing user, or a file that has been altered in any byte, cut short,
     extended or replaced by something else, fails with an error; it never yields data and never crashes. A key remembered
     from another file or an earlier salt is never accepted in place of the passphrase. A missing user name is asked for
     rather than treated as a wrong passphrase, and an unknown one is not told apart from a wrong passphrase.""",
     "inputs fault_sequences", "every file, every byte that can change, every truncation and garbage, every wrong credential",
     "One corrupted byte and one wrong passphrase are tried; headers, lengths, user tables and truncations are not.",
     "crypt/crypto.go crypt/crypto_v1.go pkcs7/pad.go main.go", [("decryptV1Single/Multi", "crypt/crypto_v1.go"), ("verifyMagic, IsMultiUser", "crypt/crypto.go")], (),
     ["exported API of crypt", "opening files with the program"])

prop("C09", "Managing users never locks anybody out, nor lets anybody back in",
     """After any sequence of adduser, passwd, rekey, rekeyall, renaming and deleting users, each followed by saving or not,
     the saved file opens with exactly the current credentials of each of its users: the last passphrase saved for them under
     their present name, and neither older passphrases nor removed users. Contents are the same whoever opens it. Commands
     that name an unknown user of a multi-user file, give an empty passphrase or would delete oneself among other users are
     refused and change nothing.""",
     "histories", "every sequence of user management commands by any of the users over several sessions, saved or abandoned",
     "No test runs these commands at all; the second session is where a lost key shows.",
     "commands.go uicontext.go crypt/crypto_v1.go blobformat/blobs.go", [("passwd, adduser, rekey, rekeyAll, rename, deleteEntry", "commands.go"), ("makeParams", "uicontext.go")],
     [("user, pass, key, salt, master, ivm", "credentials of the session", "uiContext")], ["opening saved files as every user"])

prop("C10", "Saving never destroys the file and never fails silently",
     """Whenever the program or machine stops while saving, or writing fails, the file holds either the complete old or the
     complete new contents, and can be opened. Leaving with exit, or end of input at the command prompt, saves every change; an interrupt leaves the
     file untouched. The exit status is zero only if what was asked for has been done, a failed open, save, import or export
     gives a message and a non-zero status.""",
     "crash_points fault_sequences", "every point of the save at which it can stop or fail, every way a session ends, existing, new and linked files",
     "No test saves a file; crashes and full disks cannot be sampled by unit tests.",
     "main.go", [("saveBlob, writeFile", "main.go"), ("main", "main.go")], (), ["system calls of the program", "the file and the exit status"])

prop("C11", "Looking at the past is faithful and read-only",
     """Opened at a time in the past the file shows exactly the entries as of that moment: everything up to and including it,
     nothing later. No command changes anything in that mode; those that write are refused. However the session ends, the file
     stays byte for byte the same, and no remote is contacted for writing.""",
     "histories inputs", "every history, every moment (before, between, at and after changes), every command",
     "No test opens a file at a time.", "main.go cli.go repl.go", [("loadBlob", "main.go"), ("readOnly", "repl.go")],
     [("readOnly", "session mode", "uiContext")], ["sessions with --time"])

prop("C12", "Names stay unique and lead to their entry",
     """No command creates or renames an entry such that two share a name: add and mv are refused then and change nothing,
     and addsync, adduser and import choose or refuse accordingly. Renaming duplicates leaves every name unique, keeps one
     entry under each old name, touches only the duplicates and reports what it did. Renaming keeps the entry, its keys and
     its history.""",
     "histories inputs", "every set of names (including prefixes, suffixed with 1s, slashes, unicode) and sequence of commands",
     "No test covers names at all.", "blobformat/blobs.go commands.go import.go", [("New, Rename, NewSync, NewUser, RenameDuplicates", "blobformat/blobs.go")], (),
     ["exported API of blobformat", "sessions"])

prop("C13", "Values are stored verbatim, protected keys only by their owners",
     """A value that is set is stored, shown and copied exactly as it was entered, for any text, and concerns only that key of
     that entry; every such change also updates the entry's time of last update. Key material, the name and the update
     time of an entry cannot be set or deleted by the general commands in any spelling, two-factor secrets only through
     checking them, and urls only with a scheme; a refusal changes nothing and does not claim otherwise.""",
     "inputs histories", "every key (any capitalisation) and value, on user, sync and ordinary entries, by every command that writes",
     "No test covers set, rmk or edit.", "blobformat/blobs.go commands.go repl.go", [("Set, DeleteKey, SetTwofactor", "blobformat/blobs.go"), ("set, edit, deleteKey", "commands.go")], (),
     ["exported API of blobformat", "sessions"])

prop("C14", "Labels are added, removed and found one by one",
     """Adding a label adds that label at the end and keeps the others in order, removing a label removes that one and no
     other, and removing the last one leaves none. Labels with spaces or capitals and those already present are refused.
     Listing by labels finds exactly the entries that have all the given labels, however often and in whatever order they are
     given.""",
     "inputs histories", "every list of labels on every set of entries, every query", "No test covers labels.",
     "blobformat/blobs.go commands.go", [("AddLabel, RemoveLabel, SearchLabels", "blobformat/blobs.go"), ("addLabels, deleteLabel, validateLabel", "commands.go")], (),
     ["exported API of blobformat", "sessions"])

prop("C15", "Searching finds exactly what matches, and commands use only that",
     """A query finds an entry exactly if the query's letters occur in its name in order, lowercase letters standing for both
     cases; with slashes every part must match the part of the name at the same place. A command that works on one entry uses
     the only match, or else the entry whose name equals the query, and otherwise none, saying so. Listing shows every match
     once, sorted, and no text makes searching crash.""",
     "inputs", "every name and query, including empty parts, unicode, and text that is not valid UTF-8",
     "The tests sample a dozen ASCII patterns.", "fuzzy/fuzzy.go blobformat/blobs.go uihelpers.go commands.go", [("Match", "fuzzy/fuzzy.go"), ("Search", "blobformat/blobs.go"), ("findOne", "uihelpers.go")], (),
     ["exported API of fuzzy and blobformat", "sessions"])

prop("C16", "Syncing brings every reachable copy together and damages none",
     """After a sync without conflicts the local file and every remote that could be read hold the same merged history, which
     includes all changes of all of them. A remote that cannot be reached, decrypted or understood, and a broken history, never
     get into the local file, are never overwritten, and do not keep the others from being synced; a failed push never
     destroys what was there. A remote that does not exist yet is created, and nothing is written to one that already has
     everything.""",
     "histories fault_sequences configurations", "every number and kind of remotes, every way each of them can fail or differ, over repeated syncs from several devices",
     "No test syncs.", "sync.go merging.go scpsync/scpsync.go", [("sync, pullBlob, pushBlob", "sync.go"), ("mergeBlobs", "merging.go")], (),
     ["local and remote files after a sync"])

prop("C17", "Syncing leaves everybody with working credentials",
     """After a sync the local file can be opened by the person who did it, with the passphrase that file or the remote had,
     and holds what was merged; the same file is what the remotes get. Where passphrases differ, the side with the later
     changes wins and if there is none the user is asked; a change between single and multi-user follows the merged users, and
     a new master key the merged history. Asking for a remote's credentials never changes one's own unless they are taken
     over.""",
     "histories configurations", "every combination of single and multi-user copies, changed passphrases, users and master keys on both sides",
     "No test syncs.", "merging.go sync.go", [("mergeBlobs", "merging.go"), ("decryptBlob", "sync.go")], (), ["opening local and remote files after a sync"])

prop("C18", "Nothing is sent to a host that is not known or confirmed",
     """Syncing over ssh talks to a host only if its key is the one recorded for it, or the user confirmed the key shown; a
     changed key or key type, a malformed record or any other answer ends the connection before credentials or data are sent.
     A confirmed key is recorded with the entry, next to those already there, and is then not asked for again.""",
     "inputs histories fault_sequences", "every list of known hosts, every key and type a host presents, every answer, repeated syncs",
     "No test has an ssh server.", "sync.go", [("hostAsker.callback, saveHosts", "sync.go")], (), ["a scripted ssh server", "prompts"])

prop("C19", "File transfer is exact or fails",
     """A file received over scp is accepted only if the whole announced contents and the end marker arrived and the other side
     ended without an error, and then it is byte for byte what was sent; a file is reported as sent only if the other side
     acknowledged it and ended without an error, and the bytes it got are exact. Any other message, length, status or early
     end is an error, never a crash; a missing file is recognised as such.""",
     "inputs fault_sequences", "every file content, every message or deviation of the other side at every point of the protocol",
     "The tests run one transfer in each direction and three malformed messages.",
     "scpsync/scpsync.go", [("Recv, Send, readFile, sendFile, readResponse", "scpsync/scpsync.go")], (), ["a scripted ssh server"])

prop("C20", "Generated passwords meet what was asked for",
     """A generated password has exactly the requested length, at least the requested number of characters of each kind, none
     of a kind that was switched off, and nothing but the documented characters, any of which can occur anywhere. What cannot be met is refused, and no request
     crashes the program. The password accepted is the one that was last shown, or, when entered by hand, the one typed twice.""",
     "inputs", "every length and combination of requirements, every sequence of answers at the prompt",
     "The tests check four settings.", "passwd_gen.go uihelpers.go", [("genPassword", "passwd_gen.go"), ("getPassword", "uihelpers.go")], (), ["the gen command", "the clipboard"])

prop("C21", "Import and export carry everything over",
     """Export writes a header of all keys in use and one row per entry with each of its values exactly, readable by nobody
     else. Import makes one entry of every row with every value of it, under its name in lowercase with underscores, made
     unique if necessary, and changes no existing entry; it asks before adding to an existing file. Anything that is not
     recognised or incomplete is an error and leaves the file as it was.""",
     "inputs", "every set of entries and every csv of the importer, including quotes, commas, newlines, missing columns, repeated names",
     "No test imports or exports.", "import.go export.go", [("importLastpass", "import.go"), ("export", "export.go")], (), ["exported csv, saved file"])

prop("C22", "Editing leaves no trace behind and stores what was written",
     """While a value is edited it is in a file that only its owner can read, and afterwards, however the editor ended, that
     file's contents are overwritten and it is gone. The new value is stored exactly if the editor succeeded, removing all the
     text removes the key, and otherwise nothing changes. The session goes on in every case.""",
     "inputs fault_sequences", "every value, every edit (longer, shorter, empty, replaced file), every way an editor can end",
     "No test edits.", "commands.go osutil/osutil_linux.go", [("edit", "commands.go"), ("RunEditor", "osutil/osutil_linux.go")], (), ["an observing editor"])

prop("C23", "Commands act on the entry they name and on nothing else",
     """Every command changes exactly the entry and key it names, or the one that was cd'ed into, and reading commands change
     nothing. Leaving out the query is only possible after cd, which follows its entry when it is renamed and ends when it is
     deleted; deleting an entry needs its name typed in full. Unknown commands, missing arguments and ambiguous queries do
     nothing but say so, and no input ends or crashes a session other than exit, end of input and interrupt.""",
     "inputs histories", "every sequence of commands and arguments, inside and outside of an entry, answers to their prompts included",
     "No test runs a session.", "repl.go commands.go", [("replCmds, run", "repl.go"), ("commands", "commands.go")], [("ctxEntry", "the entry that was cd'ed into", "repl")], ["sessions"])

prop("C24", "Secrets reach the clipboard only as asked, and are cleared",
     """Copying puts exactly the asked-for value on the clipboard, nothing else does, and where there is no such value nothing is
     copied. login copies user, email, password and
     code, those that are set, one after another in this order, each after a key press. However a session with a file ends other than
     by being killed, it clears the clipboard unless told not to.""",
     "histories inputs", "every sequence of copies, every way a session ends, both settings",
     "No test uses the clipboard.", "commands.go main.go", [("copyToClipboard, login, get", "commands.go"), ("main", "main.go")], (), ["a recording clipboard"])

prop("C25", "The pinentry dialogue yields the passphrase or an error",
     """The passphrase that is used is exactly the one entered in the pinentry program, with its escapes decoded once. Anything
     but the expected answers, at any point of the dialogue, is an error and never a partial passphrase; cancelling yields an
     empty one. With PINENTRY set to none the terminal is asked instead.""",
     "inputs fault_sequences", "every passphrase (percent signs, carriage returns, newlines, unicode), every deviation at every step of the dialogue",
     "No test runs a pinentry.", "pinentry/pinentry.go uihelpers.go", [("Password", "pinentry/pinentry.go")], (), ["a scripted pinentry"])

prop("C26", "A sync entry leads to exactly the place it was made for",
     """Syncing an entry goes to exactly the file, or the user, host, port and path, that its url names or that was entered when
     addsync made it, with its password or key, and nowhere else. addsync asks again for what cannot be a port or is left empty,
     stores the password entered or a fresh key pair whose public half it shows, and leaves nothing behind when it is
     abandoned.""",
     "inputs histories", "every user, host, port, path and password (separators, escapes, spaces, unicode, absolute and relative), every point at which the wizard is abandoned",
     "No test runs addsync or a sync.", "commands.go sync.go uihelpers.go", [("addSync, addSCPEntry", "commands.go"), ("sshConfig, pullBlob, pushBlob", "sync.go")],
     [("url, privkey, pubkey, sync", "keys of the sync entry", "the file")], ["sessions", "ssh servers and files of the remotes"])

prop("C27", "A run works on the file it was told to, and on nothing else",
     """A run works on the file named by -f, else by $BPASS, else .bpass in the home directory (in the current one without HOME);
     relative names count from the current directory and links are followed. What is not a file of this program, or is not opened
     by what was entered, ends the run with a non-zero status and everything as it was, and a new file only comes of one non-empty
     passphrase entered twice in a run that neither fails nor is interrupted. With -t, and for version, help and gen, no file of the program
     changes; a -t that is not a moment is an error.""",
     "inputs histories", "every combination of flags, environment and commands, every state of the files, every answer before the session, runs one after the other",
     "No test runs the program.", "cli.go main.go import.go export.go", [("parseCli", "cli.go"), ("loadBlob, saveBlob", "main.go")],
     [("flagFile, created, readOnly", "what the run was told and found", "cli.go, main.go")], ["the files", "prompts", "exit status"])

ids = set(os.environ.get("ONLY", "").split()) or {p["id"] for p in P}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in ids:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
