#!/usr/bin/env python3
"""Writes known-findings.json: defects that were found and repaired (and, if there were any, findings left as they are)."""
import json, os
FIXED = """
C01/C02 07121b3 a transaction with one applied change left its effects in the view when it was rolled back
C02 c72d67c a transaction begun inside another moved the point the outer one rolls back to
C03 bb03cec asking for a negative number of versions ago crashed
C01 1cf33dc a store holding null crashed when its log was read
C04 15a62f2 merging two empty logs crashed
C05 eb61943 merging with equal timestamps depended on the side and could tear transactions apart
C06 82c9c4b merge blamed the wrong deletion for a conflict and resolved another one
C04 439fbc7 merge took the same transaction twice
C06 02e3b4e the conflict prompt of sync asked again for ever
C09 325f729 rekeyall encrypted the old master key for the users
C09 4328b47 passwd and rekey of another user changed one's own key, unknown users were accepted
C09 4a88108 adduser accepted an empty passphrase nobody can log in with
C09 fcc5195 an entry whose name merely contains user/ was a user
C09 ad0edab deleting the last user left the session with a user who does not exist
C09 3ef7533 a multi-user file with an entry renamed to user/... could not be saved
C09 e342e07 renaming one's own user entry made every later save fail
C09 57ecc4e keys of an old master key made users who cannot open the file, the first of them locking all out
C14 41dadeb removing a label removed all the others instead
C14 e30d6aa a label given twice in a query found nothing
C12 684c8f6 RenameDuplicates gave two duplicates the same new name
C12 6437cc1 RenameDuplicates never renamed, being refused to set the name
C12 92402d9 RenameDuplicates took names that were in use
C13 509d41a a user's key material could be deleted with rmk and edit
C13 82173f7 set and edit said a key was set which was not
C22 02be571 the temporary file of edit stayed behind when the editor failed
C22 55776ea edit offered a truncated value for editing
C20 31cccff password generation crashed on unusual lengths
C20 8a14c54 an empty password could be accepted when none could be generated
C21 130c14b export wrote an empty snapshot
C21 fd7233a the exported plain text was readable by everybody
C21 132f91f the header of the lastpass export was imported as an entry
C10 5d3325c the exit status was zero after failures
C08 72f937f decrypting damaged files or with wrong credentials crashed
C08 0d0d856 an unknown user was treated as the first one
C10 889c332 a failed or interrupted save destroyed the file
C16 dafb37a a failed or interrupted push destroyed the remote file
C16 e038a11 sync compared logs by their last change and crashed on empty ones
C16 609ac9d sync did not push what another remote had to remotes without changes of their own
C16 2e9ae10 a broken remote ended the program
C16 23a4190 sync entries deleted or moved by the sync itself crashed it
C16 bd4cfb9 syncing an entry by name whose url is missing or bad crashed
C17 dac701d merging several remotes compared credentials with those before the first merge
C19 b84492c a negative length in the scp protocol crashed
C18 cb3c7d6 a malformed line of knownhosts crashed
C15 3f8e8fb searching text that is not valid utf-8 crashed
C15 d012884 a letter whose lowercase form is longer than itself was not found
C23 a0b5a8d the entry that was cd'ed into was not followed when renamed or deleted
C23 0e82559 login with a broken two factor key ended the session
C13 5c2444f a two factor key without a usable secret was set
C21 a036b82 an empty lastpass export was a successful import of nothing
C11 ceb15e6 an entry without a name crashed every command
C10 b57b2e5 a file with a long name could be opened but not saved
C14 cab478e the passphrase of a file that was just made was refused by rekey
C16 952c3f7 a remote with a broken history kept the others from being synced
C16 3079003 remotes that have everything already were written to
C17 d408568 passphrases that differ were not noticed without other changes
C17 9670a1c the own passphrase changed on another device was undone by the session
C17 a9c3f3a a sync that removed the current user made files nobody could open
C19/C16 29ea4fc a file that the other side did not accept was reported as sent
C19 2b66b6f a transfer failed when the other side had ended before its input was closed
C19 90685e3 a missing file was not recognised as such when closing the connection failed too
C18 9bba0cd a confirmed host was not recorded when the sync was given up or a push failed
C26 616f64f addsync took ports that make an entry which no sync can use
C26 9f713dd an absolute scp path entered in addsync was synced to one in the home directory
C27 a0ed416 -f with the name of the default file opened the file of BPASS instead
"""
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for l in FIXED.strip().split("\n"):
    ids, h, what = l.split(" ", 2)
    fixed += ["fixed: property=%s %s %s" % (i, h, what) for i in ids.split("/")]
json.dump({"known": [], "fixed": fixed}, open(os.path.join(here, "known-findings.json"), "w"), indent=1)
print(len(fixed))
