#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from /repo's fix commits.
Run by hand after a fix; the checks never write that file."""
import subprocess, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = """C08 reject a padding byte of zero
C05 reject truncated and malformed files
C03 do not use a key of the wrong size
C03 an unknown user must not be tried
C09 refuse multi-user parameters
T02 rolling back a transaction must
T04 refuse negative versions
T03 loading a json null
T06 merging histories of equal length
T05 different changes with the same timestamp
B03 removing a label must keep
B03 searching by labels
B01 renaming duplicates
B02 key material of users must
B02 only names starting with user/
B06 refuse unusable two factor
B05 fuzzy matching must not
M14 exit status must report
M05 a failed write must not
M01 remember the passphrase of a new
M14 save the file when the final sync
M04 refuse to import in read-only
M04 read-only mode for times far
M14 an aborted or failed command
M01 the entry that was cd'ed
M02 rekeyall must hand
M02 passwd and rekey must
M02 adduser must not
M02 there is no current user
M02 entries named like users
M02 the current user must remain
M06 passwords of any length
M06 password prompt must not crash
M13 login must copy what
M01 set and edit must report
M07 lastpass import must not
M08 export the current data
M09 a session that changed the log
M09 resolving sync conflicts
M09 merge each remote
M22 sync: users keep access
M15 follow changes of the current
M10 syncing an entry that is not
M10 scp urls may lack
M11 malformed known hosts
M11 remember a confirmed host also
M10 report why a remote
M10 refuse remotes with a log
M10 a failed sync must leave
M11 remember confirmed hosts also when
M10 push only where
M09 every remote must be
M09 entries with the same name must
S02 errors that scp reports late
S02 an scp server's message
P01 passphrases must pass
M01 crash when a file is opened at the time
M03 session hangs after
M03 crash on a tab
M03 line editor crashes on ctrl-t in
M03 line editor crashes on completions
M12 edit wipes the temporary
S01 scp announces all permissions
S02 an scp upload is complete
M16 addsync must refuse ports
M16 addsync scp must keep
M18 set: do not print a password
M18 readline: keep passwords out
M18 sync: do not print secrets
M12 edit: refuse text
M07 lastpass import: refuse an export""".splitlines()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s%x09%b%x00"], capture_output=True, text=True).stdout
out = ["# Known findings of the checks. A 'fixed:' line records a defect that was repaired in",
       "# /repo; it suppresses nothing. There are no findings that the checks tolerate.", ""]
for c in log.split("\0"):
    f = c.strip("\n").split("\t")
    if len(f) < 2 or not f[1].startswith("fix: "):
        continue
    s = f[1][5:]
    p = [m.split(" ", 1)[0] for m in M if s.startswith(m.split(" ", 1)[1])]
    if len(p) != 1:
        sys.exit("no property for: " + s)
    out.append(f"fixed: property={p[0]} {f[0]} {s}")
open(root + "/known-findings.txt", "w").write("\n".join(out) + "\n")
