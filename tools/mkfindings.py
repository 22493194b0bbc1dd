#!/usr/bin/env python3
"""mkfindings.py: write known_findings.json (open findings and repaired ones)"""
import json

OPEN = [
    ("C02", "stop-while-creating-the-file",
     "a database file whose very first write (by the database library, before anything was flushed) was lost in part by a stop of the machine cannot be opened; the server exits instead of starting with an empty directory"),
]
FIXED = """
C03 f03a84d add, modify and delete with an empty or unparsable name crashed or changed the wrong entry
C03 c09492c scope checks compared names as text, so that entries of another branch were found or missed
C04 c69fccf a delete change did not see the values added by an earlier change of the same request
C18 2eb0ce1 names with special characters in the attribute type normalized to those of other entries
C23 e2cbe10 a rename to a name of several components was accepted and moved the entry to nowhere
C23 577eb76 the base entry could be renamed, after which the directory was unreachable
C14 aa98f69 database searches were answered to clients that had not bound
C14 cd22640 anonymous binds to the database were accepted from other hosts
C06 f3b614d a failed bind left the connection with its former identity
C07 8d995d2 a refused password change crashed the request
C07 3e22ab3 a password generated by the server was answered as its hash
C07 1540492 entries with special letters in their names could not change their password or be modified
C08 24e076a empty and truncated password hashes crashed the bind
C08 b2b645b crypt passwords were compared up to the first NUL byte only
C08 1edf4d6 argon2 hashes with impossible parameters crashed the bind
C09 1b72930 an attribute requested several times was returned several times
C09 6cd5118 substring filters with several parts matched by some parts only
C10 45f5a75 index lookups in LDIF data depended on the letter case
C10 a4bfafa or filters lost results when one part was indexed
C11 dc8f745 a paged search whose last page was full ended with an error
C11 d84ad3f the request to abandon a paged search was not answered
C12 3685e68 the statistics lock was not released after an add, the next one hung
C12 b8d9f82 malformed changes in modify requests crashed the server
C12 d7d35b8 password changes with an undecodable body crashed the server
C12 c5716be deeply nested requests exhausted the stack
C12 de634b9 a panic in one request ended the process
C13 27e41c9 compare requests were answered with the wrong kind of response
C06 f7b033a binds as entries outside of the base with the same ending were accepted
C20 d4eea7c the maximum of concurrent connections was never reported
C16 2ebd964 continuation lines of comments were taken as data
C16 623616f folders whose path contains pattern characters were loaded as empty
C16 17304f5 files with very long lines were cut off silently
C16 a4e0b2e included files lost their last byte
C16 e714e3c files with change records lost entries silently
C16 9138911 entries with invalid names were accepted but never served
C15 09318b8 a reload could switch one of two files only
C17 2a345e9 values with leading spaces and names with line breaks did not survive export and import
C17 f79dd40 a separate version line stopped the import; change records were left out silently
C22 a1aef59 user lines with five or six fields crashed the generator
C22 89b733f users after an unreadable line were left out silently
C22 4304058 generated passwords with percent signs were printed wrongly
C22 bb2f744 user and group numbers of zero were dropped
C22 da222c7 argon2 parameters of zero crashed the generator
C22 bff95d4 clear text passwords that look like a hash were written as a hash
C22 160fd87 special characters in user names produced other entries
C22 7b7d7a1 leading spaces and braces in passwords and full names were lost
C19 8dca494 concurrent searches of LDIF data wrote to shared memory
C21 ff706f4 searches cut short by a shutdown were answered with success
C21 fe24a68 a termination signal after a reload signal could be lost
C21 98d7eed no connections were accepted any more after a shortage of file descriptors
C04 77f9379 an add that listed an attribute several times kept the last values only
C09 4951c89 equality filters did not tell values with different non-text bytes apart
"""
out = [{"property": p, "key": k, "what": w, "status": "open"} for p, k, w in OPEN]
for l in FIXED.strip().split("\n"):
    p, commit, what = l.split(" ", 2)
    out.append({"property": p, "key": commit, "what": f"fixed: property={p} {commit} {what}", "status": "fixed"})
open('/verif/known_findings.json', 'w').write(json.dumps({"findings": out}, indent=1) + "\n")
