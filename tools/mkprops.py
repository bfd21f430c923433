#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
PR, LO, BE = "scutiger-lfs/src/processor.rs", "scutiger-lfs/src/backend/local.rs", "scutiger-lfs/src/backend.rs"
TR, PK, ER = "scutiger-lfs/src/bin/git-lfs-transfer.rs", "scutiger-core/src/pktline.rs", "scutiger-core/src/errors.rs"
AT, RR, PG = "scutiger-bin/src/bin/git-at.rs", "scutiger-bin/src/bin/git-recent-refs.rs", "scutiger-bin/src/bin/pager/mod.rs"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Stored objects always match their ID and declared size",
  "An LFS upload is acknowledged with success if and only if the received bytes have exactly the declared size and their SHA-256 is the requested object ID, and then exactly those bytes are in the store under that ID. A rejected or failed upload gets an error status, changes no stored object, creates none, and leaves no partial file behind. Every file in the object store hashes to its own name at all times.",
  ["inputs", "histories"],
  "all object IDs, contents, declared sizes, packet splittings and sequences of valid and invalid uploads in one or several sessions on one store",
  "The tests upload two fixed objects and check a few fixed failures; they never mix accepted and rejected uploads of the same ID, vary packet boundaries, or look for residue.",
  [PR, LO, PK],
  [("put_object size and hash comparison", PR), ("HashingReader", PR), ("start_upload/finish_upload temporary file and rename", LO)],
  [("object file", "<gitdir>/lfs/objects/aa/bb/<oid>", LO), ("partial upload", "<gitdir>/lfs/incomplete/*", LO)],
  ["responses on stdout", "the store's files after every session"])

p("C02", "Uploads are all-or-nothing under crashes and I/O errors",
  "If an upload session is killed at any instant, or any of its system calls fails or is cut short, then afterwards each object is either absent or complete with its exact content and final permissions, and objects stored earlier are untouched. An upload is acknowledged only if its object is then completely in place. After the fault, a fresh session can upload and download the same object successfully.",
  ["crash_points", "fault_sequences"],
  "a kill before every file-system, stdin or stdout system call of the session (and in the middle of writes), and every such call failing with an error or being cut short; power loss is out of scope",
  "The tests never interrupt the program or make a system call fail.",
  [LO, PR],
  [("temporary file in incomplete/, permissions before rename, atomic rename", LO), ("skip_to_flush before finish_upload", PR)],
  [("object file", "complete or absent", LO)],
  ["system calls of the running program (ptrace)", "the store's files after the fault", "responses"])

p("C03", "Downloads return exactly the stored bytes",
  "A download of a stored object returns success, the exact object size and exactly the object's bytes, for every content and size, including empty objects and objects spanning many packets; a download of an object not stored returns 404. Once an upload has been acknowledged, every later session reads back the uploaded bytes.",
  ["inputs", "histories"],
  "all object contents and sizes (including multiples of the maximum packet size and of the copy buffer), mixed with other requests, in all sessions after the upload",
  "One fixed two-line object is downloaded by the tests.",
  [PR, LO, PK],
  [("get_object", PR), ("send_status streaming a reader", PR), ("download", LO), ("Writer::write", PK)],
  None, ["responses on stdout"])

p("C04", "Batch and verify answers reflect what the store holds",
  "A batch response has exactly one line per requested object, in request order, naming the requested ID, its stored size if present and the requested size otherwise, with 'upload' exactly for missing and 'noop' for present objects in an upload session, and 'download' exactly for present and 'noop' for missing ones in a download session. A verify succeeds exactly when the object is present with the given size, answers 409 when the size differs and 404 when the object is missing. A batch naming a hash algorithm other than sha256, an invalid ID or an invalid size is rejected as a whole.",
  ["inputs", "histories"],
  "all store states, lists of objects (with duplicates, any sizes up to 2^64-1, both operations) and verify sizes",
  "The tests use fixed two-object batches.",
  [PR, LO],
  [("read_batch/batch_data", PR), ("size_at_path", PR), ("verify", LO)],
  None, ["responses on stdout", "the store's files"])

p("C05", "Each request gets exactly one response, in order, before the next is read",
  "After the version advertisement, the LFS server sends exactly one complete response to each complete request, in request order, whatever the request's outcome, however the input is split into reads, and whether or not the client pipelines. A response is delivered in full before the server waits for more input. No part of a rejected request is ever taken for another request.",
  ["inputs", "histories"],
  "all sequences of valid, invalid and rejected requests (also with extra arguments, delimiters and data after the point of rejection), all fragmentations of the input, pipelined or in lock-step",
  "The tests feed whole fixed transcripts from memory; rejected requests with trailing data and blocking clients are never exercised.",
  [PR, PK],
  [("process_commands loop", PR), ("skip_to_flush", PK), ("flush on flush packet", PK)],
  None, ["bytes on stdin and stdout of the live process, and whether it is blocked reading"])

p("C06", "No input crashes the LFS server or makes it emit malformed output",
  "Whatever bytes arrive, the LFS server never panics or dies of a signal: it exits 0 or reports an error and exits 2, and everything it sent is a sequence of whole, well-formed responses. Nothing after a malformed packet header is executed. Every stored object and lock is as valid after hostile input as before.",
  ["inputs"],
  "all byte streams on standard input, including truncated, oversize, mutated, recombined and random packets, for both operations and all store states, including corrupt lock files",
  "The tests contain a handful of malformed inputs.",
  [PK, PR, LO, TR],
  [("parse_header", PK), ("ArgumentParser, Oid::new", PR), ("LocalBackendLock::parse", LO), ("error statuses in process_commands", PR)],
  None, ["exit status, stderr and stdout of the process", "store contents"])

p("C07", "A truncated stream takes effect only up to its last complete request",
  "If the client's stream ends at any byte, every request received completely (through its flush) takes its full effect and is answered as if the stream had continued, and the incomplete one has no effect at all: no object stored, no lock created or removed, and no success reported for it. Ending between requests is a normal exit with status 0.",
  ["inputs", "fault_sequences"],
  "every prefix of every request stream",
  "No test ends a stream inside a request.",
  [PR, PK],
  [("read_to_delim/read_to_flush", PR), ("skip_to_flush before finish_upload", PR), ("process_commands EOF handling", PR)],
  None, ["responses", "store contents after each prefix"])

p("C08", "The session's operation limits what it may do",
  "A download session never creates, changes or removes any object, lock or anything else in the repository, whatever it is sent, apart from making the store's own empty directories when it starts; uploading and verifying are refused with 403 there, and downloading an object is refused with 403 in an upload session. Refused requests have no effect and reveal nothing about the store.",
  ["inputs", "histories"],
  "all request sequences in download sessions and all get-object requests in upload sessions, over all store states",
  "The tests try only permitted commands.",
  [PR],
  [("command dispatch by mode", PR)],
  None, ["responses", "mutating system calls of the process", "store contents"])

p("C09", "Clients can only reach the repository's own LFS store",
  "No request can make the LFS server create, change, remove or disclose any file outside the repository's LFS directory, nor inside it any file that is not the requested object or lock (or the server's own temporary file). Object and lock IDs from clients are never interpreted as paths.",
  ["inputs"],
  "all byte strings in place of object IDs, lock IDs, lock paths, cursors and arguments, including path separators, dot-dot, absolute paths, NULs and overlong names",
  "The tests use only well-formed identifiers.",
  [PR, LO],
  [("Oid::valid", PR), ("from_id ID check", LO), ("hash_for", LO)],
  None, ["mutating system calls of the process (ptrace)", "canary files outside and inside the store", "stdout"])

p("C10", "At most one holder per locked path, under every interleaving",
  "For each path, concurrent lock, unlock and lookup requests from any number of sessions behave as if executed one at a time: at most one of several competing lock requests succeeds while the lock is held, at most one unlock succeeds per held lock, a losing lock request reports a lock that was really held, and lookups never report a lock that was not held. A lock request that succeeds holds until it is unlocked.",
  ["schedules", "histories"],
  "all interleavings of the system calls of any number of concurrent sessions locking, unlocking and listing the same and different paths",
  "The tests run a single session.",
  [LO, PR],
  [("hard_link of a private temporary file", LO), ("lock() conflict and retry", PR), ("remove_file as the unlock decision", LO)],
  [("lock file", "<gitdir>/lfs/locks/<id>", LO)],
  ["per-session requests and responses in global order", "file-system calls in global order"])

p("C11", "Lock semantics and attributes are stable across sessions",
  "Locking an unlocked path succeeds (201), locking a locked path reports a conflict (409) with the existing lock's attributes, unlocking by a held lock's ID removes exactly that lock, and unlocking anything else answers 404. A lock's ID, path, time of locking and owner name are the same in the lock response, in conflict responses, in every listing and in the unlock response, in every session until it is unlocked. Paths may contain any bytes; different paths never share a lock.",
  ["inputs", "histories"],
  "all sequences of lock, unlock and list requests over all paths, across sessions, with the clock moving between any two readings",
  "One fixed scenario with one path and a fixed timestamp is tested.",
  [PR, LO, BE],
  [("lock/unlock/list_locks", PR), ("as_arguments/as_lock_spec", BE), ("create/from_id/from_path/parse", LO)],
  [("lock file", "version, time and path", LO)],
  ["responses, with the process's clock controlled"])

p("C12", "Listing locks pages through every lock exactly once",
  "Following the returned cursors from the start with any limits lists every lock exactly once, each page holding at most the requested number of locks (and never more than 100), and the last page, and only it, carries no cursor. A listing restricted to a path returns exactly that path's lock, or 404 if it has none. Limits that are zero or not numbers are rejected.",
  ["inputs", "histories"],
  "all sets of locks, limits and cursors, and pages requested in different sessions, also while other locks come and go",
  "Listing is tested with a single lock and no limit.",
  [PR, LO],
  [("list_locks limit and cursor", PR), ("LockSetIterator order", LO)],
  None, ["responses"])

p("C13", "Interrupted locking or unlocking never wedges or corrupts locks",
  "If a session is killed at any instant while locking or unlocking, or any of its system calls fails, then afterwards each path is either cleanly unlocked or locked with complete attributes, as its acknowledged requests imply; other locks are untouched. Whatever was left behind is never listed as a lock, and every path can then still be locked, listed and unlocked normally by other sessions.",
  ["crash_points", "fault_sequences"],
  "a kill before every system call and in the middle of writes, and every system call failing or cut short, during lock, unlock and list sequences",
  "The tests never interrupt the program or make a system call fail.",
  [LO, PR],
  [("LockFile: private temporary file linked into place", LO), ("LockSetIterator skipping invalid names", LO)],
  [("lock file", "complete or absent", LO)],
  ["system calls of the running program (ptrace)", "later sessions' responses"])

p("C14", "Concurrent uploads and downloads never interfere",
  "When several sessions upload, verify, list and download the same or different objects at the same time, every valid upload succeeds, every download returns either the complete object or 404, and once any session has observed an object as stored, every later request in any session does too. Failing, invalid or killed uploads never affect the others.",
  ["schedules", "histories"],
  "all interleavings of the system calls of any number of sessions working on the same and different objects, including the first sessions ever run on a repository, and sessions killed midway",
  "The tests run a single session.",
  [LO, PR, TR],
  [("unique temporary names", LO), ("atomic rename", LO), ("create_dir_all", TR)],
  None, ["per-session requests and responses in global order"])

p("C15", "Pkt-line data survives a write and read unchanged",
  "Data and packets written with the pkt-line writer are read back unchanged by the pkt-line reader, for every payload, however the payload is split into writes, whatever buffer sizes the reader is asked to fill, and however the underlying stream fragments its reads and writes. Packet types and boundaries are preserved packet by packet, and every packet written has a correct lower-case length header and at most 65516 bytes of data. Writing a flush packet flushes the stream, and data which the stream refuses, or a flush it fails, is reported as that error and never as success.",
  ["inputs"],
  "all payloads, packet sequences, read buffer sizes, and short or interrupted reads and writes of the underlying stream",
  "The tests cover six chunk sizes of one payload with one reading pattern.",
  [PK],
  [("Writer::write/write_packet", PK), ("Reader::read buffering", PK), ("read_packet", PK)],
  None, ["results of the library API"])

p("C16", "Malformed packets are rejected alike by every way of reading",
  "A packet header that is not four lower-case hexadecimal digits, or whose value is 2, 3 or more than 65520, is rejected with an error and without consuming data beyond it; every other header is accepted. Streamed, packet-wise and iterating reads agree on every input about which packets it contains and where it fails, and a stream that ends inside a packet is an error (for iteration, the end), never a shorter packet; when the underlying stream fails, every way of reading returns what came before and then that error. No input makes the reader or writer panic, and the writer refuses to produce a packet that a reader would reject.",
  ["inputs"],
  "all 2^32 header values and all byte streams, truncations included",
  "The tests check nine headers and five packets.",
  [PK, ER],
  [("parse_header", PK), ("read_one and read_whole_packet", PK), ("ReaderIterator", PK), ("write_one size check", PK)],
  None, ["results of the library API"])

p("C17", "Stored objects get the repository's sharing permissions",
  "An uploaded object ends up readable and writable by exactly the classes of users that core.sharedRepository grants (group, world, an octal mode) or, when it is unset, that the process umask grants, whatever the umask is and wherever the setting is spelled as git allows. It never exists in the object store with other permissions, and directories the server creates allow the same users to enter. Locks are readable by the same users from the moment they exist.",
  ["configurations"],
  "all spellings of core.sharedRepository that git accepts, all umasks, objects in new and existing directories",
  "No test looks at permissions.",
  [TR, LO],
  [("set_permissions", TR), ("fix_permissions before rename", LO)],
  None, ["modes of the stored files and directories", "order of chmod and rename system calls"])

p("C18", "git at prints the first matching commit in commit-date order",
  "git at prints the object ID of the first commit, newest commit date first starting from the given revision (HEAD by default), whose message matches the regular expression, considering exactly the commits reachable from that revision. Matching is on the raw bytes of the message and follows the given pattern exactly; a message on which matching has to be given up leads to an error, not to another commit.",
  ["inputs", "histories"],
  "all commit graphs (merges, multiple roots, skewed dates, packed or loose), messages of any bytes, revisions and patterns",
  "The tests use a linear history of five commits and simple patterns.",
  [AT],
  [("Program::run revwalk sorted by time", AT), ("Regex on message bytes", AT)],
  None, ["stdout and exit status of git-at"])

p("C19", "git at's --summary and --no-fixup select exactly the right commits",
  "With --summary, a commit matches exactly when its first line matches (empty lines in front of the message do not count), whatever its body contains. With --no-fixup, exactly the commits whose message begins (after optional white space) with 'fixup!' or 'squash!' are ignored, whatever else their messages contain and whether or not --summary is given.",
  ["inputs"],
  "all messages and patterns, including alternation, anchors, white space and negated classes that could span lines, combined with both options",
  "The tests use one pattern and messages where both readings agree.",
  [AT],
  [("searched_text", AT), ("fixup regular expression", AT)],
  None, ["stdout and exit status of git-at"])

p("C20", "git at's exit status and output tell the outcome",
  "git at exits 0 having printed exactly one full object ID (or, with --show, what git show prints for that commit, exiting with its status); it exits 1 and prints nothing on standard output when no commit matches or the revision does not exist, silently with --quiet and with a message otherwise. An invalid pattern or unusable revision (such as one which is not UTF-8) exits 2 with a message even with --quiet, and a directory outside any repository exits 4.",
  ["inputs", "configurations"],
  "all combinations of options, matching, missing and invalid patterns and revisions, in bare and non-bare repositories, subdirectories and outside repositories",
  "The tests check only the value returned inside the program, never the exit status or streams.",
  [AT, ER],
  [("Program::main", AT), ("exit_status/fatal", ER)],
  None, ["stdout, stderr and exit status of git-at"])

p("C21", "git recent-refs sorts every reference by committer or author date",
  "With --sort=committerdate or --sort=authordate, git recent-refs prints the full name of every direct reference that leads to a commit, exactly once, newest first by the committer or author time of that commit; annotated tags count as the commit they lead to. References to other objects and symbolic references are left out.",
  ["inputs", "histories"],
  "all sets of loose and packed branches, remote branches, tags (annotated, nested), notes and other references, and all author and committer dates with any time zones",
  "The tests use two branches.",
  [RR],
  [("Program::run Committed/Authored", RR), ("commit_date_for/author_date_for", RR)],
  None, ["stdout of git-recent-refs"])

p("C22", "git recent-refs lists visits from most to least recent",
  "By default, git recent-refs prints the current HEAD and then, for each recorded checkout from the most recent to the oldest, the branch (as a full name) or commit that was left by it, omitting those that no longer exist but none that do.",
  ["histories"],
  "all sequences of checkouts, branch creations, deletions and re-creations, commits, resets and detached checkouts",
  "The tests check out a few branches in a row and delete none.",
  [RR],
  [("Program::run Visited", RR), ("is_checkout", RR), ("stringify", RR)],
  None, ["stdout of git-recent-refs"])

p("C23", "Output reaches the terminal complete through the chosen pager",
  "When standard output is a terminal, git recent-refs sends its complete output through the pager chosen by GIT_PAGER, else core.pager, else PAGER, else less, and exits only after the pager has; 'cat' or an empty pager means no pager. When standard output is not a terminal, no pager is started. The output is the same in all cases.",
  ["configurations", "schedules"],
  "all combinations of the settings set, unset, empty or cat, terminal or not, and slow, early-exiting and failing pagers",
  "The pager has no tests.",
  [PG, RR],
  [("find_pager", PG), ("Pager::wait", PG), ("main", RR)],
  None, ["a pseudo-terminal", "processes started and the order in which they exit"])

p("C24", "Object transfers stream in bounded memory",
  "Uploading, rejecting or downloading an object needs an amount of memory that does not grow with the object's size, and bytes of a download begin to flow without waiting for the rest to be read.",
  ["inputs"],
  "all object sizes (sampled to hundreds of megabytes) and packet sizes, for accepted and rejected uploads and for downloads",
  "The tests transfer objects of a few bytes.",
  [PR, LO, PK],
  [("io::copy through HashingReader into the temporary file", LO), ("send_status streaming", PR)],
  None, ["peak resident memory of the process"])

p("C25", "Lock ownership is reported relative to the user asking",
  "Every lock is reported with the name of the user who created it, to whoever asks; in upload sessions each listed lock is additionally marked 'ours' exactly when the asking user created it and 'theirs' otherwise, and download sessions omit the mark. Users without a name are identified by their number. Who created a lock makes no other difference: any user who may change the store can unlock it.",
  ["histories", "configurations"],
  "all sets of locks created by several users with and without account names, listed by any of them in either operation",
  "The tests run as a single user.",
  [LO, PR],
  [("user_for_file", LO), ("current_user", LO), ("as_lock_spec", LO)],
  None, ["responses of sessions run under different user IDs"])

p("C26", "git at and git recent-refs leave the repository as it was",
  "Running git at or git recent-refs, with any options, successfully or not, changes no commit, reference, index, configuration or working-tree file, and removes nothing.",
  ["inputs", "configurations"],
  "all repositories, options and outcomes",
  "No test compares the repository before and after.",
  [AT, RR],
  [("read-only use of the repository", AT)],
  None, ["mutating system calls of the process and repository contents"])

p("C27", "An LFS session starts cleanly on any repository or refuses cleanly",
  "On any repository, bare or not, used before or not, the LFS server creates the directories it needs, first advertises exactly its version, and treats everything already in the store as before, including what earlier versions stored. The path given alone decides which repository is used, whatever the environment. A path that is not a repository is refused with exit status 4, and an unknown operation with exit status 2; in both cases no request is executed. If the directories cannot be made, the server ends with a message and a nonzero status and advertises nothing.",
  ["configurations", "histories"],
  "all kinds of repository paths (bare, non-bare, by working tree or git directory, with or without existing LFS directories) and operation names, over repeated sessions",
  "The tests construct the program object directly and never run start-up.",
  [TR],
  [("create_directories/send_capabilities", TR), ("run operation match", TR), ("repo", TR)],
  None, ["stdout and exit status of the process", "store contents"])

p("C28", "A failing file operation fails only the request that needed it",
  "If a system call that the LFS server makes on the store fails or is cut short while a request is being served, the session goes on: that request still gets exactly one complete response, its usual one or an error which does not deny what is stored or locked, and every other request of the session is answered exactly as it would be, given what is then stored and locked. Starting the session may fail as a whole; a download whose data have begun may end the session; a listing or batch hit by the failure may leave out what could not be read; interrupted or short transfers change nothing.",
  ["faults", "inputs"],
  "every system call on the store in sampled sessions of any mix of requests, failing with any of several errors, once or persistently, or falling short",
  "No test makes a file operation fail.",
  [PR, LO, PK],
  [("handle_* and their error paths, which must skip the rest of the request", PR), ("LocalBackend and LocalLocker operations", LO)],
  None, ["responses after an injected failure", "store contents and listings afterwards"])

p("C29", "A session serves any number of requests with the same resources",
  "However many requests a session has served, of whatever kind and however they were answered, the server then holds no more open files, memory, threads, child processes or leftover files than after the first few, and answers as correctly as at the beginning.",
  ["histories"],
  "all sequences of requests of a session, thousands of each kind and in random mixes, also under a low limit on open files",
  "The tests send a few requests per session.",
  [PR, LO, PK, TR],
  [("the request loop", PR), ("temporary files and locks", LO)],
  None, ["/proc of the process between requests", "temporary directories of the store"])

p("C30", "Damage to a repository never makes git at or recent-refs answer wrongly",
  "If commits of the history that git at has to search are missing or unreadable, it prints what would be right without the damage or reports an error with status 2; it never says that nothing matches, nor prints another commit. Damage elsewhere makes no difference to it. git recent-refs, sorting by date, lists every reference whose commit can be read, in order, whatever is wrong with other references or commits.",
  ["faults", "inputs"],
  "all repositories with missing, unreadable or malformed commits or broken references in any place, and all patterns",
  "The tests use intact repositories.",
  [AT, RR],
  [("Program::run walk", AT), ("references and dates", RR)],
  None, ["stdout, stderr and exit status of git-at and git-recent-refs"])

p("C31", "A slow or stalled client never holds up other sessions",
  "While a session waits for its client, in the middle of a request, between requests, or because its answer is not read, every other session's requests on the same store are answered as usual, without waiting for it. When the client goes on, its session goes on and answers correctly, given what the others have done meanwhile.",
  ["schedules", "histories"],
  "all combinations of stalled sessions, stalled at any byte or with any unread answer, and requests of other sessions about the same objects and paths",
  "The tests run one session at a time, from memory.",
  [PR, LO, TR],
  [("start_upload/finish_upload without locks held", LO), ("LockFile", LO), ("download while an upload replaces the object", LO)],
  None, ["states of the processes", "responses of all sessions"])

p("C32", "Housekeeping and changes by others never make git at or recent-refs wrong",
  "While git packs references, repacks objects or updates the commit graph, or someone changes a reference, git at prints what was right before or after the change, or reports with status 2 that it could not read a repacked object; and git recent-refs, sorting by date, succeeds and lists every reference which is not itself being changed exactly once and in order. Visits are listed as usual while the repository is repacked.",
  ["schedules", "inputs"],
  "all repositories and queries, and up to three git commands run completely between any two system calls of the query",
  "No test changes a repository while it is read.",
  [AT, RR],
  [("references", RR), ("look_up", RR), ("Program::run walk", AT)],
  None, ["stdout and exit status of git-at and git-recent-refs with a command run at a chosen system call"])

p("C33", "A client that goes away, or a told end, ends its session and nothing else",
  "When the client of an LFS session no longer reads its answers, the session ends by itself without a panic: what was answered has taken effect, at most one further request takes effect, and none but whole requests do. A session which is told to end (SIGTERM, SIGHUP, SIGINT) ends at once, with the effects of its complete requests and no others. git recent-refs likewise ends quietly when its reader stops, having written what it would have written.",
  ["faults", "schedules"],
  "all requests and all moments at which the client closes either direction of the connection or a signal arrives, with SIGPIPE ignored at the start or not",
  "The tests run from memory, where the output never fails.",
  [TR, PR, RR],
  [("setup", TR), ("process_commands ends with the first answer it cannot send", PR), ("setup and main", RR)],
  None, ["end of the process", "store contents and locks afterwards", "stderr"])

p("C34", "Effort stays in proportion to what is asked",
  "The work done, in instructions, system calls and bytes moved, grows no faster than in proportion to what is asked, but for sorting. For an LFS session that is its input and output and the objects downloaded, and for listing locks the number of locks; what else is stored or locked makes no difference to other requests, and neither does the size of an object to a batch or verification. For git at it is the history, for git recent-refs the references or visits.",
  ["inputs", "histories"],
  "all sizes of sessions, requests, arguments, packets, objects, stores, histories, references and logs",
  "The tests use small inputs of one size.",
  [PR, LO, PK, AT, RR],
  [("read loop, argument parsing, batch", PR), ("object and lock paths", LO), ("packet reading", PK), ("Program::run", AT), ("Program::run", RR)],
  None, ["instructions executed, system calls made and bytes moved by the programs"])

p("C35", "A shared store serves every user it is shared with",
  "Every user whom core.sharedRepository, or plain permissions, lets into a repository gets the same service from its store as the user who set it up: whoever may write uploads, replaces, verifies, locks and unlocks whatever others stored or locked, also where another user's upload was cut short, and whoever may read has download sessions with batches, downloads and lists of locks, even when nothing in the store can be written any more. The umask of each user's process makes no difference where the setting decides.",
  ["histories", "configurations"],
  "all histories of sessions by several users, all sharing settings, umasks and memberships",
  "The tests run as one user.",
  [LO, TR],
  [("LocalBackend put, get, verify and locks", LO), ("create_directories and set_permissions", TR)],
  None, ["responses on standard output", "exit status"])

p("C36", "git at and recent-refs answer alike however and wherever a repository lives",
  "What git at and git recent-refs print, and with which status, depends on the repository's history, references and visits alone: not on how they are stored (loose or in packs of any kind, in alternates, with indexes of whatever sort, packed or with stale packed values), not on the layout (bare, .git files, submodules, linked working trees with the same HEAD, symbolic links, paths of any bytes), not on the directory inside of the repository they are run from, nor on unrelated settings, environment variables, lock files which others left, or whether anything may be written.",
  ["configurations", "inputs"],
  "all combinations of storage, layout, place, settings and environment",
  "The tests use one freshly made repository, which is opened by its path.",
  [AT, RR],
  [("repo and Program::run", AT), ("repo, references, reflog", RR)],
  None, ["standard output", "exit status"])

p("C37", "A connection which fails for a moment never puts a session out of step",
  "When reading a client's input or writing its output fails, once or while data are late, as on a connection which somebody made non-blocking or whose reader has no room for a moment, the session ends with an error or goes on correctly. Whatever it sends is at any time the beginning of correct responses to the requests in their order, with at most one error in place of a response; no part of a request is lost, repeated or taken for another request, no answer is repeated or patched, and only complete requests have effects, at most one of them unanswered. It never ends with success unless all requests were answered.",
  ["faults", "inputs"],
  "every read and write of the streams in sampled sessions of any mix of requests, failing with any of several errors, at any position within packets",
  "The tests run from memory, where streams never fail.",
  [PR, PK, TR],
  [("read_packet, read_one and skip_to_flush after errors", PK), ("process_commands ends with the first answer it cannot send", PR), ("send_capabilities", TR)],
  None, ["responses on standard output", "store contents and locks afterwards", "exit status"])

p("C38", "A store keeps its format: what other versions or a backup left stays valid",
  "A store can be used by other versions of the server and be moved, copied or restored: objects are files holding exactly their bytes at lfs/objects/aa/bb/ID, and a lock is the file lfs/locks/ID, where ID is the SHA-256 of \"v1:\" and the path, holding v1, the time in seconds since 1970 and the path, each after a colon but the first, and owned by its owner. Whatever is stored so, wherever it came from, is served by its contents: objects are downloaded, verified and batched, locks are listed with their ID, path, time and owner, conflict, and can be unlocked, whatever the path's bytes, the time, the files' modes and times or the store's place. What the server stores has exactly this form and no other, and other programs' files in the store stay as they are.",
  ["inputs", "histories"],
  "all stores which any version or copy may have left, with any paths, times and owners",
  "The tests start from empty stores, and read back only what the same binary wrote.",
  [LO, TR],
  [("LocalBackendLock hash_for and parse, create, list", LO), ("Oid paths", LO)],
  None, ["responses on standard output", "files of the store"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
