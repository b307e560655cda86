#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the committed source of it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

G = "protocol/genout.go"; GEN = "protocol/gen.go"; SRV = "protocol/server.go"; CL = "protocol/client.go"
FS = "filesystem/filesystem.go"; N9 = "filesystem/ninep.go"; N9U = "filesystem/ninep_unix.go"; DBG = "pkg/debugfs/debug.go"

prop("C01", "Wire encoding follows the 9P2000 layout and round-trips",
 "For every 9P2000 message type and for directory entries, encoding any field values the format can represent produces exactly the 9P2000 byte layout (size-prefixed, little-endian, carrying the given tag), and decoding those bytes yields the same tag and field values. The result does not depend on what the buffer held before.",
 ["inputs"], "all message types x all representable field values (integers of every width, strings up to 65535 bytes of any byte values, lists and data of any encodable length) x any previous buffer contents",
 "TestEncode compares two version messages with two byte strings; all other encoders and every decoder are only exercised with a handful of small values.",
 [G, GEN, "protocol/protocol.go"], [("Marshal*/Unmarshal* stubs, Marshaldir/Unmarshaldir", G), ("emitEncodeInt/emitDecodeInt and friends", GEN)],
 ["bytes produced by the exported encoders", "values returned by the exported decoders"])

prop("C02", "Decoders accept only well-formed messages",
 "Decoding any byte sequence as any message type either returns exactly the values the 9P2000 layout assigns to all of those bytes, or reports an error: a message that is cut short, has bytes left over, or contains a length that runs past its end is always reported as an error, and so is a directory entry that is cut short. No input makes a decoder panic or return data from outside the message.",
 ["inputs"], "all byte sequences x all message types, including every truncation and every corrupted inner length",
 "No test feeds a decoder anything but its own encoder's output.",
 [G, GEN], [("length checks in Unmarshal*", G), ("emitDecodeInt, emitDecodeString, genDecodeSlice", GEN)],
 ["error and values returned by the exported decoders"])

prop("C03", "Requests are framed however bytes arrive; each gets exactly one reply",
 "However the network splits or merges the byte stream, a server connection recovers exactly the requests the client sent, handles each exactly once in the order sent, and answers each, without waiting for anything that follows it, with exactly one well-formed reply, in that order, carrying the request's tag and either the reply type that belongs to the request or an error. A request cut off by the end of the connection is never handled.",
 ["inputs", "schedules", "fault_sequences"], "all request sequences x all segmentations of the stream x all cut points x all handler results (including errors of any length)",
 "The tests use a synchronous in-memory pipe that delivers each message in one piece and never cut a message short.",
 [SRV, G], [("conn.serve read loop", SRV), ("Dispatch", SRV), ("Srv* stubs", G)],
 ["handler invocations (a recording file server)", "raw reply bytes on the connection"])

prop("C04", "No client input crashes the server or executes a malformed request",
 "No sequence of bytes sent by a client terminates the server process or disturbs the service given to other connections. A request whose body does not decode exactly never reaches the file server; if its frame is intact it is answered with an error carrying its tag and the connection stays usable.",
 ["inputs", "fault_sequences", "schedules"], "all byte streams, including corrupted, truncated, oversized and out-of-range requests, on any number of connections",
 "The tests only send well-formed requests.",
 [SRV, G, FS], [("conn.serve", SRV), ("Srv* stubs", G), ("argument checks in the file server", FS)],
 ["liveness of the process", "handler invocations", "raw replies", "answers on a bystander connection"])

prop("C05", "Nothing is served before version negotiation",
 "On every connection, until the client has sent a version request, every other request is answered with an error carrying its tag and never reaches the file server, and the negotiation state of one connection never carries over to another. A request type the server does not support is always answered with an error carrying its tag and leaves the connection usable.",
 ["inputs", "histories"], "all request sequences before and after negotiation, all 256 message type values, any number of connections",
 "TestTMessages checks that one attach is refused before one version request on one connection.",
 [SRV], [("Versioned gate and default case of Dispatch", SRV)],
 ["handler invocations", "raw replies"], state=[("Versioned", "a version request has been seen on this connection", SRV)])

prop("C06", "Calls are transparent: arguments and results cross the wire unchanged",
 "When a call of the client library is made to a server built with this library, the file server's handler for that operation runs exactly once with exactly the caller's arguments, and the caller gets exactly the results the handler returned, or an error with the handler's error text if the handler failed. What the caller passed in is not modified, and what it got back stays as it was however many calls follow. This holds for every operation and every representable value, with tracing on or off.",
 ["inputs", "configurations"], "all operations x all representable argument and result values x success/failure x tracing on/off x transports",
 "TestTMessages makes about twenty fixed calls and ignores almost all returned values; no test runs a client without tracing.",
 [G, CL, SRV], [("CallT* stubs", G), ("Srv* stubs", G), ("Dispatch", SRV)],
 ["arguments seen by a recording file server", "values returned to the caller"])

prop("C07", "Concurrent client calls never mix: unique tags, replies go to their caller",
 "Any number of goroutines may use one client at once: every call receives the reply the server sent to its own request, whatever order the server answers in, every request goes out as one intact message, and no two outstanding requests ever carry the same tag, nor a reserved tag (NOTAG, 0). Tags are reusable after the reply, so a client never runs out however many calls it makes, and the fids it hands out are never repeated.",
 ["schedules", "histories"], "all interleavings of concurrent callers x all server reply orders x unbounded numbers of calls",
 "The tests make calls from one goroutine against a server that answers in order.",
 [CL, G], [("tag channel and RPC table", CL), ("IO sender/receiver goroutines", CL), ("GetFID", CL)],
 ["requests arriving at a scripted server", "values returned to callers", "Go race detector"],
 state=[("Tags", "free tags", CL), ("RPC", "outstanding calls by tag", CL)])

prop("C08", "A lost or misbehaving server fails calls; it never hangs or kills the client",
 "If the connection is lost, a request cannot be sent, or the server sends something that is not a reply to an outstanding request, the connection counts as lost and every call not yet answered, outstanding or made later, returns an error instead of blocking; a reply of the wrong type or a malformed one fails the call it belongs to. Once the connection is lost the client closes both directions of it and none of its goroutines remain. The client process is never terminated, and no call returns success without a well-formed reply of the matching type to its own request.",
 ["fault_sequences", "schedules", "inputs"], "all points at which the connection can fail in either direction x all invalid reply bytes x any number of outstanding calls",
 "No test ever closes a connection, fails a write or sends an unexpected reply.",
 [CL, G], [("readNetPackets", CL), ("IO", CL), ("reply handling in CallT* stubs", G)],
 ["return of every call", "liveness of the process"], state=[("Dead", "the connection has failed", CL)])

prop("C09", "No request reaches outside the exported root",
 "Whatever names a client supplies in attach, walk, create or rename (dot-dot elements, embedded slashes, absolute names), no request reads, lists, creates, changes, renames, removes or reveals the existence or attributes of anything outside the server's configured root directory, and the root itself cannot be renamed or removed. Symbolic links that the host placed inside the tree are the only exception.",
 ["inputs", "histories"], "all request sequences with all names, from any starting directory, for any configured root",
 "The tests export the host's real root directory, so nothing is outside it.",
 [FS], [("name joining in Rattach, Rwalk, Rcreate, Rwstat", FS)],
 ["QIDs, stat data and file data in replies", "a snapshot of the host tree around the root"])

prop("C10", "Fids follow their life cycle and stay independent of each other",
 "A fid is valid from the attach, walk or clone that established it until it is clunked, removed or the session is restarted, and it denotes the file it was last established as. Using an unknown fid, establishing a fid number that is already in use, and opening, creating through or re-walking in place a fid that is already open are refused; only an open fid can be read or written. A refused request leaves every fid as it was, and a request on one fid never changes the validity or open state of another.",
 ["histories"], "all sequences of attach, walk, open, create, read, write, stat, clunk, remove and version requests over any set of fid numbers",
 "TestMount follows one fixed script with few fids and never reuses, clones an open fid or reopens.",
 [FS], [("fid table", FS), ("checks in Rattach, Rwalk, Ropen, Rcreate, Rread, Rwrite, clunk", FS)],
 ["replies of the file server compared with a reference model"], state=[("files", "fid table of a connection", FS)])

prop("C11", "File reads and writes are faithful to the host file",
 "A read returns exactly the bytes the host file holds at that offset, at most the count asked for, stopping short only at end of file or where the reply would exceed the negotiated message size; a write that is acknowledged with a count has put exactly those bytes at that offset in the host file before the reply is sent, and changes nothing else. Truncation on open and the access mode of the open are honoured: data cannot be written through a fid opened for reading nor read through one opened for writing.",
 ["inputs", "histories"], "all sequences of reads and writes at all 64-bit offsets and counts through any number of fids and connections, all open modes, all message sizes",
 "TestMount reads one byte and writes five, and does not look at the host file afterwards.",
 [FS, N9], [("Rread/Rwrite", FS), ("modeToUnixFlags", N9)],
 ["read data and write counts compared with a sparse byte model", "host file contents after each acknowledgement"])

prop("C12", "Directory reads list every entry exactly once, in whole entries",
 "Reading an open directory from offset 0, with counts that have room for an entry, until an empty reply yields every entry of the host directory exactly once and nothing else, each reply consisting of whole entries and no longer than the count asked for. Reading at offset 0 again restarts the listing, and a count too small for the next entry returns no entry and loses none: a later read with enough room continues with it.",
 ["inputs", "histories"], "all directories (any number of entries, any legal names and kinds) x all sequences of counts x restarts x several fids on one directory",
 "TestMount lists one directory of three files with one count and does not check what came back.",
 [FS, "filesystem/filesystem_unix.go"], [("directory branch of Rread", FS), ("resetDir", "filesystem/filesystem_unix.go")],
 ["entries decoded from the replies compared with the host directory"], state=[("oflow", "entry read but not yet delivered", FS)])

prop("C13", "File identities and attributes reported are those of the host file",
 "The attributes in a stat reply and in directory entries (name, length, permission bits, directory flag, modification time, configured owner, also as group) are those the host reports for the file itself, not for a link's target. The file identity returned by attach, walk, open, create, stat and directory reads agrees: its type says directory exactly for directories, its path is the same for every route to the same file and different for different files of one host file system, and its version, as reported by walk, stat and directory reads, is the same while the file is unmodified and changes when its modification time changes by a millisecond or more (within the 32 bits it has).",
 ["inputs", "histories"], "all kinds of files, sizes (including beyond 4 GB), modes, times and names, reached by all routes",
 "The tests only log what stat, walk and open returned.",
 [N9, N9U, FS], [("dirTo9p2000Dir, dirTo9p2000Mode, dirToQIDType", N9), ("fileInfoToQID", N9U)],
 ["stat data and QIDs in replies compared with the host's lstat"])

prop("C14", "Wstat changes exactly what it asks for",
 "A successful wstat applies exactly the changes asked for by the fields that are not 'don't touch' (permission bits, name, length, modification and access time) to the file its fid denotes, leaves every other attribute and every other file alone, and leaves the fid denoting the renamed file. A wstat refused because it asks for a change of owner or group, or because the new name is an existing directory, changes nothing at all.",
 ["inputs", "histories"], "all combinations of fields and 'don't touch' values on files and directories, open or not",
 "No test sends a wstat to the file server.",
 [FS], [("Rwstat", FS)],
 ["host lstat and contents before and after", "later requests through the fid"])

prop("C15", "Create and remove affect exactly the named entry",
 "A successful create leaves exactly one entry of that name in the directory, a new one having the requested kind and permission bits and an existing regular file being truncated, and the fid then denotes it, a regular file being open with the requested access; creating a directory under a name that is taken fails. A successful remove deletes exactly the entry the fid denotes, and remove frees the fid whether or not it succeeds. Neither changes anything else in the tree, and a failed one changes nothing.",
 ["inputs", "histories"], "all names, permission bits, modes and kinds, over all existing tree states",
 "TestMount creates one file and one directory and removes them.",
 [FS], [("Rcreate", FS), ("Rremove, clunk", FS)],
 ["snapshot of the whole host tree before and after", "later requests through the fid"])

prop("C16", "Open files are released: no leak in a session or after it",
 "The host files a connection holds open are exactly those of its open fids: failed requests leave none behind, and clunk, remove and a new version negotiation release theirs. When the connection ends for whatever reason, all of its files and the connection itself are closed and its goroutine ends, without waiting for garbage collection.",
 ["histories", "fault_sequences"], "all request histories and all ways a connection can end",
 "No test looks at descriptors or ends a connection.",
 [FS, SRV], [("clunk", FS), ("session reset in Rversion", FS), ("end of conn.serve", SRV)],
 ["/proc/self/fd compared with the model's open fids", "goroutine stacks"])

prop("C17", "Connections are isolated from each other and race-free",
 "Fids, negotiation and open state of one connection are never visible on another: every connection gets the replies it would get if it were alone, whatever other connections do at the same time on other files. An effect acknowledged on one connection is visible to every request sent afterwards on any other. Serving connections concurrently involves no data race.",
 ["schedules", "histories"], "all interleavings of any number of connections",
 "The tests serve one connection at a time.",
 [SRV, FS], [("newConn creating a file server per connection", SRV), ("NewUFS", FS)],
 ["replies per connection compared with per-connection models", "shared-register histories checked for linearizability", "Go race detector"])

prop("C18", "A listener serves until shutdown, through temporary errors",
 "Serving a network listener accepts and serves connections concurrently, keeps doing so after temporary accept errors, and ends with an error, leaving the listener closed, when accepting fails for good or the listener is shut down. Shutdown closes every listener being served and every serving call then returns, while connections already accepted keep being served.",
 ["schedules", "fault_sequences"], "all sequences of accepted connections and accept errors, any number of listeners, shutdown at any point",
 "No test calls Serve or Shutdown.",
 [SRV], [("Serve, trackListener, Shutdown, Accept", SRV)],
 ["return values of Serve", "state of scripted and TCP listeners", "replies on accepted connections"],
 state=[("listeners", "listeners being served", SRV)])

prop("C19", "Debug tracing of the file server is transparent",
 "Wrapping a file server in the debug layer changes nothing a client can observe: every operation reaches the wrapped server exactly once with its arguments unchanged, and its results or error come back unchanged, whatever the arguments are, malformed stat data included. A server started with debugging on answers every request sequence as one started with it off.",
 ["inputs", "configurations"], "all operations x all arguments x all results and errors",
 "The debug layer has no tests.",
 [DBG, FS], [("DebugFileServer methods", DBG), ("NewUFS debug flag", FS)],
 ["calls on a recording file server beneath the wrapper", "replies of two servers driven in lockstep"])

prop("C20", "The code generator reproduces the codec",
 "Running the code generator on the source tree succeeds, and the package built with its output encodes, decodes, rejects and dispatches every message exactly as the 9P2000 layout and the committed code do, so regenerating never changes behaviour.",
 ["programs", "inputs"], "all inputs to the regenerated stubs",
 "No test runs the generator.",
 [GEN, G], [("templates and emitters", GEN)],
 ["the checks of the codec, of dispatch and of the client run on the regenerated package"])

prop("C21", "The ufs command exports its root durably and stays up",
 "The ufs command serves the tree under its root option at the address it is given to any number of clients, keeps answering correctly whatever other clients send or however they disconnect, and any write, create, remove or wstat it has acknowledged is in the host file system even if the process is killed immediately afterwards.",
 ["crash_points", "inputs", "configurations"], "all client behaviours, all points at which the process can be killed, all option settings for root, address, user and debug",
 "The command has no tests.",
 ["cmd/ufs/ufs.go", FS, SRV], [("main", "cmd/ufs/ufs.go"), ("NewUFS", FS), ("Serve", SRV)],
 ["the real process over TCP", "host tree after SIGKILL"])

prop("C22", "Walk visits names in order and is all-or-nothing for the new fid",
 "A walk returns one identity per name that could be visited, in order, each that of the file reached by the path so far; if the first name cannot be visited it fails, and if a later one cannot it returns only the identities visited. The new fid is established, denoting the last file, exactly when every name was visited, and the original fid is unchanged unless it is the new fid; a walk of no names duplicates the fid without its open state.",
 ["inputs", "histories"], "all trees, starting points and name sequences, with new fid equal to, different from or in conflict with existing ones",
 "TestMount walks to three existing files and one missing one.",
 [FS], [("Rwalk", FS)],
 ["Rwalk replies compared with the host tree", "stat through both fids afterwards"])

prop("C23", "Negotiated message sizes are kept, and the iounit fits them",
 "The message size in a version reply is no larger than the client asked for. From then until the session is restarted no reply to a read, of a file or a directory, is longer than it, whatever count is asked for; a refused version request does not change it, nor does another connection. The iounit in the reply to an open or create is zero or a number of bytes that one message of that size has room for: reading that many from a file that holds them returns all of them, and writing that many is acknowledged in full.",
 ["inputs", "histories"], "all message sizes, negotiated at any point of a session, x all files, modes and counts",
 "The tests negotiate 8000 and never look at the sizes of replies or at the iounit.",
 [FS], [("Rversion, msize", FS), ("iounit", FS), ("Rread", FS)],
 ["Rversion, Ropen and Rcreate replies", "lengths of Rread replies and counts of Rwrite replies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
