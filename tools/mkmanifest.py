"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('differential monitor: codec output against an independent reference codec', 'Every message type with edge and random values; byte-for-byte comparison, decode round trip, dirty buffers. Trusts the reference codec in wire.go, written from the 9P2000 layout.'),
 'C02': ('differential monitor over mutated and enumerated inputs, with panic detection', 'Exhaustive truncations and single-field corruptions plus random mutation per message type; decides accept/reject and values against the reference decoder.'),
 'C03': ('online trace monitor over segmented and cut byte streams', 'Every request handled once, in order, each reply matched; segmentations down to one byte, cuts at every offset, and over a million requests on one connection.'),
 'C04': ('crash and service monitor under hostile bytes and requests; the ufs process with limited memory', 'Any termination of the process, lost connection, executed malformed request or disturbed witness connection is reported. Fuzzing, not enumeration.'),
 'C05': ('online trace monitor of the negotiation gate', 'All request types and unknown types, before and after negotiation, on concurrent connections.'),
 'C06': ('end-to-end argument and result recording through the real client and server', 'Every operation, edge and random values, tracing on and off, in-memory, pipe and TCP transports.'),
 'C07': ('race detector and a scripted server monitoring tags, frames and reply matching', 'Up to hundreds of goroutines, five answering orders, all tags outstanding at once, more calls than tags, many clients of one process at once. Interleavings are sampled.'),
 'C08': ('fault injection with a stall oracle and reply-provenance monitor', 'Faults at every byte of a reply and of requests, invalid replies of every kind, random moments; a call that has not returned after 40 s of time in which this process ran counts as hanging.'),
 'C09': ('containment monitor: host tree outside the root compared after every request', 'Names of all hostile shapes through attach, walk, create and rename; replies are searched for outside content too.'),
 'C10': ('lockstep reference model of the fid table', 'Random histories and probes of every fid in the pool; model and replies compared after every request.'),
 'C11': ('lockstep model against the host file, with fault injection', 'Host content compared after every acknowledged write; reads compared byte for byte, over message sizes, modes, offsets, size limits.'),
 'C12': ('listing monitor against the host directory', 'Directories of many sizes and name lengths with varying counts; whole entries, exactly once, restart.'),
 'C13': ('attribute and identity monitor against lstat', 'All routes to the same file, hard links, links, special times; versions across modifications.'),
 'C14': ('whole-tree diff monitor around wstat', 'All field combinations over file kinds; the tree has to change exactly as asked.'),
 'C15': ('whole-tree diff monitor around create and remove', 'All kinds, modes and taken names; the tree has to change exactly as asked; the fid is used afterwards.'),
 'C16': ('descriptor and goroutine leak monitor (/proc/self/fd, stacks)', 'Garbage collection is off while judging; all ways for a connection to end, named pipes whose open blocks included.'),
 'C17': ('race detector, concurrent per-connection models, exact linearizability check of shared registers', 'Interleavings are sampled; the register check is exact for each recorded history.'),
 'C18': ('race detector and scripted listeners with a stall oracle', 'Scripts of connections, temporary and permanent errors and shutdowns, some of them in virtual time; TCP, Unix and a process out of descriptors.'),
 'C19': ('pass-through recording and lockstep comparison of debug on and off', 'Arguments, results, error identity, whole replies and resulting trees compared.'),
 'C20': ('regenerate, rebuild, and run the codec and dispatch monitors on both builds', 'The generator runs twice, the second time on its own output; both builds are held against the reference codec.'),
 'C21': ('process monitor: model-checked histories, SIGKILL after acknowledgement, hostile clients', 'Durability is against the death of the process, not of the host.'),
 'C23': ('monitor of reply sizes, iounits and acknowledged counts', 'Some seventy sizes in one session and on several, with the counts around them; as much is read and written in one message as the iounit says.'),
 'C22': ('lockstep model of walks against the host tree', 'Enumerated and random walks over directories, files, links, dot-dot, missing names, new, same and used fids.'),
}
checks = []
for i in sorted(T):
    t, n = T[i]
    checks.append({'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}', 'evidence_file': f'evidence/{i}.json',
                   'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': n})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: every oracle observes the public interface, raw connections, the host file system and /proc. Repairs of genuine defects are listed in known-findings.txt.'}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
