import json
T={
"P01":("stateless exploration of all thread interleavings (preemption-bounded, visited-state pruning) of the real server on a simulated kernel; linearizability search per execution","race pairs 1x1 and 2x2 with 1-2 preemptions, three threads, clock steps and staggered arrivals; complete within these bounds"),
"P02":("exhaustive enumeration of command sequences and value sizes executed on the real server under the simulated kernel, against a reference map","all sequences up to the depth over adversarial keys and values, all sizes around buffer boundaries"),
"P03":("exhaustive enumeration of SET/GET/clock-step histories on the real server with a controlled clock, against a reference map with deadlines","all histories up to the depth; boundary and huge times to live"),
"P04":("exhaustive enumeration of segmentations of request streams fed to the real server, against the one-segment result","every set of up to k cut positions of the catalogue streams, byte-by-byte delivery"),
"P05":("exhaustive exploration of arrival orders, overlaps, completion reorderings and short writes of pipelines on the real server","early/order/short budgets of 1-3 on up to three connections, deep pipelines"),
"P06":("exhaustive enumeration of byte strings and frame mutations run through the real Frame::check and Frame::parse, against an independent grammar","all strings up to the length over the protocol alphabet, all prefixes and single-byte mutations of generated frames"),
"P07":("exhaustive enumeration of malformed inputs interleaved with well-formed traffic on the real server; liveness of every thread monitored","all short byte strings, catalogue of malformed requests at every position"),
"P08":("exhaustive enumeration of reply sizes, echoed bytes and short-write patterns on the real server; decoded byte for byte, heap canaries checked","all sizes around buffer boundaries, short writes within the budget"),
"P09":("stateless exploration of all interleavings of concurrent accepts on 2-3 threads of the real server; id uniqueness and order per execution","up to 4 connections, 1-2 preemptions; all churn histories up to the depth"),
"P10":("stateless exploration of connects, ends, renames and listings on the real server; every listing compared with what is open","all sequences up to the depth plus preemption-bounded interleavings on two threads"),
"P11":("stateless exploration of SETNAME/GETNAME/INFO/LIST programs on the real server against a reference model","all sequences up to the depth plus preemption-bounded interleavings on two threads"),
"P12":("exhaustive enumeration of argument lists executed on the real server against a reference command table","all argument lists up to the length over the token alphabet"),
"P13":("exhaustive enumeration of keys and partition counts through the real hash and storage code, against a bitwise CRC16 and interval arithmetic","all keys up to the length, all partition counts up to the bound"),
"P14":("exhaustive exploration of disconnect kind, byte position and moment on the real server","every byte of the streams, every end, early budgets of 1-2"),
"P15":("exhaustive enumeration of configuration files and environments through the real Cfg::from_env","all combinations of present, absent and invalid settings"),
"P16":("exhaustive injection of failing accepts, reads and writes at every point of the explored histories of the real server","up to 2 (3) faults per execution on one and two threads"),
"P17":("stateless exploration of connects and ends on the real server configured with small limits; number of served connections monitored","all sequences up to the depth for limits 1-3, preemption-bounded races on 2-3 threads"),
"P18":("stateless exploration of the real server; the heap blocks, bytes and sockets in use, counted by the controlled allocator and kernel, are compared between blocks of repetitions and before and after every interleaving of a race","every request and connection life and every pair, repeated 96 times; preemption-bounded races on two threads"),
"P19":("stateless exploration of the real server started on every set of simulated processors, kind of address and set of late threads, with all interleavings of the late starts; the binary started at addresses it can't have","1-32 processors, all subsets of the first 4 (8) and chosen larger ones, 2-3 threads of which all but one start late, 1-2 preemptions"),
"P20":("stateless exploration of the real server under a controlled scheduler and simulated kernel: one connection stuck or busy in every way, the others acting at every moment","every kind of reply stuck with 0-3 bytes of room, 2-150 stuck connections, backlogs of 200 (600) large requests with every moment of another's request, early 1 (2), 1 preemption"),
}
NA=[]
L={"P06":"exploration","P13":"exploration","P15":"exploration","P16":"fault_enumeration"}
c=[dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",technique=t,level=L.get(k,"model_checking"),level_note=n) for k,(t,n) in sorted(T.items())]
json.dump(dict(version=1,setup_cmd="bash mc/build.sh && bash mc/build_bin.sh",hooks=dict(guard="none",enable="no hooks: the explorer links /repo's crate as it is",source_commits=[]),checks=c,not_applicable=NA),open('/verif/MANIFEST.json','w'),indent=1)
