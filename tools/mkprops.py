import json
S="secure-computation-library/"
NET=S+"src/scl/net/"; NETI=S+"include/scl/net/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","TurboPack: every output owner obtains the circuit's value",
 "For every well-formed layered arithmetic circuit, every assignment of inputs to their owners and every admissible number of parties, threshold (at least one) and packing size, running all preprocessing and online phases gives each output owner exactly the value the circuit has in the clear. This holds whatever the scheduling of parties and of the sender and receiver threads inside a party, the transport used (TCP or in-memory), and the delays and segmentation of the network.",
 ["programs","inputs","configurations","schedules"],
 "all circuits (any mix of inputs, additions, multiplications, layers, layer widths not divisible by the packing size, empty layers, outputs taken from any wire, any owners), all field inputs, all n = t+2(k-1)+1 with 1 <= t < n/2, all interleavings and network timings",
 "The unit tests run all parties in one thread, phase by phase in lock step, over in-memory channels, with a handful of fixed circuits and odd n = 4m+1 and even t only; concurrent phases, TCP and other shapes are never run by a test.",
 ["src/tp/circuits.h","src/tp/circuits/offline.cc","src/tp/circuits/online.cc","src/tp/correlator.cc","src/tp/fi_prep.cc","src/tp/mult_gate.cc","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/gate.h",S+"include/scl/ss/packed.h",S+"include/scl/ss/evpoly.h"],
 [("function-independent preprocessing","src/tp/fi_prep.cc"),("function-dependent preprocessing","src/tp/correlator.cc"),("batched multiplication through P1","src/tp/mult_gate.cc"),("input and output protocols","src/tp/input_gate.h, src/tp/output_gate.h")],
 ["outputs returned to each owner after the online phase"])
prop("C02","DN07 baseline: every output owner obtains the circuit's value",
 "For every well-formed layered arithmetic circuit, every assignment of inputs and every party count and threshold the baseline protocol accepts, running its preprocessing and online phases gives each output owner exactly the value the circuit has in the clear. This holds whatever the scheduling of parties and of the threads inside a party, the transport, and the network's delays and segmentation.",
 ["programs","inputs","configurations","schedules"],
 "all circuits, inputs and (n, t) with t >= 1 and t < n/2, all interleavings and network timings",
 "The tests run the baseline in lock step in one thread for a few fixed circuits with n = 2t+1; other ratios n > 2t+1, threads and TCP are not reached.",
 ["src/tp/dn07.h","src/tp/dn07.cc"],
 [("random and double sharings","src/tp/dn07.cc"),("P1-centred multiplication","src/tp/dn07.cc"),("acceptance of n and t","src/tp/dn07.h")],
 ["per-owner results after the output phase"])
prop("C03","A crash, lost connection or failed call never yields a wrong result",
 "Once the parties are connected, if a party crashes at any point, a connection is reset, or a system call or allocation fails at any point, every other party either finishes with the correct outputs or stops with an error. No party ever reports a wrong value as its result, and none waits for ever: all survivors end within bounded time after the fault.",
 ["crash_points","fault_sequences","schedules"],
 "all protocols, all crash/reset/failed-call points (process death, so the kernel closes its sockets), all interleavings",
 "No test injects any fault; peers always stay alive and every read and write succeeds.",
 [NET+"tcp_channel.cc",NET+"tcp_utils.cc",NETI+"tcp_channel.h",NET+"mem_channel.cc",S+"src/scl/prg.cc","src/tp/fi_prep.cc","src/tp/mult_gate.cc"],
 [("receive completes or reports an error",NET+"tcp_channel.cc"),("send completes or reports an error",NET+"tcp_channel.cc"),("system-call errors become exceptions",NETI+"tcp_utils.h")],
 ["per-party exit status and outputs; peers' progress after the fault"])
prop("C04","Connection setup wires every pair of parties together under any start order",
 "Whatever the order and delays in which the parties start, and however many connection attempts are refused before a peer listens, setting up the network ends at every party soon after the last one has started, and from then on what a party sends to party j is what party j receives from that party, exactly and in order, for every pair and for a party with itself. Two parties never end up with crossed, shared or missing links. This holds again when networks are set up one after another on the same ports, and set-up does not end at a party that was contacted under an index that is out of range, its own or already taken.",
 ["schedules","fault_sequences","configurations"],
 "all numbers of parties, start orders, start delays, refused/slow connects, accept orders, both kinds of TCP network, any order of parties in the configuration",
 "The tests connect two or three parties on fixed ports with whatever order the OS happens to produce.",
 [NET+"network.cc",NET+"tcp_utils.cc",NET+"config.cc",NETI+"network.h",NETI+"config.h"],
 [("lower ids accept, higher ids connect and announce themselves",NET+"network.cc"),("retry until the peer listens",NET+"tcp_utils.cc"),("addressing of parties",NETI+"config.h")],
 ["labelled messages exchanged on every link after setup"])
prop("C05","A TCP channel delivers the byte stream unchanged, complete and in order",
 "Everything written to a TCP channel arrives at the other end complete, unchanged, in order and exactly once, whatever sizes the writer and the reader use and however the operating system splits reads and writes. A receive returns normally only when all the bytes it was asked for have arrived; if the connection ends or fails first it reports an error.",
 ["schedules","fault_sequences","inputs"],
 "all message and read sizes, short reads/writes, buffer sizes, delays, both directions used at once by different threads, peer close or reset at any point",
 "Loopback tests send a few short messages; the kernel never splits them and the peer never closes early.",
 [NET+"tcp_channel.cc",NET+"tcp_utils.cc",NETI+"tcp_channel.h"],
 [("loops over short writes and reads",NET+"tcp_channel.cc"),("error reporting",NET+"tcp_channel.cc")],
 ["bytes returned by receives versus bytes passed to sends"])
prop("C06","Background-sending channels: no blocking, nothing lost, clean close",
 "On a network with background sending, handing a message to a channel never waits for the peer, so parties that all send before any of them receives always complete, whatever the message volume. Everything sent before an orderly close or destruction of the channel is delivered in order and exactly once to a peer that keeps reading, and closing or destroying the channel terminates once the peer reads on, closes or ends, and leaves no thread behind.",
 ["schedules","fault_sequences","configurations"],
 "all message volumes relative to socket buffers, all numbers of parties, all interleavings of sending, background transmission, close and destruction, peers that close or crash",
 "The tests send a few bytes, always close explicitly and run on whatever schedule occurs.",
 [NETI+"threaded_sender.h",NET+"threaded_sender.cc",NET+"network.cc",NETI+"shared_deque.h"],
 [("send queue drained by a sender thread",NET+"threaded_sender.cc"),("stop signal on close",NET+"threaded_sender.cc"),("choice of channel kind on both sides of a link",NET+"network.cc")],
 ["time and completion of sends, bytes received by the peer, termination of close"])
prop("C07","In-memory channels are reliable FIFO byte streams between threads",
 "Everything sent on an in-memory channel is received by the other end (or by itself, for a self-channel) complete, in order and exactly once, for any pattern of send and receive sizes and any interleaving of sending and receiving threads. A receive waits until enough bytes exist and then always proceeds; discarding buffered data removes exactly what was sent before and affects nothing sent later.",
 ["schedules","histories","inputs"],
 "all send/receive size patterns including zero-length and straddling messages, both directions at once, several links, all interleavings of the threads",
 "The tests use a channel from a single thread with small fixed messages, so no wake-up, leftover or interleaving case beyond one or two is exercised.",
 [NETI+"mem_channel.h",NET+"mem_channel.cc",NETI+"shared_deque.h"],
 [("blocking queue with lock and condition",NETI+"shared_deque.h"),("leftover buffer for partially consumed messages",NET+"mem_channel.cc")],
 ["bytes received versus bytes sent, blocked receivers"])
prop("C08","Typed messages arrive intact or are rejected, never misread",
 "A vector, matrix, element array or scalar sent over any channel is received equal to what was sent, in order, for every size including empty, however the transport splits it. A length header that announces more than the documented limit, or a message cut off in the middle, makes the receiver report an error instead of returning data or touching memory outside its buffers.",
 ["inputs","histories","fault_sequences","schedules"],
 "all element types, shapes, interleavings of message kinds, all (malicious) header values, truncation at every byte, all transports and segmentations",
 "Tests send one or two small well-formed messages; headers are never hostile and messages never cut.",
 [NETI+"channel.h",S+"include/scl/math/vec.h",S+"include/scl/math/mat.h",S+"include/scl/math/ff.h"],
 [("size headers and limits",NETI+"channel.h"),("element (de)serialisation",S+"include/scl/math/vec.h")],
 ["received values, raised errors, memory outside the destination"])
prop("C09","Discovery: all parties end with the same, correct table of parties",
 "When every party reports to the discovery service, whatever the order, delays and segmentation of their messages, all of them and the service end with the same table, in which every party appears once under its own id with the port it announced and the address it connected from. Announcements that claim an id out of range or already taken make the service fail with an error rather than publish a table, and a client that is sent a table with such an id, without an entry for itself or cut off ends with an error.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all party counts, ids of the service's party, arrival orders, host placements, announced ports, conflicting or invalid announcements, a client that dies mid-announcement",
 "One test with scripted mock channels and one loopback test: a single arrival order and host.",
 [NET+"discovery/server.cc",NET+"discovery/client.cc",NETI+"discovery/server.h"],
 [("collection of ids, ports and addresses",NET+"discovery/server.cc"),("distribution of the table",NET+"discovery/server.cc"),("reassembly at the client",NET+"discovery/client.cc")],
 ["configurations returned at the service and at every client"])
prop("C10","Preprocessing yields consistent sharings, correct triples and zero sharings",
 "After function-independent preprocessing the parties' shares fit together: each wire mask is shared as one value repeated in every packed slot with the intended degree, each multiplication batch carries packed sharings whose third member is the slot-wise product of the first two, and every zero sharing is zero in all slots. The mask of an addition or output wire is the sum of, or equal to, its parents' masks.",
 ["schedules","programs","configurations"],
 "all circuits, n, t, k and all schedules of the sending and receiving threads of all parties",
 "The tests inspect single-threaded lock-step runs with few parameters, and the threaded phases used by the programs are never run by a test.",
 ["src/tp/fi_prep.cc","src/tp/correlator.h",S+"include/scl/ss/packed.h"],
 [("randomness extraction over all parties","src/tp/fi_prep.cc"),("product computation through P1","src/tp/fi_prep.cc"),("mapping of shares to gates","src/tp/correlator.h")],
 ["all parties' shares per gate and per batch after preprocessing"])
prop("C11","Every wire satisfies value = masked value + mask",
 "After an honest execution, for every input, addition, multiplication and output wire of the circuit, the masked value held by the first party plus the mask the parties jointly hold equals the wire's value in the clear. This holds for every layer and every position within a batch, including the last partly filled batch.",
 ["programs","inputs","schedules","configurations"],
 "all circuits, inputs, parameters and schedules; all wires",
 "The tests look at outputs only, for a few circuits with dummy or lock-step preprocessing; errors on wires that cancel out or do not feed an output stay invisible.",
 ["src/tp/gate.h","src/tp/mult_gate.cc","src/tp/mult_gate.h","src/tp/input_gate.h","src/tp/correlator.cc"],
 [("P1 learns masked outputs of each batch","src/tp/mult_gate.cc"),("masked values propagate through additions","src/tp/gate.h"),("owner masks inputs","src/tp/input_gate.h")],
 ["first party's masked wire values, all parties' mask shares, clear evaluation"])
prop("C12","Correlated randomness is used once: no mask or zero sharing is reused",
 "Every multiplication and input wire gets its own mask, every multiplication batch its own random pair and its own zero sharings, and every input and output batch a zero sharing of its own; no item of correlated randomness serves two purposes in one execution. For the baseline protocol, every input and every multiplication consumes its own random sharing.",
 ["programs","configurations","schedules"],
 "all circuits and parameters (in particular counts that do not fill the last block), all schedules",
 "Correctness tests pass when masks repeat; no test compares preprocessing items with each other.",
 ["src/tp/fi_prep.cc","src/tp/correlator.h","src/tp/circuits/offline.cc","src/tp/dn07.cc"],
 [("counters that hand out preprocessed items","src/tp/correlator.h"),("distribution of extracted zero sharings","src/tp/fi_prep.cc"),("mapping to gates","src/tp/dn07.cc")],
 ["masks and zero sharings attached to gates and batches at every party; masked shares on the wire"])
prop("C13","Every message sent in an execution is consumed exactly once",
 "When a protocol execution has finished at every party, everything that was sent on any channel has been received by its addressee: nothing is left in a channel, lost or consumed twice. The amount of data each party sends to each other party in each execution depends only on the circuit and the parameters, not on timing or on the inputs.",
 ["programs","schedules","configurations","inputs"],
 "all circuits, parameters, inputs, interleavings and network timings, both protocols",
 "Left-over or missing messages do not show in tests that stop after reading the result; counts on channels are never compared.",
 ["src/tp/fi_prep.cc","src/tp/correlator.cc","src/tp/mult_gate.cc","src/tp/dn07.cc","src/tp/circuits/online.cc"],
 [("matching send and receive loops per phase","src/tp/fi_prep.cc, src/tp/correlator.cc, src/tp/dn07.cc")],
 ["bytes sent and received per ordered pair of parties at the end of an execution"])
prop("C14","Online communication is constant per gate and matches the protocol",
 "In TurboPack's online phase a layer with w multiplications makes the first party send two field elements per batch of k gates to every party and every party send one back, so the traffic per layer is 3n*ceil(w/k) elements (an empty layer counts as one batch); each input costs one element and each output one element. Additions cost nothing.",
 ["programs","configurations","schedules"],
 "all circuits, widths, packing sizes, numbers of parties and schedules",
 "No test measures communication; a version that sends more, or per gate instead of per batch, passes them all.",
 ["src/tp/mult_gate.cc","src/tp/mult_gate.h","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/circuits/online.cc","src/tp/circuits/building.cc"],
 [("batched multiplication","src/tp/mult_gate.cc"),("filling and padding of batches","src/tp/mult_gate.h")],
 ["bytes sent per ordered pair of parties per online phase and layer"])
prop("C15","The concurrent phases complete whatever the capacity of the connections",
 "The phases that a party runs with sending and receiving concurrently, and the online phase of TurboPack, complete at every party for every buffering capacity of the connections, every relative speed of the parties and every schedule. A stalled or slow party or link delays the others but once it recovers all of them finish within a bounded number of steps.",
 ["schedules","configurations","fault_sequences"],
 "all buffer capacities from a few bytes up, party and link stalls, partitions that heal, all schedules; function-independent preprocessing, product generation, TurboPack's online phase, baseline's preprocessing and multiplications",
 "Tests use unbounded in-memory queues in one thread, where a send can never block and a wrong order of operations can only show as a hang that the test author would have removed.",
 ["src/tp/fi_prep.cc","src/tp/mult_gate.cc","src/tp/dn07.cc","src/tp/circuits/online.cc","experiments/ours.cc","experiments/dn07.cc"],
 [("same order of sends and receives at all parties","src/tp/fi_prep.cc"),("sender thread next to the receiver","experiments/ours.cc")],
 ["completion of each phase at each party"])
prop("C16","The shipped programs compute the right result for every accepted argument",
 "Started as n processes in any order with the same accepted arguments, the two benchmark programs connect, run and all end normally, and the result the first party obtains equals the clear evaluation of the circuit; so does a further run on the same ports as soon as every process of the one before has ended. Any of them being killed once all are connected makes the rest stop with an error, not report success with a wrong result or hang.",
 ["configurations","schedules","crash_points"],
 "all accepted numbers of parties, circuit sizes and depths, start orders, schedules and network timings",
 "The programs are not covered by the tests at all, and their own final check is compiled out in release builds.",
 ["experiments/ours.cc","experiments/dn07.cc","src/tp/circuits/generic.cc",NET+"network.cc"],
 [("order and threading of the phases","experiments/ours.cc, experiments/dn07.cc"),("synthetic circuit generation","src/tp/circuits/generic.cc")],
 ["exit status of all processes, comparison with the clear result"])
prop("C18","Executions that share a network do not disturb each other",
 "Several circuits evaluated one after another over the same connections each give the correct result at every party, even when some parties are already in the next execution while others are still finishing the previous one. Networks of different groups of parties in one program are independent of each other.",
 ["histories","schedules","programs"],
 "all sequences of executions of either protocol with differing circuits and inputs, all relative speeds of the parties, concurrent independent groups",
 "Each test builds fresh channels and runs one execution.",
 ["src/tp/circuits/online.cc","src/tp/fi_prep.cc","src/tp/dn07.cc",NET+"mem_channel.cc",NETI+"network.h"],
 [("each phase consumes exactly its own messages","src/tp/fi_prep.cc, src/tp/dn07.cc"),("no state shared between objects",S+"src/scl/prg.cc")],
 ["outputs of every execution at every party"])
prop("C19","Shares corrupted by up to t parties never change a reconstructed secret",
 "When a secret shared among parties with threshold t is reconstructed from shares received from them, and at most t of the senders lie or are corrupted in transit, reconstruction with error detection from at least 2t+1 shares returns the secret or reports an error, and reports an error whenever a share it needs is wrong; reconstruction with error correction from at least 3t+1 shares returns the secret; from fewer either is refused. Plain reconstruction from any t+1 correct shares, and additive and packed reconstruction from all shares, return what was shared.",
 ["fault_sequences","inputs","schedules"],
 "all secrets, thresholds, party counts, sets of at most t corrupted senders, corruption values, arrival orders",
 "The tests corrupt one or two fixed positions with one value for one parameter set.",
 [S+"include/scl/ss/shamir.h",S+"include/scl/ss/packed.h",S+"include/scl/ss/additive.h",S+"include/scl/ss/poly.h",S+"include/scl/math/la.h"],
 [("consistency check of the extra shares",S+"include/scl/ss/shamir.h"),("error-locating linear system",S+"include/scl/ss/shamir.h")],
 ["value returned or error raised at the receiver"])
prop("C20","A party table read from disk is complete and addressed by id, or refused",
 "Loading a network configuration yields exactly the parties stored in the file, and looking up a party by id gives the entry stored for that id whatever the order of the lines. A read error while loading, a malformed line (a field missing, an id or port that is not a number or not a possible port), a duplicate or out-of-range id, or an own id outside the table makes loading fail with an error; it never yields a shortened or mixed table.",
 ["fault_sequences","inputs","histories"],
 "all tables and line orders, all points at which a read fails or comes back short, damaged files",
 "The tests load a few intact files; reads never fail.",
 [NET+"config.cc",NETI+"config.h"],
 [("line-wise parsing",NET+"config.cc"),("validation of ids",NET+"config.cc")],
 ["loaded table versus file contents, raised errors"])
prop("C21","The digest of a stream does not depend on how it was cut into pieces",
 "Feeding a byte stream to the incremental hash in pieces, of whatever sizes the network happened to deliver it, gives the same digest as feeding it in one piece, and that digest is the function's digest of all the bytes, so any two streams that differ in a byte have different digests.",
 ["histories","inputs","schedules"],
 "all streams, all segmentations, all three digest sizes, several interleaved hash computations",
 "The tests hash a few short strings mostly byte by byte or in one update.",
 [S+"include/scl/hash.h",S+"src/scl/hash.cc"],
 [("buffering of partial words between updates",S+"include/scl/hash.h")],
 ["digests computed by sender and receiver of a stream, reference digest"])
prop("C22","Concurrent phases and channels are free of data races",
 "In every execution, two threads of a party never access the same memory without synchronisation when one of them writes: not in the phases the programs run concurrently, not in channels used by one sending and one receiving thread, and not during connection setup, background sending or closing.",
 ["schedules","programs","configurations"],
 "all interleavings of a party's threads at memory-access granularity; both protocols, all channel kinds, setup and close",
 "The tests run phases single-threaded and no sanitizer is part of them; a race shows at most as a rare failure.",
 ["src/tp/fi_prep.cc","src/tp/dn07.cc",NETI+"shared_deque.h",NET+"threaded_sender.cc",NETI+"tcp_channel.h",NET+"network.cc"],
 [("lock-protected queue",NETI+"shared_deque.h"),("disjoint state of sending and receiving phases","src/tp/fi_prep.cc"),("join of the accepting thread",NET+"network.cc")],
 ["conflicting unordered accesses in a simulated execution"])
prop("C23","Parties with a common seed draw identical randomness, or an error",
 "Parties that hold the same seed and make the same sequence of requests obtain identical randomness, however their execution is interleaved with other generators, and resetting a generator replays its sequence from the start. Bytes already drawn are never produced again before a reset, and if memory for a request cannot be allocated the request fails with an error and writes nothing as if it were random.",
 ["schedules","histories","fault_sequences"],
 "all seeds, request-size sequences, interleavings of several generators, resets, allocation failures at any request",
 "The tests compare one or two single-threaded generators and never let an allocation fail.",
 [S+"src/scl/prg.cc",S+"include/scl/prg.h"],
 [("counter-mode state kept per generator",S+"src/scl/prg.cc"),("allocation check",S+"src/scl/prg.cc")],
 ["byte streams drawn by each party"])
prop("C24","What t parties see reveals no relation of degree two about other parties' inputs",
 "If the randomness each party deals is uniform and independent, then whatever any t parties send and receive in an execution, and whatever randomness they chose themselves, gives them no value and no linear or quadratic relation that depends on other parties' inputs beyond what their own inputs and the outputs they own imply. This holds in both protocols, in all preprocessing and online phases, for every circuit and every schedule.",
 ["programs","inputs","configurations","schedules"],
 "all circuits, inputs, parameters, coalitions of at most t parties (with or without the first party), all schedules; linear relations over all messages, quadratic ones over products of a bounded set of them",
 "Every test compares values only: a missing mask, a sharing of too low a degree or a reused zero sharing changes no output.",
 ["src/tp/fi_prep.cc","src/tp/correlator.cc","src/tp/correlator.h","src/tp/mult_gate.cc","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/dn07.cc",S+"include/scl/ss/packed.h"],
 [("masks, zero sharings and degrees of the sharings","src/tp/fi_prep.cc"),("zero sharings added to opened values","src/tp/mult_gate.cc, src/tp/input_gate.h, src/tp/output_gate.h"),("double sharings","src/tp/dn07.cc")],
 ["messages between coalition and other parties in repeated executions that differ in the other parties' randomness and inputs only"])
prop("C25","A network gives back everything it opened, exactly once",
 "Closing or destroying a network, or finishing a discovery, gives back everything it opened: every descriptor it opened is closed exactly once and no thread, connection or listening socket remains. This holds however often networks are set up and torn down, in whatever order the parties close and whether a peer closed, reset or crashed first, and no channel reads, writes or closes a descriptor it has already closed.",
 ["histories","fault_sequences","schedules"],
 "all sequences of setup, use, close, repeated close and destruction, both kinds of TCP network and the discovery service, all orders in which parties close, peers that die, failing reads and writes",
 "A leaked or doubly closed descriptor is invisible in a test of one or two networks; it shows when descriptors run out or when the number has been given to another connection.",
 [NET+"tcp_channel.cc",NETI+"tcp_channel.h",NET+"network.cc",NET+"threaded_sender.cc",NETI+"threaded_sender.h",NET+"discovery/server.cc",NET+"discovery/client.cc",NET+"tcp_utils.cc"],
 [("close once, then mark as closed",NET+"tcp_channel.cc"),("join of the sender thread",NET+"threaded_sender.cc"),("closing of the listening socket",NET+"network.cc, "+NET+"discovery/server.cc")],
 ["descriptor table and threads of each party after teardown; operations on descriptors that are not open"])
prop("C26","The online phases are right for every consistent preprocessing",
 "The phases after preprocessing give every output owner the circuit's value whatever masks the wires carry: dealt by the protocol, all zero, one constant, or chosen per wire, and likewise when the function-dependent preprocessing of either protocol runs on constant material. The library's functions that fill in such preprocessing therefore agree with the shares and positions the parties use, for all party counts, packing sizes and circuits.",
 ["programs","inputs","configurations","schedules"],
 "all circuits, inputs, parameters, mask values including 0 and -1, all ways of filling in preprocessing, transports and schedules",
 "The tests use equal masks on all wires, which hide wrong evaluation points and mixed-up wires: every sharing is then constant.",
 ["src/tp/circuits/offline.cc","src/tp/correlator.h","src/tp/correlator.cc","src/tp/mult_gate.h","src/tp/mult_gate.cc","src/tp/input_gate.h","src/tp/output_gate.h","src/tp/gate.h","src/tp/dn07.cc"],
 [("preprocessing from given masks","src/tp/circuits/offline.cc, src/tp/mult_gate.h, src/tp/input_gate.h, src/tp/output_gate.h"),("constant material","src/tp/correlator.h, src/tp/dn07.cc")],
 ["outputs of each party"])
prop("C27","The number of communication rounds depends on the circuit's depth only",
 "A phase never makes more messages wait for one another than the protocol needs, however many gates, batches, inputs, outputs and parties there are: in TurboPack one round for the function-independent sharings, two for the products and two for the function-dependent preprocessing, online one for the inputs, two per layer and one for the outputs; in the baseline one for each preprocessing phase, two for the inputs, two per layer and one for the outputs. So the time of an execution over a slow network is its depth times the latency.",
 ["programs","configurations","schedules"],
 "all circuits, parameters and schedules, both protocols, both TCP networks, connections that buffer what is sent",
 "Tests run in memory or on one machine, where a message exchange per gate or per party instead of one per layer costs nothing noticeable and changes no value.",
 ["src/tp/circuits/online.cc","src/tp/circuits/offline.cc","src/tp/circuits.h","src/tp/fi_prep.cc","src/tp/correlator.cc","src/tp/mult_gate.cc","src/tp/mult_gate.h","src/tp/dn07.cc","src/tp/dn07.h",NET+"threaded_sender.cc",NET+"tcp_channel.cc"],
 [("all batches of a layer per step","src/tp/circuits/online.cc, src/tp/mult_gate.h"),("all batches sent before any answer","src/tp/circuits/offline.cc"),("all gates of a layer per step","src/tp/dn07.cc")],
 ["simulated time of each phase in units of the latency"])
prop("C28","A queue shared by threads is a queue",
 "Any number of threads may add to a shared queue, take from it and ask for its size at once, and a thread that alone takes may also look at the front: the results are those of some order of the operations that respects real time, and every element added is taken exactly once, unchanged and in the order added. A thread that finds the queue empty waits, and proceeds as soon as there is an element for it. An operation that fails for lack of memory leaves the queue as it was.",
 ["schedules","histories","fault_sequences"],
 "all interleavings, at memory-access granularity, of several adding, taking and inspecting threads; copyable, movable and owning elements; allocation failures",
 "The tests use the queue from one thread, or from two in the one interleaving that happens; a lost wake-up or an unlocked access needs a particular one.",
 [NETI+"shared_deque.h",NETI+"mem_channel.h",NETI+"threaded_sender.h",NET+"threaded_sender.cc",NET+"mem_channel.cc"],
 [("lock held over each operation",NETI+"shared_deque.h"),("wake-up of a waiting thread per element added",NETI+"shared_deque.h")],
 ["history of operations and their results, blocked threads at the end"])
prop("C29","Memory follows what is in use",
 "Channels hold no memory for what has been received, however much has passed through them and however far receivers stay behind. When everything made for an execution, a network, a discovery or a channel is dropped, its memory and the network itself are given back, whether it ended normally or a peer closed early, so that repeating it does not make the process grow.",
 ["histories","fault_sequences","programs","schedules"],
 "all series of executions, networks, discoveries and channels in one process; all message sizes, receive sizes and backlogs; all transports; peers that close early",
 "A test ends before growth shows, and every value stays right.",
 [NETI+"shared_deque.h",NET+"mem_channel.cc",NETI+"mem_channel.h",NET+"threaded_sender.cc",NET+"tcp_channel.cc",NET+"network.cc",NET+"discovery/server.cc","src/tp/circuits.h","src/tp/mult_gate.h","src/tp/output_gate.h","src/tp/input_gate.h","src/tp/correlator.h","src/tp/dn07.h"],
 [("removal of received data",NET+"mem_channel.cc, "+NETI+"shared_deque.h"),("ownership between gates, batches, circuits and networks","src/tp/mult_gate.h, src/tp/output_gate.h, src/tp/input_gate.h")],
 ["bytes allocated by the parties and not freed, descriptors open after the last reference to a network is gone"])
prop("C33","A refused call changes nothing",
 "A call that comes too early or does not fit is refused with an error at any point of an execution: setting a network on an open circuit, preparing material without a network, a threshold or party count the parameters exclude, inputs that are too many or too few, values of wires that are not known yet. A refused call changes nothing: the party that made it, and everybody it works with, carries on as if it had not been made, and the outputs are right.",
 ["histories","programs","schedules"],
 "all sequences of refused calls at all points of an execution of both protocols, all circuits, parameters and transports",
 "The tests make a few such calls on a fresh object and then throw the object away.",
 ["src/tp/circuits.h","src/tp/circuits/online.cc","src/tp/circuits/offline.cc","src/tp/circuits/cleartext.cc","src/tp/correlator.h","src/tp/dn07.h","src/tp/dn07.cc","src/tp/gate.h","src/tp/input_gate.h","src/tp/mult_gate.h","src/tp/output_gate.h"],
 [("checks before any change of state","src/tp/circuits.h, src/tp/circuits/online.cc, src/tp/correlator.h"),("values remembered only once they are known","src/tp/gate.h, src/tp/output_gate.h")],
 ["errors of refused calls, outputs of each party, messages left over"])
prop("C34","The programs report how long each phase took",
 "Each process of the two benchmark programs that ends normally has reported, once for each of its three phases, in their order and in the form the result parser reads, how many microseconds the phase took on that process: at least the time from the first to the last message it sent or received in the phase, at most the time from the last message before the phase to the report. This holds whatever the schedule, the volume, delays and stalls, and however the wall clock of the machine is wrong or set meanwhile.",
 ["schedules","fault_sequences"],
 "all accepted arguments, all schedules, delays and stalls, all settings of the wall clock",
 "The tests do not run the programs; a real run has one unknown timing, and clocks are set rarely.",
 ["experiments/ours.cc","experiments/dn07.cc","experiments/misc.h","parse_files.py"],
 [("timers around the phases","experiments/misc.h START_TIMER, STOP_TIMER; experiments/ours.cc, experiments/dn07.cc"),("lines the parser expects","parse_files.py")],
 ["report lines with their time, times of the messages of each phase"])
# not claimed
prop("C30","Field, ring, vector, matrix and polynomial arithmetic obey their laws",
 "Field and ring elements, vectors, matrices and polynomials satisfy the algebraic laws of the structures they represent, for all operands, and values survive conversion to and from bytes and text.",
 ["inputs"],"all operands of all element types","Tests sample a few operands.",
 [S+"include/scl/math/ff.h",S+"include/scl/math/z2k.h",S+"include/scl/math/la.h",S+"include/scl/ss/poly.h"],
 [("modular arithmetic",S+"src/scl/math/fields/mersenne61.cc")],["results of operations"])
prop("C31","No coalition of t parties learns anything about other parties' inputs",
 "The joint view of any t parties is distributed independently of the other parties' inputs beyond what the outputs reveal.",
 ["inputs","programs"],"all coalitions of size t, inputs and circuits","Tests check values only, not distributions.",
 ["src/tp/fi_prep.cc","src/tp/correlator.cc","src/tp/correlator.h",S+"src/scl/prg.cc"],
 [("masking with jointly generated randomness","src/tp/fi_prep.cc")],["messages seen by a coalition"])
prop("C32","Clear evaluation and circuit construction agree with the circuit's definition",
 "Evaluating a circuit in the clear returns for every output the value defined by its gates, circuits generated from parameters have the requested shape, and inconsistent parameters are refused.",
 ["programs","inputs"],"all circuits and parameters","Tests cover a few circuits.",
 ["src/tp/circuits/cleartext.cc","src/tp/circuits/generic.cc","src/tp/circuits/building.cc"],
 [("recursive evaluation","src/tp/gate.h")],["clear outputs and circuit metrics"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,sch); assert p["statement"].count(". ")<=2,(p["id"],p["statement"].count(". "))
print(len(P))
