"""What each check runs: numbers of simulated runs per tier, and what its evidence says about them."""
WORKERS = 8
TIME = {"quick": 240, "thorough": 2400}
MINIMIZE = {"quick": 12, "thorough": 60}
ASSUMPTIONS = [
    "the simulated kernel (pipes, sockets, signals, processes, clocks) behaves like Linux for the calls the code makes; DESIGN.md lists its semantics",
    "threads interleave at simulated calls and (where enabled) at memory accesses of the code under test, under sequential consistency",
    "allocation failures below 1 GiB are not injected: the code does not claim to survive them",
]
LIB = "protocol library (src/*.c) and C++ interface (traxpp.cpp), compiled from /repo"
OS = "operating system: descriptors, pipes, loopback sockets, clocks, sleep, environment, scheduler"
SESS = {"real": [LIB + ", on both sides"], "stub": [OS, "tracker and client programs: generated callers of the interface"]}
PEER = {"real": [LIB + ", on one side"], "stub": [OS, "the peer: a scripted byte source and sink with a reference codec"]}
PROC = {"real": ["client support library (client.cpp, process.cpp, threads.cpp, timer.cpp)", LIB], "stub": [OS + ", threads, posix_spawn, signals, waitpid", "tracker programs: scripted, some on the real server side of the library"]}
CLI = {"real": ["command line client (cli.cpp, getopt.c)", PROC["real"][0], LIB], "stub": PROC["stub"] + ["files of the sequence: in a scratch directory"]}
TEST = dict(CLI); TEST.update(real=["tracker test tool (tester.cpp, tester_resources.c, getopt.c)", PROC["real"][0], LIB], stub=PROC["stub"] + ["temporary directory: a scratch directory"])
def c(kind, rule, q, t, **k): d = dict(kind); d.update(rule=rule, runs={"quick": q, "thorough": t}); d.update(k); return d
PYTH = {"real": ["Python package (support/python/trax/*.py) in the installed interpreter with numpy", "protocol library (src/*.c) compiled from /repo, through ctypes"], "stub": [OS + ", threads (one party runs at a time)", "tracker and client programs: generated callers of the package; in two thirds of the runs one side is a scripted peer with its own codec"], "engine": "python"}
MEX = {"real": ["Octave extension functions (traxserver.cpp, traxclient.cpp, helpers.cpp) compiled from /repo", PROC["real"][0], LIB], "stub": PROC["stub"] + ["the interpreter: a stand-in for the mx*/mex* functions that checks their use (values, ownership, thread)"]}
OCV = {"real": ["OpenCV conversion library (opencv.cpp) compiled from /repo, with the installed OpenCV core and imgproc", LIB + ", on both sides"], "stub": [OS, "decoding of image files and data (imread, imdecode): records what is asked for", "tracker and client programs: generated callers of the interface"]}
PLAY = dict(CLI); PLAY.update(real=["interactive player (player.cpp, getopt.c)", "OpenCV conversions and drawing (opencv.cpp) with the installed OpenCV core and imgproc", PROC["real"][0], LIB], stub=PROC["stub"] + ["windows, mouse, keys and video file (highgui, videoio), JPEG encoding"])
OBJ = {"real": ["objects of the C and C++ interface (trax.c, region.c, strmap.c, traxpp.cpp), compiled from /repo"], "stub": ["threads and their scheduling", "the application: generated calls"]}
CFG = {
 "C01": c(SESS, "A generated session (transport, protocol version, C or C++ on each side, metadata, steps with random texts) runs under random fragmentation, interruption and scheduling; everything received and the bytes on the wire are compared with what was sent.", 6000, 400000),
 "C02": c(SESS, "Generated sessions with images of every kind, size and channel combination; images received and their wire form are compared with those sent.", 5000, 400000),
 "C03": c(SESS, "Generated sessions with regions of every type and per-object properties in both directions, compared on receipt and on the wire.", 5000, 400000),
 "C04": c(SESS, "Generated sessions in which both programs print generated lines (any bytes, prefixes of messages, unknown types) between their messages.", 5000, 400000),
 "C05": c(PEER, "A scripted peer sends a generated conversation, cut at any byte, and then stops sending, closes, resets the connection or dies; every wait of the real side is compared with a model that only knows the complete messages.", 6000, 400000),
 "C06": c(PEER, "A scripted peer sends conversations with malformed, out-of-place or undecodable messages (compared exactly with a model) or with random byte mutations (checked for memory safety, termination and validity of everything returned).", 6000, 400000),
 "C07": c(PEER, "Every call that sends is compared with the bytes the transport accepted, while writes are fragmented, interrupted or fail at any point and the peer may leave.", 5000, 400000),
 "C08": c(SESS, "Generated multi-object sessions: sequences of initialisations, additions, frames, re-initialisations and wrong replies, compared with a model of the tracked objects.", 6000, 300000),
 "C09": c(SESS, "Generated sessions with calls that have to be refused at every point; transports, logs and later results are compared with a session without them.", 5000, 400000),
 "C10": c(SESS, "Generated sessions ended from either side or both, explicitly or by release, with copied session objects and further calls after the end.", 6000, 400000),
 "C11": c(SESS, "Generated declarations (version, formats, channels, names, custom properties) and sessions that need conversion, checked at the client and on the wire.", 5000, 400000),
 "C12": c(SESS, "One to three socket sessions whose clients and trackers listen, connect and accept at generated times, with signals, refused, aborted, interrupted and failing calls; results, virtual time and descriptor tables are compared with a model.", 5000, 200000),
 "C13": c(PROC, "One session whose trackers hang at any call, answer or before their introduction (some ignoring SIGTERM, some with closed streams, some with full pipes); every client call is bounded in virtual time, and the process table is checked after failures and at the end.", 5000, 200000),
 "C14": c(PROC, "One session whose trackers exit, crash or are killed at any I/O call, answer or instant; each call in progress has to fail within bounded virtual time and the client process has to survive.", 5000, 200000),
 "C15": c(PROC, "Sessions with slow but healthy trackers, long pauses of the client, resets and restarts under stalls and interrupted calls; no call may fail, no signal or quit may reach a tracker, answers are compared with a model.", 5000, 200000),
 "C16": c(PROC, "Sessions that fail to start (failing pipe, spawn, thread and socket calls), end or are abandoned in every state; process, descriptor, thread and heap tables of the client are compared before and after.", 5000, 200000),
 "C17": c(PROC, "Tracker processes write generated error output in any pieces and at any time before they end; the log stream is compared with what was written. Protocol sessions with logs are compared byte by byte with the transport.", 3000, 120000),
 "C18": c(PROC, "One to four callbacks, one of which asks for termination at any instant, with healthy, slow, hanging and stubborn trackers.", 6000, 200000),
 "C19": c(PROC, "Two or three tracker sessions (or protocol sessions) used from threads of one client process, with failures in some of them; each is compared with the model of a session of its own.", 4000, 120000),
 "C20": c(dict(real=SESS["real"], stub=SESS["stub"]), "Generated sessions with every outcome (refusals, protocol errors, write failures, peers that leave at any byte) and generated histories of copies, moves and assignments of the C++ objects, with results kept across calls; heap and descriptor tables are compared before and after, values with a model.", 6000, 400000),
 "C21": c(CLI, "The command line client evaluates generated sequences (images, ground truth and initialization files with gaps, thresholds, reinitialization, connection modes, image formats) with simulated trackers that answer, fail, die, hang, quit or cannot be started, under interrupts and failing calls; result and timing files, exit status, virtual time and everything each tracker received are compared with a model of the evaluation.", 6000, 300000),
 "C22": c(TEST, "The test tool tries generated trackers (protocol version, image and region formats, one or several objects, pace) that answer, die, hang, quit, answer wrongly or cannot be started, in every connection mode, with failing calls; exit status, virtual time, processes and everything the tracker received are compared with a model of the test.", 3500, 300000),
 "C23": c(PYTH, "A generated session of the Python package (client and server, or one of them against a reference peer; socket, pipes or standard streams) under fragmented, interrupted and stalled transfers; every object, image, property, declaration, answer, time and reason is compared with what the other side was given, and the logs with the bytes transferred.", 4000, 150000),
 "C24": c(PYTH, "Sessions of the Python package with refused calls, malformed and out-of-place messages, peers that never come, quit, leave or die in any write, and interrupts in the log callback; every call ends with a result or the exception of the package, and the blocks of the library and the descriptors are compared before and after.", 5000, 150000),
 "C25": c(MEX, "A generated tracker script calls the Octave server function (setup, wait, status, quit; wrong calls in between) in a session with the real client side, over pipes, standard streams or a socket, under fragmentation and interruption; the client may die at any of its calls. Values on both sides, errors, bytes sent by refused calls and memory afterwards are compared with a model.", 5000, 300000),
 "C27": c(OCV, "Both sides of a generated session build their images and regions from matrices, rectangles, points and masks of every type, size and memory layout and convert what they receive back, under fragmentation and interruption; matrices, regions, drawings (every pixel in and around the canvas), refusals and memory are compared with a model.", 4000, 250000),
 "C26": c(MEX, "A generated client script (options, callback results) runs the Octave client function with simulated trackers that answer, delay, die, hang, quit, never introduce themselves or cannot be started, with wrong callback results, interrupts and failing calls; callback arguments, messages at the tracker, result, error, log, virtual time and process, thread, descriptor and heap tables are compared with a model.", 8000, 250000),
 "C28": c(OBJ, "One to three threads of a simulated application run generated histories of operations on objects of the C or C++ interface, preempted at memory accesses inside the library; every object and accessor is compared with a model of its value, and the heap before and after.", 9000, 500000),
 "C29": c(PLAY, "The player shows a generated video to a scripted user and tracks with simulated trackers that answer, delay, die, hang, quit or cannot be started; what the tracker receives, every picture shown, status and time are compared with a model.", 7000, 200000),
}
