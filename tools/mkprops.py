#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MSG = "src/message.c"; TRAX = "src/trax.c"; CL = "support/client/client.cpp"; PR = "support/client/process.cpp"
TH = "support/client/threads.cpp"; CPP = "src/traxpp.cpp"; RG = "src/region.c"

prop("C01", "Text arrives byte for byte, however the stream is cut, delayed or interrupted",
 "Every property key/value, tracker metadata text and image reference that one side passes to a successful session call reaches the other side's matching call byte for byte (values may hold any byte except NUL: quotes, backslashes, newlines, spaces, '=', non-ASCII), whatever its length and number. This holds for pipes and sockets, for any split of the stream into short reads and writes, any delay and any interrupted system call. Messages are delivered in the order sent, none lost, duplicated, merged or altered.",
 ["inputs","schedules","fault_sequences"],
 "all message contents and sizes, all fragmentations of the byte stream in both directions, all interleavings of sender and receiver, EINTR at any call",
 "The tests send a handful of short ASCII messages over one pipe read in whole chunks; the fragmentation, interrupt and content space is never sampled.",
 [MSG, TRAX, "src/strmap.c", "src/buffer.h"],
 [("write_message/write_buffer/write_buffer_escaped", MSG), ("read_message state machine over read_character", MSG), ("property map", "src/strmap.c")],
 [("stream buffer position/length", "unread part of the last read chunk", "src/message.h message_stream")],
 ["properties returned by trax_server_wait_*/trax_client_wait", "metadata of the client handle"])

prop("C02", "Images of every kind and channel arrive unchanged",
 "An image passed in any transmission form (file path, URL, raw memory in each pixel format, encoded JPEG/PNG buffer) arrives with the same form, header (size, pixel or buffer format, length) and exactly the same content bytes, in the channel it was given for. This holds for every image size, every combination of channels the tracker declared and every fragmentation of the stream.",
 ["inputs","configurations","schedules"],
 "all image kinds, formats, sizes (including sizes not a multiple of the encoding block), channel sets, stream fragmentations",
 "The tests transmit a path and one fixed image per kind at most and never compare the received pixels row by row.",
 [TRAX, "src/base64.c", MSG, CPP],
 [("image_encode/image_decode", TRAX), ("base64encode/base64decode", "src/base64.c"), ("channel order loop in trax_client_frame/trax_server_wait_*", TRAX)],
 None, ["trax_image_get_* on the images returned by the server wait calls"])

prop("C03", "Objects and regions arrive complete, in order, with their own properties",
 "Each object's region (rectangle, polygon, mask or special code) and its properties arrive at the other side at the same position in the object list they were sent at, for initialization, for objects added later and for replies. Masks keep offset, size and every pixel, special codes are equal, and rectangle and polygon coordinates are equal up to the four decimals that are transmitted.",
 ["inputs","histories","schedules"],
 "all object counts, region kinds, coordinates, mask shapes and per-object property sets, in any session history and fragmentation",
 "The tests use one or two fixed rectangles; per-object association and mask coding are not compared across histories.",
 [TRAX, RG, MSG, CPP],
 [("trax_client_initialize/trax_client_frame/trax_server_wait_mot/trax_server_reply_mot/trax_client_wait", TRAX), ("region_string/region_parse, rle coding", RG)],
 None, ["object lists returned by the wait calls"])

prop("C04", "Other program output never disturbs the protocol",
 "Whatever a peer's program prints on whole lines between protocol messages - any bytes, any length, non-ASCII text, empty lines, partial or wrong message prefixes, messages of unknown type - is skipped, and every protocol message before and after it is received exactly as if it had not been printed. No such line is ever taken for a message.",
 ["inputs","schedules"],
 "all noise lines between all messages, split over reads at any byte",
 "The test trackers print nothing besides protocol messages; a parser state that survives from noise into the next line is never entered.",
 [MSG],
 [("prefix matching and PASS state of read_message", MSG)],
 [("input.state", "position in the prefix or parse state", "src/message.h input_cache")],
 ["sequence of messages returned by the wait calls"])

prop("C05", "A broken connection never hangs, invents or completes a message",
 "If the peer's end of the connection closes after any byte of the stream, every message that was completely received is delivered, nothing is delivered from a message whose line was not finished, and the waiting call returns an error without waiting forever. Every later wait on that session also returns an error; no earlier message is ever reported again.",
 ["crash_points","inputs","schedules"],
 "all cut positions in all conversations, for client and server roles, pipes and sockets, end-of-stream as well as reset",
 "The tests never cut a stream in the middle of a message; crash points are bytes, and there are thousands per conversation.",
 [MSG, TRAX],
 [("end-of-stream handling in read_message", MSG), ("TRAX_ERROR paths of the wait calls", TRAX)],
 [("input.message_type", "type of the message being parsed", "src/message.h input_cache")],
 ["results of wait and setup calls"])

prop("C06", "A malformed or out-of-place message is rejected, and is never fatal",
 "Whatever bytes a peer sends, the receiving setup or wait call neither crashes nor accesses memory it does not own nor hangs once the bytes end. A message with a wrong number of arguments, an undecodable or undeclared image, an undecodable or empty region, or a type that is not allowed for its sender is reported as an error, while a well-formed one is accepted; the returned images, regions and objects are valid only on success.",
 ["inputs","histories"],
 "all byte strings and all structured corruptions (argument count, numbers, base64, formats, message type, order) at any point of a session, for both roles and all protocol versions",
 "The tests only talk to well-behaved peers; the malformed input space is unsampled.",
 [MSG, TRAX, RG, "src/base64.c"],
 [("argument count and format checks in client_setup, trax_client_wait, trax_server_wait_sot/mot", TRAX), ("region_parse", RG), ("image_decode", TRAX), ("base64decode", "src/base64.c")],
 None, ["result codes and output parameters of setup and wait calls", "process survival under AddressSanitizer"])

prop("C07", "A send is reported successful only if the whole message was handed over",
 "When a call that sends a message (initialize, frame, reply, terminate) reports success, every byte of it was accepted by the transport exactly once and in order; short and interrupted writes are continued. When the transport fails (closed, reset, I/O error), the call that could not deliver its message reports an error, and nothing is sent on that session after the failed message.",
 ["fault_sequences","schedules","inputs"],
 "all positions and kinds of write faults (short, EINTR, EPIPE, ECONNRESET, EIO) in all conversations, on pipes and sockets",
 "Pipes in the tests never fail or fill up; write faults need injection.",
 [MSG, TRAX],
 [("write_buffer, write_message", MSG), ("return codes of trax_client_initialize/frame, trax_server_reply_*, trax_terminate", TRAX)],
 None, ["bytes accepted by the transport against the call's result"])

prop("C08", "Both sides agree on the tracked objects through any session history",
 "In a multi-object session, after any sequence of initializations, object additions, frames, replies and re-initializations, the server sees exactly the objects the client added since the last initialization, in order; it is told to initialize when a session (re)starts and to continue otherwise. A reply is accepted only with exactly one state per tracked object, and one client wait returns exactly one state per tracked object.",
 ["histories","inputs","schedules"],
 "all legal histories of initialize/add/frame/reply/re-initialize with any object counts, single- and multi-object, any fragmentation",
 "The tests run one fixed short history; object counts drift only along longer, mixed histories.",
 [TRAX, CPP],
 [("objects counter on both handles", TRAX), ("empty initialize message as reset", TRAX)],
 [("handle objects", "number of objects tracked", "src trax_handle.objects")],
 ["result codes and object lists of wait and reply calls on both sides"])

prop("C09", "A rejected call sends nothing and leaves the session usable",
 "A session call that is refused because of its arguments or the session's mode (missing image for a required channel, too many or no objects, adding objects where unsupported, wrong number of reply states, call for the other session mode) reports an error, puts nothing on the transport and changes nothing: the next correct call behaves as if the refused one had not been made.",
 ["histories","inputs"],
 "all refused calls at all points of all session histories, followed by any continuation",
 "The tests check some refusals in isolation but never continue the session after one.",
 [TRAX, CPP],
 [("argument checks of trax_client_initialize, trax_client_frame, trax_server_reply_*, trax_server_wait_*", TRAX)],
 None, ["bytes written by the refused call", "continuation of the conversation"])

prop("C10", "Ending a session delivers quit once and closes it for good",
 "Ending a session from either side, explicitly with a reason or implicitly by releasing it, sends exactly one quit message, and the other side's next wait reports the end of the session with that reason and those properties. From then on the session is not alive on either side: every call on it fails or does nothing, and none reads from or writes to the transport; with shared (copied) session objects the implicit quit is sent when the last copy goes and not before.",
 ["histories","schedules"],
 "all histories of terminate, cleanup, copies, assignments and later calls on both sides, including simultaneous termination",
 "The tests terminate once from one side; repeated, crossing and copied-handle terminations are not sampled.",
 [TRAX, CPP],
 [("TRAX_FLAG_TERMINATED, trax_terminate, trax_cleanup", TRAX), ("reference counted wrapper", CPP)],
 [("TRAX_FLAG_TERMINATED", "session ended", TRAX)],
 ["quit messages on the wire, results of calls after the end"])

prop("C11", "What a tracker declares is what the client sees and respects",
 "The client's view of the tracker (protocol version, supported image and region formats, channels, multi-object support, name, description, family, custom properties) equals what the tracker declared, with the documented defaults for anything left out. The client sends one image for each declared channel in the fixed channel order, sends regions only in a declared format (converting when needed) and never puts more objects in a session than the tracker supports, for all protocol versions.",
 ["configurations","inputs","histories"],
 "all combinations of declared formats, channels, versions, metadata texts, omissions, and client data",
 "The tests use two or three fixed declarations out of thousands of combinations.",
 [TRAX, CPP],
 [("server_setup, client_setup, *_formats_encode/decode, channels_encode/decode", TRAX), ("region_autoconvert", TRAX)],
 None, ["metadata on the client handle; types of images and regions received by the server"])

prop("C12", "Socket sessions set up in any order, within the time limit, without leaks",
 "A tracker told to use a socket keeps trying until the client listens and then connects, and the client accepts exactly that connection, whichever side is first. If no tracker connects, the client's setup fails no later than its time limit plus scheduling delay; transient failures (refused, interrupted) do not end the attempt early or prolong it, and a setup that fails reports failure and leaves no descriptor open.",
 ["schedules","fault_sequences","configurations"],
 "all orders of listen/connect/accept, connection delays, interrupted and failing socket calls, time limits",
 "The socket tests start both sides in one benign order; races and failing calls are not sampled.",
 [MSG, CL],
 [("create_message_stream_socket_connect/accept", MSG), ("create_server_socket", CL)],
 None, ["result and virtual time of the setup calls, descriptor table"])

prop("C13", "A tracker that stops responding is terminated within the time limit",
 "If a tracker process stops responding at any point - never introduces itself, does not answer, stops reading its input, ignores polite termination - the client call waiting for it returns a failure within the configured time limit plus a few seconds, and the tracker process is gone afterwards. The client can then start a new session.",
 ["crash_points","schedules","fault_sequences"],
 "all points at which the tracker can hang, all message sizes (filled pipes), all connection modes, all interleavings with the watchdog",
 "Hangs at chosen points with full pipes and the watchdog racing the caller cannot be produced by the tests; none of them lets a timeout expire.",
 [CL, PR, MSG],
 [("watchdog_loop, stop_process", CL), ("Process::stop/kill", PR)],
 [("watchdog_timeout", "remaining ticks", CL)],
 ["virtual time at which calls return, process table"])

prop("C14", "A dying tracker never hangs or takes down the client application",
 "Whenever the tracker process dies (any exit code or signal, at any instant, including during start-up, in the middle of a message or while the client writes to it), the client call in progress fails or throws within bounded time, the session reports that it is not ready, and the client application itself continues: no fatal signal, no invalid memory access, no deadlock.",
 ["crash_points","schedules"],
 "all instants of tracker death against all interleavings of the caller, watchdog and logger threads, all connection modes",
 "Tests kill no tracker except at one point on a real scheduler; the races between the three client threads need controlled schedules.",
 [CL, PR, TH, MSG],
 [("watchdog_loop/start_process/stop_process", CL), ("Process::is_alive/cleanup", PR)],
 [("process, client pointers", "current tracker process and session", CL)],
 ["client call results, signals raised in the client process, memory errors"])

prop("C15", "A tracker that answers in time is never disturbed",
 "As long as every response of the tracker arrives within the configured time limit, no client call fails and the tracker is neither signalled nor told to quit, however long the whole session lasts, however slow the client is between calls, and in any connection mode. A reset or restart gives a fresh tracker process in which the same holds.",
 ["schedules","histories","configurations"],
 "all response delays below the limit, all client pauses, all watchdog/logger interleavings, resets, all connection modes",
 "Real-time tests cannot explore slow but legal trackers or watchdog phases; the tests finish within milliseconds per frame.",
 [CL, PR],
 [("start_watchdog/stop_watchdog around calls", CL), ("start_process", CL)],
 [("watchdog_timeout", "remaining ticks", CL)],
 ["client call results, signals and quit messages the tracker receives"])

prop("C16", "Tracker processes, descriptors, threads and memory are all reclaimed",
 "After a tracker session is stopped, restarted, failed to start or was abandoned in any state, no tracker process is left running or unreaped, and once the session object is destroyed every descriptor, thread and memory block it acquired is released exactly once. Any number of sessions in one application therefore uses bounded resources.",
 ["histories","crash_points","fault_sequences"],
 "all session histories ending in any state, with start-up failures (pipe, spawn, socket calls) and tracker crashes at any instant",
 "Leaks do not fail the tests, and start-up failures are never injected.",
 [CL, PR, TH],
 [("State destructor, stop_process, start_process", CL), ("Process destructor and cleanup", PR)],
 None, ["descriptor table, process table, thread table and heap of the client process at the end of the history"])

prop("C17", "Logs show exactly the protocol traffic and the tracker's error output",
 "The protocol log callback of a session is given exactly the bytes of the messages sent and all bytes received, in order, and a log never changes the conversation. Everything a tracker process writes to its error stream, up to its last line, is forwarded to the client's log stream in order and not mixed up within a line (lines longer than the limit are shortened), however the tracker writes it and whenever the tracker exits.",
 ["schedules","inputs","crash_points"],
 "all timings of tracker output against exit, all chunkings, line lengths, floods, connection and verbosity modes",
 "The tests do not read the logs; the loss of a tail depends on the schedule of the logger thread.",
 [CL, MSG, TRAX],
 [("logger_loop, flush_streams, line buffers", CL), ("LOG_CHAR/LOG_BUFFER", "src/message.h")],
 None, ["bytes given to the log callback, content of the log stream"])

prop("C18", "A watchdog callback stops the tracker promptly and only on request",
 "If a registered watchdog callback asks for termination at any moment, the tracker is stopped and the client call in progress returns a failure within a few seconds, even if the tracker ignores it. While no callback asks and responses are in time, callbacks have no effect on the session; every registered callback is polled.",
 ["schedules","crash_points"],
 "all instants of the request relative to all client calls and tracker behaviours, any number of callbacks",
 "The tests register a callback that never fires.",
 [CL],
 [("watchdog_loop callbacks", CL)],
 None, ["virtual time between request and return, tracker fate"])

prop("C19", "Sessions running side by side do not affect each other",
 "Several sessions used at the same time from different threads of one application, with independent trackers, each behave exactly as if they were alone: each sees only its own tracker's declaration, messages and failures, and the end or failure of one neither delays nor breaks another.",
 ["schedules","crash_points","configurations"],
 "all interleavings of two or more concurrent sessions including start-up, failure and shutdown of each, in all connection modes",
 "All tests are single-session and single-threaded.",
 [TRAX, CL, PR],
 [("format list parsing in client_setup", TRAX), ("socket port allocation", CL), ("descriptor inheritance at process start", PR)],
 [("static tokenizer state, next port", "process-wide state", "src/trax.c, support/client/client.cpp")],
 ["per-session results compared with the single-session model"])

prop("C20", "Everything a session allocates is released, whatever the outcome",
 "For every outcome of every session call (success, refusal, protocol error, peer gone, failed handshake), once the caller has released the results it was given and the session itself, all memory and all descriptors the session created are released, and nothing is released twice or used after release. This holds for the C interface and for any history of copies and assignments of the C++ objects.",
 ["histories","inputs","crash_points"],
 "all session histories and outcomes with all copies/assignments of C++ wrappers",
 "Tests run without leak or lifetime checking and release on the success path only.",
 [TRAX, CPP, MSG, RG],
 [("release paths in client_setup, trax_client_wait, trax_server_wait_*", TRAX), ("reference counting wrapper", CPP)],
 None, ["heap accounting per simulated process, AddressSanitizer"])

prop("C21", "An evaluation run records one correct entry per frame of the sequence",
 "For any image sequence, initialization data, failure threshold and reinitialization setting, a completed run of the command line client writes exactly one region per frame: the tracker's own answer where it tracked, the initialization mark at each (re)start, the failure mark at each failure and the skip mark for frames in between or without initialization; a requested timing file has one entry per frame as well. A failure is an answer whose overlap with the ground truth (inside the image, when bounded overlap is chosen) is not above the threshold. Each (re)start uses a fresh tracker process that receives the frames in order, its initialization region and the given parameters. If the tracker cannot be started, dies or hangs before it has answered, or the user interrupts the run, the program ends in bounded time with a failure status, writes no result and leaves no tracker process behind.",
 ["inputs","histories","crash_points","configurations"],
 "all sequences, thresholds, reinitialization offsets, tracker answers, tracker terminations and crashes",
 "The command line client is only run on a static tracker over one fixed sequence.",
 ["support/client/cli.cpp", CL, CPP],
 [("main tracking loop", "support/client/cli.cpp"), ("save_trajectory/load_trajectory", CL)],
 None, ["output file, exit status"])

prop("C22", "The test tool passes exactly the trackers that do what they should",
 "For every tracker that follows the protocol and accepts one of the offered kinds of pictures, at any pace within the time limit, the test tool starts it once, initializes it the requested number of times with the documented region (three objects for a multi-object tracker), sends twenty frames of the same intact test picture in a format the tracker accepts, passes on the given parameters and environment, waits for every answer, tells the tracker to quit and ends with status zero. A tracker that cannot be started, does not introduce itself, accepts none of the pictures, answers wrongly, dies or hangs before its last answer makes the tool end in bounded time with a failure status; in every case no tracker process is left behind.",
 ["inputs","histories","crash_points","configurations"],
 "all trackers (declared formats, object support, pace, terminations, wrong answers) and all options of the tool",
 "The tool is only run on two fixed trackers; its own picture, rounds and failures are not looked at.",
 ["support/client/tester.cpp", "support/client/tester_resources.c", CL],
 [("main loop of the test tool", "support/client/tester.cpp")],
 None, ["exit status, process table, messages the tracker received"])

prop("N01", "Region overlap and conversion compute the geometric result",
 "The overlap of two regions and the conversion of a region to another type agree with the geometry of the rasterised shapes, for every pair of regions and bounds.",
 ["inputs"], "all pairs of regions and bounds",
 "Only a few fixed shapes are compared.",
 [RG], [("region_compute_overlap, region_convert", RG)])

PY = "support/python/trax/"
prop("C23", "The Python package delivers everything as it was given",
 "For every session between the Python client or server and a peer that follows the protocol (Python or not, over a socket, pipes or the standard streams, however the bytes are split or delayed), what one side gives the package is what the other side gets: declared formats, channels, names and custom properties, images of every kind from any array, regions of every type with their points, offsets and mask cells, any number of objects with their properties, frame and reply properties given as a dictionary or as Properties, and the reason of a quit. Calls with default arguments work as documented, the reported time is the time the tracker took, and a log callback, file or console gets exactly the text that was transferred.",
 ["inputs","schedules","histories","configurations"],
 "all sessions of the package: texts, arrays, regions, properties, objects, transports, splits of the bytes, logs",
 "One static tracker is run through the package with fixed data; no client, no mask, no log and no property is compared.",
 [PY+"__init__.py", PY+"client.py", PY+"server.py", PY+"image.py", PY+"region.py", PY+"_ctypes.py"],
 [("wrappers of images, objects and properties", PY+"__init__.py"), ("Client", PY+"client.py"), ("Server", PY+"server.py")],
 None, ["arguments and results of the Python calls, messages of the reference peer, log text"])

prop("C24", "The Python package fails with its own exception and leaves nothing behind",
 "Whatever the peer does (never comes, sends something unusable, quits, leaves or dies at any byte) and however the package is misused (missing channels, wrong numbers of objects, calls after the end), every call of the Python client and server ends: with its result, or with TraxException saying why, or with KeyboardInterrupt after the log callback was interrupted. Nothing crashes or hangs in the interpreter, no exception of another kind escapes or is lost in a callback, refused calls change nothing for the session, a session left by an exception in a with block tells the client why, and when the objects are gone every descriptor and every block of the C library has been released.",
 ["inputs","schedules","crash_points","histories"],
 "all sessions with refused calls, unusable messages, lost peers and interrupts, at every point",
 "No failing session is run through the package and nothing is counted after one.",
 [PY+"__init__.py", PY+"client.py", PY+"server.py"],
 [("finalizers and loggers", PY+"__init__.py"), ("error paths", PY+"client.py"), ("quit and context", PY+"server.py")],
 None, ["outcome of every call, descriptors and library blocks after the session"])

ML = "support/matlab/"
prop("C25", "A tracker script in MATLAB/Octave gets what the client sends and answers it",
 "For every session between a client and a tracker script that uses the function traxserver (pipes, standard streams or a socket; however the bytes are split, delayed or interrupted): the formats, channels, name, description, family and further texts given to setup are what the client sees; every wait returns the images of the request unchanged as a cell array in channel order (text, uint8/uint16 arrays of the right shape, or a structure with the encoded bytes), for an initialization the region as numbers or a mask placed at its offset (otherwise empty), and exactly the properties of the request, as rows of a cell array or, when asked for, fields of a structure; the region and the properties given to status (texts and numbers, structure or cell array with any number of rows) are what the client receives; the end of the session is reported as empty results, and the text given to quit reaches the client. Values that are no region, property, text or known option are refused with an error of the interpreter that sends nothing and does not disturb the session. When the client has died, or the session has ended in any way, the next calls end with an error (or the reported end), nothing of the session remains allocated, and the function can be called again; memory outside the arguments is never read.",
 ["inputs","schedules","histories","crash_points"],
 "all sessions of tracker scripts: texts, images, regions, properties in every accepted form, refused calls at every point, ends and client deaths",
 "The tests run one static tracker script over one path-only sequence with rectangles; no property, mask, other image form, refused call or lost client is tried.",
 [ML+"traxserver.cpp", ML+"helpers.cpp", ML+"helpers.h"],
 [("mexFunction operations setup/wait/status/quit", ML+"traxserver.cpp"), ("conversions between arrays and regions, images, properties", ML+"helpers.cpp")],
 None, ["results, errors and memory of every call of traxserver", "what the client receives"])

prop("C26", "A client script in MATLAB/Octave drives its tracker and leaves nothing behind",
 "For every call of traxclient with any options (time limit, connection, environment, directory, data, log, debug) and any callback: the tracker is started with the given command, environment, directory and connection; each callback is given the last answer (region, the properties of that answer only, the time it took), the tracker's declaration, and the data the previous callback returned; images, regions and parameters it returns reach the tracker unchanged, an initialization after the first one with a fresh tracker; the call returns the data of the last callback when the callback returns no image. It ends with an error of the interpreter, within the time limit plus a few seconds, when the tracker dies, hangs, quits, cannot be started or introduced, when the user interrupts, when the callback fails (with its error), or when the callback or the caller gives values that cannot be used (for wrong options before any tracker is started). The tracker's error output is put in the requested log, in order and complete, if debug output was chosen, and nothing is printed otherwise. However it ends: no tracker, thread, descriptor or memory is left, the interpreter's interrupt handler is in place again, and the interpreter is only ever used from its own thread.",
 ["inputs","schedules","histories","crash_points","configurations"],
 "all callbacks and options, all tracker terminations, hangs and delays, interrupts at any time, failing system calls at start-up",
 "The tests run one callback over one fixed sequence with a healthy tracker; no other option, failure, interrupt or clean-up is looked at.",
 [ML+"traxclient.cpp", ML+"helpers.cpp", CL],
 [("mexFunction and call_callback", ML+"traxclient.cpp"), ("TrackerProcess", CL)],
 None, ["arguments of every callback, what the tracker receives", "result or error, printed text and log of the call", "process, thread, descriptor and heap tables after the call"])

prop("C27", "Programs that use OpenCV exchange their pictures and regions unharmed",
 "For every session between programs that use the OpenCV conversion functions (pipes or a socket, however the bytes are split, delayed or interrupted): a matrix of 8-bit gray, 16-bit gray or 8-bit color pixels of any size, with or without gaps between its rows, that one side turns into an image (mat_to_image; colors are stored red first) becomes an equal matrix at the other side (image_to_mat), is itself not changed, and the received matrix does not depend on the image once it is made; an image given as a file or encoded data is decoded in color from exactly this file or data, a URL or an empty image gives an empty matrix. Rectangles (rect_to_region, region_to_rect; fractional coordinates are rounded), points (points_to_region, region_to_points) and mask matrices (mat_to_region, region_to_mat) arrive as they were; region_to_mat has the pixels of a mask at its offset, zeros elsewhere, and leaves out pixels at negative coordinates. draw_region paints the given color on the pixels of a mask, or the outline (filled for a negative width) of a rectangle or polygon, changes no other pixel inside or around the canvas, no region, and never replaces the canvas. Other pixel types and empty matrices are refused with an exception that leaves nothing allocated; an empty region gives an empty rectangle, no points, and draws nothing. No memory outside the arguments is touched.",
 ["inputs", "schedules"],
 "all matrices of the supported types, sizes and memory layouts, all regions and canvases, in sessions under any fragmentation and interruption",
 "The conversion library is only built by the tests: no function of it is ever called.",
 ["support/opencv/opencv.cpp", "support/opencv/include/trax/opencv.hpp"],
 [("image_to_mat, mat_to_image", "support/opencv/opencv.cpp"), ("region_to_rect, region_to_points, region_to_mat and their inverses", "support/opencv/opencv.cpp"), ("draw_region", "support/opencv/opencv.cpp")],
 None, ["matrices, rectangles, points and canvases on both sides of a session"])

prop("C28", "Images, regions, lists and property sets keep the values they are given",
 "Whatever sequence of creating, copying, moving, assigning, changing, storing in and taking out of lists, appending and releasing objects of the C and C++ interfaces an application performs, in one thread or in several threads with objects of their own, every object has the value last given to it: changing a C++ object does not change its copies (rows of mask regions included; pixels of memory images are shared), and what is stored in a list stays there whatever happens to the original. Every accessor agrees with that value: properties are found by key, counted, enumerated once each, copied, appended (existing keys change only if overwriting is asked for) and printed as key=value lines; numbers set as properties are their decimal text (six decimals for floating point), and read as numbers they give the number the whole text stands for, or the default when there is none. Parts of a region can be asked for separately; its text reads back (trax_region_decode, stream operators, which take one line) as the same region up to four decimals, texts with a wrong number of values are refused, a region converted to its own type is an equal one; the bounds of a region are the smallest box with its points or pixels, and a mask contains exactly its pixels. Indices and channels out of range give nothing and change nothing, releasing an object resets the pointer to it, and in the end nothing is left allocated or used after its release.",
 ["inputs", "histories", "schedules"],
 "all histories of operations on objects of every kind in up to three threads, with any values",
 "The tests create each object once, in one thread, and release it; copies, appends, typed access, decoding and invalid indices are not looked at.",
 ["src/trax.c", "src/traxpp.cpp", "src/region.c", "src/strmap.c", "include/trax.h"],
 [("trax_properties_*, trax_region_*, trax_object_list_*, trax_image_*", "src/trax.c"), ("Wrapper (claims, acquire, release) and its derived classes", "src/traxpp.cpp"), ("region_parse, region_string, region_compute_bounds", "src/region.c")],
 None, ["value of every object after every few operations, compared with a model", "heap accounting per simulated process"])

prop("C29", "The interactive player tracks what the user marked through the whole video",
 "For every video, tracker that follows the protocol and accepts raw or encoded pictures, and every behaviour of the user, the player (traxplayer) opens the given video, starts the tracker once with the given command, environment and connection, asks the user once (repainting, any number of clicks and drags in any direction, Q to drop the region, SPACE to confirm), initializes the tracker with the first frame, the last region dragged and the given parameters, sends every further frame exactly once, in order, unchanged and without properties, after the answer to the one before, and shows every frame with its region (the first with the user's, each answered one with the answer). At the end of the video, or when the user gave no region, it tells the tracker to quit and ends with status zero, also when the video is shorter than it claims. A tracker that cannot be started or introduced, accepts no such picture, dies or hangs before its last answer makes it end in bounded time with a failure status; a clicking user or a slow one never does, and in every case no tracker process is left behind.",
 ["inputs","histories","schedules","crash_points","configurations"],
 "all videos, user actions, options and trackers (declaration, pace, deaths)",
 "The player is interactive: no test ever starts it.",
 ["support/client/player.cpp", "support/opencv/opencv.cpp", CL],
 [("main loop of the player", "support/client/player.cpp"), ("get_region_interactive, on_mouse, read_frame", "support/client/player.cpp")],
 None, ["exit status, process table, messages the tracker received, pictures shown"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
