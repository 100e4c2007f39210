"""The properties (source of properties.jsonl and of MANIFEST.json)."""


def prop(pid, title, statement, over, text, why, files, mechanism, note="", state=None):
    return {"id": pid, "title": title, "statement": statement, "over": over, "text": text, "why": why,
            "files": files, "mechanism": mechanism, "note": note, "state": state or []}


T = "vtelem/classes/type_primitive.py"
P = "vtelem/enums/primitive.py"
PROPS = [
    prop("C01", "A tracked value always fits its declared type",
         "Assigning, adding to or commanding a typed value succeeds exactly when the resulting value is representable in "
         "the declared type, and then stores that value and its time. Every other attempt is refused and leaves value and "
         "time as they were. A channel that is not commandable refuses every command.",
         ["inputs", "histories"], "every primitive type, prior value, offered value of any kind, time, and add/set choice",
         "Tests assign a few in-range values per type; the guarantee is over all values of all types, with the boundaries "
         "and wrong-kind values where an off-by-one or a missing check hides.",
         [T, P, "vtelem/channel/__init__.py"],
         [("range and kind validation on assignment", T + ":TypePrimitive.set"), ("command gate", "vtelem/channel/__init__.py:Channel.command")]),
    prop("C02", "Every change of a tracked channel is reported exactly once",
         "When a change-tracked channel takes a different value, exactly one event naming the channel with the previous and "
         "new value and their times is appended to the event queue (unless the queue is at its capacity); an assignment that is refused or does not change the "
         "value adds none. Draining the queue returns all pending events in order and leaves it empty.",
         ["inputs", "histories"], "every type, pair of values and times, and any queue content",
         "Tests change a handful of channels; exactly-once and the previous/new pairing must hold for every assignment.",
         [T, "vtelem/channel/__init__.py", "vtelem/classes/event_queue.py"],
         [("change callback", T + ":TypePrimitive.set"), ("enqueue/consume", "vtelem/classes/event_queue.py:EventQueue")]),
    prop("C03", "Wire encoding of every primitive type is lossless",
         "Writing a value of any primitive type into a buffer and reading it back with the same type yields the same value, "
         "consumes exactly the type's size, and touches no other byte. The encoding is network byte order of the declared "
         "width and a read past the end is refused.",
         ["inputs"], "every type, every representable value, every buffer content and position",
         "Tests round-trip sample values; byte order, width and sign errors show only for particular values.",
         [T, "vtelem/classes/byte_buffer.py", P],
         [("pack/unpack with explicit order", "vtelem/classes/byte_buffer.py:ByteBuffer")]),
    prop("C04", "Byte buffers return exactly the bytes that were put in",
         "Appended bytes come back in order and unmodified, positions and remaining counts are exact, consuming reads drop "
         "exactly what was read, and a read-only buffer is never changed. The checksum covers exactly the valid bytes.",
         ["inputs", "histories"], "every buffer content, position, size and requested length",
         "Tests use short fixed buffers; interactions of position, size and capacity depend on the sequence of operations.",
         ["vtelem/classes/byte_buffer.py"],
         [("position and size accounting", "vtelem/classes/byte_buffer.py:ByteBuffer")]),
    prop("C05", "A frame never exceeds the MTU and is frozen once finalized",
         "From any reachable state of a frame, an element is accepted exactly when it fits the remaining space, a refused "
         "element changes nothing, and the accounted size equals header, checksum, identifiers and values. The finalized "
         "frame is exactly that many bytes, at most the MTU, carries the element count and a checksum of everything before "
         "it, and never changes again (other than zero padding up to the MTU).",
         ["inputs", "histories"], "every MTU, header, sequence of accepted elements of any type, checksum on or off",
         "Tests fill a few frames at one MTU; the bound must hold for all MTUs, element mixes and both checksum modes.",
         ["vtelem/frame/__init__.py", "vtelem/frame/channel.py"],
         [("space check before writing", "vtelem/frame/channel.py:ChannelFrame.add"), ("finalize", "vtelem/frame/__init__.py:Frame.finalize")]),
    prop("C06", "Decoding a frame returns exactly the elements that were put in",
         "A data or event frame of any number of elements decodes to the same identifiers in the same order, each with the "
         "registered channel and the value (and, for events, both values and both times) that was encoded for it. Message "
         "frames decode to the fields and the fragment they were built from, with the frame's timestamp and application id.",
         ["inputs", "configurations"], "every element count, mix of channel types, values, and registry content",
         "Tests decode frames of a few elements; field order and offsets must be right for any number and mix of types.",
         ["vtelem/parsing/frames.py", "vtelem/parsing/encapsulation.py", "vtelem/frame/channel.py"],
         [("two-pass layout: ids then values", "vtelem/parsing/frames.py")]),
    prop("C07", "Malformed, corrupted or foreign frames are rejected, never fatal",
         "For any byte string whatsoever, decoding either yields a frame or reports a rejection; it never raises. A frame is "
         "yielded only if its application id is the expected one (when one is expected) and its checksum, when present, "
         "matches every byte before it. A frame naming an unregistered channel is rejected.",
         ["inputs", "fault_sequences"], "every byte string, every expected id, every registry",
         "Tests corrupt one checksum; truncation, bogus types, counts and ids give an unbounded space of hostile inputs.",
         ["vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/client/__init__.py"],
         [("id and checksum comparison", "vtelem/parsing/encapsulation.py:decode_frame")]),
    prop("C08", "Stream reassembly does not depend on how bytes are chunked",
         "However a stream of length-prefixed frames is cut into reads, exactly the frames that were written come out, "
         "whole, in order and once; incomplete data is kept for the next read. An unreasonable length discards buffered "
         "data, yields nothing from it, and reassembly works again from the next read.",
         ["inputs", "schedules", "histories"], "every byte stream and every partition of it into reads",
         "Tests feed whole frames or single splits; the property quantifies over all partitions.",
         ["vtelem/frame/processor.py", "vtelem/classes/byte_buffer.py"],
         [("pending size and buffered remainder", "vtelem/frame/processor.py:FrameProcessor")]),
    prop("C09", "A dispatch emits every due channel exactly once",
         "One dispatch of channel data puts into the outgoing queue finalized frames that together hold exactly one element "
         "per channel whose interval has elapsed, in channel order, with its current value; no other channel is emitted. The "
         "reported frame and emission counts are the true ones, and emitted channels restart their interval (at any MTU that "
         "holds one element).",
         ["inputs", "configurations", "histories"], "any number of channels, types, rates, values, times and MTUs",
         "Tests dispatch a few channels; overflow into further frames happens at element counts that depend on MTU and types.",
         ["vtelem/channel/framer.py", "vtelem/channel/__init__.py"],
         [("overflow to a new frame, retry of the refused element", "vtelem/channel/framer.py:ChannelFramer.build_data_frames")]),
    prop("C10", "A dispatch delivers every pending event exactly once, in order",
         "One dispatch of events drains the pending events and puts into the outgoing queue finalized frames that together "
         "hold each drained event exactly once in order; none is lost or repeated across frame boundaries. No frame is "
         "queued when there is no event, and the reported counts are the true ones (at any MTU that holds one event).",
         ["inputs", "configurations", "histories"], "any number of pending events, types, values, times and MTUs",
         "Tests queue a few events; loss or duplication shows only when a frame overflows.",
         ["vtelem/channel/framer.py", "vtelem/classes/event_queue.py"],
         [("overflow to a new frame, retry of the refused event", "vtelem/channel/framer.py:ChannelFramer.build_event_frames")]),
    prop("C11", "Message fragmentation is an exact partition of the message",
         "Serializing a message yields fragments that concatenate to exactly the message, each within the MTU and numbered "
         "consecutively from zero under one total, all carrying the same type, number and message checksum. The reported "
         "byte count is the sum of the frame sizes; a message that cannot be carried (no room for payload, more fragments "
         "than can be numbered) is refused.",
         ["inputs", "configurations"], "every message length and content, MTU and checksum mode",
         "Tests serialize fixed texts; boundaries (exact multiples, one byte over) depend on length and MTU.",
         ["vtelem/message/framer.py", "vtelem/frame/message.py"],
         [("fixed-size slicing", "vtelem/message/framer.py:MessageFramer.serialize_message")]),
    prop("C12", "Fragments in any order reassemble to the message, delivered once",
         "Once every fragment of a message has arrived, in any order and with any duplicates, the message is complete and "
         "its content is exactly the original; registered consumers are called exactly once for it. Before that it is "
         "neither complete nor delivered, and fragments of different messages never mix, also across a reload from disk.",
         ["inputs", "histories", "schedules", "crash_points"], "every arrival order, duplication, interleaving of messages, and reload point",
         "Tests ingest fragments in order once; orders, duplicates and reloads are combinatorial.",
         ["vtelem/message/cache.py"],
         [("per-checksum fragment store", "vtelem/message/cache.py:MessageCache")]),
    prop("C13", "Registries are a bijection between names and identifiers",
         "Registering a new name yields the next identifier and makes name and identifier resolve to each other and to the "
         "item; registering a known name is refused and changes nothing. Looking up an unknown name or identifier finds "
         "nothing and leaves the registry and its description as they were.",
         ["histories", "inputs"], "every history of registrations and lookups",
         "Tests register a few items; injectivity and purity of lookups are statements about all histories.",
         ["vtelem/registry/__init__.py", "vtelem/channel/registry.py", "vtelem/registry/type.py"],
         [("id counter and the two maps", "vtelem/registry/__init__.py:Registry")]),
    prop("C14", "Enumerations map strings and integers to each other exactly",
         "For every enumeration the string of a value and the value of a string are inverse to each other, lookup ignores "
         "case, and unknown strings are refused. The default is the configured one or the first entry, and a primitive made "
         "from a string holds exactly its integer.",
         ["inputs", "configurations"], "every enumeration content and every string",
         "Tests use one or two small enumerations.",
         ["vtelem/classes/user_enum.py", "vtelem/telemetry/environment.py"],
         [("forward and reverse maps", "vtelem/classes/user_enum.py:UserEnum")]),
    prop("C15", "Enumeration registries hand out unique ids and refuse conflicts",
         "Adding enumerations assigns consecutive identifiers that resolve to what was added, also after the registry is "
         "rebuilt from its own serialized data; adding a name twice is refused. Exporting to the type registry maps each "
         "enumeration once and reports a conflict with a foreign registration of that name instead of overwriting it.",
         ["histories", "inputs"], "every history of additions, rebuilds and exports",
         "Tests add one or two enumerations.",
         ["vtelem/registry/enum.py", "vtelem/registry/enum_retry.py"],
         [("id assignment", "vtelem/registry/enum_retry.py:EnumRegistry.add"), ("global mapping check", "vtelem/registry/enum.py:EnumRegistry.export")]),
    prop("C16", "Daemon life-cycle operations follow the state machine",
         "Start, stop, pause, unpause and restart succeed exactly in the states that allow them, move the daemon to the "
         "documented state, and otherwise change nothing; the task ends in the idle state however it ends. Every state "
         "change is reported once, and operation metrics count exactly the successful operations.",
         ["histories", "schedules", "inputs"], "every state, operation, sequence of operations and task outcome",
         "Tests drive a few happy paths; refusals in other states and failing tasks are not covered.",
         ["vtelem/daemon/__init__.py", "vtelem/daemon/synchronous.py"],
         [("guarded transitions under the lock", "vtelem/daemon/__init__.py:DaemonBase")]),
    prop("C17", "Managed daemons are acted on once, after their dependencies",
         "Performing an operation on all managed daemons performs it exactly once per daemon, each after all of its "
         "dependencies, and reports success exactly when every operation succeeded. Duplicate names are refused and unknown "
         "names are reported as failure.",
         ["configurations", "inputs"], "every set of daemons, dependency graph and operation outcome",
         "Tests use one fixed graph.",
         ["vtelem/daemon/manager.py"],
         [("dependency stack", "vtelem/daemon/manager.py:DaemonManager")]),
    prop("C18", "State machines move only through permitted transitions",
         "One iteration runs the current state once and changes state exactly when the state asks for a different known "
         "state, the current one agrees to leave and the next one agrees to be entered. In every other case the current "
         "state is kept; the hooks are called in that order and each metric counts exactly its event.",
         ["histories", "inputs"], "every set of states, requested state, hook outcome and data",
         "Tests run two scripted machines.",
         ["vtelem/classes/state_machine.py", "vtelem/classes/state.py"],
         [("guarded transition", "vtelem/classes/state_machine.py:StateMachine.run")]),
    prop("C19", "Every registered output receives every frame; failures are isolated",
         "Each frame is written once, length prefix first, to every registered stream and put into every registered queue. "
         "A stream whose write fails is removed and reported once while every other stream and queue still gets the frame, "
         "and the metrics count exactly what was written. A removed output receives nothing afterwards.",
         ["inputs", "fault_sequences", "histories"], "any number of streams and queues, any subset failing, any frame",
         "Tests attach one or two healthy streams.",
         ["vtelem/stream/writer.py"],
         [("fan-out loop with failure list", "vtelem/stream/writer.py:StreamWriter")]),
    prop("C20", "Every command gets exactly one result per handler, or one refusal",
         "A command is delivered once to each handler registered for it with its data, and each outcome is reported to the "
         "submitter; a malformed or unknown command is refused with one negative result and no handler runs. A handler that "
         "fails is reported as failure and the queue keeps serving; the counts of success, failure and rejection are exact.",
         ["inputs", "fault_sequences", "histories"], "every command element, handler table and handler outcome",
         "Tests send a few well-formed commands.",
         ["vtelem/daemon/command_queue.py", "vtelem/daemon/queue.py"],
         [("validation and dispatch", "vtelem/daemon/command_queue.py:CommandQueueDaemon")]),
    prop("C21", "Locks are released on every exit path",
         "Whatever happens inside a guarded section, including an exception, every lock taken by an operation is released "
         "when the operation ends. No operation on a registry, environment, channel group or time source leaves a lock held.",
         ["inputs", "fault_sequences"], "every operation, every outcome (normal or exceptional)",
         "Tests leave guarded sections normally.",
         ["vtelem/classes/time_entity.py", "vtelem/registry/__init__.py", "vtelem/channel/environment.py"],
         [("context-manager lock", "vtelem/classes/time_entity.py:OptionalRLock")]),
    prop("C22", "HTTP responses are complete and routed to the right handler",
         "A request is answered by the handler registered for its method and path, with that handler's body, status and "
         "content type, and the announced length is the number of body bytes. A request without handler gets an error "
         "response and runs no handler.",
         ["inputs", "configurations"], "every path, handler table and response body",
         "Tests fetch a few ASCII pages.",
         ["vtelem/classes/http_request_mapper.py", "vtelem/daemon/http.py"],
         [("handler lookup and response", "vtelem/classes/http_request_mapper.py")]),
    prop("C23", "Scaled time is exact and shared by every follower",
         "Each tick advances managed time by the elapsed real time multiplied by the scale in force, never backwards for a "
         "non-negative scale and a forward clock, and sets every follower to that same time. A negative scale is refused and "
         "changes nothing, and sleeping is scaled inversely.",
         ["inputs", "histories"], "every clock reading sequence, scale change and set of followers",
         "Tests run a real clock briefly.",
         ["vtelem/classes/time_keeper.py", "vtelem/classes/time_entity.py"],
         [("scaled delta accumulation", "vtelem/classes/time_keeper.py:TimeKeeper.iteration")]),
    prop("C24", "File replay delivers the recorded frames up to the limit",
         "Replaying a file hands on, in order and once, the frames decoded from its bytes, stops exactly at the requested "
         "number of frames when there is one, and loses no frame that was read but not yet handed on. Reaching the end is "
         "signalled once.",
         ["inputs", "configurations", "histories"], "every file content, read split and frame limit",
         "Tests replay one recording.",
         ["vtelem/client/file.py", "vtelem/client/__init__.py"],
         [("staged payloads and limit", "vtelem/client/file.py:FileClient.process_raw_frames")]),
    prop("C25", "Channel groups read and write their channels as one",
         "Reading a group yields exactly the current value of each of its channels (enumeration channels as strings), and "
         "writing assigns each given value to its own channel and no other; values left alone in a guarded update stay as "
         "they were. Adding a duplicate or an unknown enumeration is refused without leaving anything behind.",
         ["inputs", "histories", "configurations"], "any number of channels, types and values",
         "Tests use small groups.",
         ["vtelem/channel/group.py", "vtelem/channel/group_registry.py", "vtelem/telemetry/environment.py"],
         [("locked read and write loops", "vtelem/channel/group.py:ChannelGroup")]),
    prop("C26", "Time stamps and application ids are always encodable",
         "Converting a non-negative time gives the whole number of milliseconds not after it, preserving order, and it fits "
         "the time stamp field. An application id derived from any basis, or drawn at random, fits the identifier field and "
         "equal bases give equal ids.",
         ["inputs"], "every time and every basis",
         "Tests convert a few times and bases.",
         ["vtelem/frame/__init__.py", "vtelem/frame/framer.py"],
         [("integer conversion", "vtelem/frame/__init__.py:time_to_int")]),
    prop("C27", "Queue metrics always equal the true queue statistics",
         "After any sequence of puts and gets, successful or refused, the reported number of elements equals the queue's "
         "size and the totals equal the successful puts and gets. Elements come out in the order they went in.",
         ["histories", "inputs"], "every history of puts and gets, any capacity",
         "Tests put and get once.",
         ["vtelem/classes/metered_queue.py"],
         [("metric updates around the queue operations", "vtelem/classes/metered_queue.py:MeteredQueue")]),
    prop("C28", "Datagram clients are registered, and torn down exactly once",
         "Adding a client registers one output stream for it; removing it, removing all, or a write failure closes its "
         "socket exactly once and unregisters it. A failing stream that does not belong to the manager does not disturb it.",
         ["histories", "fault_sequences"], "every history of additions, removals and failures",
         "Tests add and remove one client.",
         ["vtelem/classes/udp_client_manager.py", "vtelem/stream/writer.py"],
         [("stream id to socket map", "vtelem/classes/udp_client_manager.py:UdpClientManager")]),
    prop("C29", "Dispatching, writing, closing and stopping cannot deadlock",
         "No thread waits for another while holding a lock the other may need: frames are put into a queue, outputs are "
         "written, flushed and closed, error and close callbacks are run, and a daemon's thread is joined or told to stop, only "
         "while no lock of the environment, of a stream writer, of a telemetry server or of a daemon is held. Locks of different "
         "objects are only nested in one order: daemon manager, datagram client manager, time keeper, telemetry server, other "
         "daemons (with the stream writer), environment, enumeration registry, other registries, event queue. A thread never "
         "waits for itself.",
         ["schedules", "histories"], "every interleaving of dispatching, writing, adding and removing outputs, and stopping",
         "A test samples one schedule; full queues and threads that meet at the wrong moment are rare.",
         ["vtelem/channel/environment.py", "vtelem/stream/writer.py", "vtelem/daemon/__init__.py", "vtelem/daemon/tcp_telemetry.py",
          "vtelem/classes/udp_client_manager.py", "vtelem/classes/time_keeper.py"],
         [("staged frames", "vtelem/channel/environment.py:ChannelEnvironment.dispatch"),
          ("what is done outside the lock", "vtelem/stream/writer.py:StreamWriter"),
          ("stopping outside the lock", "vtelem/daemon/__init__.py:DaemonBase.begin_stop")]),
]
