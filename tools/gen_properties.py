#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

RD = ("line reader loop", "src/lib.rs Bvh::from_reader, EnumeratedLines")
HP = ("hierarchy state machine", "src/parse.rs Bvh::read_joints")
MP = ("motion section parser", "src/parse.rs Bvh::read_motion")
WR = ("chunked writer", "src/write.rs WriteOptions::write / next_chunk")
CU = ("frame cursor", "src/frame_cursor.rs FrameCursor, vec_insert_slice")

p("C01", "Loading reproduces the document however its bytes are delivered",
  "Loading a well-formed BVH document yields exactly the joints (names byte for byte, order, parents, children, offsets, channels, end sites), frame time and motion values its text states, each number being the float nearest to its decimal text. "
  "This holds for every well-formed document (any joint count, nesting depth, name, channel list, frame count, number spelling, whitespace, blank lines, LF or CRLF), and for every entry point (reader, bytes, string). "
  "It also does not matter in which piece sizes a reader delivers the bytes or how often its reads are interrupted and have to be retried.",
  ["inputs", "schedules", "fault_sequences"],
  "all well-formed documents x all ways a reader can split and interrupt their delivery",
  "The tests load two files through one BufReader and from memory, with one read pattern and no interruption; no joint without an end site, no long line, no boundary inside a token.",
  ["src/lib.rs", "src/parse.rs", "src/joint.rs"], [RD, HP, MP],
  ["Bvh::from_reader", "Bvh::from_bytes", "from_str", "Bvh::joints", "Joint::parent", "Joint::children", "Bvh::frames"],
  [("joints / num_channels / motion_values", "the loaded document", "src/lib.rs struct Bvh")])

p("C02", "A failing reader surfaces as that very I/O error, never as a document",
  "If, while a document is being loaded, the reader reports an error other than an interruption, loading returns an error and never a document. "
  "For a well-formed document that error is the load error's I/O case, it still carries the reader's own error (same kind, OS code and message, reachable through the error's source chain), and it is attributed to the hierarchy if the failure struck before the root's closing brace was delivered and to the motion section afterwards. "
  "This holds whatever the error kind and at whatever byte it strikes, also when the reader would go on delivering data after it.",
  ["crash_points", "fault_sequences", "inputs"],
  "every byte position x every error kind x every delivery schedule",
  "No test uses a reader that fails.",
  ["src/lib.rs", "src/parse.rs", "src/errors.rs"], [RD, HP, MP, ("error conversion", "src/errors.rs From<io::Error>")],
  ["Bvh::from_reader", "LoadError::kind", "Error::source"])

p("C03", "A document cut short never loads as a complete one",
  "If a stored document is cut off at any byte (a torn save, a closed connection), loading what is left returns an error unless the whole hierarchy, the frame count, a frame time and as many motion values as the frame count times the channel count demands are still there. "
  "When it does load, it equals the original document except possibly for the very last number, which then has the value of the digits that are left. "
  "When it does not, the error says what is missing first: something of the hierarchy if its root is not closed, else the motion section, the frame count or the frame time, each at the number of the last line there is, or else the values, by their numbers found and expected.",
  ["crash_points", "inputs", "schedules"],
  "every well-formed document cut at every byte, under every delivery schedule",
  "No test loads a truncated file.",
  ["src/parse.rs", "src/lib.rs"], [HP, MP, ("value count check", "src/parse.rs read_motion MotionCountMismatch")],
  ["Bvh::from_reader", "LoadError::kind"])

p("C04", "Damaged or hostile input never panics, aborts, hangs or balloons memory",
  "Loading any byte stream (damaged, torn, spliced, misdirected or hostile) always returns a document or an error: it never panics, aborts, overflows the stack or fails to terminate, with arithmetic overflow checks on or off. "
  "The memory it uses stays within a fixed multiple of the bytes the reader actually delivered plus a few megabytes, whatever counts the text announces, and it asks the reader for data a number of times bounded by the bytes and interruptions there are.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte streams and delivery schedules; damage of every kind storage inflicts at any place",
  "The Readme promises 'always return an error on failure and never panic'; the tests feed well-formed files only and the fuzz target needs the network to build.",
  ["src/parse.rs", "src/lib.rs", "src/errors.rs"], [HP, MP, RD],
  ["Bvh::from_reader", "global allocator", "reader call count"])

p("C05", "Whatever loads, even from damaged storage, is a well-formed document",
  "Any document that loading returns, also from damaged bytes, is internally consistent: its first joint is the only root, every other joint's parent comes before it and lists it among its children, the channels of all joints taken in order have the motion indices 0,1,2,... without gap or repeat up to the channel count, and each frame has exactly one value per channel. "
  "Every accessor and iterator works on it without panicking, editing it works, and saving it and loading the result gives an equal document.",
  ["inputs", "fault_sequences", "histories"],
  "all damage histories of a stored document that still load",
  "Tests compare two well-formed documents with literals; nothing examines what a lenient parse of a damaged file leaves behind.",
  ["src/parse.rs", "src/joint.rs", "src/write.rs", "src/frame_iter.rs"], [HP, MP, WR, ("joint iteration", "src/joint.rs Joints")],
  ["Bvh::joints", "Joint::parent", "Joint::children", "Joint::channels", "Bvh::frames", "Bvh::write_to"])

p("C06", "A successful save delivered every byte, however the sink accepts them",
  "Saving a document to any sink that keeps accepting data, in pieces of any size and with any number of interruptions, succeeds and hands the sink exactly the bytes that serialising the document in memory with the same options gives, each once and in order. "
  "Success is reported only after the sink has accepted every byte and a flush requested after the last byte has succeeded.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all documents x all formatting options x all ways a sink can split, interrupt and buffer writes",
  "The tests only serialise to memory; no test uses a sink that accepts part of a buffer or is interrupted.",
  ["src/write.rs", "src/lib.rs"], [WR], ["WriteOptions::write", "Bvh::write_to", "WriteOptions::write_to_string", "Bvh::to_string"])

p("C07", "A failing sink surfaces as its error and holds an exact prefix",
  "If the sink fails while a document is being saved (a write error other than an interruption, a write that accepts nothing, a full disk, a failing flush), saving returns an error of the same kind carrying the sink's own error, and never success. "
  "What the sink accepted is then an exact prefix of the serialised text, with nothing skipped, repeated or reordered, even if the sink would accept more data afterwards; the document being saved is unchanged.",
  ["crash_points", "fault_sequences", "inputs"],
  "every byte position x every error kind x every acceptance schedule",
  "No test uses a sink that fails.",
  ["src/write.rs", "src/lib.rs"], [WR], ["WriteOptions::write", "Bvh::write_to"])

p("C08", "An acknowledged save survives a crash and loads back equal",
  "Once saving a document with a non-empty skeleton has reported success and its bytes are durable, loading them after any crash and restart gives an equal document: same joints, names, hierarchy, offsets, channels, end sites, and bit-identical offsets, motion values and (for times a 64-bit float of seconds can represent to the nanosecond) frame time. "
  "This holds for loaded, literal-built and edited documents and for every indentation, line terminator and precision option, except that a number written with a fixed number of decimals comes back within half a unit of the last decimal written. "
  "Documents whose skeleton has leaf joints or a root without or with end sites, zero channels or zero frames are included.",
  ["crash_points", "histories", "inputs", "configurations"],
  "all save/edit/crash/restart histories on a disk that loses and tears what was not synced, all documents, all options",
  "One test writes one small file with one set of options and never reads it back; nothing crashes.",
  ["src/write.rs", "src/parse.rs", "src/lib.rs"], [WR, HP, MP], ["WriteOptions::write", "Bvh::from_reader", "Bvh::eq"])

p("C09", "Frame editing behaves like editing a plain list of frames",
  "After any sequence of operations (cursor moves, peeks, single and batch insertions, removals, in-place edits, extraction, failed operations, failed saves and reloads), the frames of a document, their number, the cursor position and every returned value equal those of a plain list of frames with a position between 0 and its length, where insertion puts the frame at the position and advances past it and removal deletes the frame at the position; values reached through a channel, a number or a range, and frames reached through iterators from either end, are those of the list. "
  "An operation that cannot be carried out (wrong frame length, nothing at the position to remove, channel out of range) returns its error and changes nothing (beyond the frames a batch had already inserted), and no sequence of operations panics. A document without channels has no frames. The frame time is the one loaded or set last, and no edit of frames changes it or the joints.",
  ["histories", "fault_sequences"],
  "all histories of editing operations on all documents, with failing operations and failing I/O in between",
  "Doc tests insert at the end and remove at the start of a three-frame animation; the insertion helper is tested with two arrays of equal length only.",
  ["src/frame_cursor.rs", "src/frame_iter.rs", "src/lib.rs"], [CU, ("frame iterators", "src/frame_iter.rs Frames, FramesMut")],
  ["FrameCursor", "Bvh::frames", "Bvh::frames_mut", "Bvh::extract_frames", "FrameMut::try_set_motion"],
  [("index", "cursor position, 0..=number of frames", "src/frame_cursor.rs FrameCursor")])

p("C10", "An interrupted batch insertion keeps every frame it does not own",
  "If a batch insertion is stopped part-way, because a frame has the wrong length (an error), the frame source panics, or the source simply ends early, then the frames it had yielded before are in the document, contiguous and in order at the insertion point, the cursor is just after them, and every frame that was there before is still there, in order and unchanged. "
  "The outcome depends only on the frames the source yields: any size hint, however large, small, absent or wrong, leaves it the same, and the document stays fully usable.",
  ["fault_sequences", "histories", "crash_points"],
  "every insertion point x every stopping point x every way a frame source can misbehave",
  "The doc test inserts one well-behaved array of two frames at the end.",
  ["src/frame_cursor.rs"], [CU], ["FrameCursor::try_insert_frames", "FrameCursor::index", "Bvh::frames"])

p("C11", "Concurrent loads, saves and edits do not affect one another",
  "When several loads, saves (also of one shared document) and edits of separate documents are in progress at once, on several threads or nested inside one another's readers, sinks and frame sources, each one's result is the same as if it had run alone, under every interleaving of their I/O. "
  "An operation whose reader, sink or frame source stalls does not hold up any other operation.",
  ["schedules", "fault_sequences"],
  "all interleavings, at every reader, sink and frame-source call, of several operations, with stalls and failures in some",
  "No test runs two operations at once.",
  ["src/lib.rs", "src/parse.rs", "src/write.rs", "src/frame_cursor.rs"],
  [("no shared mutable state", "src/*.rs: all state lives in Bvh, the cursor and locals")],
  ["Bvh::from_reader", "WriteOptions::write", "FrameCursor::try_insert_frames"])

p("C12", "A damaged token is reported as what it is, at its own line",
  "When a well-formed stored document has exactly one token replaced by something that is not valid there (an offset number, channel count, channel name, MOTION, Frames or Frame Time: keyword, frame count, frame time or motion value), or one offset axis, channel count, frame count or frame time missing, loading fails with the error for that kind of item, naming the right axis, the channel text or the position of the motion value within its line. "
  "The line it reports is the zero-based number of the line the damage is on, counting every line including blank ones, whatever the delivery schedule.",
  ["inputs", "fault_sequences", "schedules"],
  "every document x every damaged token x every delivery schedule",
  "No test looks at a load error.",
  ["src/parse.rs", "src/errors.rs", "src/lib.rs"], [HP, MP, ("line counting", "src/lib.rs CachedEnumerate")],
  ["LoadError::line", "LoadError::kind"])

p("C13", "A failed or cancelled load or save leaves nothing behind",
  "After any load or save that failed, was cut short or was abandoned by a panic in its reader or sink, a new load or save of the same or another document on the same thread, with I/O that works again, succeeds and gives the same result as if the failure had never happened. "
  "Once faults stop it completes within a number of reader or sink calls linear in the bytes to transfer.",
  ["fault_sequences", "histories", "crash_points"],
  "all sequences of failing and healthy loads and saves",
  "No test lets anything fail and then goes on.",
  ["src/lib.rs", "src/parse.rs", "src/write.rs"], [RD, WR], ["Bvh::from_reader", "WriteOptions::write"])

p("C18", "The outcome of loading depends on the bytes alone",
  "The same bytes, whether a well-formed document, a damaged one or no document at all, always give the same outcome: an equal document, or an error of the same kind with the same details, line, message and chain of sources. "
  "It makes no difference through which entry point they come (reader, bytes, string), in which pieces and with how many interruptions a reader delivers them, and how often and among which other loads they are loaded. "
  "If the reader fails after some byte, the outcome likewise depends only on the bytes before it and on the failure, not on the pieces they came in.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all byte streams, well-formed or not x all deliveries, entry points and orders of loading",
  "The tests load two good files, each in one way; no error is ever compared with another.",
  ["src/lib.rs", "src/parse.rs", "src/errors.rs"], [RD, HP, MP],
  ["Bvh::from_reader", "Bvh::from_bytes", "from_str", "LoadError"])

p("C19", "Lost or repeated motion values are refused with the exact counts",
  "When motion values or whole lines of them are lost, repeated or added in a stored document, or its frame count is another, so that the number of values is no longer the frame count times the channel count, loading fails with the motion count mismatch, which states exactly the number of values found, the number expected, the frame count of the text and the number of channels. "
  "If the number of values does agree, however the values are spread over lines and blank lines, the document loads and has exactly these values in the order of the text, divided into frames of one value per channel.",
  ["inputs", "fault_sequences", "schedules"],
  "all documents x all losses, repetitions, additions and rearrangements of values and lines, all frame counts whose product with the channels fits",
  "No test loads a file whose counts disagree.",
  ["src/parse.rs", "src/errors.rs"], [MP, ("value count check", "src/parse.rs read_motion MotionCountMismatch")],
  ["Bvh::from_reader", "LoadError::kind", "Bvh::frames"])

p("C20", "Saving what was loaded from a save reproduces the file",
  "Loading a saved file and saving the document again with the same options, any number of times and with crashes and restarts in between, gives byte for byte the same file, whatever the options, fixed numbers of decimals included. "
  "This holds for every document with a non-empty skeleton, however it came about (loaded from tidy, untidy or damaged text, edited, or built as a literal), so that nothing drifts, grows or is normalised a second time.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all documents x all options x any number of save/crash/load generations",
  "One test compares one saved file with a stored one; no saved file is loaded and saved again.",
  ["src/write.rs", "src/parse.rs"], [WR, HP, MP], ["WriteOptions::write", "Bvh::from_reader"])

p("C21", "A misplaced or missing structural line is reported as what it is, at its line",
  "When lines of a stored document's hierarchy are lost, repeated, moved, stray or cut off, loading fails with the error for the keyword of the first line that stands where none of its kind can, with that line's zero-based number: HIERARCHY other than first, ROOT other than after it, an opening brace without a header before it, a closing brace without an open block, and JOINT, End Site, OFFSET or CHANNELS outside the body of a joint (of an end site too, for OFFSET) or after the children or end site it must precede, a second end site, or a second list of channels. "
  "A ROOT or JOINT without a name gives the missing-name error, End without Site the end-site error, anything but MOTION after the root has closed the missing motion section, and a hierarchy that ends before its root is closed the missing root. "
  "This holds at any depth, in any layout and under any delivery of the bytes.",
  ["inputs", "fault_sequences", "schedules"],
  "all documents x all losses, repetitions, moves and insertions of structural lines x all deliveries",
  "No test looks at a load error.",
  ["src/parse.rs", "src/errors.rs"], [HP, ("line counting", "src/lib.rs CachedEnumerate")],
  ["LoadError::kind", "LoadError::line"])

p("C22", "Repeated use, failing or not, leaves memory as it was",
  "When a sequence of loads, saves and edits has ended and its documents, readers, sinks and errors are dropped, the memory in use is what it was before, whether the operations succeeded, failed, met damaged input or were abandoned by a panic of the reader, sink or frame source. "
  "A program that goes on doing this, with the same or with ever new documents, does not grow.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of operations and failures, repeated any number of times",
  "No test measures memory or repeats anything.",
  ["src/lib.rs", "src/parse.rs", "src/write.rs", "src/frame_cursor.rs"], [RD, WR, CU],
  ["global allocator", "Bvh::from_reader", "WriteOptions::write", "FrameCursor::try_insert_frames"])

p("C23", "An error says in words what it says in data",
  "Whatever makes a load or an edit fail (damaged, cut or hostile bytes, a device failing at any point, operations that cannot be carried out), the error's text agrees with its data. "
  "The text of a load error names the section (hierarchy or motion), contains the text of its kind, the line it gives as line(), the axis, every count of a motion count mismatch, and for an I/O error the reader's own message. "
  "Its source is the error of its kind, through which the reader's own error or the channel error is reached and which ends after a few steps; kind(), into_kind(), line() and the boxed error say the same. The text of a refused edit names the lengths, the position or the channel number concerned. No number is told as another one (what was expected as what was found, frames as channels).",
  ["fault_sequences", "inputs", "schedules"],
  "all failures of loads and edits x all ways of looking at the error",
  "No test looks at an error at all.",
  ["src/errors.rs"], [HP, MP, ("error types", "src/errors.rs LoadError, LoadJointsError, LoadMotionError, FrameInsertError, FrameRemoveError, SetMotionError")],
  ["Display", "Error::source", "LoadError::kind", "LoadError::into_kind", "LoadError::line"])

p("C17", "A saved file is laid out as its options say, to the byte",
  "What a save hands to its sink is, byte for byte, the text its document and options determine, whatever the options' history (in which order and how often they were set, by methods or fields, copied or used before), the document's history of edits, or the sink's schedule of short and interrupted writes: "
  "HIERARCHY; for every joint in order its ROOT or JOINT line with the name, braces on lines of their own in the column of that line, OFFSET and CHANNELS (count, then the names in order) one level deeper, an End Site block if it has one, and its closing brace before the next joint that is not below it; MOTION; Frames: and Frame Time: with single spaces; one line per frame, values separated by single spaces. "
  "Every line, the last one too, ends with the chosen terminator and no other; every level of nesting adds the chosen indent exactly once; offsets (end sites included), frame time and motion values each have their own chosen number of digits after the point, or else the shortest form that reads back as the same value. A failing sink holds a prefix of that same text.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all documents and edit histories x all options and ways of setting them x all sink schedules and failures",
  "One test compares one small document under one combination of options.",
  ["src/write.rs", "src/lib.rs"], [WR, ("next_chunk", "src/write.rs WriteOptions::next_chunk"), ("prefix_chars", "src/write.rs IndentStyle")],
  ["WriteOptions::write", "WriteOptions::write_to_string", "Bvh::write_to", "Bvh::to_string"])

p("C24", "Comparing and copying documents follow their content",
  "Two documents compare equal exactly when their joints (names, order, parents, offsets, end sites, channels), frame time and frames are the same, floats compared as floats, whatever texts and layouts they were loaded from, however their bytes were delivered, and whether they were edited, copied, or saved and loaded again on the way; joints of two documents compare equal exactly when they agree in the same. "
  "A copy (also one made over another document) equals its original at that moment, and from then on nothing that happens to either (edits, extraction, failed loads and saves, frame sources that panic, being dropped) shows in the other.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of loading, copying, editing, breaking and dropping several documents, and all pairs of them",
  "Tests compare a few documents that should be equal; none that differ in one item, and no copy.",
  ["src/lib.rs", "src/joint.rs"], [("Bvh equality and Clone", "src/lib.rs struct Bvh"), ("joint equality", "src/joint.rs JointData, Joint::eq")],
  ["Bvh::eq", "Bvh::clone", "Joint::eq"])

p("C15", "A literal document is the document its text loads as",
  "Any document written for the literal macro within its documented grammar (nested and branching joints, with or without children and end sites, up to nine channels in any order and with repeats, frames or none) compiles, and equals, compared both ways and in everything that can be read from it, what loading the same tokens as text gives in any layout and by any delivery, whenever and however often it is built (also during a load, or after failed operations). "
  "The two then behave alike under the same edits and are saved as the same text. A literal without a skeleton is an empty document with the frame time it states.",
  ["inputs", "programs", "histories", "fault_sequences"],
  "all literal documents x all layouts and deliveries of their text x all histories of edits after it",
  "A few literals are compared with files, delivered whole.",
  ["src/macros.rs", "src/joint.rs", "src/parse.rs"], [("bvh! macro", "src/macros.rs bvh!, parse_joints_internal!"), ("builder", "src/macros.rs BvhLiteralBuilder")],
  ["bvh!", "Bvh::eq"])

# ---- pure functions: listed, not claimed (see DESIGN.md and MANIFEST not_applicable)
p("C14", "Channel names and their parsed form are inverse to each other",
  "Printing a channel type and parsing the text gives the channel type back, exactly the six documented names parse, and any other byte string is returned unchanged inside the error. Axis, position and rotation queries agree with the name.",
  ["inputs"], "all byte strings", "Doc tests try two strings.", ["src/lib.rs"], [("ChannelType", "src/lib.rs ChannelType::from_bytes, as_str")], ["ChannelType::from_bytes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
