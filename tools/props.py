import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="knaster_graph/src/"; D="knaster_core_dsp/src/"; C="knaster_core/src/"; R="knaster_primitives/src/"
p("C01","Rendered audio equals the evaluation of the connected graph",
 "After any history of adding and removing nodes and of adding, replacing and removing connections, every block a graph renders equals the mathematical evaluation of its current connections: each node input carries the sum of everything connected to it (silence when nothing is), and each graph output the sum of everything routed to it. The result does not depend on the order in which nodes were created, connected or committed, nor on how the graph reuses memory between nodes. A replacing connection leaves exactly the new source on its input or output, and a disconnect removes exactly the named connections and nothing else.",
 ["histories","programs"],"For every history of edits (add, free, connect additively, connect with replace, disconnect source or input, route to/from graph inputs and outputs), every block size, every fan-in/fan-out and channel layout, interleaved with rendering at any point.",
 "Tests render a handful of fixed small graphs for a block or two; scheduling order, buffer reuse and additive/replace bookkeeping only interact in larger graphs and after edits of a running graph.",
 [G+"graph.rs",G+"graph_gen.rs",G+"buffer_allocator.rs",G+"task.rs",G+"graph_edit.rs",G+"edge.rs",G+"block.rs"],
 [("topological ordering of nodes",G+"graph.rs"),("buffer allocation and reuse between nodes",G+"buffer_allocator.rs, "+G+"graph.rs"),("additive and replacing connections",G+"graph.rs"),("copying graph outputs and passing graph inputs",G+"graph_gen.rs")])
p("C02","Edits are atomic and every live node runs once per frame, keeping its state",
 "All changes made in one edit take effect together at the start of a block, never partially and never in the middle of one. Every node that is part of the running graph - connected or not - is initialised exactly once before its first frame and then processes every frame exactly once, in order, with a clock that advances without gaps or repetitions. Editing one part of the graph never resets, skips, repeats or delays the processing of the nodes that stay in it.",
 ["histories","schedules"],"For every history of edits interleaved with rendered blocks, including several edits between two blocks and edits made from another thread while blocks are rendering.",
 "A test can only show that one edit at one point worked; state loss, double processing or a half-applied edit needs a particular edit at a particular time and a stateful node to reveal it.",
 [G+"graph.rs",G+"graph_gen.rs",G+"task.rs",G+"processor.rs",G+"graph_edit.rs"],
 [("sending a new task list to the audio thread",G+"graph.rs"),("swapping the task list at the block boundary",G+"graph_gen.rs"),("frame clock",G+"processor.rs"),("commit at the end of an edit",G+"graph_edit.rs")])
p("C03","A feedback connection delays its signal by exactly one block",
 "A feedback connection delivers to its sink, in each block, exactly what its source produced on the connected output channel in the previous block, frame by frame (silence in the first block), whatever the order of the nodes in the graph. It composes with ordinary connections like any other source: additive feedback is summed with what is already connected and replacing feedback leaves only the fed-back signal. Feedback connections allow cycles that ordinary connections reject, and editing elsewhere in the graph does not disturb the delayed signal.",
 ["histories","programs","inputs"],"For every graph with feedback edges between any output channel of any node and any input channel of any node (also itself), every block size and every later edit.",
 "The tests build one feedback loop on channel 0 between two nodes; channel selection, creation order and multiple loops are not reached.",
 [G+"graph.rs",G+"graph_edit.rs",G+"node.rs",G+"task.rs"],
 [("feedback source/sink node pair",G+"graph.rs"),("feedback edges in the edit API",G+"graph_edit.rs"),("node ordering with feedback",G+"graph.rs")])
p("C04","Invalid edits are refused with an error and change nothing",
 "A request that cannot be honoured - a connection that would create a cycle without feedback (through audio inputs or through audio-rate parameters), a channel or parameter that does not exist, a node that was freed, or a node that belongs to another graph - is reported - as an error from operations that return a result, in the log from those that do not - instead of panicking, hanging or being accepted. The refused request leaves the graph, its connections and its audio exactly as they were, and later valid edits still work.",
 ["inputs","histories"],"For every kind of edit and parameter call, with every combination of valid, out-of-range, freed and foreign node ids, channels and parameters, at any point of any edit history.",
 "Tests check a few single errors on fresh graphs; cross-graph ids, freed nodes and cycles through parameters or long paths are combinations they never make, nor do they check that nothing else changed.",
 [G+"graph.rs",G+"graph_edit.rs",G+"handle.rs"],
 [("argument validation of connect/disconnect/set/free",G+"graph.rs"),("cycle detection",G+"graph.rs"),("parameter name and index validation",G+"graph.rs, "+G+"handle.rs")])
p("C05","Every node is dropped exactly once, after its last use, and reclaimed",
 "A node that is freed - explicitly, by its own done action or with its graph - stops being processed from the block where the edit takes effect, and its value is then dropped exactly once, never while it can still be processed. Freed nodes and the resources of finished edits are reclaimed by later edits instead of accumulating. Dropping the graph and the processor in either order, at any time, drops every node exactly once and leaks nothing.",
 ["histories","schedules"],"For every history of pushes, frees, done actions and edits, with the audio side running, paused or already dropped, and every drop order.",
 "Leaks, double drops and use after free depend on how far the audio side has got when the edit is made; tests check one sequence and no drop counts.",
 [G+"graph.rs",G+"graph_gen.rs",G+"task.rs",G+"node.rs"],
 [("deferred node removal",G+"graph.rs"),("returning old task data for dropping",G+"graph_gen.rs"),("sharing node storage between graph and audio side",G+"graph_gen.rs, "+G+"node.rs")])
p("C06","Rendering never allocates, frees or blocks",
 "Rendering a block, whatever edits, parameter changes, log messages, node removals and graph removals it has to take over from the control side, performs no heap allocation or deallocation on the rendering thread. Nodes, buffers and obsolete task lists are always released on the control side. This holds as long as the documented capacities of the communication channels are not exceeded.",
 ["histories","schedules"],"For every history of edits, parameter changes, log messages and frees within the configured ring buffer capacities, for every rendered block.",
 "Nothing in the tests watches the allocator; a single Vec growth or dropped Arc on the audio thread only shows under particular edit histories.",
 [G+"graph_gen.rs",G+"task.rs",G+"processor.rs",C+"log.rs",D+"ugens",D+"wrappers_core"],
 [("task data hand-over and return ring",G+"graph_gen.rs"),("waiting parameter change queue",G+"graph_gen.rs"),("real-time log sender",C+"log.rs")])
p("C07","No safe use of the library causes undefined behaviour or data races",
 "No sequence of safe API calls - editing, setting parameters, rendering, receiving logs, dropping graph and processor in any order - on any arrangement of threads reads or writes memory outside live allocations or races on shared memory. A control thread editing and scheduling concurrently with an audio thread rendering is always properly synchronised. Buffers handed to nodes during rendering are valid for the whole block, and input slices are never read past their end.",
 ["schedules","histories","inputs"],"For every interleaving of one control thread per graph, any number of threads holding handles' ids and log receivers, and one audio thread, for every edit history and every argument value.",
 "Tests run single-threaded without sanitizers; memory errors and races that happen not to crash pass unnoticed.",
 [G+"graph.rs",G+"graph_gen.rs",G+"buffer_allocator.rs",G+"block.rs",G+"processor.rs",G+"task.rs",C+"log.rs",D+"dsp/buffer.rs",R+"block.rs"],
 [("raw buffer pointers in tasks",G+"task.rs"),("graph/audio hand-over protocol",G+"graph.rs, "+G+"graph_gen.rs"),("raw blocks",G+"block.rs"),("unchecked indexing",D+"dsp/buffer.rs")])
p("C08","Parameter changes reach the right parameter once and in order",
 "Every parameter change that was accepted (through any handle, by name or by index, directly or through the graph, also inside subgraphs) is applied exactly once, to the addressed node and parameter, with the given value, at the start of the next block that can see it. Changes to one node are applied in the order in which they were sent, and a change sent together with the edit that creates a node is not lost. Nothing is ever applied to another node, to a freed node or to a node that later reuses its place.",
 ["histories","schedules","inputs"],"For every interleaving of sets, edits, frees and rendered blocks, every parameter type and value, every way of addressing, within the ring buffer capacity.",
 "Tests set a parameter or two on fixed graphs; ordering and routing across edits, key reuse and waiting changes are not exercised.",
 [G+"graph.rs",G+"graph_gen.rs",G+"handle.rs",G+"graph_edit.rs",C+"parameters.rs"],
 [("scheduling channel",G+"graph.rs, "+G+"scheduling.rs"),("applying and keeping waiting changes",G+"graph_gen.rs"),("parameter lookup",G+"graph.rs, "+G+"handle.rs")])
p("C09","Scheduled changes happen at their time, never lost, early or twice",
 "A change scheduled for an absolute time or after a delay is applied exactly once in the block that contains its due frame (a time already past means the next block), and on a node with precise timing at exactly that frame. A change tied to a token waits until the token is activated. Changes due at different frames are applied in time order, however far in the future they are, and the clock that schedules are based on equals the number of rendered frames.",
 ["inputs","histories"],"For every due time, sample rate, block size, number of pending changes within capacity, and order of sending.",
 "Tests schedule one or two changes within a few blocks; due times across many blocks, equal frames, immediate changes after delayed ones and far-future times are not covered.",
 [G+"scheduling.rs",G+"graph_gen.rs",D+"wrappers_core/precise_timing.rs",G+"processor.rs",G+"handle.rs",G+"graph_edit.rs"],
 [("time until due",G+"scheduling.rs"),("waiting parameter changes",G+"graph_gen.rs"),("in-block delays",D+"wrappers_core/precise_timing.rs")])
p("C10","Audio-rate parameter links drive the parameter with the source signal",
 "While a signal is linked to a parameter of a node that supports audio-rate parameters, the parameter's value in every frame is the linked source's output in that same frame, exactly as if the parameter had been set before each frame, for any block size and node order. Several linked sources are summed when linked additively and replaced when replacing, and links survive edits elsewhere in the graph.",
 ["histories","programs","inputs"],"For every graph in which outputs are linked to parameters, every parameter index, creation order, block size and later edit.",
 "The tests link one constant to one parameter; ordering of the source before the sink, several parameters and edits after linking are not checked per frame.",
 [G+"graph.rs",D+"wrappers_core/audio_rate.rs",G+"task.rs",G+"graph_edit.rs"],
 [("parameter edges",G+"graph.rs"),("audio-rate buffers per parameter",D+"wrappers_core/audio_rate.rs"),("handing buffers over",G+"task.rs")])
p("C11","Smoothed parameters ramp linearly to the target and stop there",
 "With linear smoothing set on a parameter, a new value makes the parameter move linearly from its current value (the last one it took, zero if none) to the target over the given duration - a step per block at block rate, a step per frame at audio rate - monotonically, never beyond the endpoints, and ending exactly on the target. A new target during a ramp continues from the value reached, and removing the smoothing or using a zero duration makes changes immediate. Parameters without smoothing and non-float parameters pass through unchanged.",
 ["inputs","histories"],"For every duration (also zero and shorter than a frame), block size, rate, sequence of targets and smoothing changes, at any time during a ramp.",
 "Tests check one ramp; retargeting, changing smoothing mid-ramp and degenerate durations are not tried.",
 [D+"wrappers_core/smooth_params.rs",C+"parameters/types.rs"],
 [("smoothing state machine",D+"wrappers_core/smooth_params.rs")])
p("C12","Done actions remove exactly the finished node or its graph, at the right frame",
 "When a node pushed with a done action reports that it is finished, exactly that action is taken: nothing, freeing that node only, or freeing the graph it is in. Freeing the node removes it and its connections without disturbing the other nodes, and freeing the parent silences the graph from exactly the reported frame on and never renders it again. A node that did not finish is never removed.",
 ["histories","inputs"],"For every set of nodes with and without done actions finishing at every combination of frames and blocks, at top level and in nested subgraphs, with every done action changed at run time.",
 "Tests free one node that finishes in its first block; several nodes finishing together, partial blocks and interplay with edits are not covered.",
 [G+"wrappers_graph/done.rs",C+"ugen.rs",G+"graph.rs",G+"graph_gen.rs"],
 [("done wrapper and flags",G+"wrappers_graph/done.rs, "+C+"ugen.rs"),("removal of finished nodes",G+"graph.rs"),("graph removal flag",G+"graph_gen.rs")])
p("C13","A subgraph behaves exactly like its contents placed inline",
 "A graph nested in another renders the same audio as if its nodes were placed in the parent directly: its inputs are the signals connected to it, its outputs are available to the parent in the same block, at any nesting depth. Edits, parameter changes and frees inside a subgraph work as at top level, while the outer graph is running. Freeing a subgraph stops and releases everything in it.",
 ["programs","histories"],"For every nesting structure, channel count and edit history inside and outside of the subgraph.",
 "Tests nest one graph with one node; multi-channel inputs and outputs, deep nesting and edits of a nested running graph are not compared with a flat graph.",
 [G+"graph.rs",G+"graph_gen.rs",G+"graph_edit.rs"],
 [("subgraph creation",G+"graph.rs, "+G+"graph_edit.rs"),("graph generator as a node",G+"graph_gen.rs")])
p("C14","Arithmetic on signals computes that arithmetic, in operand order",
 "Combining signals with + - * / and power, between handles, and between handles and constants on either side, yields for each channel and frame exactly the corresponding arithmetic of the operands in the written order. Stacking and chaining connect the channels in the written order. The math nodes and the wrappers that scale, offset, divide, raise or map a node's output compute the same results, in single-frame and block processing.",
 ["programs","inputs"],"For every expression over signals and constants, any channel count, and every sample value.",
 "Tests evaluate a few expressions with commutative operators; operand order, multi-channel operands and constants on the left are barely covered.",
 [G+"graph_edit.rs",D+"ugens/math.rs",D+"wrappers_core/math.rs",D+"wrappers_core.rs",D+"wrappers_core/closure.rs"],
 [("operator overloads of handles",G+"graph_edit.rs"),("math UGens",D+"ugens/math.rs"),("math wrappers",D+"wrappers_core/math.rs")])
p("C15","Output does not depend on how time is divided into blocks",
 "For every signal generator, processor and wrapper, the sequence of output samples is the same whether it is processed frame by frame, in blocks of any size, or in a block split into arbitrary partial blocks, given the same inputs and parameter changes at the same frames. Partial processing writes exactly the frames asked for.",
 ["inputs","configurations"],"For every UGen and wrapper, every parameter setting, every input signal and every partition of the time line into blocks and partial blocks.",
 "Tests run each UGen at one block size; hand-written block implementations and partial-block bookkeeping diverge only at particular sizes, offsets and states.",
 [D+"ugens",D+"wrappers_core",C+"ugen.rs","knaster_airwindows/src/galactic.rs","knaster_macros/src/lib.rs"],
 [("block implementations next to single-frame ones",D+"ugens"),("partial block bookkeeping",C+"ugen.rs, "+D+"wrappers_core")])
p("C16","Block views address exactly their channels and frames",
 "Reading or writing channel c, frame f of any block or partial view accesses exactly that sample of the underlying storage; sizes and channel counts reported match what can be accessed; iteration visits every channel exactly once in order. Views of views compose their offsets, and an access outside a view's bounds never touches another channel's or view's samples.",
 ["inputs","programs"],"For every block type, channel count, block size, nested view offsets and lengths, and access sequence.",
 "Tests cover a couple of fixed shapes without nested views or out-of-range accesses.",
 [R+"block.rs",G+"block.rs"],
 [("owned, static and partial blocks",R+"block.rs"),("raw blocks used by the graph",G+"block.rs")])
p("C17","Musical and clock time arithmetic is exact and consistent",
 "Converting whole frames to time and back at any common sample rate returns the same frame, conversions to and from floating point agree with the real value to within the representation's resolution, and time values stay in normal form so that comparison and equality agree with the numeric value. Addition, subtraction, saturating and checked variants and scaling agree with exact arithmetic, reporting or saturating instead of wrapping when out of range.",
 ["inputs"],"For every time value in range, every common sample rate, and every operation of seconds and beats.",
 "Tests check a few hand-picked values; carry, borrow and rounding edges need systematic and random values against exact arithmetic.",
 [R+"time.rs"],
 [("seconds and beats representation and arithmetic",R+"time.rs")])
p("C18","Log messages arrive complete, in order, and never disturb the sender",
 "Messages logged from the audio side arrive at the receiver complete and in the order sent per sender, each exactly once, with every value as logged, as long as the channel has room. When a channel is full messages are dropped whole and the sender carries on; later messages are received correctly again. Registering several senders with one receiver keeps their messages apart and complete.",
 ["histories","schedules","inputs"],"For every sequence of messages, channel capacity, receive pattern and interleaving of sender and receiver threads.",
 "Tests send a few messages through a roomy channel on one thread.",
 [C+"log.rs"],
 [("real-time log sender and receiver",C+"log.rs")])
p("C19","Delay lines return exactly what was written the set time ago",
 "A delay of n samples outputs exactly its input of n samples earlier and zero before that, for every n from the minimum to the maximum it was created with, across wrap-around of its memory and after changes of n. The fractional (allpass-interpolated) and feedback variants follow their difference equations with the same timing, and stay bounded for stable coefficients. Delay times out of range are limited to what the delay can hold instead of panicking or reading elsewhere.",
 ["inputs","histories"],"For every input signal, delay length, sequence of delay changes, and mix of block and single-frame access.",
 "Tests check one or two lengths; boundary lengths (zero, maximum, beyond) and changes while running are not.",
 [D+"ugens/delay.rs"],
 [("ring-buffer indexing",D+"ugens/delay.rs")])
p("C20","Envelopes follow their segments exactly and signal completion once",
 "An envelope moves through its segments in order, each taking its set duration and ending on its set value, stays between the values it moves between, and holds its final or sustained value until released or retriggered. Attack, sustain and release respond to triggers at any time by continuing from the current level without jumps, the sustain level being held exactly. Completion is reported at the frame where the envelope ends, and the output is never outside the range of its segment values or not a number.",
 ["inputs","histories"],"For every set of durations (also zero) and values, sample rate, and every sequence of triggers, releases and parameter changes at any frame.",
 "Tests run one trigger-release cycle; retriggering in sustain, mid-segment changes and zero-length segments are not covered.",
 [D+"ugens/envelopes.rs"],
 [("segment state machines",D+"ugens/envelopes.rs")])
p("C21","Oscillators produce their waveform at the set frequency and phase",
 "Each oscillator's output follows its waveform at the set frequency with continuous phase: over any length of time the phase equals the accumulated frequency plus the phase offset (in periods) to within the stated resolution. The output stays within the waveform's range, is periodic, and is free of discontinuities other than the waveform's own when parameters change. Resetting or changing a parameter takes effect as documented without affecting the others.",
 ["inputs","histories"],"For every frequency between zero and Nyquist, phase offset, sample rate, length of time and sequence of parameter changes.",
 "Tests compare a few samples at one frequency.",
 [D+"ugens/osc.rs",D+"ugens/polyblep.rs",D+"dsp/wavetable.rs"],
 [("phase accumulation",D+"ugens/osc.rs"),("wavetable lookup and interpolation",D+"dsp/wavetable.rs"),("band-limited waveforms",D+"ugens/polyblep.rs")])
p("C22","Filters realise their transfer function and stay stable",
 "Each filter's response matches the transfer function of its type at the set cutoff, resonance and gain: unity or zero gain at DC and Nyquist and the expected level at cutoff as its type prescribes, linear in its input, for any sample rate. Output stays finite for finite input at every legal parameter setting, including while parameters change each frame. Changing filter type or parameters affects only later samples.",
 ["inputs","configurations"],"For every filter type, cutoff, Q, gain, sample rate and bounded input.",
 "Tests run one or two settings and compare nothing about the response.",
 [D+"ugens/svf.rs",D+"ugens/onepole.rs"],
 [("coefficient formulas per type",D+"ugens/svf.rs"),("one-pole recursions",D+"ugens/onepole.rs")])
p("C23","Noise generators stay in range, keep their statistics and differ",
 "White, pink and brown noise and random ramps stay within their documented range for any length of time, keep the mean and spectral slope of their kind, and never get stuck or become non-finite. Two generators created separately produce different sequences, and a ramp generator interpolates linearly between successive random values at the set rate.",
 ["inputs","histories"],"For every seed, generator, length of time and rate parameter.",
 "Tests look at a few values from one instance.",
 [D+"ugens/noise.rs",D+"dsp/xorrng.rs"],
 [("noise generators",D+"ugens/noise.rs"),("pseudo random source",D+"dsp/xorrng.rs")])
p("C24","Buffers store and play back exactly the samples they hold",
 "A buffer returns, for every channel and frame, exactly the sample it was built from, whole frames and interpolated positions alike (linear interpolation between neighbours), and reports the matching length, rate and channel count. Playing it back outputs its frames in order at the set rate and section, loops seamlessly when looping, is silent after the end otherwise, and reports completion at the frame it ends. No position, rate, section or channel count makes it read outside of its samples.",
 ["inputs","histories"],"For every buffer length, channel count, rate, start/end section, looping mode, buffer/processing sample rate ratio and interpolated position.",
 "Tests play one short buffer at rate one; unchecked reads at sections past the end, fractional rates and loops are not tried.",
 [D+"dsp/buffer.rs",D+"ugens/buffer.rs"],
 [("interleaved sample storage and interpolation",D+"dsp/buffer.rs"),("read pointer, looping and completion",D+"ugens/buffer.rs")])
p("C25","Names, handles and inspection describe the actual graph",
 "Looking up a node by name or id finds exactly the live node it names, with its real channel and parameter counts and names, and never a freed one. The inspection of a graph lists exactly its live nodes and, for each, exactly its current connections from nodes and graph inputs and to graph outputs, summing and feedback included, and which nodes are graphs. Handles, also those made from an inspection, address the node they describe and report correctly whether their graph still takes changes.",
 ["histories"],"For every edit history, at any point of it.",
 "Tests inspect one fixed graph.",
 [G+"inspection.rs",G+"graph.rs",G+"handle.rs",G+"graph_edit.rs"],
 [("inspection of nodes and edges",G+"graph.rs, "+G+"inspection.rs"),("name and id lookup",G+"graph.rs, "+G+"graph_edit.rs")])
p("C26","Declared parameters are the parameters, by name, index and type",
 "For every node type - written by hand, generated by the derive and implementation macros, or wrapped - names, type hints and indices of its parameters line up: setting a parameter by name or by index does the same thing, each value type reaches the matching setter unchanged, wrappers keep the inner parameters at their positions and append their own, and unknown names, out-of-range indices are errors. Enumerated parameters convert to and from integers without loss and describe every value in their range.",
 ["inputs","programs"],"For every node type and stack of wrappers, every parameter and every value of every type.",
 "Tests set a couple of parameters on a couple of nodes.",
 ["knaster_macros/src/lib.rs",C+"parameters.rs",C+"parameters/types.rs",C+"ugen.rs",D+"wrappers_core.rs",G+"dynugen.rs"],
 [("derived UGen implementations","knaster_macros/src/lib.rs"),("parameter dispatch",C+"ugen.rs, "+G+"dynugen.rs")])
p("C27","Stereo, dynamics and utility nodes keep their level contracts",
 "Panning distributes a mono signal with constant power, fully to one side at either end and equally in the centre. Utility nodes (constants, closures, smoothing and done-on-trigger nodes, the reverb effect) output what they are documented to: a constant its value at every frame, a closure its function of each frame, a done-on-trigger node its completion exactly when triggered, the reverb a bounded, finite signal that passes the dry signal unchanged when fully dry.",
 ["inputs","histories"],"For every input value, parameter value and sequence of changes.",
 "Tests check single values for a subset of these nodes.",
 [D+"ugens/pan.rs",D+"ugens/util.rs",D+"ugens/closure.rs","knaster_airwindows/src/galactic.rs"],
 [("pan law",D+"ugens/pan.rs"),("utility nodes",D+"ugens/util.rs, "+D+"ugens/closure.rs"),("reverb","knaster_airwindows/src/galactic.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
