NA={}
M="runtime monitoring: "
T={
"C01":(M+"online comparison of every rendered sample with an executable reference model of the graph, over random edit histories of recording probe nodes","Histories are random; quick: tens of thousands of histories, up to 10 nodes, and large graphs of up to 460. Integer probe functions make any wrong, missing, duplicated or stale source visible."),
"C02":(M+"per-node monitors (init count, frame count, clock contiguity, state in the output) and a reference model, over random edit histories, more commits than the ring holds, and a concurrently rendering thread","Interleavings with the audio thread are those the scheduler produces, not enumerated."),
"C03":(M+"reference model of one-block delays compared with every rendered sample, over random graphs with feedback edges","Random graphs and histories."),
"C05":(M+"drop counters in every node, a counting allocator checking that nothing is leaked, and after-drop/while-processing monitors, over random histories, drop orders and nested graphs","Leaks are observed as the balance of heap bytes over a whole graph's life."),
"C10":(M+"reference model and a wrapper equivalence oracle for parameter links, over random graphs and wrapper stacks","Random graphs and histories."),
"C04":(M+"fault injection of every kind of invalid request into random edit histories; the outcome, an inspection snapshot before and after, and the following audio are compared with the reference model","Requests are drawn from all combinations of valid, out-of-range, freed and foreign arguments; log-only operations are checked by their effects."),
"C08":(M+"conservation and ordering checks over a recorded ledger of every parameter change sent and every change applied by the nodes, over random histories, full queues and concurrent sender threads","Interleavings are those the scheduler produces under stress."),
"C09":(M+"recorded application time of every scheduled change checked against its due frame, over random due times, sample rates, block sizes and orders of sending","Due times up to years ahead are sampled, not enumerated; the clock is run past 2^32 frames."),
"C25":(M+"comparison of inspection, dot text, name and id lookup and handles with a reference model after every step of random edit histories and random trees of subgraphs","Parameter connections are not part of the inspection structure and so not compared here (C10 observes them in the audio)."),
"C19":(M+"comparison of every output with an independent history of everything written, over random delay changes, block divisions and clears","Delay lengths (up to 150000 frames), float types and call sequences are sampled."),
"C20":(M+"comparison of every output and every done mark with an independent step-by-step envelope model, over random segments, triggers and block divisions","Envelope shapes and trigger times are sampled, segments of up to minutes among them."),
"C21":(M+"comparison of every output with an independently accumulated phase and an independently computed waveform, over random frequencies, phases, tables and changes while running","Tolerances follow from table interpolation, number of partials and float precision."),
"C12":(M+"done reports of probe nodes at chosen frames, checked in the rendered audio, the inspection and the drop counters against a reference model, over random trees of graphs and wrapper stacks","Trees, done frames and histories are random."),
"C13":(M+"comparison of every rendered sample of random trees of nested graphs with a reference model of the flattened graph, under edits, parameter changes and frees at every level while running","Nesting depth up to 4; trees and histories are random."),
"C14":(M+"comparison of every output sample with the arithmetic of the operands computed independently, over random operators, handle and constant operands, stacks, chains, wrappers and block divisions","Operand values, channel counts, expression shapes and block divisions are sampled."),
"C11":(M+"comparison of the parameter values a node sees in every frame with a model of the ramp, over random targets, durations, rates, interruptions and block divisions, on the bench and in a running graph","Ramps and times of change are sampled; where the documentation leaves a choice (value on interruption) both are accepted."),
"C16":(M+"shadow model of the storage compared after every access through random trees of views, with guard memory around raw blocks and accesses out of bounds injected","Views up to four deep; sizes and windows sampled."),
"C17":(M+"differential monitoring of every operation against 128 bit integer arithmetic, locating each result among all values by comparisons only","Operands are random and extreme values, not all of them."),
"C18":(M+"queue model of every channel compared with all received messages, over random interleavings of sending, receiving and registering, and order and completeness monitors on messages between threads","Thread interleavings are those the scheduler produces under stress."),
"C24":(M+"comparison of every stored, interpolated and played sample and every completion report with a read pointer model, hostile rates, sections and positions with a monitor that only samples of the channel are heard, and sound file round trips with damaged files","Buffers, sections, rates and divisions of time are sampled; the debug profile's checks of unchecked reads are an extra monitor."),
"C22":(M+"comparison of every output with a direct form filter computed from the analog transfer function, gains measured from impulse responses, superposition, bit-exact causality of changes, and finiteness monitors with every parameter moving","Settings and inputs are sampled; cutoffs up to 0.499 of the sample rate."),
"C23":(M+"statistical monitors (range, mean, variance, spectral slope, correlation, distribution) over long runs, pairwise comparison of generators, and a line fit of every random ramp against the accumulated rate","Seeds are those of the process wide counter; tolerances of more than six standard deviations."),
"C06":("Runtime monitoring: a counting allocator and stand-ins for blocking system calls watch every call on the rendering side while random edits, parameter changes, logs, frees and teardowns go on, alone and from concurrent threads","Histories and interleavings are random; a lock is only seen when contended or held by the same thread."),
"C15":(M+"comparison of every sample and completion report between frame by frame processing and random divisions into blocks and partial blocks, for every node and stacks of wrappers, with sentinels around partial output, and of whole graphs at different block sizes","Settings, inputs and divisions are sampled; the reverb is compared to 1e-5, everything else exactly."),
"C26":(M+"recording setters behind nodes generated by the macros and written by hand, comparing every value sent by name or index through every route with the setter called; sample comparison of all library nodes set by name, by index, wrapped and in graphs","Values and wrapper stacks are sampled."),
"C27":(M+"comparison of every output with the documented function of the input, setting and trigger times over random changes and block divisions, and bound and finiteness monitors for the reverb","Settings, inputs and divisions are sampled; the reverb is only bounded and compared when dry."),
"C07":("Sanitizers: address sanitizer, thread sanitizer and the Miri interpreter watch every memory access of random edit histories, concurrent control, handle, log and audio threads, hostile values and nodes that misuse what they are given; nodes that aren't Send are offered to the compiler and raced if accepted","Executions and interleavings are sampled; the thread sanitizer sees x86-64 orderings, the interpreter simulates weaker ones on short workloads."),
}
