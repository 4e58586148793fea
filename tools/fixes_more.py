W.update({
"changes due in the same block":("C09","changes due at different frames of one block were applied in the order they were sent"),
"refused connections and disc":("C04","a cycle or missing channel given to SH::to_replace, to_graph_out.. or disconnect_.. panicked with the graph locked and aborted the process"),
"inspection reports feedback":("C25","inspection() reported every node input as not fed back and no node as a graph"),
})
W.update({
"SampleDelay delays by":("C19","SampleDelay delayed one frame less than asked for, and its maximum delay gave no delay"),
"AllpassInterpolator starts":("C19","a new AllpassInterpolator started with 1 and kept its state when cleared"),
"AllpassDelay limits":("C19","delay times beyond the buffer of AllpassDelay panicked or wrapped around"),
"StaticSampleDelay uses":("C19","StaticSampleDelay's block operations delayed by its whole buffer, whatever length was set"),
"set_delay_in_frames_and_clear":("C19","set_delay_in_frames_and_clear left old samples in the delay"),
"EnvAsr and EnvAr restart":("C20","EnvAsr and EnvAr jumped when restarted or released during a ramp"),
"EnvAsr restarted while":("C20","EnvAsr restarted while sustaining dropped to the end of its release"),
"Envelope segments without":("C20","segments without duration gave NaN; stopping overshot below 0"),
"Envelope jumps":("C20","jumping to a segment started from the wrong level"),
"an Envelope without":("C20","triggering an Envelope without segments panicked on the audio thread"),
"a looping Envelope":("C20","the time left over at the end of a loop was lost, loops grew longer than their segments"),
"the phase offset of wave":("C21","the phase offset of wavetable oscillators was truncated to (nearly) nothing"),
"wavetable oscillators run":("C21","negative frequencies stopped wavetable oscillators"),
"Phasor and SinNumeric":("C21","Phasor and SinNumeric left 0..1 for negative or high frequencies"),
"PolyBlep runs":("C21","PolyBlep left its period at negative frequencies"),
"NonAaWavetable::set_from":("C07","a shorter buffer set into a NonAaWavetable was read out of bounds"),
})
W.update({
"Seconds and Beats are always in":("C17","Seconds::MAX and values made from more than a unit of tesimals were not in normal form: they compared wrongly and could not be added"),
"conversions to Seconds and Beats":("C17","numbers of frames, tesimals or float seconds beyond the range wrapped around to small times"),
"adding Seconds or Beats":("C17","adding times beyond the range overflowed"),
"the product of two Seconds":("C17","the product of two Seconds ignored the cross terms and the scale of the fraction"),
"scaling Beats by an integer":("C17","scaling Beats by integers rounded through floats, so that n times a fraction of a beat was not exact"),
"Beats::from_fractional_beats":("C17","fractions that do not divide the resolution were off by up to their number of parts"),
"log messages that don't fit":("C18","a full log channel dropped parts of messages, so that the rest of them was merged with the following messages"),
"removing the smoothing of":("C11","a change of a smoothed parameter followed by removing the smoothing before the next block was lost"),
})
W.update({
"an empty multi channel buffer":("C24","Buffer::new with several channels had room for one channel only and panicked when read"),
"interpolated buffer reads stay":("C24","positions or channels outside of a buffer were read with unchecked indexing"),
"BufferReader processes the part":("C24","BufferReader given a part of a block wrote a whole block, past its end"),
"a finished BufferReader":("C24","a finished BufferReader logged an error every block"),
"BufferReader reports the same":("C24","BufferReader reported its completion a frame earlier when run frame by frame than in blocks"),
"BufferReader sections":("C24","sections were shortened by truncation of seconds, loops drifted"),
"BufferReader ends at the end":("C24","a section extending past the end of the buffer was read past its end"),
"a negative BufferReader":("C24","a negative duration ended playback at once instead of meaning the buffer length"),
"a looping BufferReader":("C24","a loop lost the fraction of a frame at its end: its period was rounded up to whole frames"),
"an unreadable sound file":("C24","missing and damaged sound files panicked instead of returning the error"),
})
W.update({
"the bell filter boosts":("C22","the bell filter's peak was not at its cutoff frequency unless the gain was 0 dB"),
"RandomLin produces new":("C23","RandomLin's ramps were lengthened to whole frames, so that it ran slower than its frequency"),
"RandomLin stays within":("C23","RandomLin left 0..1 without bound at negative frequencies"),
"DoneOnTrig is done once":("C27","DoneOnTrig reported its completion in every frame after the trigger"),
"LogProbe logs every N":("C27","LogProbe logged every N + 1 samples"),
"Galactic doesn't overflow":("C27","Galactic panicked (overflow) when its output reached 2"),
"Galactic's filters":("C27","Galactic blew up at low sample rates and full brightness"),
})
W.update({
"UGen::param reports a value":("C26","UGen::param panicked in the setter on a value of the wrong type instead of returning an error"),
"a smoothing change sent to":("C26","WrMul, Galactic and Envelope panicked on a smoothing change"),
"the range of an enumerated":("C26","the derived range of an enumerated parameter excluded the last variant and ignored explicit discriminants"),
"integer parameters can declare":("C26","the documented range attribute of integer parameters did not compile"),
"a signal can't be linked":("C10","linking a signal to an integer or boolean parameter was accepted and panicked on the audio thread"),
"a node that can't be moved":("C07","a node that isn't Send, e.g. one holding an Rc, could be pushed and then run on the audio thread: a data race from safe code"),
"a node replacing the AudioCtx":("C07","a node replacing the AudioCtx it is given decided the length of other nodes' raw buffers: reads and writes out of bounds from safe code"),
"the output block of an AudioProcessor":("C07","exchanging the output blocks of two processors left one using the other's buffer after it was freed, from safe code"),
})
W.update({
"the tables of an anti-aliased":("C21","the tables of an anti-aliased Wavetable contained partials above 20 kHz for the frequencies they are used at, and the ones for high frequencies no fundamental"),
"normalizing a silent Wavetable":("C21","normalizing a silent Wavetable turned it into NaN"),
})
W.update({
"selecting an output channel that":("C04","selecting an output channel that does not exist with `out` panicked instead of being reported"),
"making a dynamic handle of":("C04","`dynamic()` on the handle of a node freed earlier in the same edit panicked"),
})
W.update({
"long envelopes took the wrong":("C20","EnvAsr and EnvAr took the wrong time for long segments in single precision: 30 s took 29.6, 100 s took 108, 20 minutes never ended"),
})
