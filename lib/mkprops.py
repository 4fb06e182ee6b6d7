"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id_, title, statement, over, qtext, why, files, mech, observe=''):
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': [observe]} if observe else {}))))

p('P01', 'Patching history never corrupts the connection graph',
  'Whatever sequence of connect and disconnect requests is made, from either end or with the pipe operator, an input or relay is fed by at most one source and both ends always agree about every connection. A connection exists exactly when the last effective request made it. A request that is not possible (occupied destination, incompatible kinds or directions, a connection that does not exist) raises an error and leaves everything as it was.',
  ['histories'], 'all sequences of connect / disconnect requests over outputs, relays and inputs of both connection kinds, issued from either end',
  'Tests connect and disconnect two or three hand-picked objects once; the guarantee is about every reachable patch state and about failing requests in each of them.',
  ['klang/connections.py', 'klang/block.py'],
  [('make_connection / break_connection', 'klang/connections.py:76-96'), ('is_valid_connection', 'klang/connections.py:38'), ('pipe_operator', 'klang/block.py:103')],
  'connected flags, is_connected, incoming / outgoing connections after every request')
p('P02', 'A connected input always reads what its upstream output holds now',
  'An input or relay that is connected, directly or through any chain of relays, reads exactly the value its ultimate upstream output holds at that moment. One that is not connected reads the value last set on itself, and regains that value when it is disconnected. Setting a value anywhere never changes what unrelated inputs read.',
  ['histories'], 'all sequences of set, connect and disconnect over small nets with relay chains',
  'Stale caches or lost fallbacks only show for particular orders of setting, patching and reading.',
  ['klang/connections.py'], [('Input.value / get_value', 'klang/connections.py:276-300'), ('Relay', 'klang/connections.py:311')],
  'value of every input, relay and output after every operation')
p('P03', 'Messages reach every connected input exactly once and in order',
  'Every message sent on a message output arrives exactly once, in sending order, at every message input that is connected at that time, directly or through relays, and nowhere else; a queue only ever drops its oldest messages beyond the newest 50. Draining returns all waiting messages oldest first and leaves nothing; asking for the latest returns the newest and discards only older ones. This also holds when messages arrive from another thread while an input is being drained.',
  ['schedules', 'histories'], 'all histories of send, drain, partial drain, latest, connect and disconnect, and all bounded interleavings of a sending and a receiving thread',
  'Tests push a few messages sequentially; loss, duplication and reordering depend on interleavings and on patching between sends.',
  ['klang/connections.py', 'klang/keyboard.py'], [('_MessageQueue.push / receive / receive_latest', 'klang/connections.py:319-347'), ('MessageOutput.send', 'klang/connections.py:361'), ('MessageRelay', 'klang/connections.py:368')],
  'messages received at each input')
p('P04', 'Execution order runs every block once and producers before consumers',
  'For any network of blocks, including parallel connections, self-connections, relays and feedback loops, the execution order derived from any of its blocks contains every connected block exactly once and nothing else. Whenever a connection is not part of a feedback loop its source block comes before its destination block. Determining the order always terminates and never alters the network.',
  ['configurations'], 'all directed block graphs up to a size, all choices of starting blocks, all edge kinds',
  'The number of topologies is exponential; tests check a handful of fixed graphs.',
  ['klang/execution.py', 'klang/graph.py', 'klang/block.py'], [('traverse_network', 'klang/execution.py:9'), ('determine_execution_order', 'klang/execution.py:36'), ('topological_sorting', 'klang/graph.py:164'), ('find_back_edges', 'klang/graph.py:104')],
  'returned order')
p('P05', 'Composite blocks order their inside correctly and keep their patching',
  'The internal execution order of a composite contains every block inside it exactly once, never the composite itself or any outside block, with internal producers before internal consumers whenever no internal feedback loop forces otherwise. Computing it leaves every external and internal connection exactly as it was, even if it fails. Updating the composite runs each internal block exactly once in that order.',
  ['configurations'], 'all small internal nets between relays, with and without external patching and external feedback around the composite',
  'Whether the inside is computed correctly depends on how inside, relays and outside are wired together, a product space tests only touch.',
  ['klang/composite.py', 'klang/execution.py'], [('temporarily_unpatch', 'klang/composite.py:27'), ('update_internal_exec_order', 'klang/composite.py:68'), ('introspect', 'klang/composite.py:9')],
  'order of internal updates; connections before and after')
p('P06', 'One engine cycle renders one buffer, and the bounced file is that audio',
  'An offline run of a given duration executes every block exactly once per audio buffer in execution order, for as many whole buffers as fit into the duration, with the shared clock advancing by one buffer length per cycle as seen by every block. The audio reaching the output in cycle n is what the network produced in cycle n, and the written file contains all buffers in order, without gaps, up to one overall scaling. During the fade-out every sample is attenuated linearly from unchanged at its start to silence at the end of the duration, and samples before it are untouched. A network without audio is executed in step with real time, once per buffer interval it keeps up with, all blocks seeing the time of that cycle.',
  ['configurations', 'inputs'], 'all durations in whole and fractional buffers up to a bound, fade-out lengths, channel layouts and small nets',
  'Off-by-one buffers, fade boundaries and clock offsets show only for particular durations and fade lengths.',
  ['klang/klang.py', 'klang/audio/klanggeber.py', 'klang/clock.py', 'klang/progress_bar.py'], [('run_klang', 'klang/klang.py:58'), ('run_audio_engine / stream_callback', 'klang/audio/klanggeber.py:176-300'), ('ProgressBar.range', 'klang/progress_bar.py:21')],
  'update log of probe blocks, clock readings, contents of the WAV file')
p('P07', 'Delay lines return every sample exactly once, exactly on time',
  'A ring buffer of length L returns, for any sequence of appended and extended samples and any chunk sizes up to its buffer size, exactly the sample written L samples earlier (silence before that), for mono and multi-channel content. A delay block outputs the prescribed blend of its input (the mean of its channels) and the signal delayed by its delay time, with feedback, for any delay time it accepts, and the channels of a stereo delay never mix. Delay times that exceed the maximum are rejected when they are given.',
  ['histories', 'configurations'], 'all lengths, buffer sizes and chunk sequences up to a bound; delay times around the buffer size',
  'Wrap-around errors depend on the alignment of chunk sizes with length and buffer size.',
  ['klang/ring_buffer.py', 'klang/audio/effects.py'], [('RingBuffer.peek / append / extend / peek_extend', 'klang/ring_buffer.py:66-108'), ('Delay', 'klang/audio/effects.py:130'), ('StereoDelay', 'klang/audio/effects.py:211')],
  'samples read back / output of delay blocks')
p('P08', 'Comb and echo filters obey their difference equation however audio is chunked',
  'The forward comb filter computes y[n]=x[n]+a*x[n-k], the backward comb filter y[n]=x[n]+a*y[n-k] and the echo filter outputs the delayed x[n]+a*y[n] k samples later, for every delay k (up to a minute), gain a and input. The result does not depend on how the signal is cut into chunks, on the sample type or memory layout of the input, and the input is never modified. The compiled and the pure Python implementations give the same result wherever the chunk is no longer than the delay.',
  ['inputs', 'histories'], 'all delays, gains and chunkings of short signals, all input layouts',
  'Ring-buffer cursor errors depend on the relation between k and the chunk boundaries.',
  ['klang/audio/_filters.c', 'klang/audio/filters.py', 'klang/ring_buffer.py'], [('filter methods', 'klang/audio/_filters.c'), ('Py*Filter.filter', 'klang/audio/filters.py:53-88')],
  'filter output')
p('P09', 'Envelopes follow attack, decay, sustain and release under every gate history',
  'For every history of gate on and off an envelope stays within 0 and 1; it rises to 1 in the attack, falls to the sustain level, holds it while the gate is on, falls to 0 after gate off and then stays 0 and inactive, each stage starting from the current level and lasting no longer than its time. A repeated gate-on restarts the attack only with retriggering, and a looping envelope cycles while the gate is on and comes to rest after gate off. The compiled envelope gives the same samples however the time is cut into buffers, and changes of its stage times, level or overshoot count from the next sample on. Copies of an envelope behave like the original.',
  ['histories'], 'all gate histories over short buffers for representative parameter sets, both implementations',
  'Tests sample one trigger-release run; the state machine has many gate/stage combinations.',
  ['klang/audio/_envelope.c', 'klang/audio/envelope.py', 'klang/audio/envelopes.py'], [('Envelope_single_sample / Envelope_gate', 'klang/audio/_envelope.c'), ('Envelope.gate / sample', 'klang/audio/envelope.py:330-393'), ('EnvelopeBase', 'klang/audio/envelopes.py:17')],
  'envelope samples and active flag')
p('P10', 'A monophonic synthesizer always sounds the note its priority policy selects',
  'After any sequence of key presses and releases, the single voice sounds exactly the held note its policy selects (newest, oldest, lowest or highest), at that note\'s frequency and velocity. When the last held key is released the voice is released and falls silent; releasing a key that is not held changes nothing. It makes no difference how the notes are grouped into buffers.',
  ['histories'], 'all press / release histories over a few pitches up to a depth, all policies, all groupings into buffers',
  'Heap-order mistakes show only after particular removals from the middle.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py'], [('NoteScheduler', 'klang/audio/synthesizer.py:88'), ('MonophonicSynthesizer', 'klang/audio/synthesizer.py:152'), ('Voice.process_incoming_notes', 'klang/audio/voices.py:55')],
  'voice input notes, synthesizer output')
p('P11', 'A polyphonic synthesizer sounds exactly the held notes and leaves none stuck',
  'With at most as many simultaneously held notes as there are voices, a polyphonic synthesizer sounds every held note, each on a voice of its own, and its output is the sum of its voices divided by the number of voices. A note-off releases the voices playing that pitch and no other, no matter how note-ons and note-offs are grouped into buffers. After every note has been released and its release time has passed the output is silent.',
  ['histories'], 'all note-on / note-off histories over a few pitches, all groupings into buffers',
  'Stuck notes need particular on/off timing within and across buffers.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py'], [('PolyphonicSynthesizer.process_note', 'klang/audio/synthesizer.py:208'), ('duplicate_voice', 'klang/audio/synthesizer.py:64'), ('Voice.__deepcopy__', 'klang/audio/voices.py:76')],
  'synthesizer output buffers')
p('P12', 'Arpeggios cycle through exactly the held notes and never leave one sounding',
  'An arpeggio contains exactly the notes added and not yet removed, each pitch once; one full cycle visits them in the chosen order, every held note at least once, for any number of notes. The arpeggiator plays only held notes, at its rate (an interval in seconds or as note value), ends every note it starts exactly once before or when the next starts, and falls silent when no note is held any more.',
  ['histories'], 'all add / remove / next histories up to a depth for all orders; all press / release timings of the arpeggiator',
  'Index state after removals and empty phases is history dependent.',
  ['klang/arpeggiator.py'], [('Arpeggio', 'klang/arpeggiator.py:84'), ('Arpeggiator.update', 'klang/arpeggiator.py:174')],
  'sequence of emitted notes')
p('P13', 'Note effects preserve on/off pairing',
  'The note lengthener passes on every note-on at once and ends it exactly once, at the first update when its duration (as it was when the note came in) has passed, in order; the note limiter never leaves more than its maximum number of notes sounding, ends the oldest first and passes on every note-on (both generate the note-offs themselves, whatever note-offs come in); the message mixer forwards every message from all its inputs exactly once, keeping each input\'s order. The duration and the limit may be changed at any time.',
  ['histories'], 'all note histories over a few pitches and clock steps up to a depth',
  'Pairing errors need particular overlaps of notes in time.',
  ['klang/note_effects.py', 'klang/clock.py'], [('NoteLengthener', 'klang/note_effects.py:11'), ('MaxNotes', 'klang/note_effects.py:49'), ('MessageMixer', 'klang/note_effects.py:72')],
  'emitted messages')
p('P14', 'A sequencer plays every pattern step once per cycle, in order and on time',
  'Each cycle of a sequence (lasting more than two audio buffers) plays every step of its pattern exactly once and in order (the notes of a chord as written), whatever the tempo, grid, pattern length and number of steps per buffer, each within one buffer of its nominal time; rests are silent and every note that starts is ended after its note length. Channels, also those added later, are all counted and run independently, with split outputs each on its own output and otherwise all merged into one. Applying or removing a micro rhythm at any time changes only the timing inside a cycle; one that another sequence is using is refused, which changes nothing.',
  ['configurations', 'histories'], 'all short patterns, lengths, tempi and channel layouts, micro rhythm applied or removed at any cycle',
  'Missed or repeated steps depend on how phase increments align with step boundaries.',
  ['klang/sequencer.py', 'klang/note_effects.py', 'klang/music/rhythm.py', 'klang/audio/oscillators.py'], [('PizzaSlicer.update', 'klang/sequencer.py:104'), ('Sequence', 'klang/sequencer.py:155'), ('Sequencer', 'klang/sequencer.py:240'), ('MicroRhyhtm', 'klang/music/rhythm.py')],
  'messages on the sequencer outputs')
p('P15', 'Output channels carry the connected signals in order, or the engine reports it',
  'The audio output interleaves the channels of its connected signals in input order, mono and multi-channel alike, into exactly its number of channels, sample for sample and detached from the network\'s buffers; unconnected inputs are silent. If the signals provide too few channels an error is raised. The audio input hands each captured channel to its own output unchanged, and leaves those of earlier cycles alone. The running engine asks the sound card for the output\'s number of channels in the engine\'s format, refuses cards with too few inputs or outputs before anything is played, needs only devices for the directions it uses, plays on when the card reports glitches, always closes the stream, ends with the first buffer that reaches the given duration (N buffers for a duration of N buffers), and a live recording contains what was played until the end or an interruption.',
  ['configurations'], 'all assignments of mono / stereo / multi-channel signals to up to a few inputs',
  'The mapping is a product of input layouts; tests check two of them.',
  ['klang/audio/klanggeber.py'], [('Dac.iterate_channels / collect_samples', 'klang/audio/klanggeber.py:133-173'), ('pack_signals', 'klang/audio/klanggeber.py:75'), ('Adc.inject_samples', 'klang/audio/klanggeber.py:112')],
  'collected sample array')
p('P16', 'Mixers output the weighted mean of exactly the patched channels',
  'A mixer outputs the sum of gain times signal over all its channels divided by their number, after any history of adding channels, changing gains or pannings, and adding blocks with the plus operator, which adds each operand once and in order. A stereo mixer does so per side with each channel\'s panning amplitudes. Unknown panning modes and positive laws are refused. A failed addition leaves the mixer as it was, and two mixers or voices never share state. The amplitudes of a panning level are always the same, whatever was done with earlier ones.',
  ['histories'], 'all histories of additions, failing additions and parameter changes up to a depth',
  'Aliased gains and dangling channels show only after particular operator chains.',
  ['klang/audio/mixer.py', 'klang/audio/panning.py', 'klang/block.py'], [('Mixer', 'klang/audio/mixer.py:15'), ('StereoMixer', 'klang/audio/mixer.py:61'), ('mix_operator', 'klang/block.py:127'), ('panning_amplitudes', 'klang/audio/panning.py:43')],
  'mixer output')
p('P17', 'PCM conversion and WAV files preserve audio',
  'Converting any 8, 16 or 32 bit signed sample to float gives sample / full scale within [-1, 1), converting float to integer never overflows, wraps or changes sign for inputs in [-1, 1], is monotonic and odd, and the round trip of any integer sample is exact to one step. A written wave file read back has the same rate, length, channel count and channel order, and equals the written audio up to one common scale factor to within one quantisation step. Writing never modifies the audio it is given and takes mono audio with or without a channel axis. Conversions of the wrong kind and files of other widths are refused.',
  ['inputs'], 'all 8 and 16 bit sample values; all small signals over a sample alphabet, 1-2 channels',
  'Off-by-one scaling at the extremes and channel interleaving depend on values tests do not use.',
  ['klang/audio/wavfile.py', 'klang/math.py'], [('convert_samples_to_float / convert_samples_to_int', 'klang/audio/wavfile.py:14-33'), ('load_wave / write_wave', 'klang/audio/wavfile.py:36-63')],
  'converted samples / file contents')
p('P18', 'Oscillator phase is continuous across buffers and frequency changes',
  'Every oscillator (phasor, audio, LFO, FM, PWM, chirp and clock signal) produces its waveform at the phase given by its start phase plus the integral of its frequency, across any number of buffers and any changes of frequency between buffers or (audio rate oscillators) inside them, with no jump at buffer boundaries. Output stays inside the declared range. A copied oscillator continues exactly like the original and independently of it.',
  ['histories'], 'all sequences of frequency changes (constant, note value, per-sample array) over a small alphabet up to a depth',
  'Drift and boundary jumps depend on the sequence of frequencies and on mixing scalar with array frequencies.',
  ['klang/audio/oscillators.py', 'klang/audio/waves.py', 'klang/audio/sync.py'], [('sample_phase', 'klang/audio/oscillators.py:43'), ('Phasor / Oscillator / Lfo / FmOscillator / PwmOscillator / Chirper', 'klang/audio/oscillators.py:73-308'), ('Clock', 'klang/audio/sync.py:9')],
  'output buffers')
p('P19', 'Sample playback reads every frame once, in order, and loops seamlessly',
  'At normal speed a sample plays exactly the frames of its trimmed region (at most one frame late in the interpolating resampling modes), each once and in order, for any read sizes, and then ends; when looping it repeats that region seamlessly for any region length and any read size. At other speeds, from the read in which the speed changes, it goes proportionally faster or slower through its frames. Rewinding starts again at the region start; trimming while it plays goes on at the same frame or at the nearest end of the new region (in the modes without look-ahead). An audio file block outputs full buffers in channel-first layout, pads the end with silence, stops by itself at the end and is silent whenever it is paused or stopped.',
  ['histories', 'configurations'], 'all region lengths, trims, read sizes, loop modes and play / pause / rewind histories up to a bound',
  'Wrap-around depends on region length relative to read size.',
  ['klang/audio/sampling.py'], [('Sample.callback', 'klang/audio/sampling.py:270'), ('Sample.trim / rewind', 'klang/audio/sampling.py:240'), ('AudioFile.update', 'klang/audio/sampling.py:358')],
  'frames read / output buffers')
p('P20', 'Network blocks carry values and messages unchanged and in order',
  'Every object sent over a network connection (numbers, strings, lists, dictionaries, notes and arrays of any supported type, shape, memory layout and up to a full multi-channel audio buffer) is received equal to what was sent, with the same type. Messages are received once each, in order, several per datagram or update included; a value receiver holds the last value and keeps it when nothing new arrives. A malformed or empty datagram does not disturb the ones before or after it.',
  ['histories', 'inputs'], 'all histories of sends, garbage and updates up to a depth over an object alphabet; arrays over dtypes, shapes and layouts',
  'Truncation, framing and layout problems depend on sizes and orders tests do not use.',
  ['klang/network.py', 'klang/messages.py'], [('receive_all_from', 'klang/network.py:48'), ('array_to_dict / array_from_dict', 'klang/network.py:75-93'), ('JsonCourier', 'klang/network.py:130'), ('Network*', 'klang/network.py:177-234')],
  'received objects')
p('P21', 'Notes are always valid and survive every conversion',
  'A note can only be created with a pitch in 0..127, a velocity in 0..1 and a non-negative frequency, is either on or off, and gets its temperament\'s frequency when none is given. Silencing keeps pitch and frequency; conversion to and from dictionaries and JSON restores an equal note and leaves the caller\'s data alone. Conversion to MIDI gives a valid three-byte message on the selected channel that a MIDI receiver reads as the same pitch and as on or off exactly like the note.',
  ['inputs'], 'all 128 pitches, boundary velocities and frequencies, all 16 channels, all 128 velocity steps',
  'Boundary values (quiet velocities, pitch 0 and 127, numpy numbers) are not sampled by tests.',
  ['klang/messages.py', 'klang/midi.py', 'klang/network.py'], [('Note', 'klang/messages.py:10'), ('note_to_midi_message / MidiOut', 'klang/midi.py:34-62')],
  'note fields, JSON text, MIDI bytes')
p('P22', 'The computer keyboard ends every note it starts',
  'Every physical key press yields exactly one event and every release exactly one, key repeat notwithstanding. On the musical keyboard each note-on is followed, on releasing that key, by exactly one note-off of the same pitch, whatever octave, velocity or tuning changes happen in between. Octave, velocity and tuning keys never produce notes and keep every produced note valid; other keys go to the secondary output only. Several keyboards do not influence each other.',
  ['histories'], 'all press / repeat / release histories over playing and control keys up to a depth',
  'Stuck notes need control changes while keys are held.',
  ['klang/keyboard.py'], [('Keyboard.on_press / on_release', 'klang/keyboard.py:32-50'), ('MusicalKeyboard', 'klang/keyboard.py:72')],
  'messages on the outputs')
p('P23', 'Pitch names, tunings, scales and chords are consistent',
  'Pitch number to note name to pitch number is the identity for every pitch, enharmonic names agree, and malformed names are rejected. Every temperament doubles frequency per octave, hits its reference pitch and rises with pitch; cents and ratios are inverse. Scales sum to an octave and convert to pitches and codes and back, listed chords rise in steps smaller than an octave, chord inversions are inverse to each other and preserve pitch classes, and name lookup returns the exact entry, else the only entry that completes the name (same first character, remaining ones in order), else an error.',
  ['inputs'], 'all 128 pitches, all names up to a length, all 4096 pitch-class sets, all database entries',
  'The domains are finite but large; tests check single examples.',
  ['klang/music/pitch.py', 'klang/music/tunings.py', 'klang/music/scales.py', 'klang/music/chords.py', 'klang/util.py'], [('pitch_2_note_name / note_name_2_pitch', 'klang/music/pitch.py'), ('Temperament', 'klang/music/tunings.py:57'), ('scale conversions', 'klang/music/scales.py:49-84'), ('invert_chord', 'klang/music/chords.py:39'), ('find_item', 'klang/util.py:84')],
  'returned values')
p('P24', 'Rhythm and tempo arithmetic is exact',
  'A euclidean rhythm of k onsets in n steps has exactly k onsets spread as evenly as possible; note values, dots and tuplets fill exactly their nominal duration; durations and rates scale exactly with tempo, metre and beat value and are inverse to each other. Primality, the prime sieve and the search for the next primes from a number on are exact, whatever was searched before. A micro rhythm maps a cycle monotonically onto itself and, fully phrased, its notes (repeated as often as whole beats fit into a whole note, at least once) onto equal steps; less phrasing blends linearly with the identity.',
  ['inputs'], 'all (k, n) up to a bound, all note values, tempi and metres over a grid, all integers up to a bound',
  'Number-theoretic off-by-ones and rounding show only at particular arguments.',
  ['klang/music/rhythm.py', 'klang/music/note_values.py', 'klang/music/tempo.py', 'klang/music/metre.py', 'klang/primes.py'], [('euclidean rhythm', 'klang/music/rhythm.py'), ('note values', 'klang/music/note_values.py'), ('tempo conversions', 'klang/music/tempo.py'), ('find_next_primes', 'klang/primes.py:125')],
  'returned values')
p('P25', 'Effects process a continuous stream, not isolated buffers',
  'Filter, reverb, tremolo, ring modulator, sub-sampler, bit crusher, distortions, gain, transformer, channel splitter and combiner process a continuous stream: cut into buffers, the output equals processing the whole input at once, and parameters take effect from the buffer in which they change. The filter cuts off at its frequency, reverb is the mean of its echos, tremolo scales by an envelope between 1 - depth and 1, transformers map limits onto limits. The pitch shifter moves tones by its ratio at unchanged loudness, mixed with its input by dryWet. Channels and instances never influence each other, input buffers are never modified, and buffers already output never change.',
  ['histories'], 'all sequences of input buffers and parameter changes over a small alphabet up to a depth, mono and stereo',
  'State hand-over errors at buffer boundaries are inaudible in single-buffer tests.',
  ['klang/audio/effects.py'], [('_Filter.filter', 'klang/audio/effects.py:360'), ('Tremolo', 'klang/audio/effects.py:72'), ('Reverb.update', 'klang/audio/effects.py:615'), ('stateless effects', 'klang/audio/effects.py')],
  'effect output buffers')
p('P26', 'Drums are silent until struck and play one full hit per note',
  'A kick or hi-hat is silent until its first note-on. A note-on above pitch 0 strikes the drum from the start of the buffer in which it arrives, once however many arrive together (the hi-hat again only after a note-off in between). A struck kick always sounds exactly like a fresh one: it rings on through note-offs, decays exponentially with its decay time while its pitch falls exponentially, with its pitch decay time, from 1 + intensity times to its base frequency, without jumps of phase or pitch between buffers. The hi-hat is noise within its decay envelope and is silent again after its decay time. Drums never influence each other.',
  ['histories'], 'all histories of message batches and audio buffers up to a depth, several parameter sets, whole hits fresh and struck while ringing',
  'There are no tests for the drums; what a hit sounds like depends on what was sounding before and on how messages fall into buffers.',
  ['klang/audio/synthesizer.py', 'klang/audio/envelopes.py', 'klang/audio/waves.py'], [('Kick.update', 'klang/audio/synthesizer.py'), ('HiHat.update', 'klang/audio/synthesizer.py'), ('sample_exponential_decay / sample_pitch_decay', 'klang/audio/synthesizer.py:23-59')],
  'drum output buffers')
p('P27', 'Written rhythms show every note once, barred and beamed by the metre',
  'Formatting notes gives lines of equal length with exactly one note head per note, in order, those inside tuplets included: filled below a half note and hollow from there on, dotted exactly for dotted notes, with a stem exactly below a whole note and as many beams as the note value has. A bar line stands wherever a bar ends before the next note; notes shorter than a quarter are joined by a beam exactly when the first ends inside their group, and no beam goes on behind the end of a group. The time signature in front, unless left out, reads the metre or grouping, stretched notes take the more room the longer they are, tuplets carry their ratio, and notes below a sixteenth are rejected.',
  ['inputs'], 'all sequences of up to 4-5 notes out of 8 note values in 10 metres and groupings, several bars, tuplets alone, nested and in context, all groupings of up to 5 groups',
  'The rendering of a note depends on all notes before it and on its position in the bar; it has no tests at all.',
  ['klang/music/note_formatting.py', 'klang/music/metre.py', 'klang/music/note_values.py'], [('format_notes', 'klang/music/note_formatting.py:290'), ('_beam_needs_to_end', 'klang/music/note_formatting.py:203'), ('format_time_signature', 'klang/music/note_formatting.py:239')],
  'printed text')
p('P28', 'Every block can be shown in every state, and the engine starts from any of them',
  'Every block, connection, note, arpeggio, ring buffer and filter converts to a text beginning with the name of its type, in every state it can get into: fresh, patched in any way, with scalar, note value or audio rate signals at its inputs, playing or finished. Connections tell whether they are connected and which block they belong to, arpeggios their notes, audio files whether they play. Showing is repeatable and changes nothing. So impossible connections are reported as such whatever the state of the blocks, and the engine can be started from any block, again and again.',
  ['histories', 'configurations'], 'all blocks x all histories of 4-5 operations (patching to scalar, mono and stereo signals, notes, using outputs, updates)',
  'What is shown depends on what happens to be patched and sounding at that moment; the tests show hardly any block.',
  ['klang/block.py', 'klang/connections.py', 'klang/klang.py', 'klang/audio/oscillators.py', 'klang/keyboard.py'], [('Block.__str__', 'klang/block.py:213'), ('str_function', 'klang/connections.py:124'), ('Phasor.__str__', 'klang/audio/oscillators.py:96'), ('run_klang', 'klang/klang.py:58')],
  'texts; outputs of an unseen twin')
p('P29', 'Networks are reproducible, independent and unaffected by the order of patching',
  'A network of blocks without feedback loops and randomness produces the same audio and messages in the same cycle, however often it is built and run and whatever other networks have been built, run before, in between, or are run along with it in the same engine. It makes no difference in which order its connections are made, from which of its blocks the execution order is determined, or whether a connection is taken apart and made again between two buffers. Blocks never change lists, notes or buffers they are given, nor buffers they have already output. The shipped examples play the same audio again and again.',
  ['histories', 'schedules', 'configurations'], 'all ordered pairs of 49 networks (all kinds of blocks) x all interleavings of building and cycles; all patching orders, starts and re-patchings of each; all pairs of examples',
  'State shared by accident between instances (class attributes, defaults, caches, buffers) only shows when certain blocks meet in one process; the tests look at one block at a time.',
  ['klang/block.py', 'klang/execution.py', 'klang/klang.py', 'klang/audio/synthesizer.py', 'klang/audio/effects.py', 'klang/audio/oscillators.py', 'klang/sequencer.py', 'klang/audio/sampling.py'], [('run_klang', 'klang/klang.py:58'), ('determine_execution_order', 'klang/execution.py:42'), ('Block', 'klang/block.py:156')],
  'output buffers and messages of every cycle')
p('P30', 'Mathematical, metre, graph, text and progress helpers are exact',
  'Phases wrap to the same angle within [-pi, pi); clipping, blending, signs, linear mappings, least common multiples and the tests for powers of two, dyadic fractions and divisibility are right for every number. Normalizing an array, of floats or integers, makes its largest magnitude one and keeps all signs and proportions; silence is refused. Metres (numerators from 2) are classified as irrational, compound, complex or simple consistently, and their beats add up to a bar. Graph matrices, sources, sinks and neighbours show exactly the given edges; back edges lie on cycles and leave no cycle when removed, and a topological sorting has every node once and before its successors except along back edges. Music data as CSV (also from files, with any separator) yields exactly the written names and values, numbers as numbers, and printed tables read back as they were. Edit distances of words are exact. A progress bar yields every step once, fills from empty to full without going back, at its width, and shows the time remaining at the speed so far. Tick labels denote their fractions, subplots leave no row or column empty. Random patterns have their length and range and repeat with their period. Chord and scale tables of web pages are extracted exactly, synonyms included.',
  ['inputs'], 'all numbers, arrays, metres, directed graphs, data lines, progress lengths and table rows up to a bound',
  'The helpers carry all others; tests check a few numbers (most have no tests at all) while off-by-ones, signs and extremes show at particular arguments only.',
  ['klang/math.py', 'klang/music/metre.py', 'klang/graph.py', 'klang/util.py', 'klang/progress_bar.py', 'klang/plotting.py', 'klang/scraping.py'], [('wrap / normalize_values', 'klang/math.py:9-23'), ('metre classification', 'klang/music/metre.py:57-136'), ('find_back_edges / topological_sorting', 'klang/graph.py:94-192'), ('parse_music_data_from_csv', 'klang/util.py:15'), ('ProgressBar', 'klang/progress_bar.py:5')],
  'returned values, progress output')
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
