"""Per property: (what the model is / the oracle, why exhaustive exploration reaches it, limits)."""
T = {
'P01': ('Model: a set of pairs (source, destination) with the rule that a destination has one source; after each request every `connected`, `is_connected`, `incomingConnection` and `outgoingConnections` of every object is compared, from both ends.',
  'Breadth first search over the patch states to the fixpoint: every request in every reachable state (so also every failing request); in addition all histories of a depth without merging states, which would expose hidden state.'),
'P02': ('Model: value cell per connectable, reading follows the model\'s connections to the ultimate output.',
  'Every connectable is read after every operation, so caches or latches which are only wrong in between are seen.'),
'P03': ('Model: one bounded list (newest 50) per input. For schedules: the multiset and order of messages received plus left over must be what was sent.',
  'The threads run under the controlled scheduler, a context switch being possible at every line of klang code; all interleavings up to the preemption bound are run.'),
'P04': ('Oracle: reachability in the undirected graph (which blocks), strongly connected components (which connections belong to loops). Connections are compared before and after.',
  'Every directed graph up to a size, every choice of starting blocks. Non-termination is caught by the case timeout.'),
'P05': ('Oracle: SCCs of the inside only; probe blocks log their updates; a snapshot of all connections before and after, including failing computations.',
  'The product of insides, relay attachments and outside patches is enumerated.'),
'P06': ('Model: number of buffers = whole buffers of the duration; the audio of buffer n is a function of n; the linear fade-out is evaluated exactly; the written file is read back and compared up to one factor.',
  'All durations around every buffer boundary, given in the ways a user gives them (floats in seconds), so float rounding is covered. Networks without audio run in virtual real time (clock and sleep replaced), with all combinations of work per cycle.'),
'P07': ('Model: the list of all samples written; a read returns the ones L earlier. Delay: the difference equation evaluated sample by sample on the whole signal (mean of the channels for the mono delay).',
  'Every sequence of chunk sizes against every length, because wrap-around depends on their alignment.'),
'P08': ('Oracle: the difference equations in plain Python floats on the whole signal; the input is compared bytewise before and after; leaks are detected by repeated calls.',
  'All 2^n cuts of a signal, compiled and Python implementations.'),
'P09': ('Oracle: a monitor of the stage semantics (range, monotonic stages, durations, rest) plus, for the compiled envelope, chunking independence against sample-by-sample evaluation; copies are run next to their original.',
  'All gate histories at all positions within short buffers.'),
'P10': ('Model: list of held notes in the order pressed; policy = newest / oldest / lowest / highest. Observed: what the voice received, its frequency, velocity, envelope activity, and the output of the synthesizer.',
  'All histories and all groupings into buffers.'),
'P11': ('Model: set of held notes; the output must equal the sum over the sounding notes of lone voices played with the same history, divided by the number of voices.',
  'All on/off histories, all groupings, including on and off of one note within a buffer.'),
'P12': ('Model: ordered list of held notes per order; the shuffle is replaced by enumerating its outcomes. Player: monitor on emitted notes (held, rate, pairing, silence).',
  'All add/remove/next histories; all press/release timings.'),
'P13': ('Model: list of (note, end time), respectively FIFO of sounding notes, respectively one queue per mixer input.',
  'All histories; notes may be equal or identical objects.'),
'P14': ('Model: step k of cycle c nominally starts at (c + k/n) cycle lengths; every emitted note is attributed to its step; micro rhythms by the reference warp.',
  'Steps against buffers are enumerated over fractional ratios, so every alignment class occurs; patch / micro rhythm changes at every buffer.'),
'P15': ('Model: concatenation of the channels of the connected signals, silence for the others, error if too few; buffers are modified after collection to show detachment.',
  'Product of layouts and histories of re-patching; the running engine is driven by a stand-in stream which calls the callback like PortAudio does; all cards with few channels; live recordings interrupted before any buffer.'),
'P16': ('Model: list of (signal, gain, panning) and the formula.',
  'Histories of operators incl. failing ones, pairs of mixers from the same arguments.'),
'P17': ('Oracle: exact integer / Fraction arithmetic.',
  'The domain of 8 and 16 bit samples is finite and enumerated completely; for float to integer every quantisation boundary and its neighbours.'),
'P18': ('Model: phase accumulated in high precision from the frequencies actually applied, then the wave form at that phase.',
  'All sequences of frequency changes (scalar and per sample), copies taken at every point.'),
'P19': ('Model: region as list of frames, position, loop flag, play state.',
  'All histories of reads / rewinds / trims on small regions and of play / pause / rewind / stop.'),
'P20': ('Oracle: type strict deep equality of sent and received objects; FIFO model per receiver.',
  'Real loopback sockets (UNIX in the scratch folder, UDP on a free port).'),
'P21': ('Oracle: validity rules, MIDI semantics of a receiver (note-on with velocity 0 is a note-off).',
  'The complete domain of pitches, channels, velocities.'),
'P22': ('Model: set of held keys with the pitch they started.',
  'All press / repeat / release histories over playing and control keys.'),
'P23': ('Oracle: arithmetic on pitch numbers, exact definitions of scales, chords, completion.',
  'Complete finite domains (128 pitches, 4095 pitch class sets, all names up to a length, every data base entry).'),
'P24': ('Oracle: Fractions; Bjorklund evenness (every window of m steps holds floor or ceil of mk/n onsets); trial division; reference warp.',
  'Complete domains up to a bound, histories for the prime cache.'),
'P25': ('Oracle: the whole stream processed by a fresh instance at once, or a sample by sample reference; snapshots of inputs and earlier outputs.',
  'All histories of buffers and parameter changes, two instances interleaved.'),
'P26': ('Model: the number of buffers since the last hit; the kick\'s output must equal that buffer of one reference hit, the hi-hat must stay inside a decay envelope block fed with the same messages. The reference hit itself is checked for decay, pitch and continuity.',
  'All histories of message batches per buffer; a second drum that is never struck runs alongside.'),
'P27': ('Oracle: the page is parsed back into heads, dots, stems, beams and bar lines, and compared with positions computed with exact fractions.',
  'Every sequence of a few note values in every metre and grouping, so every combination of group crossing, bar crossing and beam state occurs.'),
'P28': ('Model: type name, connection state and owner; an unseen twin runs through the same history and must put out the same.',
  'All blocks of the package through all short histories, every reached state is shown twice; the engine is started without audio from every block, alone and patched, and interrupted.'),
'P29': ('Oracle: the same network on its own, run in a process forked before any klang block had been used (so that the reference can not be polluted); buffers compared up to 1e-9, messages exactly; later content of given and output buffers compared with copies.',
  'Explicit enumeration: all interleavings of the steps (build, cycle, cycle) of all ordered pairs of 49 networks; all pairs inside one engine; all permutations of making the connections, all starting blocks, all subsets of cycles at which a connection is made again; all ordered pairs of the shipped examples.'),
'P30': ('Oracle: exact fractions, direct definitions over edge lists, sets of powers, digit by digit readings; a scripted clock for progress.',
  'Explicit enumeration of whole finite domains: all directed graphs of up to 4 nodes, all acyclic ones with 5, all short arrays over extreme values, all metres, all short data lines.'),
}
