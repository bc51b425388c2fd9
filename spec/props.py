"""The properties. gen.py writes properties.jsonl and MANIFEST.json from this."""
PROPS = {}


def P(pid, title, statement, over, quant, why, files, mech, outside='', level_note='', assumptions=(), na=None):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      outside=outside, level_note=level_note, assumptions=list(assumptions), na=na)


# ---------------------------------------------------------------- buffer
P('B01', 'Pulses land at their exact time and the buffer never leaves its bounds',
  'For every time a pulse is added at, within the capacity of the buffer, it lands in exactly the frames belonging to that time (with the step row of its sub-frame position); '
  'nothing outside the sample storage is ever touched. Ending a period makes exactly the full frames available, '
  'reading returns min(requested, available) frames and keeps the rest, including pulses which reach into unfinished frames, and the fraction of the '
  'frame time survives shifting.',
  ['inputs', 'histories'], 'every 32 bit fixed point time, every shift/end time, every read size, every sub-frame fraction',
  'the tests add no pulse directly; they read a few fixed chunks of one tune',
  ['src/BKBuffer.c', 'src/BKBuffer.h'],
  ['BKBufferAddPulse (bounds test on offset)', 'BKBufferEnd/BKBufferShift/BKBufferRead'],
  outside='histories longer than one end/read/shift cycle per buffer (single-step properties from arbitrary buffer contents); the storage is shrunk to 37..48 '
          'frames for content properties, real capacity for the safety ones')
P('B02', 'Band limited steps are exact, linear and add up to the full amplitude',
  'Each row of both step tables sums to the same total, so the level reached after a pulse is independent of its sub-frame position. A pulse adds '
  'amplitude times its row to what is already there for every amplitude -65534..65534, opposite pulses cancel exactly, and pulses can be added in any order.',
  ['inputs', 'histories'], 'all 2x32 rows; every pulse amplitude; every earlier content of the frames',
  'tests compare no samples', ['src/BKBuffer.c'], ['BKBufferPulseKernels', 'BKBufferAddPulse'],
  outside='linearity is decided for rows of plain factors supplied by the harness (the arithmetic does not depend on the row values); pulses at 3 sub-frame rows')
P('B03', 'Reading in pieces gives the same frames as reading at once',
  'The frames read from a buffer do not depend on how the reads are split: for every split the concatenated output, the remaining size and everything '
  'read afterwards are the same.', ['inputs', 'histories'], 'every buffer content within the amplitude range, every accumulator value and every split point',
  'needs equality over all splits; the tests only use one chunk size',
  ['src/BKBuffer.c'], ['BKBufferRead (accumulator, moving the rest to the front)'], outside='8 finished frames, two pieces, storage shrunk to 48 frames')
P('B04', 'Output is the saturated running sum which decays to silence',
  'Each frame read is the running sum of what was added before, limited to the 16 bit range without wrapping, and a constant level decays towards 0 '
  'without ever changing its sign.', ['inputs', 'histories'], 'every accumulator value and every frame content',
  'tests look at no sample values', ['src/BKBuffer.c'], ['BKBufferRead (accum, high pass, clamp)'],
  outside='three consecutive frames per query; induction over frames follows since each query starts from an arbitrary accumulator')
# ---------------------------------------------------------------- time / tones
P('T01', 'Fixed point time arithmetic is exact in both time formats',
  'Adding, subtracting, comparing times and converting from and to frames/fractions give the mathematically exact result for every value, in both the '
  '64 bit and the split 32 bit representation; converting from seconds gives the frame and fraction of that moment.',
  ['inputs', 'configurations'], 'all pairs of times, all periods, both representations',
  'the tests never touch the 32 bit representation and only use small times', ['src/BKTime.h', 'src/BKBase.h'],
  ['BKTimeMake, BKTimeAdd, BKTimeSub, BKTimeIsEqual, BKTimeIsLess, BKTimeIsGreater, BKTimeGetTime, BKTimeGetFrac, BKTimeGetFUInt20, BKTimeFromSeconds'],
  outside='seconds as the rationals n/240, n and 3n/7 (doubles cannot be fully symbolic)')
P('T02', 'Note to period conversion is accurate, monotone and clamped',
  'For every note the period lies between those of its semitone neighbours with linear interpolation of the fraction, a higher note never has a longer '
  'period, an octave halves the period, log2 periods agree with that, and notes outside the range give the period of the nearest valid note.',
  ['inputs'], 'every 20 bit fraction (in 5 bit blocks) of all semitones, all 32 bit notes for clamping',
  'tests use a handful of notes and check no period', ['src/BKTone.c'], ['BKTonePeriodLookup, BKLog2PeriodLookup'],
  outside='fractions are symbolic in their upper 5 bits (8 for the linearity check); the sample rates 16000, 44100, 48000, 96000')
# ---------------------------------------------------------------- clocks, contexts
P('C01', 'Clocks tick at exact multiples of their period and dividers divide exactly',
  'A clock with period p ticks at p, 2p, 3p ... with no drift, dividers attached to it call their callback exactly every n-th tick (counting from 0), '
  'and a new period, a reset or a number of ticks returned by a callback take effect at the next tick and nowhere else.',
  ['inputs', 'schedules', 'histories'], 'all clock periods, divider values, chunk boundaries and tick counts within the bounds',
  'the tests run one clock with fixed values', ['src/BKClock.c', 'src/BKContext.c'], ['BKClockTick, BKClockAdvance, BKDividerTick, BKClocksAdvance'])
P('C02', 'The sequence of events and sound does not depend on how output is requested',
  'However the requested output is cut into pieces (Run, Generate, GenerateToTime, any chunk sizes), units are run over exactly the same absolute time '
  'spans, clock and divider callbacks fire at the same absolute times in the same order and the total number of frames is the same.',
  ['schedules', 'inputs', 'histories'], 'all splits of a generation into pieces; all clock periods and phases',
  'tests use one chunk size per test', ['src/BKContext.c', 'src/BKClock.c', 'src/BKBuffer.c'], ['BKContextRun, BKContextEnd, BKContextGenerate, BKContextGenerateToTime'])
P('C03', 'Clocks, units and dividers stay correctly linked through every history',
  'After any sequence of attach, attach-before, detach, reset and dispose calls of clocks, units, dividers and contexts, exactly the currently attached '
  'objects are called, each once and in the documented order; no detached or disposed object is called or reachable, an object attached elsewhere is refused '
  'without changing anything.',
  ['histories', 'schedules'], 'all sequences of operations up to the bound, including from within callbacks',
  'tests attach each object once and detach it at the end', ['src/BKClock.c', 'src/BKContext.c', 'src/BKUnit.c'],
  ['BKClockAttach/Detach, BKDividerAttachToClock, BKContextAttachDivider, BKDividerDetach, BKUnitAttach/Detach, *DisposeObject'])
P('C04', 'A context delivers exactly what is asked for within its limits',
  'A context keeps its number of channels and sample rate in the documented ranges for any requested values; Generate delivers exactly the requested number '
  'of interleaved frames for every number, and stops with the error when the callback fails.',
  ['inputs', 'configurations'], 'every number of channels, sample rate and number of frames',
  'tests use one configuration', ['src/BKContext.c'], ['BKContextInit, BKContextGenerate, BKContextRead'])
# ---------------------------------------------------------------- units
P('U01', 'Waveform units step through their phases at exact times',
  'A waveform unit changes its phase at exact multiples of its period, each phase having the amplitude of its waveform (square duty 1..15 of 16, triangle, '
  'sawtooth, sine, noise within range, custom frames); the phase stays below the phase count, phase wrap repeats from the phase the wrap started at, and no '
  'frame outside the waveform is ever read.',
  ['inputs', 'histories'], 'all periods, phases, duty cycles, wrap counts, volumes and waveforms within the time bound',
  'tests check no amplitude and no pulse time', ['src/BKUnit.c'], ['BKUnitRunWaveform, BKUnitRunWaveformSquare and the other waveforms'])
P('U02', 'Channels are independent and only differ by their volume',
  'Every output channel receives a pulse at each time the amplitude changes equal to the change of amplitude times its own volume; a channel is not '
  'affected by the volume or number of other channels. A volume of 0 or muting adds no more changes of the waveform: waveforms keep their level, samples return to level 0.',
  ['inputs', 'configurations'], 'all volumes per channel, all numbers of channels 1..8',
  'tests use mono or equal volumes', ['src/BKUnit.c'], ['BKUnitRunWaveform, BKUnitRunSample'])
P('U03', 'Sample playback visits exactly the frames of its range',
  'A sample unit plays the frames of its range in order and the requested direction, repeating, alternating or sustaining as configured and releasing at the '
  'end; for all ranges, phases, periods and modes each frame read lies inside the range and the data, and a finished sample makes no more changes and is muted.',
  ['inputs', 'histories'], 'all data lengths, ranges (also negative and reversed), sustain ranges, repeat modes, periods and split points within the bounds',
  'tests play whole samples in one direction only', ['src/BKUnit.c', 'src/BKData.c'], ['BKUnitRunSample, BKUnitResetSample, BKUnitWrapSamplePhase, BKUnitUpdateSampleRange, BKUnitSetPtr(BK_SAMPLE_RANGE...)'])
P('U04', 'Unit attributes are clamped and read back',
  'Each unit attribute accepts every 32 bit value, stores it clamped to its documented range, reads back what is in effect, leaves all other attributes '
  'untouched; unknown attributes and pointers are refused and change nothing.',
  ['inputs'], 'every attribute code and every 32 bit value', 'tests set a few valid values', ['src/BKUnit.c', 'src/BKObject.c'], ['BKUnitSetAttr/GetAttr/SetPtr/GetPtr'],
  outside='INT32_MIN for attributes using the absolute value; volumes set for all channels at once are tested with symbolic values, channels concretely')
P('U05', 'Running a unit in pieces makes the same sound as running it at once',
  'For every split of a time span, running a unit piecewise produces the same pulses at the same absolute times and ends in the same state as running it at once, '
  'for waveforms and samples.',
  ['schedules', 'inputs'], 'all split points, periods and starting states', 'needs equality over all splits', ['src/BKUnit.c'], ['BKUnitRun, BKUnitEnd'])
# ---------------------------------------------------------------- tracks
P('K01', 'Track volume is the product of volume, master volume and panning',
  'The volume of each channel of a track is exactly the product of the track volume, master volume, instrument and tremolo level and panning, rounded down at each factor and never exceeding '
  'the full range; panning attenuates only the opposite of the two channels, for both sides alike; a muted track or one without a note is silent.',
  ['inputs', 'configurations'], 'all 16 bit volumes and pannings', 'tests compare no volumes', ['src/BKTrack.c'], ['BKTrackUpdateUnitVolume'],
  outside='values of the factors have few symbolic bits (shifted to several positions) where they are multiplied by each other; instrument and tremolo levels lie in the documented ranges')
P('K02', 'Note, pitch and effects determine the period of a track',
  'The period of a playing track is the one of the note plus pitch, instrument pitch, arpeggio offset, portamento and vibrato, for every note and pitch; '
  'notes are clamped to the valid range; a released or muted note follows the documented life cycle.',
  ['inputs', 'histories'], 'all notes, pitches and arpeggio offsets', 'tests check no period', ['src/BKTrack.c'], ['BKTrackUpdateUnitNote, BKTrackSetNote, BKTrackSetAttr'],
  outside='sums of note, pitch, arpeggio and instrument pitch where each lies within +-96 semitones')
P('K03', 'Effects can be set, read back and removed',
  'Every effect written to a track reads back with the values in effect, setting one effect leaves the others untouched, and removing it returns the track to '
  'the state without effect.', ['inputs'], 'all effect values', 'tests set no effect', ['src/BKTrack.c'], ['BKTrackSetEffect/GetEffect'])
P('K04', 'Arpeggio cycles through its notes without leaving the list',
  'For every arpeggio length and divider the notes are played in order, each for the divider\'s number of ticks, starting over after the last one; lists longer '
  'than the limit are cut and no offset outside the list is used.', ['inputs', 'histories'], 'all list lengths (also negative and too large), dividers, replacement lists during play',
  'tests use one arpeggio', ['src/BKTrack.c'], ['BKTrackArpeggioSetNotes, BKTrackArpeggioTick, BKTrackTick'])
P('K05', 'A track reset or disposed leaves nothing behind',
  'Resetting a track returns all attributes except its waveform and master volume to the initial ones (clearing it also keeps the duty cycle), stops its note and detaches nothing; after disposing or detaching a track neither its dividers nor its unit is called again.',
  ['histories'], 'all attribute values before the reset, all orders of disposal of track, instrument and context', 'tests dispose objects in one order', ['src/BKTrack.c', 'src/BKContext.c'], ['BKTrackReset, BKTrackDisposeObject'])
P('K06', 'A note sounds from its start until its release is over, as its instrument says',
  'Through every history of notes, releases, instruments set, exchanged, removed or disposed: a note is heard from its start until it is muted or, once released, until all sequences of its instrument are over (at once without any); '
  'a first note or another instrument starts the sequences anew, a note played while one is held does not; at each tick volume, panning, pitch and duty cycle are those of the instrument at that step (a duty cycle of 0 being the one of the track), '
  'each lasting the ticks of the instrument divider; the note reads back while it is held. A sample starts with its first frame only with a first note, stays in its sustain range until the note is released and, if not repeated, ends the note when it is over.',
  ['histories', 'inputs'], 'all values of the sequences, notes, volumes, pitches and duty cycles in several histories of notes and instruments', 'tests use one instrument and compare nothing it does',
  ['src/BKTrack.c', 'src/BKInstrument.c', 'src/BKSequence.c'], ['BKTrackSetNote, BKTrackSetInstrument, BKTrackTick, BKInstrumentStateSetPhase, BKInstrumentStateTick'],
  outside='other histories than the listed ones, sequences of more than 4 values; sequences without envelope')
# ---------------------------------------------------------------- interpolation
P('I01', 'Slides reach their target exactly and never leave the range',
  'A slide goes from its current to its target value in exactly the given number of steps, monotonically and never beyond either of both, and stays there; 0 steps '
  'reach the target at once.', ['inputs', 'histories'], 'all start and target values of the used range, all numbers of steps up to the bound, retargeting at any step',
  'no test runs a slide', ['src/BKInterpolation.c'], ['BKSlideStateStep, BKSlideStateSetValueAndSteps'],
  outside='the two kinds of slides tracks use (range 0 or 32767), values with some symbolic bits at several positions and step counts within the bound given in the evidence')
P('I02', 'Oscillations are bounded, periodic and centred',
  'A vibrato or tremolo oscillates between plus and minus its delta and returns to 0 every full cycle; changing delta slides within the bounds.',
  ['inputs', 'histories'], 'all deltas and step counts within the bounds', 'no test runs an oscillation', ['src/BKInterpolation.c'], ['BKIntervalStateStep, BKIntervalStateGetValue'],
  outside='the two kinds of oscillations tracks use; deltas and step counts within the bound given in the evidence')
# ---------------------------------------------------------------- sequences, instruments
P('S01', 'Value sequences play, sustain, release and finish as written',
  'A value sequence yields its values in order, loops its sustain range while the note is held (or holds its last value), continues behind it on release and then '
  'finishes; for all lengths, sustain offsets (also negative or reversed) every value read lies inside the sequence.',
  ['inputs', 'histories'], 'all lengths and sustain ranges within the bounds, release at every tick', 'no test reads sequence values', ['src/BKSequence.c'], ['BKSequenceFuncSimpleStep, BKSequenceFuncSimpleSetPhase'])
P('S02', 'Envelopes reach each level in exactly the given steps',
  'An envelope runs through its phases, reaching each value exactly after its number of steps without overshooting, sustains its sustain range while held, releases at any '
  'moment from the value it has and finishes; ADSR envelopes behave as attack, decay, sustain, release.',
  ['inputs', 'histories'], 'all phase values/steps within the bounds; release at every tick', 'no test reads envelope values', ['src/BKSequence.c', 'src/BKInstrument.c'], ['BKSequenceFuncEnvelopeStep, BKSequenceFuncEnvelopeSetPhase'],
  outside='values beyond +-2^30 and steps beyond 2^31; a value set before starting lies within the range of the envelope; step counts of the checked envelopes are small (ADSR holds 240 steps as in the library)')
P('N01', 'Instruments, sequences and their users keep consistent',
  'Setting, replacing, copying or disposing sequences, instruments and tracks in any order never leaves a state pointing to a freed object; copies are independent of the original '
  'and behave the same; setting a sequence reads back what was set.',
  ['histories', 'inputs'], 'all sequences of operations within the bound', 'tests use one instrument in one order', ['src/BKInstrument.c', 'src/BKSequence.c'], ['BKInstrumentSetSequence, BKInstrumentState*, *Copy*'])
# ---------------------------------------------------------------- data
P('D01', 'Sample data import is exact for every format',
  'Importing raw data of any supported size, signedness and endianness gives for each sample the exact value the format denotes, in order, with the stated number of frames and '
  'channels, and reads nothing outside of the given bytes: at least two frames are required, an incomplete last frame is dropped, unsigned formats below 16 bits span 0 to 32767 and the lowest signed 8 bit value becomes -32767.', ['inputs', 'configurations'], 'all byte contents, all formats, lengths and channel counts within the bounds',
  'tests import no data', ['src/BKData.c'], ['BKDataSetFrames, BKDataSetData, BKDataConvertFromBits, BKDataLoadRaw'])
P('D02', 'Normalising scales to full range and keeps the shape',
  'Normalising data brings the largest absolute amplitude to the full range (within the rounding of 1) and scales all others in proportion, without changing sign, order or zero of any sample; silent data remains unchanged.',
  ['inputs'], 'all sample values within the bounds', 'tests normalise nothing', ['src/BKData.c'], ['BKDataNormalize'],
  outside='sample values are symbolic multiples of several steps within a limit (the division by a fully symbolic maximum is out of reach)')
P('D03', 'Data owns or borrows its frames and every user is told about changes',
  'Data copied on request is independent of the caller\'s memory and released once, borrowed data is never written or freed; replacing, or disposing data used by units makes each unit '
  'use the new frames or none, never the old ones; a user refusing the new frames is removed.', ['histories', 'configurations'], 'all orders of set, replace, attach and dispose within the bound', 'tests never change data in use', ['src/BKData.c', 'src/BKUnit.c'], ['BKDataStateSetData, BKDataResetStates, BKDataDisposeObject'])
# ---------------------------------------------------------------- files
P('W01', 'What is written as WAVE reads back identically',
  'Every sequence of frames written, in any split of append calls and both formats (8/16 bit, any channels, rate), reads back as the same frames, channels and rate (with 8 bits, the upper 8 bits of each).',
  ['inputs', 'configurations', 'schedules'], 'all frames, channels, rates, split points within the bounds', 'one fixed file is written', ['src/BKWaveFileWriter.c', 'src/BKWaveFileReader.c'], ['BKWaveFileWriterAppendFrames, BKWaveFileReaderReadFrames'])
P('W02', 'The WAVE reader survives every malformed file',
  'For every content of a file the reader either reports an error and changes nothing, or gives exactly the frames, channels and rate of the file (missing frames being 0); it never accesses memory outside its buffers, divides by zero or loops endlessly.',
  ['inputs', 'fault_sequences'], 'all header bytes and all truncations of a file', 'only a valid file is read', ['src/BKWaveFileReader.c', 'src/BKData.c'], ['BKWaveFileReaderReadHeader/ReadFrames, BKDataLoadWAVE'],
  outside='files of up to 80 bytes; header fields are symbolic one at a time, sizes are concrete when frames are read')
P('W03', 'Written WAVE files have a correct header',
  'After terminating, the header of a written file states exactly the number of data bytes written, the file size, channels, bits, byte rate and rate, also for a file without frames '
  'and when starting behind the beginning of the file.', ['inputs', 'histories'], 'all channel counts, rates, sample sizes, numbers of frames and append splits within the bounds', 'tests compare no header',
  ['src/BKWaveFileWriter.c'], ['BKWaveFileWriterWriteHeader, BKWaveFileWriterTerminate'])
# ---------------------------------------------------------------- objects
P('O01', 'Objects are initialised, used and disposed exactly once',
  'Initialising prepares all of an object and nothing beyond it, disposing calls its class once and frees only what was allocated, disposing again does nothing, no object is refused; attributes not supported by the '
  'class are refused and change nothing; what is set reads back within its limits.', ['histories', 'inputs'], 'all classes, attribute codes and dispose orders', 'tests dispose once', ['src/BKObject.c', 'src/BKData.c', 'src/BKClock.c', 'src/BKContext.c', 'src/BKInstrument.c', 'src/BKTrack.c'], ['BKObjectInit, BKObjectAlloc, BKDispose, BKSetAttr ...'],
  outside='attributes of units and tracks are decided by U04 and K03; BKSetAttr/BKGetAttr on an object already disposed')
P('O02', 'Status codes map to their names',
  'Every status code has a name and every other number has none, without reading outside the table.', ['inputs'], 'all 32 bit values', 'tests ask for no name', ['src/BKBase.c'], ['BKStatusGetName'])
P('O03', 'A failed allocation is reported and leaves everything usable',
  'If memory can not be allocated at any point, the operation returns an error, nothing is leaked or left half initialised, and objects involved keep their state and users and can still be used and disposed.',
  ['fault_sequences'], 'a failure of any of the allocations of each operation', 'tests never run out of memory', ['src/BKContext.c', 'src/BKData.c', 'src/BKInstrument.c', 'src/BKSequence.c', 'src/BKTrack.c', 'src/BKObject.c'], ['malloc result checks'],
  outside='BKDataConvert (floating point); one failing allocation per operation')
P('X01', 'Reducing the bit depth of data matches the psychoacoustic model',
  'Converting data to a lower bit depth quantises each sample to the requested number of levels with the requested dithering and threshold.',
  ['inputs'], 'all samples, bit depths and dithering parameters', 'tests convert nothing', ['src/BKData.c'], ['BKDataConvert'],
  na='BKDataConvert computes with powf/rand on doubles; neither has a semantics CBMC can decide (powf is unmodelled, rand is the C library\'s), so no assertion about its values can be decided by a solver over the real code')
