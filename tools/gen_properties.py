#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, **({"state": state} if state else {}),
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  **({"observe_at": observe} if observe else {}), "hook_needed": None}})

p("C01", "Sample-format conversions are exact for every value, length and alignment",
  "Every sample-format conversion (unsigned and signed 8-bit, 16/32-bit integer, little-endian byte streams, float and complex samples, in either direction) writes for each input sample exactly the documented value (offset removed, sign-extended, widened, scaled, truncated toward zero or byte-ordered as documented), for every sample value whose result is representable and every scale. "
  "The value written for a sample depends only on that sample and the scale, never on its index, on the slice lengths or on the memory alignment, and this also holds for samples whose scaled value does not fit the output type.",
  ["inputs"], "All sample values (all bytes, all 16-bit values, all float classes), all scales, all slice lengths and all alignments, in the amd64, 386 and 32-bit ARM code (ARM vector modes: without subnormal samples); exact equality for representable results, position independence for all others.",
  "The tests convert one buffer per function at one alignment and compare it with the Go version of the same function; vector heads, bodies and tails are selected by length and alignment, so a fault in one of them shows only for particular (length, alignment, lane, value) combinations.",
  ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/conversion_386.s", "dsp/conversion_arm.s"],
  [("scalar reference loops", "dsp/conversion.go"), ("alignment head / SIMD body / scalar tail", "dsp/conversion_amd64.s")],
  ["output slices of the exported conversion functions"])

p("C02", "Vector kernels touch only the documented part of the caller's slices",
  "Every sample conversion and vector arithmetic operation processes exactly as many samples as fit all of its slices, and never crashes for any combination of lengths (empty, shorter, longer, odd) and any memory alignment. "
  "These, the vector reductions and the block filters and demodulators (given an output at least as long as the input) read and write no memory outside the slices they were given, change no output element beyond the processed ones, and change no input-only slice.",
  ["inputs"], "All length combinations, including empty and mismatched, all alignments, all positions in the address space (slices across the middle of a 32-bit address space included), slices flush against unmapped memory on either side, in the amd64, 386 and 32-bit ARM code.",
  "Tests allocate oversized heap slices, where an out-of-bounds access of a few elements goes unnoticed; the race detector and Go bounds checks do not see assembly.",
  ["dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32_amd64.s", "dsp/conversion_arm.s", "dsp/downsample_arm.s", "dsp/util_arm.s", "dsp/math32.go", "dsp/conversion.go"],
  [("minimum-length computation and rounded-down SIMD bounds", "dsp/conversion_amd64.s"), ("slice re-typing through unsafe", "dsp/math32.go:VScaleC64")],
  ["guard pages and canaries around every slice"])

p("C03", "Vector arithmetic equals the element-wise definition",
  "Element-wise vector operations (complex×real, complex×complex, add, accumulate, scale, magnitude, conjugate) give for each index the result of the documented scalar formula in single precision, and maximum/minimum return the largest/smallest element of the slice (minus/plus infinity when it is empty). "
  "This holds for every length, for special values (zeros, subnormals, infinities) and when the output slice is the same slice as the input.",
  ["inputs"], "All vectors of all lengths, with finite and special values, separate or in place; single-rounding operations exact, complex product and magnitude within a few units in the last place.",
  "Tests use one vector of one length per function; a wrong lane, tail element or reduction step shows only for particular lengths and positions of the extreme element.",
  ["dsp/math32.go", "dsp/math32_amd64.s", "dsp/math32_arm.s"],
  [("reduction trees and tails", "dsp/math32_amd64.s"), ("scalar loops", "dsp/math32.go")])

p("C04", "Results do not depend on which CPU-specific code path runs",
  "For the same input, every exported vector function returns the same result whichever of the CPU-capability-selected code paths (baseline, SSE2, SSE4.1, AVX; VFP and NEON on 32-bit ARM) executes, and the portable 32-bit x86 build returns the same as the 64-bit build. "
  "Maximum/minimum are compared on inputs without NaN, and conversions to integers only on samples that fit the output type; NEON on samples that are not subnormal.",
  ["inputs", "configurations"], "All inputs as in C01-C03, every setting of the capability flags the host can execute, and the amd64 and 386 builds.",
  "The capability flags are constant in a test process on a given machine and the portable build is never run by the tests, so a divergence in a path that is not selected is never executed.",
  ["dsp/cpu_amd64.go", "dsp/conversion_amd64.s", "dsp/math32_amd64.s", "dsp/conversion_386.s", "dsp/math32_386.s"],
  [("flag dispatch", "dsp/cpu_amd64.go"), ("portable forwarding stubs", "dsp/*_386.s")])

p("C05", "Conversions that are inverse to each other round-trip losslessly",
  "Encoding samples and decoding them again returns the original samples bit for bit: 16-bit samples to little-endian bytes and back, float samples holding 16-bit integers to 16-bit samples or little-endian bytes and back, signed 8-bit complex samples to float and back, and 32-bit floats to little-endian bytes and back (all bit patterns). "
  "Widening an unsigned 8-bit sample to 16 bits keeps order and equality of samples and gives the same bytes in the 16-bit and the byte-slice variants.",
  ["inputs"], "All values of the narrower format, every power-of-two scale pair, all lengths.",
  "No test composes two conversions; a compensating or shared convention error (byte order, sign, offset, scale) is visible only in the composition over all values.",
  ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("byte order and sign handling", "dsp/conversion.go")])

p("C06", "Fast arctangents stay within their documented error everywhere",
  "The fast arctangent and phase functions return, for every finite (y, x) of moderate magnitude, an angle in [-pi, pi] (or its fixed-point equivalent) in the correct quadrant that differs from the true angle by no more than the bound of its approximation (documented as 0.01 and 0.005 rad for the float versions, to rounding; one table step of 1/256 rad for the look-up version; 0.072 rad for the octant-linear fixed-point version), and the exact phase function agrees with the true angle to float precision. "
  "On the axes they return 0, ±pi/2 or ±pi within the same bound, the angle of the origin is 0, and for non-zero y they are odd in y.",
  ["inputs"], "All (y, x), zero and extreme ratios included, whose larger magnitude is within about [1e-15, 1e30] for the float versions; integers up to 2^31 in magnitude for the fixed-point versions.",
  "The tests scan one circle of one radius and check the mean or max there; errors confined to an octant, an axis, extreme ratios or particular magnitudes are not sampled.",
  ["dsp/math32.go", "dsp/mathfixed.go", "dsp/math32_amd64.s", "dsp/math32_arm.s"], [("octant reduction and polynomial", "dsp/math32.go"), ("look-up table", "dsp/mathfixed.go")])

p("C07", "FM demodulation yields the phase step between successive samples",
  "Demodulating a stream of complex samples gives for each sample the phase of that sample times the conjugate of its predecessor, within the documented arctangent error, where the predecessor of the first sample of a block is the last sample of the previous block. "
  "The output has one value per input sample, the input is not changed, scaling the signal or rotating it by a constant phase leaves the output unchanged up to that error, and the standalone polar discriminators agree with it (the double-precision one to rounding).",
  ["inputs", "histories"], "All sample sequences of moderate magnitude, all block splits (including empty and one-sample blocks).",
  "The test demodulates one short stored signal in one call and compares with the Go version of the same code.",
  ["dsp/demod.go", "dsp/demod_amd64.s", "dsp/demod_arm.s"], [("previous-sample state", "dsp/demod.go"), ("polar discriminator", "dsp/demod.go")])

p("C08", "Streaming processors give the same output however the input is split",
  "For every stateful processor that takes blocks (IIR and biquad filters, DC blockers, decimators, FM demodulator, Goertzel detectors, and the 90-degree rotators at multiples of their period) feeding a sample stream in any sequence of blocks produces exactly the same output stream and final state as feeding it in one block. "
  "Two instances fed the same stream give identical results, and instances never influence each other.",
  ["inputs", "histories"], "All streams and all partitions into blocks, including empty and single-element ones, with one or several instances interleaved.",
  "Tests feed each filter one block, or two at fixed sizes; state carried across a call boundary is exercised at one boundary position only.",
  ["dsp/filter.go", "dsp/biquad.go", "dsp/downsample.go", "dsp/demod.go", "dsp/goertzel.go", "dsp/util.go"],
  [("per-instance carried state", "dsp/filter.go, dsp/downsample.go, dsp/demod.go, dsp/goertzel.go")])

p("C09", "Decimators emit the right number of correctly weighted block sums",
  "The complex low-pass decimator emits, after n input samples in total, exactly floor(n/D) outputs, the k-th being the sum of the k-th group of D consecutive samples, with no sample lost, duplicated or reordered across calls. "
  "The rational decimator emits after n input samples floor(n*slow/fast) outputs, each being slow/fast times the sum of the samples since the previous output, for every slow <= fast.",
  ["inputs", "histories"], "All factors (D >= 1, 1 <= slow <= fast), all sample streams and all block partitions, up to long streams.",
  "Tests check one factor on one short block; counts drift, lost remainders and rounding at call boundaries need other factors, splits and longer histories.",
  ["dsp/downsample.go", "dsp/downsample_amd64.s", "dsp/downsample_arm.s"], [("accumulator and phase counter kept across calls", "dsp/downsample.go")])

p("C10", "IIR filters realise the difference equation of their coefficients",
  "An IIR filter built from coefficient lists b and a produces y[n] = (sum b[j]x[n-j] - sum_{j>=1} a[j]y[n-j]) / a[0] with zero initial state, for every order including zero (a pure gain), in the real, complex and single-precision complex versions, and works when output and input are the same slice. "
  "Constructing and running a filter never changes the caller's coefficient slices, so several filters built from one pair of slices behave identically, and later changes to those slices do not affect an existing filter.",
  ["inputs", "histories"], "All coefficient lists of equal length >= 1 with a[0] != 0, all input streams (compared within rounding for stable filters).",
  "There is no test of the IIR filters.",
  ["dsp/filter.go"], [("coefficient normalisation", "dsp/filter.go"), ("delay lines", "dsp/filter.go")])

p("C11", "Biquad designs have the frequency response of their analogue prototype",
  "Each biquad designer (low-pass, high-pass, both band-passes, notch, all-pass, peaking, low and high shelf) returns a stable filter whose frequency response equals the documented s-domain transfer function under the bilinear transform warped at the design frequency (unity/zero gain at DC and Nyquist, gain Q, 1 or the requested dB at the centre, and so on). "
  "Running the filter realises exactly that transfer function from zero initial state; the double and single precision processing methods share one state and agree, and any common scaling of the six coefficients leaves the output unchanged.",
  ["inputs", "histories"], "All sample rates, design frequencies strictly between 0 and Nyquist, Q > 0, slopes in (0, 1], gains in dB, and all input streams and interleavings of the two processing methods.",
  "There is no test of the biquad filters.",
  ["dsp/biquad.go"], [("coefficient formulas", "dsp/biquad.go"), ("direct form I recursion", "dsp/biquad.go")])

p("C12", "DC blockers remove the mean and follow their recursion",
  "The DC blocking filters compute y[n] = w[n] - w[n-1] with w[n] = x[n] + a*w[n-1] from zero state, identically for block-wise and sample-wise processing in any mixture, in place or not. "
  "Hence a constant input decays geometrically to zero, a zero-mean alternating signal passes with gain 2/(1+a), and the output stays bounded for bounded input when 0 <= a < 1.",
  ["inputs", "histories"], "All 0 <= a < 1, all input streams, all interleavings of the block and sample methods.",
  "There is no test of the DC filters.",
  ["dsp/filter.go"], [("single-state recursion", "dsp/filter.go")])

p("C13", "Goertzel detectors report the DFT bin nearest to each target frequency",
  "After a block of exactly the configured size has been fed, in any pieces, each Goertzel detector (real, single-precision, complex input) reports for every target frequency the DFT coefficient of that block at the nearest bin and its squared magnitude, for any number of targets and any frequency up to the sample rate. "
  "Reset returns the detector to its initial state, and reading magnitude or complex value any number of times, in any order, changes nothing.",
  ["inputs", "histories"], "All sample blocks, block sizes, sample rates, target lists (rounding half-way cases excluded), feeding partitions and call orders.",
  "The test checks one frequency list on one signal for a ratio of magnitudes only.",
  ["dsp/goertzel.go"], [("bin selection", "dsp/goertzel.go"), ("second-order recursion and reset", "dsp/goertzel.go")])

p("C14", "Sliding DFTs equal the windowed DFT of the last n samples",
  "After every sample the sliding DFT (both precisions) returns the sum over the window coefficients w[i] of w[i] times DFT bin (k - len(w)/2 + i mod n) of the last n samples, samples before the start counting as zero, where the oldest sample has time index 0. "
  "This holds after any number of samples (the error stays within accumulated rounding, no drift beyond it), and once n zero samples have followed, the output returns to zero.",
  ["inputs", "histories"], "All n >= 1, 0 <= k < n, window coefficient lists no longer than n (empty meaning the single coefficient 1), all streams including many multiples of n.",
  "There is no test of the sliding DFT.",
  ["dsp/sdft.go"], [("circular delay line", "dsp/sdft.go"), ("per-bin twiddle recursion", "dsp/sdft.go")])

p("C15", "Window functions match their definition at every length",
  "Each window function fills the whole slice with its textbook definition (triangle, Hamming with 0.53836, Hann, Blackman with alpha 0.16, four-term Nuttall), symmetric about the middle, finite and within [0, 1] up to rounding at every length, including lengths 0, 1 and 2; a window of length 1 is the peak value. "
  "The single-precision variants are the double-precision values rounded, and the published frequency-domain coefficients are the ones whose convolution with a spectrum equals applying the corresponding periodic window.",
  ["inputs"], "All lengths from 0 upwards, all window functions.",
  "There is no test of the windows.",
  ["dsp/window.go"], [("cosine-sum generator", "dsp/window.go"), ("frequency coefficient tables", "dsp/window.go")])

p("C16", "Interpolators reproduce their polynomial and never crash",
  "Each interpolator (linear, 4-point Hermite, optimal 4-point and 6-point, in both precisions) evaluates, at any finite position, its documented polynomial of the neighbouring samples of the zero-extended signal; linear and Hermite return the sample itself at integer positions inside the signal, and reproduce straight lines inside it. "
  "They return 0 when all neighbouring samples lie outside the slice (the linear ones also at every negative position), are linear in the samples, never change them, and never crash for any position (negative, beyond the end, NaN, infinite, huge) or any slice including an empty one.",
  ["inputs"], "All sample slices including empty ones and all positions; value claims for finite positions below 2^31 in magnitude (the linear versions return 0 for negative positions).",
  "There is no test of the interpolators.",
  ["dsp/interpolate.go"], [("index range checks", "dsp/interpolate.go"), ("polynomial coefficients", "dsp/interpolate.go")])

p("C17", "DTMF detection recognises every key and leaves the samples alone",
  "Feeding a block that contains the two tones of a key returns that key's number, for every key, any tone phases, equal or moderately different tone levels, any overall level, and moderate noise, for standard and custom frequency sets and windows. "
  "The result depends only on the samples of that block (of which at most the configured block size is used): the reported threshold is the smaller of the two strongest windowed tone magnitudes, earlier blocks have no influence, and the caller's samples are not modified.",
  ["inputs", "histories"], "All keys, phases, levels, block sizes that separate the tones, and sequences of blocks including overlapping blocks taken from one buffer.",
  "There is no test of the DTMF decoder.",
  ["dsp/dtmf/dtmf.go", "dsp/goertzel.go"], [("windowing, reset per block", "dsp/dtmf/dtmf.go"), ("argmax of both groups", "dsp/dtmf/dtmf.go")])

p("C18", "AX.25 decoder delivers every well-formed frame with its exact fields",
  "For every well-formed AX.25 frame of at most 512 bytes including its check sequence, sent bit-stuffed between flags, the decoder returns exactly one frame, at the closing flag, whose source, destination, repeaters (callsign without padding, SSID), version, command/response, frame type, sequence numbers, poll/final bit, unnumbered or supervisory kind, and, in information and UI frames, protocol identifier and information bytes are those that were sent. "
  "This holds for back-to-back frames sharing one flag or separated by any number of idle flags, after any preceding line noise, and for compressed (FlexNet) headers, whose destination callsign and SSID are decoded from the packed six-bit characters.",
  ["inputs", "histories"], "All field values, 0 to 8 repeaters, all information contents and lengths up to the limit, all frame sequences and inter-frame fill.",
  "There is no test of the AX.25 decoder.",
  ["dsp/ax25/hdlc.go", "dsp/ax25/crc.go", "dsp/ax25/constants.go"], [("bit destuffing and flag detection", "dsp/ax25/hdlc.go"), ("header and control field parsing", "dsp/ax25/hdlc.go"), ("CRC table", "dsp/ax25/crc.go")])

p("C19", "AX.25 decoder never delivers a frame whose check sequence is wrong",
  "Whatever bits are fed, the decoder returns a frame only at a closing flag and only if the destuffed whole octets since the previous flag are at most 512, are enough for an address header and control octet, and carry a correct frame check sequence; truncated, aborted, over-long and corrupted frames are dropped silently. "
  "It never crashes on any bit sequence, and after any such event the next well-formed frame between flags is delivered normally.",
  ["inputs", "fault_sequences"], "All bit streams; in particular every single-bit and burst error, insertion, deletion, truncation and abort applied to valid frames, over-long frames, frames too short for their header, and random noise.",
  "There is no test of the AX.25 decoder.",
  ["dsp/ax25/hdlc.go", "dsp/ax25/crc.go"], [("CRC residue check", "dsp/ax25/crc.go"), ("abort and overflow handling", "dsp/ax25/hdlc.go")])

p("C20", "A delivered AX.25 frame never changes afterwards",
  "A frame returned by the decoder belongs to the caller: none of its fields, including the bytes of its information field and its repeater list, changes when more bits are fed to the decoder, and modifying a delivered frame does not affect later frames. "
  "Decoding the same bit stream twice, or with several decoders interleaved, gives the same frames.",
  ["histories"], "All sequences of frames with the earlier frames retained, several decoders fed alternately.",
  "There is no test; any test that inspects a frame before feeding further bits cannot see aliasing.",
  ["dsp/ax25/hdlc.go"], [("receive buffer reuse", "dsp/ax25/hdlc.go")])

p("C21", "BorIP client sends each command correctly and returns the server's values",
  "Each client call sends exactly one protocol line with the requested value (numbers in plain decimal that read back as the same number) and returns what the server's reply to it says: device description with all its fields and an optional serial number, frequency, rate, gain, antenna, destination and header state, or an error carrying the server's error text when the reply is not OK. "
  "Replies are matched to commands in order over any sequence of calls, the selected device is remembered and forgotten as selected, and Close first stops a running stream, then releases a selected device, then closes the connection.",
  ["inputs", "histories"], "All values, all call sequences, all conforming replies.",
  "There is no test of the client.",
  ["borip/client.go"], [("command/response line exchange", "borip/client.go"), ("device string parsing", "borip/client.go")])

p("C22", "BorIP client survives any server behaviour with an error, not a crash",
  "Whatever bytes a server sends in reply to any call, and wherever the connection breaks, the client call returns normally, with an error if the reply is not a usable answer to that call; it never panics, and never reports success for a reply that lacks the OK or the requested value. "
  "A failed Dial leaves no open connection behind, a failed GO, STOP or DEVICE leaves the stream marked as running or not and the device marked as selected as they were, and Close always closes the connection.",
  ["inputs", "fault_sequences"], "All reply lines (truncated, empty, garbled, oversized, wrong command, wrong arity, non-numeric), connection closed at every point.",
  "There is no test of the client.",
  ["borip/client.go"], [("reply validation", "borip/client.go")])

p("C23", "BorIP packet reader delivers every received sample once, in order",
  "Reading samples from the packet stream returns the concatenation of the sample payloads of the received datagrams, each 16-bit I/Q pair decoded as little-endian signed integers exactly once and in order, whatever the size of the slice passed to each read and whatever the packet sizes, with or without headers; Header reports the flags, notification and sequence number of the packet the samples came from; the exported Flag constants are the bits of the protocol's flags. "
  "Trailing bytes that do not form a whole sample are ignored, a datagram too short for its header yields the short-packet error and no samples, receive errors are returned unchanged, and no input causes a crash.",
  ["inputs", "histories", "fault_sequences"], "All packet contents and sizes (including empty, truncated, odd, longer than the slice), all read slice sizes (including zero), both header modes, errors between packets.",
  "There is no test of the packet reader.",
  ["borip/packet.go"], [("buffer cursor kept across reads", "borip/packet.go")])

p("C24", "Independent instances and pure functions are safe to use concurrently",
  "Distinct instances of every processor, and all package-level functions, may be used from different goroutines at the same time without data races, and give the same results as when run alone. "
  "In particular no package-level state is written after initialisation, and instances constructed from the same tables or coefficient slices share nothing mutable.",
  ["schedules", "histories"], "All interleavings of goroutines each owning its own instances and output slices, with shared read-only inputs.",
  "The tests are single-threaded and not run under the race detector.",
  ["dsp/*.go", "dsp/ax25/*.go", "dsp/dtmf/dtmf.go", "borip/*.go"], [("absence of mutable globals", "dsp, ax25, dtmf, borip")])

p("C25", "Quarter-rate rotation multiplies sample n by the n-th power of i",
  "The 90-degree rotators multiply, in place, the n-th sample of a block by i to the power n (the complex and the interleaved 32-bit integer version alike), so that four applications restore every block, magnitudes are preserved exactly and the spectrum moves by a quarter of the sample rate. "
  "They return the same slice they were given, with its length unchanged, and carry no state between blocks whose length is a multiple of four samples.",
  ["inputs"], "All sample values and all block lengths that are a multiple of four complex samples, including empty blocks.",
  "The test rotates one 8-sample block against the Go version of the same code.",
  ["dsp/util.go", "dsp/util_amd64.s"], [("per-group sign/swap pattern", "dsp/util.go")])

p("C26", "BorIP server answers every command line and keeps device and stream state",
  "After its hello (DEVICE -) the server answers every non-empty command line of a client with exactly one line, in order, that starts with the command's name in upper case: UNKNOWN for commands it does not have, DEVICE for receiver commands without a selected receiver, FAIL for values or settings that are refused, the receiver's actual value for queries and accepted settings, RUNNING or STOPPED for a GO or STOP that changes nothing. "
  "A receiver is held by at most one client at a time and is free again after DEVICE !, after a new selection and after the client disconnects; a stream runs exactly from a successful GO until STOP, release, disconnect or the receiver's own end. A newly selected receiver starts at the server's default frequency and rate with automatic gain off, whatever was done with it before, and its buffer is reset before every stream. "
  "No command sequence, line content, receiver fault or set of concurrent clients crashes the server, races in it or disturbs another client, and the repository's own client works with it.",
  ["inputs", "histories", "schedules", "fault_sequences"], "All sequences of command lines (well formed, malformed, overlong, in any letter case), any number of clients connecting and leaving at any point, any receiver answers and failures, any timing of the receiver's callback relative to STOP and disconnects.",
  "The server has no tests and cannot even be built without a receiver library; its faults need a second STOP, a client that leaves while streaming, or a receiver that fails at a particular call.",
  ["boripserver/main.go", "boripserver/devices.go", "borip/client.go"], [("command dispatch", "boripserver/main.go:handleCommand"), ("exclusive open and close", "boripserver/devices.go"), ("stream start and stop", "boripserver/main.go:startStreaming")],
  ["the TCP control connection", "the calls the receiver library gets"])

p("C27", "BorIP server streams every sample once in numbered packets",
  "While a stream runs, the datagrams sent to the client's destination carry the receiver's bytes exactly once and in order, each byte widened to 16 bits, at most 4096 I/Q pairs per packet behind a four-byte header whose sequence number counts up by one from 0 (modulo 65536) and whose stream-start flag is set on the first packet of the stream only. "
  "After STOP, release or disconnect nothing but the buffer in progress is sent and the stream's socket is released, and a GO the receiver refuses leaves none; the next GO starts again from sequence 0 with the flag; a destination that refuses packets does not end the stream; the repository's packet reader decodes the stream.",
  ["inputs", "histories", "schedules"], "All buffer sizes the receiver may deliver (shorter and longer than a packet, no multiple of one), streams of more than 65536 packets, any number of restarts, STOP at any point relative to the receiver's callback.",
  "There is no test of the server; sequence wrap needs hundreds of megabytes, and the stop races need the callback to run at particular moments.",
  ["boripserver/main.go", "borip/packet.go", "dsp/conversion.go"], [("packetisation loop", "boripserver/main.go:startStreaming"), ("byte widening", "dsp/conversion.go:Ui8toi16b")],
  ["the UDP datagrams at the destination"])

p("C28", "CPU feature detection reports what processor and system support",
  "Initialising CPU feature detection sets each x86 feature flag exactly if the processor reports the feature, in a CPUID leaf that it has, and, for FMA, AVX and AVX2, the operating system supports the register state they need (OSXSAVE, and for AVX the XMM and YMM state enabled); XGETBV is executed only where OSXSAVE allows it, and the processor name is the vendor's string without leading blanks and anything after its terminator. "
  "Options (cpu.NAME=on|off, cpu.all=on|off, separated by commas, the last word on a feature counts) can only switch off features the processor has, never switch on one it lacks, and never switch off the mandatory SSE2 of the 64-bit build; malformed, unknown and impossible options change nothing and give one warning each, other text is ignored.",
  ["inputs", "configurations"], "All processors (any contents of the CPUID leaves, any number of leaves, any enabled state) and all option strings.",
  "A test process sees one processor, and the package's own tests of options are skipped or do not build outside the Go tree.",
  ["dsp/internal/cpu/cpu.go", "dsp/internal/cpu/cpu_x86.go", "dsp/internal/cpu/cpu_x86.s", "dsp/cpu_amd64.go"], [("CPUID decoding", "dsp/internal/cpu/cpu_x86.go:doinit"), ("option parsing", "dsp/internal/cpu/cpu.go:processOptions")],
  ["the flags after Initialize, the warnings on standard error"])

p("C29", "Feature detection off x86 follows what the system reports",
  "On ARM, ARM64, POWER, MIPS64 and S390X, initialising CPU feature detection sets each feature flag exactly if the system's source of truth for that family says so: the kernel's capability words on Linux (ARM64 atomics never on Android), the identification registers on FreeBSD and, for the core type, on Linux where the kernel lets them be read, sysctl on macOS (whose ARM64 machines always have AES, PMULL, SHA1 and SHA2), the system configuration on AIX, and on S390X the facility list, the query functions of the cryptographic instructions (a feature needs every function it is made of) and the kernel's word on vectors. "
  "No flag of another family is set, the processor has no name there, optional instructions are executed only where the machine has them, and the cpu.NAME=on|off options work as on x86.",
  ["inputs", "configurations"], "All contents of the capability words, registers, facility lists and query results, all option strings, all families and operating systems the package has code for.",
  "The tests run on one x86 machine, where this code is not even compiled.",
  ["dsp/internal/cpu/cpu.go", "dsp/internal/cpu/cpu_arm.go", "dsp/internal/cpu/cpu_arm64_hwcap.go", "dsp/internal/cpu/cpu_arm64_freebsd.go", "dsp/internal/cpu/cpu_arm64_darwin.go", "dsp/internal/cpu/cpu_ppc64x_linux.go", "dsp/internal/cpu/cpu_ppc64x_aix.go", "dsp/internal/cpu/cpu_mips64x.go", "dsp/internal/cpu/cpu_s390x.go"],
  [("capability words", "dsp/internal/cpu/cpu_arm64_hwcap.go:hwcapInit"), ("facility list and queries", "dsp/internal/cpu/cpu_s390x.go:doinit")],
  ["the flags after Initialize, the warnings on standard error"])

p("C30", "ARM vector code is selected only on machines that have it",
  "At start-up on 32-bit ARM the package selects its NEON code exactly if the features line of the kernel's processor description lists neon or asimd, and the VFP short-vector code exactly on a BCM2708 (Raspberry Pi 1) without NEON, unless the environment variable ARMVECTOR holds a boolean, which then decides about the VFP vector code. "
  "Text elsewhere in the description (model names, hardware names) does not matter, and a missing description selects neither.",
  ["inputs", "configurations"], "All processor descriptions whose relevant lines lie within the first 2048 bytes, all values of ARMVECTOR.",
  "A test process sees one processor description, and on x86 this code is not compiled.",
  ["dsp/cpu_arm.go"], [("description matching", "dsp/cpu_arm.go:init")],
  ["HaveNEON and UseVector after start-up"])

p("C31", "Printed names of decoded AX.25 fields are those of the protocol",
  "The texts of frame types, supervisory and unnumbered kinds, protocol identifiers and addresses are the protocol's names for the decoded values (for every control octet, with or without the poll/final bit), a value without a name prints as two lower-case hexadecimal digits, and addresses print as callsign, hyphen and SSID. "
  "Printing never changes a frame or the tables, so the same value always has the same name.",
  ["inputs"], "All 256 values of each code, all control octets in decoded frames, all addresses.",
  "There is no test of the AX.25 package.",
  ["dsp/ax25/constants.go", "dsp/ax25/hdlc.go"], [("name tables", "dsp/ax25/constants.go")])

p("C32", "Receivers assembled from the blocks recover what was transmitted",
  "A receiver chained from the package's blocks (8-bit samples to complex, quarter-rate shift, decimation, FM demodulation, DC blocking, optionally 16-bit storage, then rate conversion and DTMF detection, or tone detection and AX.25 decoding) recovers every transmitted key and packet exactly from a clean signal. "
  "This holds for every carrier level and offset inside the channel, however the sample stream is cut into blocks (multiples of four samples) and whichever CPU-specific code runs; the audio is the same, up to rounding, however the stream is cut, and the number of samples at each stage is exactly the input's divided by the decimation factors.",
  ["inputs", "histories", "configurations"], "All messages, levels that use a quarter or more of the sample range without clipping, offsets within 1.5 kHz, block partitions and capability settings, in the amd64, 386 and 32-bit ARM code.",
  "The tests exercise each block alone and only against its own Go version; conventions that have to match between blocks (signs, byte order, scale, sample counts, state across block borders) are not tested together.",
  ["dsp/conversion.go", "dsp/util.go", "dsp/downsample.go", "dsp/demod.go", "dsp/filter.go", "dsp/goertzel.go", "dsp/dtmf/dtmf.go", "dsp/ax25/hdlc.go"],
  [("the chain of the example programs", "examples/ax25.go")])

p("C33", "Code executed is code the machine has, and the best of it",
  "On x86-64 the package decides at start-up, from what the processor and the operating system report, which code its vector functions run: the SSE4.1 code exactly if SSE4.1 is reported, the AVX2 code exactly if AVX2 is reported and the system saves the YMM registers. "
  "No package function ever executes, for any length or alignment, an instruction of an extension the machine does not offer (which would end the program with an illegal-instruction fault): on x86-64 and 386 beyond SSE2, on 32-bit ARM NEON instructions while HaveNEON is false or VFP short vectors while UseVector is false.",
  ["configurations", "inputs"], "All processors and systems (CPUID and XCR0 contents), all lengths and alignments, in the amd64, 386 and 32-bit ARM code.",
  "A test runs on one processor, which has more extensions than the oldest ones supported: an instruction too new, or code never selected, passes there.",
  ["dsp/cpu_amd64.go", "dsp/internal/cpu/cpu_x86.go", "dsp/math32_amd64.s", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32_arm.s", "dsp/conversion_arm.s"],
  [("selection", "dsp/cpu_amd64.go:init"), ("gates in the assembly", "dsp/math32_amd64.s:VMaxF32")],
  ["the instructions executed"])

p("C34", "Memory and cost per sample stay the same however long a stream runs",
  "A receiver can run for ever: what a streaming object holds (filters, decimators, demodulators, Goertzel and sliding DFT detectors, DTMF, the AX.25 decoder, the packet reader, the BorIP client) does not grow with the number of samples, bits, packets, frames or commands it has seen, whatever they contain (valid frames, damage, noise, a frame that never ends, short packets, refused commands), and neither does the processor time or the memory allocated per sample. "
  "An instance that is no longer referred to is released. The BorIP server holds no memory, goroutine or descriptor for clients that have left and streams that have ended, in whatever way they ended, and nothing that grows with the commands it answered and the buffers it sent.",
  ["inputs", "histories"], "All streams of any length, all ways a session or a stream may end.",
  "A test runs for milliseconds; what grows by some bytes per second shows after days, and what leaks on one way of ending a session shows only when that way is taken often.",
  ["dsp/filter.go", "dsp/biquad.go", "dsp/goertzel.go", "dsp/sdft.go", "dsp/downsample.go", "dsp/demod.go", "dsp/dtmf/dtmf.go", "dsp/ax25/hdlc.go", "borip/client.go", "borip/packet.go", "boripserver/main.go"],
  [("frame buffer limit", "dsp/ax25/hdlc.go:Feed"), ("end of a session", "boripserver/main.go:handleConnection"), ("end of a stream", "boripserver/main.go:startStreaming")],
  ["bytes in use after a garbage collection, goroutines, descriptors, processor time of the calls"])

p("C35", "Vector code leaves the processor and its caller's stack as it found them",
  "When a call into package dsp returns, whatever the function, length, alignment, data and selected code path, the state that the code around it relies on is what it was: rounding mode, treatment of subnormals and exception masks (MXCSR and x87 control word, FPSCR and FPCR on ARM), the x87 stack empty, the direction flag clear, stack pointer, frame pointer and (ARM) goroutine register, vector mode off, and the words of the caller's stack frame; the upper halves of the AVX registers are clear, so that SSE code running next is not slowed down. "
  "Arithmetic, library calls and C code executed afterwards therefore give the same results at the same speed as if the call had not been made.",
  ["inputs"], "All functions, lengths, alignments and selections; amd64, 386, ARM and ARM64 code.",
  "A test looks at the result of the function it calls; a mode left changed shows in unrelated code on the same thread, often only with subnormal numbers, x87 code or a profiler.",
  ["dsp/math32_amd64.s", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/conversion_arm.s", "dsp/math32_arm.s", "dsp/math32_arm64.s", "dsp/downsample_arm.s"],
  [("AVX2 code", "dsp/math32_amd64.s:VMaxF32"), ("vector mode", "dsp/conversion_arm.s:F32toi16")],
  ["processor state read before and after each call, single steps, ARM emulator"])

p("C36", "Nothing but what a call is given to write is changed, and nothing is kept",
  "The memory a caller passes in stays the caller's: constructors and processors (filters, detectors, windows, DTMF, AX.25 decoder, packet reader) change nothing but the output slice (or the block documented as worked on in place), write there no more than the result, leave alone what lies before, behind and in the spare capacity of every slice, and keep no reference, so that the caller may overwrite arguments, blocks and results as soon as the call has returned without any effect on later results. "
  "Exported configuration fields and the exported tables (DTMF keys and frequencies, window coefficients, AX.25 names, error values) never change by use. "
  "Importing or using the packages has no other effect on the program: nothing is written to standard output, standard error or the log, no goroutine is started by importing, and environment, working directory, command line flags, signal handling, limits, priority and the runtime's settings stay as they were.",
  ["inputs", "histories"], "All objects, all contents, lengths and capacities of the slices, all histories of calls; a caller that overwrites everything it owns after each call.",
  "A test passes fresh slices of exact size and looks at the result; a slice kept or changed shows when the caller uses it again, a table changed shows in the next object built from it.",
  ["dsp/filter.go", "dsp/biquad.go", "dsp/goertzel.go", "dsp/sdft.go", "dsp/window.go", "dsp/downsample.go", "dsp/dtmf/dtmf.go", "dsp/ax25/hdlc.go", "borip/packet.go", "borip/client.go"],
  [("coefficients are copied", "dsp/filter.go:normalizeCoef"), ("tables", "dsp/dtmf/dtmf.go:StdLowFreq"), ("own buffer for the windowed block", "dsp/dtmf/dtmf.go:Feed")],
  ["the caller's memory around and in every slice before and after each call, outputs of twin histories, state of the process"])

p("C37", "The BorIP client and server of this repository work together",
  "For every history of calls on any number of clients of package borip that are connected to the server of this repository, one after the other or at the same time, and however the network cuts their commands and replies into pieces: each call returns what the receivers really did. "
  "Selection returns a free receiver (and fails only if every receiver is somebody else's or cannot be opened), which then belongs to that client alone; set and queried frequency, rate, gain, antenna and destination are the receiver's; a call fails if no receiver is selected, the receiver refuses, or the state does not allow it (Go while streaming, Stop while not), and otherwise succeeds. "
  "The samples of each stream arrive through PacketReader once each, in order, in packets numbered from 0 whose first alone carries the stream start flag, and never in another client's stream. "
  "When Close has returned the receiver is stopped and free; when a connection breaks, orderly or by a reset, every further call on it fails and the receiver is free soon after.",
  ["histories", "schedules", "faults"], "All call histories, interleavings of several clients, receiver faults, ways the connection may be fragmented or end.",
  "The client's tests cover parts of packets only and the server has none; neither shows that the two agree on formats, numbering, state and ownership.",
  ["borip/client.go", "borip/packet.go", "boripserver/main.go", "boripserver/devices.go"],
  [("a session", "boripserver/main.go:handleCommand"), ("ownership", "boripserver/devices.go:open"), ("end of a session", "borip/client.go:Close")],
  ["results of every client call, state of the scripted receivers, samples and packet headers, times of ownership"])

p("C38", "The BorIP server comes up, keeps serving and ends as a service must",
  "Started, the server offers every receiver that has a name (distinct names) and no other, each under its own name, and having none is no obstacle to serving. It serves on TCP port 28888 of every local IPv4 address, and a client's destination is its own address, port 28888, until it names another. "
  "A session lasts until one side ends it, however long it is silent. No number of connections, at the same time or coming and going, silent or not reading their answers, ends the server, keeps other sessions from being answered or keeps new ones from being served. When the process has no descriptor left for another connection, open sessions and streams go on, the server neither spins nor floods its log, and as soon as descriptors are free those who wait are served. "
  "An interrupt (SIGINT) ends the server with status 0 whatever sessions and streams exist, and leaves the port free; with -profile.cpu it leaves one complete CPU profile in cpu.prof, otherwise no file. If the port is taken, an option unknown or the profile cannot be written, it ends with a message and a status other than 0.",
  ["histories", "schedules", "faults"], "All sets of receivers, numbers and behaviours of connections, moments of exhaustion and of interrupts.",
  "The server has no tests; exhaustion, crowds and interrupts are conditions a test of one session never meets.",
  ["boripserver/main.go", "boripserver/devices.go"],
  [("accepting", "boripserver/main.go:main"), ("receivers found", "boripserver/devices.go:init"), ("a session", "boripserver/main.go:handleConnection")],
  ["answers and hellos of all connections, receivers opened, exit status, files left, processor time and log growth of the server process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
