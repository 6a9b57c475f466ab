# executed by props.py
L2F = ["src/horus_l2.c", "src/golay23.c"]
prop("C01", "Golay (23,12) decoding corrects every pattern of up to three bit errors",
     "For every 12-bit message and every pattern of at most three flipped bits, decoding the received 23-bit word yields the message and the codeword that was sent; encoding is the systematic Golay code, the syndrome is zero exactly on codewords, and the error count is the Hamming distance. This holds for the run-time tables, the precomputed tables and the table-free build alike.",
     ["inputs", "configurations"], "all 2^23 received words, all messages, three table configurations",
     "The existing tests run the code through whole packets with random errors; a single wrong table entry or polynomial slip shows only on the few words that hit it.",
     ["src/golay23.c", "src/golay23.h"],
     [("syndrome by the reversed generator polynomial", "src/golay23.c golay23_syndrome"), ("decoding table filled for all weight <=3 patterns", "src/golay23.c golay23_init"), ("table-free decoder by cyclic shifts", "src/golay23.c golay23_decode_no_tables")],
     note="Decided for every input, no bound left open (23-bit words; all loops have constant trip counts). Trusts CBMC, CaDiCaL and gcc's front-end agreement.")
prop("C02", "Layer-2 packet encode then decode returns the payload",
     "For every payload of every supported size, decoding the encoded packet returns exactly that payload, whatever the two unique-word bytes have become, and touches only the announced packet size.",
     ["inputs", "configurations"], "every payload content; sizes 16, 22, 32, 48, 64, 96, 128 bytes and small odd sizes 1..7",
     "Tests encode a handful of fixed payloads of two sizes; the partial last codeword, padding and interleaver depend on size and content.",
     L2F, [("partial last codeword and parity packing", "src/horus_l2.c horus_l2_encode_tx_packet"), ("mirror unpacking", "src/horus_l2.c horus_l2_decode_rx_packet"), ("interleave/scramble inverses", "src/horus_l2.c interleave, scramble")],
     note="Real horus_l2.c and golay23.c, every payload byte symbolic, sizes enumerated. Sizes not listed are outside.")
prop("C03", "A packet survives up to three bit errors in each Golay codeword",
     "For every payload and every set of bit errors with at most three errors in each 23-bit codeword, the decoder returns the transmitted payload.",
     ["inputs", "fault_sequences"], "every payload and every admissible error pattern of the whole packet at once; sizes 16, 22, 32, 48, 64, 96, 128",
     "Tests inject random or fixed error patterns at one size; the number of admissible patterns is astronomically large.",
     L2F, [("deinterleaver spreads bursts, Golay corrects", "src/horus_l2.c horus_l2_decode_rx_packet")],
     note="Real horus_l2.c; golay23_decode replaced by the contract C01 proves of it (returns the codeword within distance 3). Frame built by an independent reference encoder that C04 shows equal to the real one.")
prop("C04", "Encoded packets follow the published on-air format bit for bit",
     "Every encoded packet is the unique word '$$' followed by the scrambled, interleaved payload and Golay parity bits of the published Horus Binary format, with exactly the announced number of bytes written, so that independently built transmitters and receivers interoperate.",
     ["inputs", "configurations"], "every payload content; sizes 16, 22, 32, 48, 64, 96, 128 and small sizes",
     "A symmetric change (interleaver constant, scrambler seed, bit order) keeps every loop-back test green and silently breaks interoperability; tests hold a few recorded packets at most.",
     L2F, [("unique word, parity order, interleaver, scrambler", "src/horus_l2.c")],
     note="Real encoder against a reference written from the format description (own polynomial division, interleaver constants, LFSR).")
prop("C05", "The frame checksum is CRC-16/CCITT-FALSE over exactly the given bytes",
     "For every message the checksum function returns the CRC with polynomial 0x1021 and initial value 0xFFFF of exactly the bytes given, reading nothing else.",
     ["inputs"], "every content of messages of 0..255 bytes (quick: 36 lengths incl. every product length)",
     "Tests check a few fixed vectors.",
     ["src/horus_l2.c"], [("table-less CRC", "src/horus_l2.c horus_l2_gen_crc16")],
     note="Every message content for each length; thorough covers all 256 lengths the length parameter can express.")
prop("C06", "Binary receiver reports a packet iff its checksum passes, with exact contents",
     "When a unique word is being tracked, a receive call reports a packet exactly when one of the protocol's packet sizes is complete in the buffer and passes its checksum; the text is the upper-case hex of exactly that payload within the announced buffer, the reported version matches the checksum that passed, and the packet is not reported again from the same unique word.",
     ["inputs", "histories"], "every bit content of the packet area, every payload the FEC layer can return, each packet size complete or one bit short",
     "Tests feed a few recordings; false acceptance, wrong size/version selection and off-by-one buffer conditions need specific bit patterns and alignments.",
     ["src/horus_api.c", "src/horus_l2.c"], [("candidate sizes, CRC position per version", "src/horus_api.c extract_horus_binary_v1, extract_horus_binary_v2_256"), ("buffer shift and unique word list", "src/horus_api.c horus_rx")],
     state=[("rx_bits", "window of received bits", "src/horus_api.h struct horus"), ("uw_loc", "tracked unique word positions", "src/horus_api.h struct horus")],
     note="One horus_rx call from an arbitrary valid state (inductive step). Modem replaced by arbitrary bits, FEC decode and CRC by arbitrary-value stand-ins (decided separately by C01-C05, C14). Bit buffer length set to one packet plus 3 bits, 20 bits per call.")
prop("C14", "Decoding arbitrary received bytes stays inside the packet buffers",
     "Decoding any received byte string of the announced packet size terminates, reads only that many bytes and writes exactly the payload size, for every packet size.",
     ["inputs", "configurations"], "every received byte string; sizes 16, 22, 32, 48, 64, 96, 128 and small sizes",
     "An over-read by one byte is invisible to functional tests and only occurs for some sizes.",
     ["src/horus_l2.c"], [("parity byte fetch", "src/horus_l2.c horus_l2_decode_rx_packet")],
     note="Exact-size heap blocks, bounds and pointer checks on; real horus_l2.c with golay23_decode over-approximated by any 23-bit result.")
prop("C09", "RTTY receiver reports a sentence iff it is well formed and its checksum matches",
     "When a unique word is being tracked in an RTTY mode, a receive call reports a sentence exactly when the maximum-length window has been received and its characters read '$..text*HHHH' with HHHH the hexadecimal CRC of the text; the reported string is exactly those characters, NUL terminated, inside the announced text buffer, and no received or stale content makes the extractor read or write outside the bit and text buffers.",
     ["inputs", "histories"], "every bit content of the 120-character window, every previous content of the caller's buffer, 7N1, 7N2 and 8N2, window complete / one bit short / one character short",
     "Tests decode a recording; position of '*' relative to the end of the window, non-hex checksum characters and stale buffer contents never occur there.",
     ["src/horus_api.c"], [("character assembly and checksum window", "src/horus_api.c extract_horus_rtty"), ("dispatch per mode", "src/horus_api.c horus_rx")],
     state=[("rx_bits", "window of received bits", "src/horus_api.h struct horus")],
     note="One horus_rx call from an arbitrary valid state with one tracked unique word. Modem and CRC replaced by arbitrary-value stand-ins (CRC decided by C05). 10 bits per call, buffer of one window plus 3 bits.")
prop("C08", "Every unique word in the stream is tracked, whatever the block alignment",
     "Each receive call moves the bit buffer by exactly the bits delivered, keeps the positions tracked before (moved along until they leave the buffer), and examines every alignment that became complete exactly once: it becomes tracked iff at most one of its bits differs from the mode's unique word, up to 32 positions, older ones first.",
     ["inputs", "histories"], "every bit content of the buffer, every list of tracked positions, all four unique words",
     "A packet is lost only when its unique word straddles a block boundary at one particular alignment or arrives while others are tracked.",
     ["src/horus_api.c"], [("buffer shift and list update", "src/horus_api.c horus_rx"), ("correlation search", "src/horus_api.c horus_find_uw")],
     state=[("uw_loc, uw_count", "tracked unique word positions", "src/horus_api.h struct horus")],
     note="Inductive step: one horus_rx call from an arbitrary state, in a mode without packet extraction. 10..16 bits per call (thorough 32), buffers up to 60 bits; modem replaced by arbitrary bits.")
prop("C11", "Opening a receiver sets it up completely and closing it frees everything",
     "For every mode, rate and tone spacing, opening returns a receiver whose unique word, buffers, announced input and text sizes fit the mode's longest packet and whose state is cleared; closing it releases every allocation of the receiver and the modem.",
     ["inputs", "configurations", "histories"], "four modes; every rate 1..4800 and spacing 1..5000 or default; modem geometries listed in the check",
     "Tests open one receiver per process and never look at what stays allocated; a long-running station opens many.",
     ["src/horus_api.c", "src/fsk.c"], [("open/close", "src/horus_api.c horus_open_advanced_sample_rate, horus_close"), ("modem create/destroy", "src/fsk.c fsk_create_core, fsk_destroy")],
     note="Real open and close with the modem stubbed (horus_api.c) and real modem create/destroy in small geometries (fsk.c); memory-leak check on. kiss_fft_alloc replaced.")
prop("C12", "The demodulator stays in bounds and delivers the bits of the transmitted symbols",
     "For every signal one demodulator call delivers exactly one block of bits of value 0 or 1, stays inside its buffers, keeps its tone estimates inside the band in ascending order, and asks for the nominal number of samples or half a symbol more or less according to its timing estimate; when each sample shows which tone it carries, the bits are those of the transmitted symbols in order, most significant bit first, and the soft decisions agree with them.",
     ["inputs", "histories", "configurations"], "every value of the complex arithmetic, spectrum and timing angle; small modem geometries (2/4FSK, nin N-1, N, N+1, N+2)",
     "Index errors depend on the timing estimate and tone positions a recording never produces; a swapped symbol mapping only shows end to end.",
     ["src/fsk.c"], [("integration and resampling", "src/fsk.c fsk_demod_core"), ("peak picking", "src/fsk.c fsk_demod_freq_est")],
     note="Real fsk.c; comp_prim.h, kiss_fft and libm replaced by stand-ins (arbitrary values, or an exact correlator). Geometries Ts=2,4 P=2,4 Nsym=20. Floating-point signal quality is outside.")
prop("C13", "The modulator sends the tone of each symbol for exactly one symbol period",
     "For every bit content, every sample of a block carries the tone f1 + k*spacing selected by its symbol's bits (most significant first), each symbol lasts exactly one symbol period, the oscillator advances once per sample and runs on across blocks, and nothing outside the announced buffers is touched.",
     ["inputs", "configurations"], "every bit content of two consecutive blocks; real, complex and VCO outputs; 2FSK and 4FSK geometries",
     "No test drives the modulators.",
     ["src/fsk.c"], [("symbol packing and oscillator", "src/fsk.c fsk_mod, fsk_mod_c, fsk_mod_ext_vco")],
     note="Real fsk.c; complex arithmetic replaced by a stand-in carrying the tone index and a step count.")
RP = "One path-exploring symbolic execution per job over the module's real source (AST-rewritten at load), z3 decides each branch and each assertion. "
prop("P01", "A Horus Binary frame is accepted iff its checksum matches, with these values",
     "decode_packet accepts a binary frame only when its length is one of the format sizes and its CRC-16 is right, otherwise it raises ValueError and nothing else; the fields of an accepted v1 or v2 frame are those of the wire layout, a time outside 00:00:00..23:59:59 and positions outside +-90/+-180 degrees or not numbers are refused, and the text representation states the same values.",
     ["inputs", "configurations"], "every byte string of the listed lengths; every custom field type in four layouts over every content of the custom section, and layouts that do not fit; known, unknown and 4FSKTEST payload ids",
     "Tests decode a handful of captured frames; sign, byte order and range handling differ only for particular bytes.",
     ["horusdemodlib/decoder.py", "horusdemodlib/delegates.py", "horusdemodlib/checksums.py"], [("frame decoder", "horusdemodlib/decoder.py decode_horus_binary_v1, decode_horus_binary_v2_16byte, decode_horus_binary_v2_32byte, decode_packet"), ("custom field decoders", "horusdemodlib/delegates.py decode_field, decode_custom_fields")],
     tech=PY_T, note=RP + "CRC is an uninterpreted function with its own decision in P15.")
prop("P03", "A v2 packet built from any telemetry carries it, clipped to the field ranges",
     "create_horus_v2_packet accepts any in-range payload id, sequence number and telemetry, puts each value in its field in the wire's units, clips values beyond the field's range to the nearest one, leaves the other fields alone, ends in the right CRC, refuses payload ids outside 0..65535, and what it builds decodes to the same values.",
     ["inputs"], "every value over the integer and floating-point ranges listed in the check, one group of fields at a time",
     "The test builds one packet; clipping and scaling errors show only at range ends.",
     ["horusdemodlib/encoder.py"], [("packet builder", "horusdemodlib/encoder.py create_horus_v2_packet")], tech=PY_T,
     note=RP + "Fields are symbolic in groups, the others keep their defaults.")
prop("P04", "Packet bytes are expanded to symbols and bits most significant first",
     "The packet to 4FSK symbol and bit conversions used for transmission send the preamble followed by every bit of the packet, in order, most significant first, and nothing else.",
     ["inputs"], "every packet content at the listed lengths and preamble lengths",
     "Only one packet is modulated in the tests, and nothing reads the symbols back.",
     ["horusdemodlib/encoder.py"], [("symbol and bit expansion", "horusdemodlib/encoder.py")], tech=PY_T, note=RP)
prop("P05", "An RTTY sentence is accepted iff complete with a right checksum, with its values",
     "parse_ukhas_string accepts a sentence only when its CRC text is the checksum of its body and its fields are numbers of the required kind, raises ValueError and nothing else otherwise, and an accepted sentence's callsign, sequence number, time, position and altitude are those written in it.",
     ["inputs"], "every text of the listed lengths; well-formed sentences of the listed shapes with every digit",
     "Received text is arbitrary; tests use four sentences.",
     ["horusdemodlib/decoder.py"], [("sentence parser", "horusdemodlib/decoder.py parse_ukhas_string")], tech=PY_T, note=RP + "CRC uninterpreted (decided by P15).")
prop("P06", "A time of day is completed to the nearest date, across midnight",
     "When payload and receiver clocks differ by less than the rollover window, the full timestamp built from a payload's time of day is the one nearest to the receiver's clock, on any day.",
     ["inputs"], "every receiver time on fixed days and near midnight on every day of 16 years; every payload time",
     "The failure happens only within an hour of midnight and at month ends.",
     ["horusdemodlib/delegates.py"], [("date completion", "horusdemodlib/delegates.py fix_datetime")], tech=PY_T, note=RP)
prop("P07", "SondeHub receives every decoded field unchanged, and no ineligible packet",
     "The SondeHub form of a packet has each field of the decoded telemetry under its SondeHub name with its value and unit, custom fields included, plus the receiver's metadata and modem statistics; packets of unknown payloads, for other networks, without a valid altitude or with a time more than 3 minutes off the receiver's clock are not uploaded, all others are, and reformatting raises nothing.",
     ["inputs", "configurations"], "every presence pattern and value of the fields; every clock and payload time over most of a day",
     "Presence patterns multiply; tests have none for this function.",
     ["horusdemodlib/utils.py"], [("reformatting", "horusdemodlib/utils.py telem_to_sondehub")], tech=PY_T, note=RP)
prop("P08", "Queued telemetry is uploaded once, in order, retried on failure, never raises",
     "Every packet accepted by add() is handed to exactly one upload, in order, however arrivals interleave with the queue thread's sleeps; an upload carries exactly its packets, repeats the request after a server error only and at most the configured number of times, logs an error when it gives up and raises nothing whatever the server or network does; station information is sent once per interval.",
     ["schedules", "fault_sequences", "histories"], "every sequence of HTTP answers and connection faults, every arrival pattern over the listed number of sleeps",
     "Needs server faults and arrival timings no test produces.",
     ["horusdemodlib/sondehubamateur.py"], [("upload and retry", "SondehubAmateurUploader.upload_telemetry"), ("queue thread", "SondehubAmateurUploader.process_queue"), ("station information", "SondehubAmateurUploader.station_position_upload")],
     state=[("input_queue", "packets waiting", "horusdemodlib/sondehubamateur.py")], tech=PY_T,
     note=RP + "Sleeps are scheduling points; real thread preemption is outside.")
prop("P09", "No received line or sink failure ends the receive loop or loses a packet",
     "Whatever line the demodulator prints, the uploader's main loop goes on to the next one; each packet it decodes is broadcast, queued for upload and logged exactly once, in order, with the modem statistics of that moment, whatever a sink raises; an unknown payload id refreshes the lists at most once per interval and the packet is decoded again; the loop ends in order on interrupt.",
     ["inputs", "histories", "fault_sequences"], "every line of the listed lengths; every sequence of line kinds, decoder outcomes and sink faults of the listed lengths",
     "A night-long reception sees lines no test does; one uncaught exception ends the station.",
     ["horusdemodlib/uploader.py"], [("main loop", "horusdemodlib/uploader.py main")], tech=PY_T,
     note=RP + "Sinks, files and argument parsing are stand-ins.")
prop("P10", "Modem statistics summarise exactly the updates inside the averaging window",
     "After every update the SNR (mean or peak) and ppm figures are those of the updates younger than the averaging time, the newest included; tones and spectrum are the latest; an incomplete or malformed document changes nothing.",
     ["inputs", "histories"], "every sequence of the listed number of updates with integer statistics, every spacing in time of 0..3 s",
     "Expiry depends on update times; tests use one fixed cadence.",
     ["horusdemodlib/demodstats.py"], [("window", "horusdemodlib/demodstats.py FSKDemodStats.update")], state=[("samples", "updates in the window", "horusdemodlib/demodstats.py")], tech=PY_T, note=RP + "Integer statistics, 2 and 4 tones; clock does not run backwards.")
prop("P12", "UDP summaries state the packet's values and never raise",
     "A payload summary or OziMux message states the position, altitude and callsign of the packet, is sent as at most one datagram, to the broadcast address or else this host, and no socket failure or missing field reaches the caller.",
     ["inputs", "fault_sequences"], "every combination of failing socket calls and missing fields; every position and altitude",
     "Socket failures do not happen in tests.",
     ["horusdemodlib/horusudp.py"], [("senders", "horusdemodlib/horusudp.py send_payload_summary, send_ozimux_message")], tech=PY_T, note=RP)
prop("P15", "Python packet checksums: added ones verify, wrong ones and bursts do not",
     "A packet with its checksum added passes the check, a packet passes only when the stored value is the CRC-16/CCITT of the rest, at the head or the tail as asked, every burst error up to 16 bits is detected, and ukhas_crc prints that CRC as four hex digits.",
     ["inputs"], "every packet content at the listed lengths; every burst pattern at the listed positions",
     "Tests check one packet.",
     ["horusdemodlib/checksums.py"], [("checksum helpers", "horusdemodlib/checksums.py")], tech=PY_T, note=RP + "binascii.crc_hqx is modelled as uninterpreted function; in the burst jobs as the exact CRC in bit-vector logic.")

prop("N01", "Packets are recovered from noisy audio at the modem's design sensitivity",
     "At or above the design Eb/No, with clock and carrier offsets inside the specified range, the receive chain recovers the transmitted packets.",
     ["inputs"], "every noise realisation of the stated statistics", "A recording is one noise realisation.",
     ["src/fsk.c", "src/horus_api.c"], [("demodulator", "src/fsk.c fsk_demod")], tech=None,
     na="A statistical claim about floating-point signal processing (FFTs of 1024 points, non-linear estimation): the formula is far beyond bit-precise solving and the claim is a probability, not an assertion over all values.")
prop("N02", "The receiver keeps up with real time and its threads never deadlock",
     "Processing a block takes less time than the block lasts and no interleaving of the main and upload threads blocks forever.",
     ["schedules"], "every preemption of the threads", "Needs timing.",
     ["horusdemodlib/sondehubamateur.py"], [("queue thread", "SondehubAmateurUploader.process_queue")], tech=None,
     na="CPython byte-code preemption inside queue.Queue and requests is outside the encoded source; the hand-over protocol itself is decided by P08 with arrivals at every sleep.")
prop("P02", "A v3 packet's fields reach the telemetry under their names, in their units",
     "Every field present in a Horus Binary v3 packet appears in the decoded telemetry under its documented name with its value in the documented unit, absent ones do not; the custom fields listed are exactly those present; extra sensors carry the name last given for that callsign and position; nothing of one packet shows up in the next.",
     ["inputs", "histories"], "every presence pattern and value within the ASN.1 constraints, one group of fields at a time; sequences of up to 3 packets with up to 4 extra sensors",
     "Tests decode one packet with everything in it; a field mixed up when others are absent, or leaking between packets, does not show.",
     ["horusdemodlib/decoder.py"], [("v3 mapping", "horusdemodlib/decoder.py decode_packet")], state=[("HORUS_V3_NAME_CACHE", "sensor names by callsign and position", "horusdemodlib/decoder.py")],
     tech=PY_T, note=RP + "The ASN.1 decoder (asn1tools, a dependency) is a stand-in delivering arbitrary values within the constraints.")
prop("P11", "HorusLib hands the modem the same blocks however the audio is chunked",
     "However the audio stream is cut into add_samples calls, the modem receives consecutive blocks of exactly the size it asked for, each sample once and in order, and every decoded frame reaches the callback once, with the bytes or text the modem printed, its checksum verdict and the modem statistics taken after its block.",
     ["inputs", "histories"], "every cut of a short stream into 2 or 3 calls, block sizes chosen anew for every block, every audio byte; every modem text of up to 4 characters",
     "Tests feed one chunk size; off-by-one handling at block borders shows only for particular cuts.",
     ["horusdemodlib/demod.py"], [("input buffer", "horusdemodlib/demod.py HorusLib.add_samples"), ("one block", "horusdemodlib/demod.py HorusLib.demodulate")], state=[("input_buffer", "audio waiting for a full block", "horusdemodlib/demod.py")],
     tech=PY_T, note=RP + "C library, cffi and audioop are recording stand-ins; small block sizes.")
prop("P13", "Payload id lists: good lines are taken, bad ones ignored, built-ins kept",
     "Parsing a payload id list yields the built-in payloads plus every well-formed line (the last one for an id wins), ignores comments and malformed lines, and raises nothing on any text; refreshing uses and saves a valid download only, else the local list, else the built-in one.",
     ["inputs", "fault_sequences"], "every sequence of up to 3 lines of 8 kinds with every id and callsign of the listed widths; every short text; every outcome of download and file access",
     "Lists are edited by hand and downloaded in the field; tests use the shipped one.",
     ["horusdemodlib/payloads.py"], [("parser", "horusdemodlib/payloads.py parse_payload_list"), ("refresh", "horusdemodlib/payloads.py init_payload_id_list, download_latest_payload_id_list, read_payload_list")], tech=PY_T, note=RP)
prop("P14", "Custom field lists: each entry is judged alone, taken iff its struct is 9 bytes",
     "An entry of a custom field list is taken, for its payload and the other payloads it names, exactly when it is an object with fields and a struct of 9 bytes; any other entry changes nothing and does not affect the rest; text that is no JSON object leaves the built-in entries; refreshing uses and saves a valid download only.",
     ["inputs", "fault_sequences"], "every sequence of up to 3 entries of the listed kinds; struct sizes from two symbolic repeat counts; every outcome of download and file access",
     "Tests parse the shipped list; malformed entries and failing downloads do not occur there.",
     ["horusdemodlib/payloads.py"], [("parser", "horusdemodlib/payloads.py parse_custom_field_list"), ("refresh", "horusdemodlib/payloads.py init_custom_field_list, download_latest_custom_field_list, read_custom_field_list")], tech=PY_T, note=RP)
