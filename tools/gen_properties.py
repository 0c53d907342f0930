#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so that ids, titles and statements are edited in one readable place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

R, H = "net/rtsp/", "net/h264/"

prop("C01", "Bytes from the network never crash, hang or exhaust the client",
 "For every byte string, parsing it as an RTP packet, an RTCP packet, an H.264 RTP payload, a parameter set, an Annex B stream, an SDP body, a Transport header, an authentication challenge or an RTSP response ends with a result or an error. No input makes one of these parsers panic, run forever, or allocate memory out of proportion to the input's size.",
 ["inputs", "histories"], "all byte strings handed to each parser, including sequences of payloads pushed into one NAL sink and of sets parsed into one store",
 "The tests feed a handful of well-formed captures; net/rtp and net/rtcp have no tests, and no test feeds truncated or hostile bytes.",
 ["net/rtp/packet.go", "net/rtcp/packet.go", H+"packet.go", H+"annexb.go", H+"bits.go", H+"spspps.go", "net/sdp/packet.go", R+"transport.go", R+"digest.go", R+"message.go", R+"connection.go"],
 [("length checks in Unpack", "net/rtp/packet.go, net/rtcp/packet.go"), ("aggregate size checks", H+"packet.go parseSTAP/parseMTAP"), ("BitReader.Available checks", H+"bits.go"), ("slice group bounds", H+"spspps.go ParsePPS"), ("field count checks", "net/sdp/packet.go Parse")],
 observe=["return of each exported parser"])

prop("C02", "RTP packets are unpacked exactly, malformed ones rejected",
 "For every well-formed RTP version 2 packet, unpacking reports the padding, extension and marker flags, payload type, sequence number, timestamp, SSRC, every CSRC, and the extension identifier and data exactly as encoded, and a payload that is exactly the bytes between the headers and the padding. A packet of another version, one shorter than its own header, CSRC list or extension declares, or one whose padding count is zero or exceeds what follows the headers, is rejected with an error.",
 ["inputs"], "all combinations of flags, 0-15 CSRCs, extension lengths, payload lengths, padding counts and truncation points",
 "net/rtp has no tests at all.",
 ["net/rtp/packet.go"], [("Unpack", "net/rtp/packet.go Unpack"), ("flag accessors", "net/rtp/packet.go P/X/CC/M/PT")], observe=["rtp.Unpack", "rtp.Packet accessors"])

prop("C03", "Packing and unpacking an RTP packet are inverse",
 "For every RTP packet value whose flags agree with its fields and which has no padding, packing and then unpacking yields a packet equal in every field, and for every well-formed unpadded wire packet, unpacking and then packing yields the same bytes. A padded packet unpacked, packed and unpacked again keeps every field and its payload.",
 ["inputs"], "all packet values: 0-15 CSRCs, extensions of 0 to thousands of words, any payload",
 "Pack is not exercised by any test.",
 ["net/rtp/packet.go"], [("Pack", "net/rtp/packet.go Pack"), ("Unpack", "net/rtp/packet.go Unpack")], observe=["rtp.Packet.Pack", "rtp.Unpack"])

prop("C04", "RTCP packets are unpacked exactly, malformed ones rejected",
 "For every RTCP version 2 packet, unpacking reports its padding flag, count, packet type and length as encoded, and for a sender report the sender's SSRC, 64-bit NTP timestamp, RTP timestamp, packet count and octet count. A packet of another version, shorter than the 4-byte header, or a sender report shorter than its fixed part plus the report blocks it counts, is rejected with an error.",
 ["inputs"], "all packet types, counts 0-31, field values and truncation points",
 "net/rtcp has no tests at all.",
 ["net/rtcp/packet.go"], [("Unpack", "net/rtcp/packet.go Unpack"), ("P, C", "net/rtcp/packet.go")], observe=["rtcp.Unpack"])

prop("C05", "An RTP payload delivers exactly its NAL units, in order and intact",
 "After the NAL sink accepts a payload that is a single NAL unit, a STAP-A, STAP-B, MTAP16 or MTAP24 aggregate, or an Annex B sequence, its unit list holds exactly the NAL units that payload carries, in order, each with its header byte and its content free of emulation prevention bytes, and nothing from earlier payloads. An aggregate whose last unit is cut short or has size zero is rejected with an error.",
 ["inputs", "histories"], "all sequences of payloads, unit counts, sizes and contents, including contents with emulation prevention bytes and runs of zeros next to size fields",
 "No test pushes an RTP payload into the sink.",
 [H+"packet.go", H+"annexb.go"], [("Push", H+"packet.go Push/parseNAL"), ("parseSTAP, parseMTAP", H+"packet.go"), ("EBSPToRaw", H+"annexb.go")],
 state=[("Units", "NAL units of the current payload", H+"packet.go NALSink")], observe=["NALSink.Push", "NALSink.Units"])

prop("C06", "Fragmented NAL units are reassembled exactly or not at all",
 "For every sequence of fragmentation units, each complete series (start to end, nothing lost) yields, with its last fragment, exactly one NAL unit whose header has the indicator's importance bits and the fragmented type, and whose content is the concatenation of the fragments with emulation prevention bytes removed even where a fragment boundary splits them. A series whose beginning or whose end was lost yields no unit and never contributes bytes to the unit of another series that differs from it in timestamp, importance or type, or that is itself complete.",
 ["histories", "fault_sequences"], "all splits of NAL units into FU-A/FU-B fragments, interleaved with other payload kinds, with loss of any leading or trailing run of fragments of any series",
 "No test uses fragmentation units.",
 [H+"packet.go"], [("AddFragment", H+"packet.go AddFragment"), ("FU-A/FU-B parsing", H+"packet.go parseNAL")],
 state=[("Fragments", "fragments of the series in progress", H+"packet.go NALSink")], observe=["NALSink.Push", "NALSink.Units"])

prop("C07", "Decoding order numbers and timestamps follow RFC 6184",
 "In interleaved payloads each unit of a STAP-B has the packet's DON plus its index, each unit of an MTAP has the DON base plus its own DON difference and the RTP timestamp plus its own 16- or 24-bit offset, and a unit begun by an FU-B has the DON that FU-B carries, all modulo 2^16 (DON) or 2^32 (timestamp); every other unit has the timestamp of its packet. In non-interleaved payloads (single units, STAP-A, FU-A) consecutive completed units have consecutive DONs modulo 2^16, and the DON difference function returns the signed wrap-around difference RFC 6184 defines for every pair.",
 ["inputs", "histories"], "all DONs, DON differences, timestamps and offsets including wrap-around, over histories of payloads",
 "No test checks a DON, a timestamp or DonDiff.",
 [H+"packet.go"], [("parseSTAP, parseMTAP, AddFragment", H+"packet.go"), ("DonDiff", H+"packet.go")],
 state=[("Don", "current decoding order number", H+"packet.go NALSink")], observe=["NALSink.Units[].Don", "NALSink.Units[].TS", "h264.DonDiff"])

prop("C08", "Emulation prevention encoding is reversible and start-code free",
 "For every byte string, encapsulating it and converting it back yields the same bytes, and the encapsulated form contains no 00 00 00, 00 00 01 or 00 00 02 and no 00 00 03 other than the escapes it inserted, nor ends in 00 00, with nothing inserted where the input needs no escape. Converting to raw removes exactly the 03 of each 00 00 03 and nothing else.",
 ["inputs"], "all byte strings, exhaustively for short strings over the critical byte values",
 "One captured vector each way; the critical positions (end of buffer, runs of zeros, adjacent escapes) are not among them.",
 [H+"annexb.go"], [("EBSPToRaw", H+"annexb.go"), ("RBSPToEncapsulated", H+"annexb.go")], observe=["h264.EBSPToRaw", "h264.RBSPToEncapsulated"])

prop("C09", "Annex B streams split into exactly their NAL units",
 "For every list of NAL units in encapsulated form joined with 3-byte or 4-byte start codes, with or without further zero bytes before a start code, splitting returns the raw form of exactly those units in order. No start code or separating zero byte ends up in a unit, no unit is dropped, and no empty unit is invented between start codes.",
 ["inputs"], "all lists of units, unit lengths down to one byte, and mixes of start code lengths and zero padding, with or without a leading start code",
 "One test vector with three units, all with 4-byte start codes.",
 [H+"annexb.go"], [("SplitAnnexB", H+"annexb.go")], observe=["h264.SplitAnnexB"])

prop("C10", "The bit reader reads exactly the bits of the buffer, in order",
 "For every buffer and every sequence of reads and skips of 0 to 32 bits, each value equals the corresponding bits of the buffer taken most significant bit first, and the number of available bits falls by exactly the number consumed. A read or skip of more bits than are left, or of more than 32, fails and consumes nothing, trailing-bits checking accepts exactly a stop bit followed by zeros to the byte boundary, and an SEI payload parameter is the sum of its bytes up to and including the first that is not 255.",
 ["inputs", "histories"], "all buffers, alignments, widths and operation sequences",
 "One 16-bit buffer with one sequence of narrow reads.",
 [H+"bits.go"], [("ReadBits, SkipBits, ReadByteBits, ReadFlag", H+"bits.go"), ("SkipTrailingBits, ReadPayloadParam", H+"bits.go")],
 state=[("byten, bitn", "position in the stream", H+"bits.go BitReader")], observe=["BitReader methods"])

prop("C11", "Exponential-Golomb codes decode to the encoded values",
 "For every sequence of unsigned values up to 2^32-2 and signed values of magnitude up to 2^31-1, at any bit alignment, decoding their Exp-Golomb codes returns the same values and leaves the reader exactly after each code; skipping a code leaves it at the same place as reading it. A code cut short by the end of the buffer, or one whose value does not fit in 32 bits, is an error rather than a wrong value.",
 ["inputs", "histories"], "all values, alignments, mixes of signed, unsigned and skipped codes, and truncation points",
 "Five one-byte codes for signed values only.",
 [H+"bits.go"], [("ReadUnsignedGolomb, ReadSignedGolomb, SkipGolomb", H+"bits.go")], observe=["BitReader.ReadUnsignedGolomb", "BitReader.ReadSignedGolomb", "BitReader.SkipGolomb"])

prop("C12", "Sequence parameter sets yield the encoded fields and picture size",
 "For every legal H.264 sequence parameter set, parsing it makes available, under its id, the syntax elements exactly as encoded (profile, level, chroma format, bit depths, scaling lists, frame number and picture order count parameters, reference frames, frame/field coding, cropping) and the cropped picture width and height the H.264 standard defines for them. This holds alike for a raw set and for one taken from an SDP sprop-parameter-sets value, where it is in encapsulated form behind a NAL header.",
 ["inputs"], "all profiles, chroma formats, picture order count types, frame/field modes, scaling list shapes and cropping windows",
 "One 1280x720 progressive 4:2:0 capture without cropping and with picture order count type 0.",
 [H+"spspps.go", H+"bits.go"], [("ParseSPS", H+"spspps.go"), ("ReadScalingList", H+"bits.go"), ("ParseSprop", H+"spspps.go")], observe=["ParameterSets.ParseSPS/ParseSprop", "ParameterSets.GetSPS"])

prop("C13", "Picture parameter sets yield the encoded fields",
 "For every legal H.264 picture parameter set, with or without the optional transform and scaling extension and with every slice group map type, parsing it makes available, under its id, the syntax elements exactly as encoded. The number of scaling lists follows the chroma format of the sequence parameter set it refers to, and a set without the extension is accepted and reports the extension's flags as off.",
 ["inputs", "histories"], "all slice group map types and counts, entropy modes, quantiser offsets, extension present or absent, chroma formats of the referenced sequence set",
 "One capture that happens to carry the extension; only its id is checked.",
 [H+"spspps.go", H+"bits.go"], [("ParsePPS", H+"spspps.go"), ("ReadScalingList", H+"bits.go")], observe=["ParameterSets.ParsePPS/ParseSprop", "ParameterSets.GetPPS"])

prop("C14", "The parameter set store keeps the latest valid set under each id",
 "After any history of sequence and picture parameter sets being parsed into one store, looking up an id returns the set most recently accepted with that id and kind, and ids never accepted are absent. A set rejected because it is truncated or holds an Exp-Golomb code that does not fit into 32 bits, and any NAL of another type, changes nothing, and sets of different ids or kinds never disturb each other. A set that was looked up stays as it was when further sets are parsed.",
 ["histories", "fault_sequences"], "all interleavings of valid, truncated and unrelated inputs over several ids of both kinds",
 "Each test parses one set into a fresh store.",
 [H+"spspps.go"], [("assignment after complete parse", H+"spspps.go ParseSPS/ParsePPS"), ("ParseSprop dispatch", H+"spspps.go")],
 state=[("spset, ppset", "sets by id", H+"spspps.go ParameterSets")], observe=["ParameterSets.GetSPS", "ParameterSets.GetPPS"])

prop("C15", "SDP parsing lists each video stream with its own attributes only",
 "For every session description, parsing lists exactly the video media in order, each with the payload type, codec type, clock rate, control URI, and fmtp parameters (decoded parameter sets, config, size and index lengths) that its own media section declares, in whatever order the attributes come and with either line ending. Session-level attributes, attributes of audio or other media, and unrelated attributes never influence a stream's values.",
 ["inputs"], "all descriptions made of session lines and any sequence of media sections with attributes in any order, including unrelated attributes whose values resemble known ones",
 "The only test logs the result of one description and asserts nothing.",
 ["net/sdp/packet.go"], [("Parse", "net/sdp/packet.go")], observe=["sdp.Parse"])

prop("C16", "The HLS playlist is the window of the latest contiguous segments",
 "After any number of segments have been added to a playlist of any capacity of at least one, its rendering lists exactly the most recent segments up to that capacity, oldest first, each with its exact duration (in decimal notation) and length and a byte position equal to the sum of the lengths of all segments ever added before it. The rendering starts with the M3U and version tags, has one byte range and URI per segment, and closes with the end tag.",
 ["histories"], "all capacities, numbers of added segments (many times the capacity), durations and lengths",
 "One history: six segments into a ring of five, which wraps only once.",
 ["net/hls/playlist.go"], [("AddSegment", "net/hls/playlist.go"), ("String", "net/hls/playlist.go")],
 state=[("First, Last", "ring window", "net/hls/playlist.go Playlist"), ("Segments", "ring", "net/hls/playlist.go Playlist")], observe=["Playlist.String"])

prop("C17", "Playlist entries address the media file under the base URI",
 "For every base URI and media file name, the URI in each playlist entry keeps the base URI's scheme, host, port and query, and its path is the base path, cleaned and without a trailing slash, followed by the file's base name; decoding it gives the name back for names with spaces, percent, hash, question mark or non-ASCII characters. A base URI that cannot be parsed is refused with an error.",
 ["inputs"], "all base URIs with and without path, trailing slashes, port and query, and all file names without slashes, in any directory",
 "One plain base URI and one plain file name.",
 ["net/hls/playlist.go"], [("NewPlaylist", "net/hls/playlist.go")], observe=["Playlist.URI", "Playlist.String"])

prop("C18", "Authorization headers satisfy a Basic or Digest verifier, every time",
 "For every user name (without quotation marks and backslashes, for Basic also without colons), password, URI and challenge (Basic, Digest with MD5 and qop absent, auth or auth-int, or MD5-sess with a qop), the value produced for each request of a sequence is accepted by an independent RFC 2617 verifier that knows the password, for the method and body of that request, with realm, nonce and opaque echoed as challenged. With a qop, the nonce count starts at 00000001 and grows by one with each request; the value made with a different password, method or nonce is not accepted.",
 ["inputs", "histories"], "all credentials, realms, nonces, opaque values, qop lists, algorithms and request sequences",
 "One Digest vector and one Basic vector, one request each.",
 [R+"digest.go"], [("Authenticate, response, Next", R+"digest.go")],
 state=[("count, nc, cnonce, ha1", "per-challenge request state", R+"digest.go Digest")], observe=["NewDigest", "Digest.Authenticate"])

prop("C19", "Authentication challenges are understood as RFC 2617 writes them",
 "For every challenge, directives are recognised in any order and letter case, with any optional white space, quoted or as tokens, with commas and equal signs inside quoted values belonging to the value, and directives not known are ignored. A challenge for another scheme, or a Digest challenge with an algorithm other than MD5 and MD5-sess, is refused with an error.",
 ["inputs"], "all orders, quotings, spacings and directive values, including values with commas and equals signs and unknown directives",
 "Two challenges in one fixed spelling.",
 [R+"digest.go"], [("NewDigest", R+"digest.go")], observe=["NewDigest", "value made by Digest.Authenticate"])

prop("C20", "Transport headers survive formatting and parsing",
 "For every transport description, formatting it and parsing the text back gives the same description for every parameter the text carries, and every Transport header a server may send (parameters in any order and letter case, single values or ranges, with or without white space around the semicolons) is parsed to the values it states, leaving parameters it does not mention as they were. The transport offered for a media stream asks for the requested lower protocol with a pair of consecutive channels or ports, the first even, distinct for each stream, and a parameter with a missing or non-numeric value is an error.",
 ["inputs", "histories"], "all combinations of parameters, orders, letter cases, values and starting states, all protocols and stream indices",
 "No test touches Transport.",
 [R+"transport.go", R+"feed.go"], [("NewTransport, String, Parse, ParsePair", R+"transport.go"), ("ParseFeeds", R+"feed.go")], observe=["Transport.String", "Transport.Parse", "Feed.TransportHeader"])

prop("C21", "RTSP requests are serialised as one well-formed message",
 "For every request, its serialised form is exactly one RTSP/1.0 message: the request line with method and URI, each given header exactly once with its value, the CSeq, a user agent, Authorization exactly when credentials are set, Session exactly when a session is set and the method is neither OPTIONS nor SETUP, a zero content length, CRLF line endings and one final empty line. Parsing it with an independent message parser returns the same values.",
 ["inputs"], "all methods, URIs, sequence numbers, header sets, session ids and authorization values",
 "No test serialises a request.",
 [R+"message.go"], [("Request.Pack", R+"message.go"), ("MessageHeader.Set", R+"message.go")], observe=["Request.Pack", "bytes received by an RTSP server"])

prop("C22", "RTSP responses are parsed exactly, whatever their size or segmentation",
 "For every stream of well-formed RTSP responses, each is parsed with its status, CSeq, headers (names in any letter case, values trimmed) and a body of exactly Content-Length bytes of any size, regardless of how the stream is cut into TCP segments, and parsing stops exactly at the start of the next message. A parsed response stays valid while later ones are read, formatting a parsed response and parsing it again gives the same response, and a malformed status line or header line is an error.",
 ["inputs", "schedules"], "all statuses, header sets, body sizes from none to far beyond any read buffer, sequences of responses and segmentations",
 "No test parses a response.",
 [R+"message.go", R+"connection.go"], [("Unpack, Response.Pack", R+"message.go"), ("ReadLine, ReadBytes", R+"connection.go")], observe=["rtsp.Unpack over rtsp.Dial"])

prop("C23", "Interleaved packets come out exactly as the server framed them",
 "For every stream that interleaves RTSP responses with framed binary packets of 0 to 65535 bytes, the session delivers exactly those packets, in order, each with its channel number and its own copy of its bytes, while the responses are handled as usual, however the stream is cut into TCP segments and whatever the binary data looks like. A stall in the middle of a packet or between messages loses nothing, and after one in the middle of a response what is delivered is still a prefix of what was framed, never shifted or altered.",
 ["inputs", "schedules", "fault_sequences"], "all interleavings of responses and packets, channel numbers, packet sizes, contents resembling RTSP text or frame markers, segmentations and stalls",
 "No test opens a connection.",
 [R+"session.go", R+"connection.go"], [("receive", R+"session.go"), ("ReadBytes, Peek, ReadUint16", R+"connection.go")], observe=["Session.Data"])

prop("C24", "Opening a session performs the RTSP handshake for every stream",
 "For every camera description, opening a session sends OPTIONS, then DESCRIBE, then one SETUP per video stream in order, addressed to that stream's control URI (absolute, or appended to the base URI after one slash) with that stream's transport, every request with a distinct increasing CSeq, and then reports readiness exactly once, not before every SETUP was answered, even if some streams are refused. Once the server has assigned a session id, every PLAY, PAUSE and TEARDOWN carries it without its parameters.",
 ["inputs", "schedules", "configurations"], "all descriptions with one or more video streams and other media, control URI forms, orders in which pipelined SETUPs are answered, refusals, session id forms, segmentations",
 "No test opens a session.",
 [R+"session.go", R+"feed.go", R+"message.go"], [("handleRtsp, handleSetup, Setup", R+"session.go")],
 state=[("queue, cseq, feedidx, session, stage", "handshake state", R+"session.go Session")], observe=["requests at the server", "Session.State"])

prop("C25", "A challenged request is repeated once with valid credentials",
 "Whenever the server answers a request of a session with a Basic or Digest challenge, the client repeats that same request (method, URI, headers and CSeq) with an Authorization that the server's verifier accepts, at any point of the session and also when several requests are outstanding, and the session then continues as if it had not been challenged; later requests carry authorization up front. A server that rejects the credentials again and again is not sent the same request without bound, and a URI without credentials ends in no retry at all.",
 ["histories", "schedules", "fault_sequences"], "all sets of challenged requests, schemes, nonce changes, orders of pipelined answers, and persistent rejection",
 "The tests call the digest code directly, never in a session.",
 [R+"session.go", R+"digest.go"], [("401 handling, enqueue/dequeue, authorize", R+"session.go")],
 state=[("queue", "requests awaiting answers, by CSeq", R+"session.go Session"), ("auth", "current credentials", R+"session.go Session")], observe=["requests at the server", "Session.State"])

prop("C26", "Stage changes are reported exactly for the answers that confirm them",
 "For every history of PLAY, PAUSE and TEARDOWN commands and server answers, the session reports the play, pause or done stage exactly once for each 200 answer, in the order of the answers, for the command whose CSeq the answer carries, also when answers come out of order. An answer with another status reports nothing, and an answer with a CSeq that is not outstanding never reports a stage.",
 ["histories", "schedules"], "all command sequences, answer orders, statuses, and answers with unknown or already used CSeq",
 "No test opens a session.",
 [R+"session.go"], [("handleRtsp, notify, dequeue", R+"session.go")], state=[("stage, queue", "current stage and outstanding requests", R+"session.go Session")], observe=["Session.State"])

prop("C27", "Commands issued concurrently stay whole and uniquely numbered",
 "When several goroutines issue commands on one session at the same time, while answers are being handled, every command reaches the server exactly once as a contiguous message, and no two commands share a CSeq: the sequence numbers are exactly the consecutive numbers following the handshake's. Each answer is matched to its own command, and Digest nonce counts are never used twice for a nonce.",
 ["schedules"], "all interleavings of concurrently issued commands and incoming answers, with and without authorization",
 "No test uses two goroutines.",
 [R+"session.go"], [("command, enqueue, dequeue, Mutex", R+"session.go")], state=[("cseq, queue, auth", "shared between the caller and the receiving goroutine", R+"session.go Session")], observe=["requests at the server", "Session.State"])

prop("C28", "Over UDP, datagrams reach the client on the channel of their port",
 "For every UDP unicast session, every datagram sent to a client port that was negotiated in SETUP is delivered once, unaltered and in order for that port, on the channel of that port: even for the data port and the next odd number for its control port, with different channels for different streams, numbered from 0 in stream order. Commands issued in between change nothing in that. Stopping the connection closes the listeners so that the ports can be used again, and stopping it once more does nothing.",
 ["inputs", "configurations", "histories"], "all numbers of streams, negotiated port pairs, datagram contents and interleavings across ports",
 "No test opens a UDP session.",
 [R+"connection.go", R+"session.go"], [("AddSink, Start, Stop", R+"connection.go"), ("handleSetup", R+"session.go")], state=[("sinks", "UDP listeners with channel numbers", R+"connection.go Conn")], observe=["Session.Data", "Conn.Stop"])

prop("C29", "RTSP over HTTP tunnels every request through one GET/POST pair",
 "In HTTP mode the client opens a GET and a POST connection that carry the same session cookie and the tunnelling headers, and every RTSP request arrives whole and in order as base64 text on the POST connection, none on the GET connection. Responses and interleaved packets are taken from the GET connection, so that a session performs the same handshake as over TCP, and a refused or malformed HTTP answer is an error.",
 ["inputs", "schedules"], "all camera descriptions, request sequences and segmentations in HTTP mode",
 "No test uses HTTP mode.",
 [R+"http.go", R+"connection.go"], [("ConnectHTTP, ReceiveHTTP", R+"http.go"), ("Dial, Write", R+"connection.go")], observe=["bytes on the GET and POST connections", "Session.State"])

prop("C30", "Stream credentials never leak onto the wire",
 "For every session, in TCP, UDP and HTTP mode, the bytes the client sends never contain the user's password or user information in a request line, URI or header, before or after a challenge; no Authorization is sent before the server asks for it. The password appears only as the Basic credentials sent in answer to a Basic challenge, and in answer to Digest challenges it never appears in any form but the digest.",
 ["inputs", "histories", "configurations"], "all user names and passwords, protocols, challenge kinds and session histories",
 "No test looks at the bytes of a session.",
 [R+"connection.go", R+"session.go", R+"digest.go", R+"http.go"], [("BaseURI without user info", R+"connection.go Dial"), ("command", R+"session.go")], observe=["every byte received by the server"])

prop("C31", "Keep-alives are sent only where needed, with the session id, and paced",
 "A ready UDP session sends keep-alive OPTIONS requests that carry the session id, repeatedly while the session lasts, and never faster than one per two seconds, whether traffic flows or not. TCP and HTTP sessions, sessions still being set up, and sessions torn down never send one.",
 ["histories", "configurations"], "all protocols, session ids, stages and traffic patterns over several keep-alive periods",
 "No test opens a session.",
 [R+"session.go"], [("KeepAlive, process", R+"session.go")], state=[("last", "time of the last keep-alive", R+"session.go Session")], observe=["requests at the server"])

prop("C32", "The command line client plays, pauses, tears down and reports packets",
 "Run against any camera that streams H.264 over RTSP and TCP, with one stream or several at once, the command line program performs the whole session (OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN, in this order, playing for about five seconds and pausing for as long) and exits successfully. While playing it logs one line for every RTP packet, with or without payload, with its channel, payload type, marker and sequence number, one per NAL unit completed with its type and the size of its content, and one per RTCP packet with its type, in order of arrival. Called with no or several arguments, or for a URI that cannot be opened, it ends with a failure status.",
 ["inputs", "configurations"], "all camera descriptions, credentials and packet sequences of well-formed RTP and RTCP",
 "The program has no test.",
 ["cmd/ouro/main.go", R+"session.go", "net/rtp/packet.go", "net/rtcp/packet.go", H+"packet.go"], [("handleStates", "cmd/ouro/main.go")], observe=["standard output and exit status of cmd/ouro", "requests at the server"])

prop("C33", "Sessions and objects used side by side do not influence each other",
 "For every set of sessions (TCP or HTTP, to different cameras), parsers, NAL sinks, parameter set stores, playlists and credentials that one program uses interleaved or from several goroutines at once, each object being used by one goroutine, each behaves exactly as it would alone: every session performs its own handshake with its own credentials, sequence numbers, session id and stages and delivers its own packets, and every result already obtained (packet, unit, parsed document, printed text) stays what it was, without data races between them.",
 ["schedules", "histories"], "all combinations of objects and sessions of one program, and all interleavings of what they do",
 "The tests use one object at a time, in one goroutine, and compare its result at once.",
 [R+"session.go", R+"connection.go", R+"message.go", R+"digest.go", H+"packet.go", H+"bits.go", H+"annexb.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/sdp/packet.go", "net/hls/playlist.go"],
 [("package-level state and buffers kept between calls, in all packages", R+"session.go")],
 state=[("queue, cseq, session, stage, auth", "must belong to one session", R+"session.go Session")], observe=["results of concurrent calls", "Session.State and Session.Data of concurrent sessions", "requests at the servers", "race detector"])

prop("C34", "Opening reaches the camera the URI names, or fails cleanly",
 "For every stream URI (IPv4 address, IPv6 address or host name, with or without port, user information, path and query), opening a session in TCP or HTTP mode connects to that host at that port, 554 if the URI names none, and addresses its requests to that URI without the user information. An Open that cannot succeed (malformed URI, nobody listening, tunnel refused or answered with nonsense) returns an error without crashing or hanging and leaves no connection open; commands on a session that has no connection return an error; and such a session can be opened again.",
 ["inputs", "histories"], "all URI forms and failures of connecting, and all orders of commands around them",
 "No test opens a session; the tests parse URIs of two forms.",
 [R+"connection.go", R+"http.go", R+"session.go"], [("Dial", R+"connection.go"), ("ConnectHTTP, ReceiveHTTP", R+"http.go"), ("command", R+"session.go")], observe=["connections accepted by the camera and their request lines", "error of Open and of each command"])

prop("C35", "A connection delivers the byte stream under any mix of reads",
 "For every mix of Peek, ReadByte, ReadUint16, ReadBytes, ReadLine, Discard and Write on a connection, in TCP and HTTP mode, the reads return exactly the bytes sent, in order, however the peer cuts and delays them, and what is written arrives exactly (Base64 encoded in HTTP mode). A read whose data does not come within the time-out set fails with a time-out and consumes nothing but what it returns or counts, so that nothing is lost. With no time-out set it waits, and after the end of the stream it fails.",
 ["inputs", "histories", "schedules"], "all sequences of reads and writes, all segmentations and delays relative to the time-out, all changes of the time-out",
 "The tests read from a connection that has everything at once.",
 [R+"connection.go", R+"http.go"], [("Peek, Discard, ReadByte, ReadBytes, ReadUint16, ReadLine, Write", R+"connection.go")], state=[("Timeout", "limit of each operation", R+"connection.go Conn")], observe=["results of the reads", "bytes at the peer"])

prop("C36", "What is held does not grow with the length of the history",
 "For every history repeated without end (payloads pushed into one NAL sink, parameter sets parsed into one store, segments added to one playlist, authorizations for one challenge, commands, challenges, answers and packets of one session whose answers and packets are looked at), the memory held and the number of goroutines stay bounded: they depend on what the history consists of, not on how often it has happened.",
 ["histories"], "all histories repeated thousands of times",
 "The tests end after a few calls.",
 [H+"packet.go", H+"spspps.go", "net/hls/playlist.go", R+"digest.go", R+"session.go", R+"connection.go"],
 [("drop of incomplete fragments", H+"packet.go"), ("dequeue", R+"session.go"), ("AddSegment", "net/hls/playlist.go")], state=[("queue", "requests without answer", R+"session.go Session")], observe=["heap and goroutines after n and after 2n repetitions"])

prop("C37", "Each stream has its own description, transport and parameter sets",
 "For every session description and every order of SETUP answers, there is one feed per video stream that carries that stream's description and offers a transport of its own. A well-formed answer marks just that feed as set up, gives it the channels or ports the answer states, and makes available exactly the parameter sets of that stream, under their ids, even where other streams use the same ids. A malformed answer, or a damaged parameter set in the description, is an error and leaves the feed not set up and every other feed as it was.",
 ["inputs", "histories"], "all descriptions of several streams with sets of their own, all answers and orders of answers",
 "No test makes feeds.",
 [R+"feed.go", R+"transport.go", "net/sdp/packet.go", H+"spspps.go"], [("ParseFeeds, TransportHeader, TransportSetup", R+"feed.go")],
 state=[("Sets, IsSet", "parameter sets and state of a stream", R+"feed.go Feed")], observe=["fields of rtsp.Feed", "Feed.TransportHeader", "errors of Feed.TransportSetup"])

prop("C38", "Video arrives at the user as the camera encoded it",
 "For every session over TCP, UDP or HTTP, and for every stream in it, what the user gets by unpacking the packets the session delivers, pushing their payloads into one NAL sink per stream and collecting the units is exactly the sequence of NAL units the camera sent, with their headers, content, timestamps and decoding order numbers, whatever the packetization, the RTP headers, the other streams and the reports in between; it stays what it is when later packets arrive. Parameter sets among them parse to the encoded fields, the reports on the control channels unpack to what was sent, and the units written as a byte stream (start codes and emulation prevention) split into the same units again.",
 ["inputs", "histories", "configurations"], "all streams of NAL units, packetizations, RTP headers, interleavings with other streams and reports, protocols and segmentations",
 "No test connects the layers, and none has more than one packet.",
 [R+"session.go", R+"connection.go", "net/rtp/packet.go", "net/rtcp/packet.go", H+"packet.go", H+"annexb.go", H+"spspps.go"],
 [("process, receive", R+"session.go"), ("Unpack", "net/rtp/packet.go"), ("Push", H+"packet.go"), ("EBSPToRaw, RBSPToEncapsulated, SplitAnnexB", H+"annexb.go")],
 state=[("Units, Fragments, Don", "units of the last payload, open fragments, next number", H+"packet.go NALSink")], observe=["Session.Data", "fields of rtp.Packet and rtcp.Packet", "NALSink.Units", "results of SplitAnnexB"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
