#!/usr/bin/env python3
"""Writes properties.jsonl (the prose lives here so that it is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes written to / consumed from the caller-supplied stream, and the value returned by the public call"]
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Message content survives transparency encoding byte for byte",
  "For every message, what the client writes after the server's go-ahead to DATA is one end-of-data-terminated block: a receiver that applies the RFC 5321 section 4.5.2 rules from the start of the content (a line consisting of a single dot ends the data, any other line starting with a dot loses that dot) recovers exactly the message followed by one CRLF (the CRLF may be absent when the message already ends in CRLF). The end-of-data marker is seen exactly once, as the last bytes written, so no part of a message can end the data early or be taken for a command, and an empty message is transmitted as an empty one.",
  ["inputs", "schedules"], "every message content (including none, leading dots, lone CR/LF, CR CR LF, NUL and 8-bit bytes) given as bytes or through a reader, every split of that reader's data, and every split of the writes accepted by the transport",
  "The single codec test feeds one fixed list of frames that never starts a message with a dot, never repeats CR, never sends an empty message, and never goes through send().",
  ["src/codec.rs", "src/stream.rs", "src/types.rs"],
  [("dot-stuffing state machine", "src/codec.rs ClientCodec::encode"), ("reading of the message, terminator", "src/stream.rs SmtpStream::message"), ("Read for Message (two cfg variants)", "src/types.rs")],
  [("escape_count", "how much of CRLF the codec has just seen", "src/codec.rs ClientCodec")])
p("C02", "Address validation admits only injection-free mailboxes, unchanged",
  "A string is accepted as an email address exactly when every character is printable ASCII (0x21 to 0x7E) other than '<' and '>'; every other string is refused. An accepted address is reproduced byte for byte by its string conversions and between the angle brackets of the MAIL and RCPT commands sent for it.",
  ["inputs"], "every string up to the stated length, over all Unicode scalar values, through both constructors",
  "Eight example strings; control characters other than CR/LF, DEL, non-ASCII and positional effects are never tried.",
  ["src/types.rs", "src/commands.rs"], [("character filter", "src/types.rs EmailAddress::new / FromStr"), ("Display/AsRef", "src/types.rs")])
p("C03", "Every command is rendered as exactly one well-formed line",
  "Every SMTP command value renders as its verb and arguments in RFC 5321 syntax followed by one CRLF, with parameters in the given order, each preceded by exactly one space; MAIL without sender renders the null reverse-path. Given CRLF-free arguments the rendering contains no CR or LF except that final CRLF.",
  ["inputs"], "every command type, with arbitrary addresses, argument strings, SIZE values and parameter lists up to the stated sizes",
  "test_display compares about twenty fixed renderings with fixed arguments.",
  ["src/commands.rs", "src/extension.rs"], [("Display impls", "src/commands.rs"), ("MailParameter/RcptParameter Display", "src/extension.rs")],
  observe=["to_string() of the command types"])
p("C04", "Custom parameter values are sent as reversible, injection-free xtext",
  "The value of a custom MAIL or RCPT parameter is rendered in RFC 3461 xtext: no ASCII control character, DEL, space or '=' appears in the rendering, and '+' appears only as the start of a '+HH' group of two upper-case hex digits. Decoding the '+HH' groups gives back exactly the original value; non-ASCII characters pass through unchanged.",
  ["inputs"], "every value string up to the stated length over all Unicode scalar values, in MAIL and RCPT parameters and through the public encoder",
  "Four example strings; none has a control character, so two-digit padding and DEL are never exercised.",
  ["src/util.rs", "src/extension.rs"], [("XText Display", "src/util.rs"), ("parameter Display", "src/extension.rs")],
  observe=["to_string() of XText, MailParameter, RcptParameter"])
p("C05", "Replies are parsed exactly according to the SMTP reply grammar",
  "A string parses as a reply exactly when it starts with a complete RFC 5321 reply: zero or more 'code-text' lines and one 'code text' or bare 'code' line, each ended by CRLF, with one and the same code of digits 2-5, 0-5, 0-9 on every line; a line's text is everything up to its CRLF. The result then carries that code and the text of each line, in order and verbatim; anything else (incomplete, malformed, mixed codes) is an error, never a reply, and never a panic.",
  ["inputs"], "every string up to the stated length and number of lines",
  "Three multi-line examples and one incomplete one; 300 codes times all texts, separators and truncations are not sampled.",
  ["src/response.rs"], [("nom parsers", "src/response.rs parse_response, parse_code"), ("FromStr", "src/response.rs")],
  observe=["str::parse::<Response>()"])
p("C06", "Reading a reply does not depend on how its bytes arrive",
  "Whatever way the server's bytes are split into reads, and however often the transport reports not being ready, each awaited reply is assembled from exactly its own lines: the outcome and the text are the same as if all bytes had been available at once, and no byte beyond the reply's last CRLF is consumed. If the stream ends before a reply is complete the operation fails and never reports a partial reply.",
  ["schedules", "inputs", "crash_points"], "every split of the reply bytes into reads, every placement of not-ready results, every truncation point, for one-line and multi-line replies and several replies arriving together",
  "No test reads a reply from a stream at all.",
  ["src/stream.rs", "src/response.rs"], [("line-wise accumulation loop", "src/stream.rs SmtpStream::read_response")])
p("C07", "A reply's severity alone decides success, and errors carry the reply",
  "A command whose reply is 2yz or 3yz is taken as accepted (334 during authentication is a challenge, not a success); a 4yz reply fails the operation with the transient error and a 5yz reply with the permanent error, and the error carries that reply's exact code and text lines. A transient reply is never reported as permanent or as success, nor the reverse, whatever the text.",
  ["inputs", "histories"], "every reply code of the grammar and every text, at each point of the session (greeting, EHLO, MAIL, RCPT, DATA, content, QUIT, AUTH, STARTTLS)",
  "is_positive is tested on two values; the mapping to errors is only exercised by constructing an error directly.",
  ["src/response.rs", "src/error.rs", "src/stream.rs"], [("is_positive", "src/response.rs"), ("From<Response> for Error", "src/error.rs"), ("read_response", "src/stream.rs")])
p("C08", "A session starts with the greeting, then exactly one EHLO, or not at all",
  "Opening a session first waits for a positive greeting (unless configured without one), writing nothing before it, then sends exactly one 'EHLO <identity>' line with the configured identity and needs a positive reply that names the server. If the greeting or the EHLO is refused, malformed or cut off, opening fails, nothing further is written, and no transport is handed out.",
  ["inputs", "configurations", "fault_sequences"], "every greeting and EHLO reply, with and without greeting, every client identity",
  "No test opens a session.",
  ["src/smtp_client.rs", "src/stream.rs"], [("SmtpTransport::new", "src/smtp_client.rs"), ("ehlo", "src/stream.rs")])
p("C09", "Known capabilities are exactly those the EHLO reply advertises",
  "The capability set is exactly what the lines of the EHLO reply after the first say: PIPELINING, 8BITMIME, SMTPUTF8 and STARTTLS when a line's first word is that keyword (in any letter case), and the mechanisms PLAIN, LOGIN and XOAUTH2 named as further words of an AUTH line; the server name is the first word of the first line. Unknown keywords, unknown mechanisms, words that merely contain a keyword, and keywords that are not the first word add nothing, and neither does the first line, which names the server.",
  ["inputs"], "every EHLO reply up to the stated number of lines and line length",
  "Two hand-written EHLO replies.",
  ["src/extension.rs"], [("ServerInfo::from_response", "src/extension.rs"), ("first_word", "src/response.rs")],
  observe=["ServerInfo::from_response and its public fields and predicates"])
p("C10", "Extensions are used only when advertised by the server and enabled",
  "MAIL carries BODY=8BITMIME exactly when the server advertised 8BITMIME, and SMTPUTF8 exactly when the server advertised it and the client enabled it, in that order, and no other parameter; commands are sent ahead of replies only when the server advertised PIPELINING and the client has it enabled. Each client option keeps its value whatever other options are set and in whatever order.",
  ["configurations", "inputs"], "every combination of advertised capabilities and client options, every order of setting options",
  "No test calls send() or the builder.",
  ["src/smtp_client.rs"], [("SmtpClient builder", "src/smtp_client.rs"), ("SmtpTransport::send", "src/smtp_client.rs")])
p("C11", "A mail transaction follows the SMTP sequence and stops at any rejection",
  "Sending writes MAIL for the sender, then one RCPT per recipient in envelope order, then DATA, then the content; the content is written only after MAIL, every RCPT and DATA have all been answered positively. If any of them is refused the call fails with the first refusal and no content is written; without pipelining no command at all is sent after a refusal. The call succeeds only with the server's positive reply to the content, which it returns.",
  ["inputs", "configurations", "histories"], "every sequence of positive, transient and permanent replies to every step, every sender/recipient count up to the bound, with and without pipelining",
  "No test runs a transaction.",
  ["src/smtp_client.rs", "src/stream.rs"], [("SmtpTransport::send", "src/smtp_client.rs"), ("message", "src/stream.rs")])
p("C12", "Every reply is attributed to the command that elicited it",
  "Over any sequence of operations on one session whose replies arrive intact, whether individual operations succeed or are refused, each operation's outcome is decided by the replies to its own commands: a finished operation leaves no reply of its own unread, and it never consumes a later operation's reply. In particular a refused pipelined transaction does not leave stale replies that a later command would take for its own, nor a server still waiting for message content.",
  ["histories", "inputs", "configurations"], "every sequence of up to the stated number of send/quit/login operations with arbitrary replies to each command from a server that answers every command it receives, with and without pipelining",
  "No test runs two operations on a session.",
  ["src/smtp_client.rs", "src/stream.rs"], [("SmtpTransport::send reply accounting", "src/smtp_client.rs"), ("command", "src/stream.rs")])
p("C13", "Initial authentication responses carry exactly the credentials",
  "AUTH PLAIN is sent as one line whose base64 argument decodes to NUL user NUL password, AUTH XOAUTH2 as one line whose argument decodes to 'user=' user 0x01 'auth=Bearer ' token 0x01 0x01, and AUTH LOGIN carries no credentials at all. This holds for every user name and secret, of any characters and length, without line breaks inside the base64.",
  ["inputs"], "every user name and secret up to the stated length over all byte values of UTF-8 strings, and longer ones at stated lengths",
  "One user/password pair per mechanism, short and ASCII.",
  ["src/authentication.rs", "src/commands.rs"], [("Mechanism::response", "src/authentication.rs"), ("AuthCommand Display", "src/commands.rs")])
p("C14", "Secrets are revealed only to the matching challenge, in a bounded dialogue",
  "During LOGIN the user name is sent only in reply to a 334 challenge that decodes to a user-name prompt and the password only to one that decodes to a password prompt; any other challenge, malformed base64, or a challenge to PLAIN or XOAUTH2 aborts with an error and nothing further is sent. Authentication is reported successful only on a positive reply that is not another challenge, a refusal is reported as that refusal, and at most ten challenges are answered.",
  ["inputs", "histories"], "every challenge text up to the stated length, every sequence of replies up to more than ten challenges, every mechanism",
  "No test runs an authentication dialogue; LOGIN prompts are tried with two literals.",
  ["src/authentication.rs", "src/commands.rs", "src/smtp_client.rs"], [("auth loop", "src/smtp_client.rs SmtpTransport::auth"), ("new_from_response", "src/commands.rs AuthCommand"), ("Mechanism::response", "src/authentication.rs")])
p("C15", "Login uses the first accepted mechanism that the server advertises",
  "Login tries exactly the first mechanism, in the caller's order, that the server advertised, and no other, even if it is refused, in which case login fails with that refusal. If none is both accepted and advertised, nothing is written to the server and the call returns without error.",
  ["inputs", "configurations"], "every list of accepted mechanisms up to the bound, every advertised set, every outcome",
  "No test calls try_login.",
  ["src/smtp_client.rs", "src/extension.rs"], [("try_login", "src/smtp_client.rs"), ("supports_auth_mechanism", "src/extension.rs")])
p("C16", "Transport faults surface as errors and never corrupt the conversation",
  "Whatever mixture of short writes, not-ready results and errors the transport produces, and even if the call is abandoned at any point, the bytes written are always a prefix of the bytes a fault-free transport would have received, with nothing lost, duplicated or reordered. A transport error in a write, a flush or a read makes the operation fail with an I/O error and nothing is written after it; without a fault the outcome is the same as on a perfect transport.",
  ["fault_sequences", "schedules", "crash_points"], "every placement of short writes, not-ready results, one transport error and one abandonment over the operations of a session opening and a mail transaction",
  "No test uses a faulty or slow transport.",
  ["src/stream.rs", "src/codec.rs", "src/smtp_client.rs"], [("write/message/read_response error propagation", "src/stream.rs"), ("encode", "src/codec.rs")])
p("C17", "Everything written is flushed before a reply is awaited",
  "Whenever the client starts waiting for a reply, every byte it has written so far has been flushed to the transport, so a buffering transport never deadlocks the session.",
  ["histories", "configurations"], "every operation sequence up to the bound, with and without pipelining, over a transport that only delivers on flush",
  "All test writers are plain vectors that need no flush.",
  ["src/stream.rs"], [("flush in write and message", "src/stream.rs")])
p("C18", "No server input makes the client panic, hang or read past the end",
  "Whatever bytes the server sends at any stage of a session, valid or not, well-formed UTF-8 or not, every client operation terminates with success or an error: it does not panic, and it does not wait for input any longer once the stream has ended.",
  ["inputs", "histories", "fault_sequences"], "every server byte string up to the stated length at each stage (greeting, EHLO reply, AUTH challenge, transaction replies, QUIT, STARTTLS), followed by end of stream",
  "Only well-formed replies are parsed in tests, never through the stream.",
  ["src/stream.rs", "src/response.rs", "src/extension.rs", "src/commands.rs", "src/smtp_client.rs"], [("read_response", "src/stream.rs"), ("new_from_response", "src/commands.rs"), ("from_response", "src/extension.rs")])
p("C19", "STARTTLS is sent only if advertised and hands over only on agreement",
  "Requesting STARTTLS writes exactly the STARTTLS command, and only if the server advertised it; otherwise it fails without writing anything. The caller gets the stream back, with nothing written after the command and no byte beyond the reply consumed, only when the server's reply is positive; on any other reply or a cut connection the call fails.",
  ["inputs", "configurations"], "every capability set, every reply, with further bytes following the reply",
  "No test calls starttls.",
  ["src/smtp_client.rs"], [("starttls", "src/smtp_client.rs")])
p("C20", "Envelopes need a recipient and are kept and transmitted faithfully",
  "An envelope can be created exactly when it has at least one recipient. It reports the sender and recipients it was created with, in order and including repeats, and sending produces exactly one RCPT per entry, at any number of recipients.",
  ["inputs", "configurations"], "every number of recipients from none up to a few, plus large counts beyond 255, arbitrary accepted addresses, with and without sender, with and without pipelining",
  "Envelopes are never tested.",
  ["src/types.rs", "src/smtp_client.rs"], [("Envelope::new, to, from", "src/types.rs"), ("send loops", "src/smtp_client.rs")])
p("C21", "Reply codes render as their three digits and compare exactly",
  "Every reply code renders as its three decimal digits, a reply has a given numeric code exactly when that number is those digits, and it counts as positive exactly for codes 2yz and 3yz. Parsing the rendering of a reply gives back the same code.",
  ["inputs"], "every code of the grammar against every 16-bit number",
  "Three codes out of 240, two comparisons.",
  ["src/response.rs"], [("Display for Code/Severity/Category/Detail", "src/response.rs"), ("has_code, is_positive", "src/response.rs")],
  observe=["Code::to_string, Response::has_code, Response::is_positive"])
p("C22", "The client identity is announced exactly as configured",
  "EHLO announces a domain identity verbatim, an IPv4 address as a bracketed dotted-decimal literal and an IPv6 address as a bracketed literal with the 'IPv6:' tag that parses back to the same address. The identity configured on the client is the one announced.",
  ["inputs", "configurations"], "every domain string up to the bound, every IPv4 address, IPv6 addresses with the stated symbolic groups",
  "One domain and one IPv4 address.",
  ["src/extension.rs", "src/commands.rs", "src/smtp_client.rs"], [("ClientId Display", "src/extension.rs"), ("EhloCommand Display", "src/commands.rs"), ("hello_name", "src/smtp_client.rs")])
p("C23", "A failing message source never yields a completed message",
  "If the reader supplying the message fails before its end, the send fails with that I/O error and the end-of-data marker is never written, so the server cannot accept a truncated message. If the reader succeeds, the whole content it supplied is transmitted, whatever its read sizes.",
  ["fault_sequences", "schedules"], "every content, every read size sequence, every position of the failure including after a partial read",
  "No test sends from a reader.",
  ["src/stream.rs", "src/types.rs"], [("read_to_end before writing", "src/stream.rs SmtpStream::message"), ("Read for Message", "src/types.rs")])
p("C24", "Error texts report the server's own words",
  "The text of a transient or permanent error is its class followed by the reply's text lines joined by '; ' in order, or a fixed notice when the reply has no lines.",
  ["inputs"], "every list of lines up to the bound",
  "One permanent error with four lines.",
  ["src/error.rs"], [("thiserror Display attributes", "src/error.rs")], observe=["to_string() of the error"])
p("C25", "Sessions are independent of each other",
  "What a session writes, and how its operations end, depends only on its own configuration and on what its own server sends: not on other sessions open at the same time, nor on an earlier one. In particular the session opened over the stream that STARTTLS handed back goes only by its own EHLO reply and its own client's options, never by the capabilities advertised before the upgrade.",
  ["histories", "schedules", "configurations"], "every interleaving of operations (and of polls) of two sessions with different capabilities, options and identities, and every pair of capability sets before and after STARTTLS",
  "No test opens a session, let alone two.",
  ["src/smtp_client.rs", "src/stream.rs"], [("SmtpTransport fields server_info, client_info", "src/smtp_client.rs"), ("starttls", "src/smtp_client.rs")])
p("C26", "A reply's first line and first word are what they are called",
  "first_line() is the reply's first text line, unchanged, and absent exactly when the reply has no lines; first_word() is the first whitespace-delimited word of that line, whole and unchanged, and absent exactly when there is none.",
  ["inputs"], "every list of lines up to the stated number and length",
  "Three examples in the unit tests.",
  ["src/response.rs"], [("first_word, first_line", "src/response.rs")], observe=["Response::first_line, Response::first_word"])
p("C27", "A message's reader yields exactly the given content",
  "Reading an email's message, whether it was given as bytes or as a reader, yields exactly the given bytes in order, whatever the sizes of the caller's buffers and of the source's reads; a failure or not-ready result of the source is passed on as such and loses nothing. The email reports the envelope it was created with.",
  ["inputs", "schedules", "fault_sequences"], "every content, every sequence of buffer and read sizes, every position of a failure and of not-ready results",
  "No test reads a message.",
  ["src/types.rs"], [("Read for Message", "src/types.rs"), ("SendableEmail::message, envelope", "src/types.rs")], observe=["poll_read on Message, SendableEmail::envelope"])
p("C28", "An operation waits only for its transport and is resumed when that is ready",
  "Whenever an operation returns control unfinished, the transport or message source it waits for has been given the waker of that very turn; so an executor that resumes an operation only when told so never leaves one hanging although what it waits for is ready. However often reads, writes and flushes are not ready, every operation finishes with the result it would have had, and the message arrives intact.",
  ["schedules", "inputs"], "every placement of the stated number of not-ready results over all reads, writes, flushes and source reads of every operation, with a fresh waker each turn",
  "Tests run over vectors that are always ready.",
  ["src/stream.rs", "src/codec.rs", "src/types.rs", "src/smtp_client.rs"], [("async fns awaiting the transport", "src/stream.rs"), ("poll_read forwarding", "src/types.rs")])
p("C29", "Every failure is reported under its own class, with its cause",
  "An I/O error of the transport or the message source surfaces as Error::Io with the same kind and text and as the error's source; a refusal as Transient or Permanent with the whole reply; a reply that is not SMTP as Parsing; a connection that ends early or bytes that are not text as Io; a challenge that is not base64 as ChallengeParsing, one that decodes to something other than UTF-8 as Utf8Parsing, an empty one or none at all as ResponseParsing, an unexpected prompt and a missing extension as Client. No class is ever reported for another's cause.",
  ["fault_sequences", "inputs"], "every kind of I/O error at every read, write, flush and source read of every operation; every such reply and challenge up to the stated free bytes at each point of a session",
  "The unit tests construct one error directly.",
  ["src/error.rs", "src/stream.rs", "src/commands.rs", "src/authentication.rs"], [("enum Error and its From conversions", "src/error.rs"), ("read_response", "src/stream.rs"), ("new_from_response", "src/commands.rs")])
p("C30", "Logging only observes",
  "Whether a logger is installed and at which level makes no difference to anything a caller can see: the bytes a session writes, how much of the server's replies it consumes, and how its operations end, including the text of their errors, are the same without logging and with a logger that renders every record at the most detailed level; rendering a record never panics, and nothing is logged while logging is off.",
  ["configurations", "inputs"], "every server reply up to the stated free bytes at each point of a session, and every identity, address, credential and content up to the stated sizes, each run both without and with such a logger",
  "The tests install no logger, so no log statement's arguments are ever evaluated.",
  ["src/stream.rs", "src/smtp_client.rs", "src/commands.rs"], [("debug! of what is written and read", "src/stream.rs write, read_response, escape_crlf"), ("debug!/info! of the session", "src/smtp_client.rs"), ("debug! of challenges", "src/commands.rs new_from_response")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
