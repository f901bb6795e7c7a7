"""What each check runs, and within which bounds (quick / thorough)."""
import json, os
_here = os.path.dirname(os.path.abspath(__file__))
COVERS = json.load(open(os.path.join(_here, "covers.json"))) if os.path.exists(os.path.join(_here, "covers.json")) else {}

COMMON = [
    "The crate and its dependencies (tokio/async-std io adapters, nom, base64, std) are executed from rustc's optimized LLVM IR (opt-level 2, overflow checks on, async-smtp's debug assertions on); vectorization is off.",
    "The executor's IR semantics, checked by running sampled paths natively with identical observations; poison/undef is read as zero.",
    "Single-threaded execution; a fixed seed instead of OS randomness for hash maps; allocation never fails; logging disabled (as without a logger).",
    "z3 4.8.12's answers (thorough: a sample of the queries is repeated with cvc5 and a newer z3).",
]
NET = "The transport is an in-memory mock that keeps to the Async(Buf)Read/Write contracts; the server answers every complete command line it has received with one reply."

PROPS = {}
def p(id, entries, quick, thorough, outside, assumptions=(), async_std=(), async_std_thorough=None):
    PROPS[id] = {"entries": entries.split(), "bounds_quick": quick, "bounds_thorough": thorough, "outside": outside,
                 "assumptions": COMMON + [NET] * ("transport" in assumptions) + [a for a in assumptions if a != "transport"],
                 "async_std": list(async_std), "covers": COVERS}
    if async_std_thorough is not None: PROPS[id]["async_std_thorough"] = list(async_std_thorough)

p("C01", "c01_bytes c01_reader c01_writes c01_long c01_two c01_text c01_huge c01_many c01_after",
  "any message of up to 7 bytes; up to 4 bytes through a reader with 3 free read sizes; up to 3 bytes with free short writes and not-ready results; 4 long fillers (dots and line ends in every phase) with 3 free bytes around each of 7 offsets up to 16 KiB; two messages in a row (2 + 2 bytes); printable text of 9 to 40 free characters with dots and line ends at any of their places; 100 KB and 1 MB-like fillers around the encoder's buffer boundaries; 12, 40 or 130 messages in one session, one of them free (3 bytes); the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "any message of up to 10 bytes; reader 5 bytes with 5 free read sizes; writes 4 bytes; 4 free bytes around 8 offsets in long messages; two messages (2 + 3 bytes); 300 messages",
  "longer messages whose free part is larger; more than two messages per session",
  ["transport"], "c01_bytes c01_reader c01_writes c01_long".split())
p("C02", "c02_any c02_ascii c02_long c02_send c02_word",
  "any string of up to 3 Unicode scalar values of any width, any ASCII string of up to 7; one free character at every position of lengths up to 40 and at selected positions of 18 longer ones up to 9000; sender and recipient of up to 2 characters through a whole transaction; words of up to 40 free printable characters with one free byte at any place",
  "4 characters of any width, 9 ASCII, every position of lengths up to 70, 4 characters on the wire",
  "longer strings with several unusual characters", ["transport"])
p("C03", "c03_fixed c03_arg c03_long c03_mail c03_rcpt c03_size c03_word c03_many",
  "argument strings of up to 3 CR/LF-free characters of any width; long arguments at 80+14 lengths up to 9000; up to 3 MAIL parameters of every kind and 4 RCPT parameters with free keywords and values; SIZE: every number of up to 3 digits, all powers of two and ten and their predecessors; up to 40 MAIL or RCPT parameters; arguments of up to 24 free printable characters",
  "130 parameters; 4 characters, 140+14 lengths, 4 MAIL and 6 RCPT parameters, 4-digit SIZE values",
  "longer arguments with more free characters; SIZE values other than those (decimal rendering is std's)", [])
p("C04", "c04_any c04_ascii c04_long c04_word",
  "any value of up to 3 Unicode scalar values of any width, any ASCII value of up to 4; one or two free characters at every position of lengths up to 15 and selected positions of 10 longer ones up to 1024; through XText, MAIL and RCPT parameters; values of up to 24 free printable characters",
  "4 characters, 6 ASCII, every position of lengths up to 51", "longer values with more free characters", [])
p("C05", "c05_raw c05_lines c05_ends c05_text c05_long c05_word",
  "any ASCII string of up to 10 bytes; up to 3 lines with one line's code, separator, text or end free; templates of bare codes, empty texts, trailing bytes and every truncation; texts of up to 3 characters of any width; up to 12 (and 50..257) lines, and texts at 16 lengths up to 5000, with one free byte; texts of up to 24 free printable characters in up to 2 lines",
  "12 bytes; 4 lines; 4 characters; up to 40 lines", "several deviations far apart in long replies", [])
p("C06", "c06_split c06_slow c06_cut c06_send c06_open c06_long c06_word c06_after",
  "every split into reads of replies of up to 2 lines with up to 1-2 free characters, with following bytes; fixed read sizes 1..6 with not-ready results at any read; every truncation point of replies of up to 3 lines; all replies of a transaction and of an opening together with free read sizes; long replies (up to 120 lines, 70000 bytes) in blocks; texts of up to 24 free printable characters read in blocks; the same on a session after any one earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused)",
  "the same with one not-ready result at any place during free splits, longer texts and more free read sizes", "more free read sizes in long exchanges",
  ["transport"], "c06_split c06_slow c06_cut c06_send c06_open".split())
p("C07", "c07_code c07_text c07_word c07_after",
  "every three-digit code (digits free) at each of the 10 points of a session (greeting, EHLO, MAIL, RCPT, DATA, content, QUIT, AUTH, STARTTLS), one or two lines, a free character of text; 10 codes with 8 misleading texts in up to 3 lines at every point; texts of several free words at every point; the same on a session after any one earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused)",
  "two free characters of text", "longer free texts", ["transport"])
p("C08", "c08_greeting c08_ehlo c08_codes c08_word",
  "any ASCII greeting of up to 7 bytes and any EHLO reply of up to 8 bytes then end of stream; one- and two-line templates with a free code digit; identities: domain of 2 free letters, IPv4 with free bytes, default; with and without greeting; reads all at once or bytewise; server names and identities of several free printable characters",
  "9 bytes; all three code digits free", "longer free replies (their grammar is C05's subject)", ["transport"])
p("C09", "c09_raw c09_keyword c09_auth c09_mechs c09_mech c09_many c09_wire c09_letters c09_words c09_long",
  "any line of up to 10 printable characters; every keyword with a free character, other letter case, free neighbours; AUTH lines with up to 8 free characters; up to two AUTH lines of up to 2 words from 9; mechanism words with one character changed, added or removed; up to 24 lines with the keyword at any place, 101, 130 and 258 lines; use of the capabilities over the wire for up to 3 lines of 10 kinds; every letter case of every keyword and free words around it, in the first line too; AUTH lines of up to 40 words, in one or many lines, with a mechanism that may have a free letter at any of 4 places",
  "11 characters, 9 free after AUTH, 3 words per line, 60 lines; 100 words", "non-ASCII or control characters and tabs in EHLO lines; mechanism names in other letter case", ["transport"])
p("C10", "c10_options c10_sends c10_sym c10_many c10_after",
  "all 16 advertised sets times every sequence of up to 3 setter calls (free identity); up to 3 recipients and 3 sends in a row; any advertised set as free bits; 12, 40 or 130 sends in one session, one of the first 8 refused at its content; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "sequences of up to 4 setter calls, 5 recipients, 4 sends; 300 sends", "longer option sequences", ["transport"])
p("C11", "c11_replies c11_many c11_again c11_codes c11_same c11_word c11_repeat c11_after",
  "every combination of accepting, transient and permanent replies (symbolic first digit, one- and two-line) to every step with up to 3 recipients, with and without sender, pipelining offered/wanted; 5, 60 and 101 recipients with a refusal at a symbolic position, 300 with one at any of 18; two transactions in a row; every refusing code at every step; equal recipients and equal sender; free addresses and reply texts of several letters; 12, 40 or 130 sends in one session, any of them (or four selected ones) refused at any step; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "4 recipients; 10 and 1000 recipients; transient refusals in consecutive transactions; 300 sends", "more than one refusal with many recipients (see C12)", ["transport"], ["c11_replies"])
p("C12", "c12_two c12_chain c12_tls c12_many c12_ahead c12_same c12_word c12_repeat c12_mixed",
  "every pair of operations out of send (1 or 2 recipients), quit, login PLAIN, LOGIN with challenge, login without common mechanism, and every triple out of send, quit, LOGIN; STARTTLS after an operation and a further session on the stream; up to 50 recipients with refusals at two symbolic positions (one for more than 4), 258 with one at any of 13; replies delivered ahead of time; accepting and refusing replies symbolic; equal recipients; free addresses and reply texts of several letters; 12, 40 or 130 sends in one session, any of them (or four selected ones) refused at any step; sessions of 9 and 31 mixed operations, any of them refused",
  "also transient refusals, chains of 4, two refusals up to 8 recipients, 100 recipients, three operations ahead; 300 sends", "longer histories; operations that fail locally in the middle of a dialogue (see C14, C23)", ["transport"], ["c12_ahead"], ["c12_ahead", "c12_two"])
p("C13", "c13_any c13_bytes c13_long c13_word c13_after",
  "user and secret of up to 2 + 1 Unicode scalar values of any width, any ASCII of up to 4 + 4; every length up to 89 and 11 longer ones up to several KiB with free characters in the middle and at the end; rendering and over the wire, for all three mechanisms; user names and secrets of several free words; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "3 + 1 characters, 7 + 7 ASCII, every length up to 199", "longer secrets with more free characters", ["transport"])
p("C14", "c14_word c14_prompt c14_other c14_short c14_endless c14_limit c14_command c14_text c14_cycles c14_many c14_after",
  "any challenge of up to 6 printable characters; every accepted prompt with four free base64 characters in any group, or one or two free characters in the decoded prompt; any challenge of up to 5 characters to PLAIN and XOAUTH2; every dialogue of up to 3 server replies out of 11 kinds; every prompt sequence up to 13; 8 to 12 challenges with every final reply; challenges given directly to the command; prompts inside free text; cyclic dialogues; up to 20 dialogues of up to 9 prompts in one session; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "8 characters, 7 to the other mechanisms, dialogues of 4 replies, endless dialogues of 4 kinds; 40 dialogues", "prompts of more than 12 base64 characters with more free characters", ["transport"])
p("C15", "c15_lists c15_again c15_sym c15_after",
  "every list of up to 4 accepted mechanisms (repeats included), every advertised set and none, every outcome; logins repeated and with the documented default lists; mechanism lists as free bytes; two logins in one session over every list of up to 2, or all three with any refusal of the first, with a send between",
  "lists of up to 6", "mechanism lists are over the three mechanisms the crate has", ["transport"])
p("C16", "c16_error c16_abandon c16_benign c16_content c16_long c16_kinds c16_after",
  "one write, flush or read error at any place plus a short write or not-ready result at any place, from the opening or from the operation on; abandonment at any not-ready result, with up to 2 of them; short, tiny and delayed writes; for quit, sending to 1 or 2 recipients, LOGIN, STARTTLS and a refused send followed by quit; any content of up to 3 bytes; content up to 8 KiB in blocks with deviations in a window of 12 writes; every stable io::ErrorKind but Interrupted and WouldBlock (36) at every step; the same on a session after any one earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "two short writes before the error, 3 not-ready results, content of 5 bytes, 10000 bytes", "more deviations at once", ["transport"], ["c16_error", "c16_abandon", "c16_content", "c16_long"], ["c16_error", "c16_abandon", "c16_benign", "c16_content", "c16_long"])
p("C17", "c17_ops c17_content c17_long c17_repeat c17_after",
  "every operation (open, send, quit, PLAIN, LOGIN, XOAUTH2, STARTTLS) and a second one after a send, over a transport that delivers on flush only, with every reply accepting or refusing, and a not-ready flush or write or a short write at any place; any content of up to 4 bytes in free read sizes; content up to 20000 bytes, up to 100 recipients; 12, 40 or 130 sends in one session, any of them (or four selected ones) refused at any step; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "two deviations; content of 6 bytes; 70000 bytes; 300 sends", "longer histories", ["transport"], ["c17_content", "c17_long"])
p("C18", "c18_raw c18_line c18_long c18_wide c18_word c18_ehlo c18_status c18_after",
  "any 5 bytes at each of 14 stages of a session, then end of stream; one or two lines with a free text of up to 3 bytes after 5 kinds of line start; long lines (66000 bytes), 60 lines, and non-UTF-8 or free bytes at 5 places of long replies; multi-byte and free printable texts; 11 EHLO keywords with every kind of argument (numbers of up to 40 digits with free ends, numbers around the largest of every width, free bytes), in EHLO replies and greetings; texts like enhanced status codes and other structured texts with a free character, at every stage; the same on a session after any one earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused)",
  "7 bytes, 4 free bytes, 140000 bytes, 200 lines", "longer free input", ["transport"])
p("C19", "c19_reply c19_multi c19_unadvertised c19_word c19_after",
  "any ASCII reply of up to 7 bytes then more bytes or end of stream, three capability sets; two-line replies with free codes in free read sizes; 8 kinds of look-alike keywords (one with a free character); free printable texts in every line of the EHLO reply and in the answer; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "8 bytes, two free read sizes", "longer free replies", ["transport"])
p("C20", "c20_any c20_counts c20_after",
  "0 to 3 recipients and a sender with any local part letter and domain in either case (repeats included), with and without sender, with and without pipelining; every count from 1 to 40 and 64, 99..101, 127, 128, 255..257, 512, 1000 with a repeat and a free address at the start, middle or end; the same on a session after any two earlier operations of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "0 to 4 free recipients; 1024 and 2000", "larger counts", ["transport"])
p("C21", "c21_codes c21_parsed",
  "all 240 codes; comparison with every 16-bit number; parsing with all digits free; up to two text lines",
  "the same", "none (the domain is finite) apart from the text", [])
p("C22", "c22_domain c22_domain_long c22_ipv4 c22_ipv6 c22_wire6 c22_word",
  "domains of up to 2 CR/LF-free characters of any width; 88 lengths up to 512 with free ends; every IPv4 address; IPv6: one free 16-bit group at selected places of 5 address shapes, two in one case; through EHLO of a session with options set in any order; domains of up to 40 free printable characters",
  "3 characters; one or two free groups at every place", "IPv6 addresses with more free groups (the rendering is std's)", ["transport"])
p("C23", "c23_fail c23_ok c23_long c23_again",
  "any content of up to 4 bytes failing after any number of bytes, with free read sizes and a not-ready result; any content of up to 4 bytes supplied without failure in free read sizes; 8 to 20 KB read in blocks failing at 4 places; up to 3 messages before the failing one",
  "5 / 6 bytes, more free read sizes", "longer free contents", ["transport"], "c23_fail c23_ok c23_long c23_again".split())
p("C24", "c24_text c24_many c24_wire c24_word",
  "up to 3 lines of up to 2 characters of any width (1 for 3 lines); up to 20 lines of 7 lengths up to 5000 with free ends; from a reply on the wire of up to 3 lines with up to 2 free characters; lines of up to 24 free printable characters",
  "3 characters, 40 lines", "more free characters", ["transport"])
p("C25", "c25_upgrade c25_two c25_polls c25_many",
  "STARTTLS between two sessions: 4 capability sets before, any of the 6 keywords with a free letter after, any operation in between; two sessions with sets that differ in one capability (free letter) or all but one, 2 operations in any order and a last one after STARTTLS or the other's end; two sends polled alternately in any order with free contents and a not-ready flush each; 2, 3 or 9 sessions one after another or next to each other, each with its own kind of identity, options, greeting and capabilities",
  "3 operations; not-ready writes as well; 20 sessions", "more sessions; threads", ["transport"], ["c25_polls"])
p("C26", "c26_any c26_word", "up to 2 lines, the first of up to 5 free ASCII characters; first lines of up to 24 free printable characters after 5 kinds of start",
  "7 free ASCII characters; 64 free printable characters", "Unicode white space other than ASCII; longer free lines", [])
p("C27", "c27_read c27_long", "any content of up to 5 bytes, buffers of 1 to 3 bytes in any order (an empty one first), 2 free read sizes, a not-ready result and a failure of any of 38 kinds at any place; 7 lengths up to 20000 with free bytes at three places and 5 x 4 buffer sizes",
  "7 bytes, 2 not-ready results", "longer free contents", ["transport"], ["c27_read", "c27_long"])
p("C28", "c28_ops c28_drip c28_source c28_long c28_after", "two not-ready results at any of the writes, flushes and reads (and a source read) of every operation and of opening; bytewise reads and writes with one; any content of up to 3 bytes from a source with two not-ready results and two free read sizes; 100 to 40000 bytes of content in blocks with not-ready results in a window of writes, at flushes or at source reads; the same on a session after any earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "three not-ready results, 4 bytes of content; 140000 bytes", "more not-ready results at once", ["transport"], ["c28_ops", "c28_drip", "c28_source", "c28_long"])
p("C29", "c29_io c29_reply c29_auth c29_after", "36 kinds of I/O error (free) at any write, flush, read or source read of every operation and of opening; refusals, malformed, contradictory, cut-off and non-UTF-8 replies with free digits and characters at 10 points; challenges with one free character that is not base64, not UTF-8 or no prompt, or of the wrong length or padding, to every mechanism; refusals of 1 to 4 lines; the same on a session after any one earlier operation of 13 kinds (sends accepted or refused at any step, logins ended in every way, QUIT refused), or one refused with any code and a free word",
  "the same", "several faults at once", ["transport"], ["c29_io"])
p("C30", "c30_raw c30_wide c30_own c30_level", "up to 3 free bytes after 4 kinds of line start at 14 points of a session; texts of up to 130 bytes with multi-byte characters in every phase and a free character of 1 or 3 bytes at the end, plain and as challenges, at every point; identities of up to 2 characters of any width, credentials of up to 2 + 1 (and up to 210 bytes), addresses of up to 2 free characters, contents of up to 3 free bytes (and up to 350); every log level and any answer of the logger's enabled() (symbolic) at 14 points; each run without and with a logger that renders every record",
  "4 free bytes; texts of 5000 bytes; 3 characters", "loggers that fail or that look at more than the rendered record; longer free texts", ["transport"], ["c30_own"])
