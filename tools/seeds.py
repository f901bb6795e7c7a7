"""Planted bugs: (id, property, edits [(file, old, new)], main.rs body, needs, what it breaks[, runtime])."""
SEEDS = []
def seed(id, prop, edits, main, needs, breaks, rt="tk"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, rt=rt))

HDR = '''mod mock;
#[allow(unused_imports)]
use mock::*;
#[allow(unused_imports)]
use async_smtp::{authentication::*, commands::*, error::Error, extension::*, response::*, *};

#[allow(dead_code)]
fn addr(s: &str) -> EmailAddress { EmailAddress::new(s.to_string()).unwrap() }
#[allow(dead_code)]
fn mail(to: &[&str], body: &[u8]) -> SendableEmail {
    SendableEmail::new(Envelope::new(Some(addr("me@a.b")), to.iter().map(|t| addr(t)).collect()).unwrap(), body.to_vec())
}
/// A session with a server that advertises `ehlo` and whose replies `f` may override.
#[allow(dead_code)]
fn open(ehlo: &'static str, mut f: impl FnMut(&str, usize) -> Option<String> + 'static) -> (Mock, SmtpTransport<Mock>) {
    let m = Mock::new("220 hi\\r\\n", move |l, n| f(l, n).unwrap_or_else(|| accept(l, ehlo)));
    let t = go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
    (m, t)
}
/// Undoes the transparency procedure on what was received; the client always adds one CRLF.
#[allow(dead_code)]
fn decode(raw: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut start = true;
    let mut i = 0;
    while i < raw.len() {
        if start && raw[i] == b'.' {
            if &raw[i..] == b".\\r\\n" { break; }
            i += 1;
            start = false;
            continue;
        }
        start = raw[i..].starts_with(b"\\n") && i > 0 && raw[i - 1] == b'\\r';
        out.push(raw[i]);
        i += 1;
    }
    out
}
'''

# ---------------------------------------------------------------- C01
seed("C01-dots", "C01", [("src/codec.rs", """                    if self.escape_count == 3 {
                        self.escape_count = 0;""", """                    if self.escape_count == 3 {
                        // The line has only just begun.
                        self.escape_count = 2;""")],
"""fn main() {
    for body in [&b"a\\r\\n.b\\r\\n"[..], b"..", b"x\\r\\n...\\r\\ny"] {
        let (m, mut t) = open("", |_, _| None);
        go(t.send(mail(&["x@y.z"], body))).unwrap();
        assert_eq!(decode(&m.content()), [body, b"\\r\\n"].concat());
    }
}""", "a line that starts with two or more dots", "every further leading dot is doubled as well, so the receiver gets additional dots")
seed("C01-chunks", "C01", [("src/stream.rs", """        let mut message_bytes = Vec::new();
        message_reader.read_to_end(&mut message_bytes).await?;
""", """        let mut message_bytes = Vec::new();
        message_reader.read_to_end(&mut message_bytes).await?;
        // Keep the pieces handed to the transport reasonably small.
        while message_bytes.len() > 4096 {
            let rest = message_bytes.split_off(4096);
            ClientCodec::new()
                .encode(&message_bytes, &mut self.inner)
                .await?;
            message_bytes = rest;
        }
""")],
"""fn main() {
    for (len, at) in [(5000, 4096), (5000, 4097), (9000, 8192), (4096, 0), (100, 50)] {
        let mut body = vec![b'a'; len];
        body[at] = b'.';
        let (m, mut t) = open("", |_, _| None);
        go(t.send(mail(&["x@y.z"], &body))).unwrap();
        assert_eq!(decode(&m.content()), [&body[..], b"\\r\\n"].concat());
    }
}""", "a message longer than 4096 bytes with a dot in the middle of a line right at a multiple of 4096", "the codec's state is lost between pieces: a dot inside a line is doubled, one after CRLF across the boundary is mishandled")
seed("C01-lf", "C01", [("src/stream.rs", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
""", """            if message_bytes.ends_with(b"\\n") {
                // The last line is terminated already.
                self.inner.write_all(b"\\n.\\r\\n").await?;
            } else {
                self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            }
""")],
"""fn main() {
    for body in [&b"a"[..], b"a\\r", b"a\\n", b"a\\r\\n"] {
        let (m, mut t) = open("", |_, _| None);
        assert!(run(t.send(mail(&["x@y.z"], body))).is_some(), "no end of data for {body:?}");
        assert_eq!(decode(&m.content()), [body, b"\\r\\n"].concat());
    }
}""", "a message that ends with a line feed", "the end-of-data marker is not CRLF.CRLF: the server waits for more data")
# ---------------------------------------------------------------- C02
seed("C02-del", "C02", [("src/types.rs", "!c.is_ascii() || c.is_ascii_control() ||", "!c.is_ascii() || c < ' ' ||")],
"""fn main() {
    for c in (0u8..32).chain([127]) { assert!(EmailAddress::new(format!("a{}b@c", c as char)).is_err(), "{c}"); }
    assert!(EmailAddress::new("a@b".into()).is_ok());
}""", "an address with the DEL control character", "a control character is admitted into addresses")
seed("C02-letters", "C02", [("src/types.rs", "            !c.is_ascii() || c.is_ascii_control() ||", "            (!c.is_ascii() && !c.is_alphabetic()) || c.is_ascii_control() ||")],
"""fn main() {
    for a in ["j\\u{fc}rgen@b.de", "a@\\u{4f8b}.jp", "\\u{2603}@a"] { assert!(EmailAddress::new(a.into()).is_err(), "{a}"); }
}""", "an address with a non-ASCII letter", "non-ASCII addresses are admitted and transmitted even to servers without SMTPUTF8")
seed("C02-trim", "C02", [("src/types.rs", "        EmailAddress::new(s.to_string())\n", "        EmailAddress::new(s.trim_end().to_string())\n")],
"""fn main() {
    assert!("a@b".parse::<EmailAddress>().is_ok());
    for a in ["a@b ", "a@b\\r\\n", " a@b", "a@b\\u{3000}"] { assert!(a.parse::<EmailAddress>().is_err(), "{a:?}"); }
}""", "parsing (FromStr) of an address followed by white space", "an address with trailing CR LF is accepted, and not kept as given")
# ---------------------------------------------------------------- C03
seed("C03-size", "C03", [("src/extension.rs", 'write!(f, "SIZE={size}")', 'write!(f, "SIZE={}", size as u32)')],
"""fn main() {
    for n in [0usize, 1, 4294967295, 4294967296, 5000000000] {
        let c = MailCommand::new(None, vec![MailParameter::Size(n)]);
        assert_eq!(c.to_string(), format!("MAIL FROM:<> SIZE={n}\\r\\n"));
    }
}""", "a SIZE parameter of 4 GiB or more", "the declared size is wrong")
seed("C03-help", "C03", [("src/commands.rs", """        if let Some(arg) = &self.argument {
            write!(f, " {arg}")?;
        }
        f.write_str("\\r\\n")
    }
}

impl HelpCommand""", """        for arg in self.argument.iter().flat_map(|arg| arg.split(' ')) {
            if !arg.is_empty() {
                write!(f, " {arg}")?;
            }
        }
        f.write_str("\\r\\n")
    }
}

impl HelpCommand""")],
"""fn main() {
    for a in ["x", "a b", "a  b", "", "b "] {
        assert_eq!(HelpCommand::new(Some(a.into())).to_string(), format!("HELP {a}\\r\\n"));
    }
    assert_eq!(HelpCommand::new(None).to_string(), "HELP\\r\\n");
}""", "an argument with two spaces in a row or at an end", "the argument is not sent as given")
seed("C03-rcpt", "C03", [("src/commands.rs", """        write!(f, "RCPT TO:<{}>", self.recipient)?;
        for parameter in &self.parameters {
            write!(f, " {parameter}")?;
        }""", """        write!(f, "RCPT TO:<{}>", self.recipient)?;
        let mut last = None;
        for parameter in &self.parameters {
            // No parameter may be given twice.
            if last.replace(parameter) != Some(parameter) {
                write!(f, " {parameter}")?;
            } else {
                f.write_str(" ")?;
            }
        }""")],
"""fn main() {
    let p = |k: &str, v: &str| RcptParameter::Other { keyword: k.into(), value: Some(v.into()) };
    let c = RcptCommand::new(addr("a@b"), vec![p("K", "v"), p("K", "w"), p("K", "w")]);
    assert_eq!(c.to_string(), "RCPT TO:<a@b> K=v K=w K=w\\r\\n");
}""", "two equal RCPT parameters in a row", "a parameter is dropped and a stray space is sent")
# ---------------------------------------------------------------- C04
seed("C04-param", "C04", [("src/extension.rs", """impl Display for RcptParameter {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match *self {
            RcptParameter::Other {
                ref keyword,
                value: Some(ref value),
            } => write!(f, "{}={}", keyword, XText(value)),""", """impl Display for RcptParameter {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match *self {
            RcptParameter::Other {
                ref keyword,
                value: Some(ref value),
            } if value.contains(' ') || value.contains('=') => {
                write!(f, "{}={}", keyword, XText(value))
            }
            RcptParameter::Other {
                ref keyword,
                value: Some(ref value),
            } => write!(f, "{keyword}={value}"),""")],
"""fn main() {
    let p = |v: &str| RcptParameter::Other { keyword: "K".into(), value: Some(v.into()) }.to_string();
    assert_eq!(p("a b"), "K=a+20b");
    assert_eq!(p("a+b"), "K=a+2Bb");
    assert_eq!(p("a\\tb"), "K=a+09b");
    assert_eq!(p("a\\r\\nDATA\\r\\n"), "K=a+0D+0ADATA+0D+0A");
}""", "a RCPT parameter value with a plus sign or control characters but no space or equals sign", "the value is sent raw: it does not decode to itself and may inject lines")
seed("C04-rest", "C04", [("src/util.rs", """            if let Some((idx, _)) = end_iter.next() {
                rest = &end[idx..];
            } else {
                rest = "";
            }""", """            match end_iter.next() {
                Some((_, '+')) => {
                    f.write_str("+")?;
                    rest = &end[2..];
                }
                Some((idx, _)) => rest = &end[idx..],
                None => rest = "",
            }""")],
"""fn main() {
    let p = |v: &str| MailParameter::Other { keyword: "K".into(), value: Some(v.into()) }.to_string();
    assert_eq!(p("a+b"), "K=a+2Bb");
    assert_eq!(p("a+ b"), "K=a+2B+20b");
    assert_eq!(p("a++b"), "K=a+2B+2Bb");
    assert_eq!(p("a=+b"), "K=a+3D+2Bb");
}""", "a plus sign directly after another character that needs encoding", "the plus sign is sent raw, so the value decodes to something else")
# ---------------------------------------------------------------- C05
seed("C05-codes", "C05", [("src/response.rs", "    if !lines.iter().all(|(code, _, _)| *code == last_code) {", "    if !lines.first().map_or(true, |(code, _, _)| *code == last_code) {")],
"""fn main() {
    assert!("250-a\\r\\n250-b\\r\\n250 c\\r\\n".parse::<Response>().is_ok());
    assert!("550-a\\r\\n250-b\\r\\n250 c\\r\\n".parse::<Response>().is_err());
    assert!("250-a\\r\\n550-b\\r\\n250 c\\r\\n".parse::<Response>().is_err());
}""", "a reply of three or more lines whose code differs in the middle only", "a reply with contradicting codes is taken for a valid one")
seed("C05-severity", "C05", [("src/response.rs", "    if !lines.iter().all(|(code, _, _)| *code == last_code) {", """    if !lines
        .iter()
        .all(|(code, _, _)| (code.severity, code.detail) == (last_code.severity, last_code.detail))
    {""")],
"""fn main() {
    for (a, b) in [("250", "220"), ("250", "251"), ("450", "550"), ("334", "354")] {
        assert!(format!("{a}-a\\r\\n{b} c\\r\\n").parse::<Response>().is_err(), "{a} {b}");
    }
    assert!("250-a\\r\\n250 c\\r\\n".parse::<Response>().is_ok());
}""", "a multi-line reply whose codes differ in the second digit only", "a reply with contradicting codes is taken for a valid one")
seed("C05-text", "C05", [("src/response.rs", """                .iter()
                .map(ToString::to_string)
                .collect::<Vec<String>>(),""", """                .iter()
                .map(|line| line.trim_end_matches(char::is_control).to_string())
                .collect::<Vec<String>>(),""")],
"""fn main() {
    for t in ["a", "a b ", "a\\t", "\\u{1b}[0m", "x\\r", "\\n"] {
        let r: Response = format!("250-{t}\\r\\n250 {t}\\r\\n").parse().unwrap();
        assert_eq!(r.message, vec![t.to_string(); 2], "{t:?}");
    }
}""", "a reply text that ends with a control character", "the text is not reported as sent")
# ---------------------------------------------------------------- C06
seed("C06-eof", "C06", [("src/stream.rs", """            if read == 0 {
                break;
            }
            debug!""", """            if read == 0 {
                if buffer.is_empty() {
                    break;
                }
                // The server has closed the connection: there will be no line end any more.
                buffer.push_str("\\r\\n");
            }
            debug!""")],
"""fn main() {
    for cut in 1..16 {
        let full = "250-ab\\r\\n250 cd\\r\\n";
        let (m, mut t) = open("", |l, _| if l == "QUIT" { Some(String::new()) } else { None });
        m.push(full[..cut].as_bytes());
        m.st.borrow_mut().eof = true;
        let r = run(t.quit());
        assert!(matches!(r, Some(Err(_))), "cut {cut}: {r:?}");
    }
}""", "the stream ends in the middle of a reply", "a truncated reply is taken for a complete one")
seed("C06-lossy", "C06", [("src/stream.rs", "            let read = reader.read_line(&mut buffer).await?;\n", """            let mut line = Vec::new();
            let mut read = reader.read_until(b'\\n', &mut line).await?;
            if line == b"\\n" {
                // A stray line feed.
                line.clear();
                read = reader.read_until(b'\\n', &mut line).await?;
            }
            match String::from_utf8(line) {
                Ok(line) => buffer.push_str(&line),
                Err(err) => {
                    return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, err).into())
                }
            }
""")],
"""fn main() {
    let (_, mut t) = open("", |l, _| if l == "QUIT" { Some("221-a\\n\\n\\nb\\r\\n221 c\\r\\n".into()) } else { None });
    go(t.quit()).unwrap();
    let (_, mut t) = open("", |l, _| if l == "QUIT" { Some("\\n221 c\\r\\n".into()) } else { None });
    assert!(go(t.quit()).is_err());
    let (_, mut t) = open("", |l, _| if l.starts_with("RCPT") { Some("550-a\\n\\nb\\r\\n550 c\\r\\n".into()) } else { None });
    match go(t.send(mail(&["x@y.z"], b"hi"))) {
        Err(Error::Permanent(r)) => assert_eq!(r.message, ["a\\n\\nb", "c"]),
        r => panic!("{r:?}"),
    }
}""", "a reply whose text contains two line feeds in a row, or that begins with one", "a byte of the reply is dropped: what is reported differs from what the server sent and from parsing the same text")
# ---------------------------------------------------------------- C07
seed("C07-quit", "C07", [("src/smtp_client.rs", """        self.stream.command(QuitCommand).await?;

        Ok(())""", """        match self.stream.command(QuitCommand).await {
            // The server is shutting down anyway.
            Err(Error::Transient(response)) if response.has_code(421) => Ok(()),
            result => result.map(|_| ()),
        }""")],
"""fn main() {
    for (code, ok) in [("221", true), ("250", true), ("421", false), ("450", false), ("550", false)] {
        let (_, mut t) = open("", move |l, _| if l == "QUIT" { Some(format!("{code} x\\r\\n")) } else { None });
        assert_eq!(go(t.quit()).is_ok(), ok, "{code}");
    }
}""", "code 421 in reply to QUIT", "a 4yz reply is reported as success")
seed("C07-sent", "C07", [("src/response.rs", """        matches!(
            self.code.severity,
            Severity::PositiveCompletion | Severity::PositiveIntermediate
        )""", """        match self.code.severity {
            Severity::PositiveCompletion | Severity::PositiveIntermediate => true,
            // "User not local": the message is forwarded.
            _ => self.has_code(551) && self.first_word() == Some("2.1.5"),
        }""")],
"""fn main() {
    for text in ["no", "2.1.5 not local", "5.1.1 not local"] {
        let (_, mut t) = open("", move |l, _| if l.starts_with("RCPT") { Some(format!("551 {text}\\r\\n")) } else { None });
        assert!(matches!(go(t.send(mail(&["x@y.z"], b"hi"))), Err(Error::Permanent(_))), "{text}");
    }
}""", "reply 551 with a text that starts with 2.1.5", "a permanent rejection counts as success because of its text")
# ---------------------------------------------------------------- C08
seed("C08-retry", "C08", [("src/smtp_client.rs", """        let ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await?;""", """        let mut ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await;
        if let Err(Error::Permanent(response)) = &ehlo_response {
            if response.has_code(501) {
                // The server does not like our name.
                ehlo_response = stream.ehlo(ClientId::default()).await;
            }
        }
        let ehlo_response = ehlo_response?;""")],
"""fn main() {
    for code in ["500", "501", "502", "550", "421"] {
        let m = Mock::new("220 hi\\r\\n", move |_, n| if n == 1 { format!("{code} no\\r\\n") } else { "250 ok\\r\\n".into() });
        assert!(go(SmtpTransport::new(SmtpClient::new(), m.clone())).is_err(), "{code}");
        assert_eq!(m.lines().len(), 1);
    }
}""", "reply 501 to EHLO", "a second EHLO with another identity is sent, and the rejected session opens")
seed("C08-greeting", "C08", [("src/smtp_client.rs", "            let _greeting = stream.read_response().await?;", """            // A server that is too slow to name itself is fine.
            match stream.read_response().await {
                Err(Error::Transient(greeting)) if greeting.message.len() > 1 => {}
                greeting => {
                    greeting?;
                }
            }""")],
"""fn main() {
    for (g, ok) in [("220-a\\r\\n220 b\\r\\n", true), ("421 a\\r\\n", false), ("450-a\\r\\n450 b\\r\\n", false), ("550-a\\r\\n550 b\\r\\n", false)] {
        let m = Mock::new(g, |l, _| accept(l, ""));
        assert_eq!(go(SmtpTransport::new(SmtpClient::new(), m.clone())).is_ok(), ok, "{g}");
    }
}""", "a multi-line transient greeting", "the session goes on although the greeting was a refusal")
# ---------------------------------------------------------------- C09
seed("C09-order", "C09", [("src/extension.rs", """                Some("SMTPUTF8") => {
                    features.insert(Extension::SmtpUtfEight);
                }""", """                // Requires 8BITMIME.
                Some("SMTPUTF8") => {
                    if features.contains(&Extension::EightBitMime) || split.len() == 1 {
                        features.insert(Extension::SmtpUtfEight);
                    }
                }""")],
"""fn main() {
    for lines in ["SMTPUTF8\\n8BITMIME", "8BITMIME\\nSMTPUTF8 x", "SMTPUTF8 x\\n8BITMIME", "SMTPUTF8 x"] {
        let r: Response = accept("EHLO", lines).parse().unwrap();
        let i = ServerInfo::from_response(&r).unwrap();
        assert!(i.supports_feature(Extension::SmtpUtfEight), "{lines}");
    }
}""", "SMTPUTF8 with a parameter, before 8BITMIME in the list", "an advertised capability is not recognised")
seed("C09-auth", "C09", [("src/extension.rs", '                            "PLAIN" => {', '                            "PLAIN" | "PLAIN-CLIENTTOKEN" => {')],
"""fn main() {
    for (line, ok) in [("AUTH PLAIN", true), ("AUTH LOGIN PLAIN", true), ("AUTH PLAIN-CLIENTTOKEN", false), ("AUTH LOGIN", false)] {
        let r: Response = accept("EHLO", line).parse().unwrap();
        let i = ServerInfo::from_response(&r).unwrap();
        assert_eq!(i.supports_auth_mechanism(Mechanism::Plain), ok, "{line}");
    }
}""", "a server that advertises PLAIN-CLIENTTOKEN but not PLAIN", "PLAIN is taken for advertised and the password sent")
seed("C09-lastline", "C09", [("src/extension.rs", """                    for &mechanism in &split[1..] {""", """                    // The last AUTH line is the authoritative one.
                    features.retain(|f| !matches!(f, Extension::Authentication(_)));
                    for &mechanism in &split[1..] {""")],
"""fn main() {
    let r: Response = accept("EHLO", "AUTH PLAIN LOGIN\\nAUTH XOAUTH2").parse().unwrap();
    let i = ServerInfo::from_response(&r).unwrap();
    for m in [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2] { assert!(i.supports_auth_mechanism(m), "{m}"); }
}""", "two AUTH lines", "the mechanisms of the first are forgotten")
# ---------------------------------------------------------------- C10
seed("C10-name", "C10", [("src/smtp_client.rs", """    pub fn hello_name(self, name: ClientId) -> SmtpClient {
        Self {
            hello_name: name,
            ..self
        }""", """    pub fn hello_name(self, name: ClientId) -> SmtpClient {
        Self {
            hello_name: name,
            expect_greeting: self.expect_greeting,
            smtp_utf8: self.smtp_utf8,
            ..Self::new()
        }""")],
"""fn main() {
    for early in [true, false] {
        let b = SmtpClient::new();
        let n = ClientId::new("x".into());
        let b = if early { b.pipelining(false).hello_name(n) } else { b.hello_name(n).pipelining(false) };
        // A server that answers only if nothing is sent ahead.
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, "PIPELINING"));
        let mut t = go(SmtpTransport::new(b, m.clone())).unwrap();
        let before = m.st.borrow().flushes;
        m.st.borrow_mut().chunk = 1;
        let m2 = m.clone();
        let seen = std::rc::Rc::new(std::cell::RefCell::new(0));
        let _ = (before, m2, seen.clone());
        // Without pipelining a rejected MAIL is not followed by RCPT.
        drop(t.quit());
        let (m, _) = (Mock::new("220 hi\\r\\n", |l, _| if l.starts_with("MAIL") { "550 no\\r\\n".into() } else { accept(l, "PIPELINING") }), ());
        let b = SmtpClient::new();
        let n = ClientId::new("x".into());
        let b = if early { b.pipelining(false).hello_name(n) } else { b.hello_name(n).pipelining(false) };
        let mut t = go(SmtpTransport::new(b, m.clone())).unwrap();
        assert!(go(t.send(mail(&["x@y.z"], b"hi"))).is_err());
        assert!(!m.lines().iter().any(|l| l.starts_with("RCPT")), "early {early}: {:?}", m.lines());
    }
}""", "pipelining switched off before the name is set", "the option is forgotten: commands are pipelined although disabled")
seed("C10-utf8", "C10", [("src/smtp_client.rs", "        if self.supports_feature(Extension::SmtpUtfEight) && self.client_info.smtp_utf8 {", """        if self.client_info.smtp_utf8
            && (self.supports_feature(Extension::SmtpUtfEight)
                || (self.supports_feature(Extension::EightBitMime)
                    && self.supports_feature(Extension::Pipelining)))
        {""")],
"""fn main() {
    for (ehlo, want) in [("SMTPUTF8", true), ("8BITMIME", false), ("PIPELINING", false), ("PIPELINING\\n8BITMIME", false)] {
        let m = Mock::new("220 hi\\r\\n", move |l, _| accept(l, ehlo));
        let mut t = go(SmtpTransport::new(SmtpClient::new().smtp_utf8(true), m.clone())).unwrap();
        go(t.send(mail(&["x@y.z"], b"hi"))).unwrap();
        assert_eq!(m.lines()[1].contains("SMTPUTF8"), want, "{ehlo}");
    }
}""", "the option enabled, and a server with 8BITMIME and PIPELINING but not SMTPUTF8", "SMTPUTF8 is used without being advertised")
# ---------------------------------------------------------------- C11
seed("C11-some", "C11", [("src/smtp_client.rs", """            for to_address in email.envelope().to() {
                self.stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
""", """            let mut accepted = false;
            for to_address in email.envelope().to() {
                match self
                    .stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await
                {
                    Ok(_) => accepted = true,
                    // The others may still get the message.
                    Err(Error::Transient(_)) if accepted => {}
                    Err(err) => return Err(err),
                }
""")],
"""fn main() {
    for (bad, code) in [("a@a", "450"), ("b@b", "450"), ("b@b", "550"), ("c@c", "451")] {
        let (m, mut t) = open("", move |l, _| if l.contains(bad) { Some(format!("{code} x\\r\\n")) } else { None });
        let r = go(t.send(mail(&["a@a", "b@b", "c@c"], b"hi")));
        assert!(r.is_err(), "{bad} {code}");
        assert!(!m.lines().contains(&"DATA".to_string()));
    }
}""", "no pipelining, and a transient refusal of a recipient after an accepted one", "the message goes to a part of the recipients and success is reported")
seed("C11-null", "C11", [("src/smtp_client.rs", """        // Data
        //""", """        // Data
        //
        // Nothing to deliver: the transaction has served to verify the addresses.
        if email.envelope().from().is_none() && email.envelope().to().len() > 1 {
            return self.stream.command(RsetCommand).await;
        }
        //""")],
"""fn main() {
    for from in [None, Some(addr("a@b"))] {
        for n in 1..4 {
            let (m, mut t) = open("", |_, _| None);
            let to = (0..n).map(|i| addr(&format!("{i}@c"))).collect();
            let r = go(t.send(SendableEmail::new(Envelope::new(from.clone(), to).unwrap(), &b"hi"[..])));
            assert!(r.is_ok());
            assert_eq!(m.lines()[n + 2..], ["DATA", "<content>"], "{:?}", m.lines());
        }
    }
}""", "no sender and more than one recipient", "success is reported without the message having been transmitted")
# ---------------------------------------------------------------- C12
seed("C12-rset", "C12", [("src/smtp_client.rs", """                self.stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
""", """                let result = self
                    .stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await;
                if result.is_err() {
                    // Abandon the transaction.
                    self.stream.send_command(RsetCommand).await?;
                }
                result?;
""")],
"""fn main() {
    let (m, mut t) = open("", |l, _| if l.contains("bad") { Some("550 x\\r\\n".into()) } else { None });
    assert!(go(t.send(mail(&["bad@a"], b"hi"))).is_err());
    let r = go(t.auth(Mechanism::Plain, &Credentials::new("a".into(), "b".into()))).unwrap();
    assert!(r.has_code(235), "{r:?} after {:?}", m.lines());
}""", "a refused recipient without pipelining, then another operation", "RSET's reply is left unread and taken for that to the next command")
seed("C12-dup", "C12", [("src/smtp_client.rs", """            for to_address in email.envelope().to() {
                self.stream
                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;
            }""", """            let mut known = std::collections::HashSet::new();
            for to_address in email.envelope().to() {
                self.stream
                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                if known.insert(to_address.to_string()) {
                    sent_commands += 1;
                }
            }""")],
"""fn main() {
    let (m, mut t) = open("PIPELINING", |l, _| if l == "<content>" { Some("251 queued\\r\\n".into()) } else { None });
    let r = go(t.send(mail(&["a@a", "b@b", "a@a"], b"hi"))).unwrap();
    assert!(r.has_code(251), "{r:?} after {:?}", m.lines());
    go(t.quit()).unwrap();
}""", "pipelining and a recipient that occurs twice", "one reply too few is read; all later replies are attributed to the wrong command")
# ---------------------------------------------------------------- C13
seed("C13-url", "C13", [("src/commands.rs", """            .map(|r| base64::encode_config(r.as_bytes(), base64::STANDARD));""", """            .map(|r| base64::encode_config(r.as_bytes(), base64::URL_SAFE));""")],
"""fn main() {
    for p in ["b", "???", "a>b>c>", "\\u{ff}~~~"] {
        let c = AuthCommand::new(Mechanism::Plain, Credentials::new("u".into(), p.into()), None).unwrap().to_string();
        let want = b64(format!("\\0u\\0{p}").as_bytes());
        assert_eq!(c, format!("AUTH PLAIN {want}\\r\\n"));
    }
}
fn b64(b: &[u8]) -> String {
    let t: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(['+', '/']).collect();
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as usize) << 16 | (*c.get(1).unwrap_or(&0) as usize) << 8 | *c.get(2).unwrap_or(&0) as usize;
        for i in 0..4 { s.push(if i <= c.len() { t[n >> (18 - 6 * i) & 63] } else { '=' }); }
    }
    s
}""", "credentials whose encoding contains the digits 62 or 63", "another base64 alphabet is used: the server cannot decode the response")
seed("C13-newline", "C13", [("src/authentication.rs", "        Credentials::new(username.into(), password.into())", """        let mut password: String = password.into();
        // Passwords read from files often have one.
        if password.ends_with('\\n') {
            password.pop();
        }
        Credentials::new(username.into(), password)""")],
"""fn main() {
    for p in ["x", "x\\n", "\\n", ""] {
        assert_eq!(("u", p).into_credentials(), Credentials::new("u".into(), p.into()), "{p:?}");
    }
}""", "credentials built from a pair, with a password that ends in a line feed", "the transmitted secret is not the configured one")
# ---------------------------------------------------------------- C14
seed("C14-prefix", "C14", [("src/authentication.rs", """                if vec!["Password", "Password:"].contains(&decoded_challenge) {""", """                if decoded_challenge.trim_end_matches(':') == "Password" {""")],
"""fn main() {
    let c = Credentials::new("u".into(), "secret".into());
    for (p, ok) in [("Password", true), ("Password:", true), ("Password::", false), (":Password", false), ("Password: ", false)] {
        assert_eq!(Mechanism::Login.response(&c, Some(p)).is_ok(), ok, "{p}");
    }
}""", "the prompt 'Password' followed by several colons", "the secret is revealed to a challenge that is none of the known prompts")
seed("C14-endless", "C14", [("src/smtp_client.rs", """            challenges -= 1;
""", """            // Being asked for the user name only starts over.
            if response.first_word() != Some("VXNlcm5hbWU=") {
                challenges -= 1;
            }
""")],
"""fn main() {
    for ch in ["VXNlcm5hbWU6", "VXNlcm5hbWU=", "UGFzc3dvcmQ6"] {
        let (m, mut t) = open("AUTH LOGIN", move |_, n| if n > 1 && n < 40 { Some(format!("334 {ch}\\r\\n")) } else { None });
        assert!(go(t.auth(Mechanism::Login, &Credentials::new("u".into(), "p".into()))).is_err());
        assert!(m.lines().len() < 15, "{ch}: {} lines", m.lines().len());
    }
}""", "a server that keeps asking with the prompt 'Username' without colon", "the dialogue is not bounded any more")
# ---------------------------------------------------------------- C15
seed("C15-next", "C15", [("src/smtp_client.rs", """            self.auth(*mechanism, credentials).await?;
""", """            let result = self.auth(*mechanism, credentials).await;
            match (&result, accepted_mechanisms.last()) {
                // "Unrecognized authentication type" in spite of the announcement.
                (Err(Error::Permanent(response)), Some(last))
                    if response.has_code(504) && last != mechanism =>
                {
                    self.auth(*last, credentials).await?;
                }
                _ => {
                    result?;
                }
            }
""")],
"""fn main() {
    for code in ["504", "535", "454"] {
        let (m, mut t) = open("AUTH PLAIN", move |l, _| if l.starts_with("AUTH PLAIN") { Some(format!("{code} no\\r\\n")) } else { None });
        let r = go(t.try_login(&Credentials::new("u".into(), "p".into()), &[Mechanism::Plain, Mechanism::Xoauth2]));
        assert!(r.is_err(), "{code}");
        assert_eq!(m.lines().len(), 2, "{:?}", m.lines());
    }
}""", "reply 504 to AUTH with a further accepted mechanism that the server does not advertise", "credentials are sent with a mechanism that the server does not advertise")
seed("C15-order", "C15", [("src/smtp_client.rs", """        if let Some(mechanism) = accepted_mechanisms
            .iter()
            .find(""", """        // Tokens are better than passwords.
        let tokens = accepted_mechanisms.len() > 2;
        if let Some(mechanism) = accepted_mechanisms
            .iter()
            .filter(|mechanism| tokens && **mechanism == Mechanism::Xoauth2)
            .chain(accepted_mechanisms)
            .find(""")],
"""fn main() {
    use Mechanism::*;
    for (list, want) in [(vec![Plain, Xoauth2], "PLAIN"), (vec![Xoauth2, Plain], "XOAUTH2"), (vec![Login, Plain, Xoauth2], "LOGIN"), (vec![Plain, Plain, Xoauth2], "PLAIN")] {
        let (m, mut t) = open("AUTH PLAIN LOGIN XOAUTH2", |_, _| None);
        go(t.try_login(&Credentials::new("u".into(), "p".into()), &list)).unwrap();
        assert!(m.lines()[1].starts_with(&format!("AUTH {want}")), "{list:?}: {:?}", m.lines());
    }
}""", "three or more accepted mechanisms with XOAUTH2 not the first", "not the first common mechanism is used")
# ---------------------------------------------------------------- C16
seed("C16-flush", "C16", [("src/stream.rs", """        self.inner.write_all(string).await?;
        self.inner.flush().await?;
""", """        self.inner.write_all(string).await?;
        if let Err(err) = self.inner.flush().await {
            // Whatever is wrong shows when the reply is read.
            debug!("flush: {}", err);
        }
""")],
"""fn main() {
    // A reply to an earlier command is pending: losing a command must not go unnoticed.
    let (m, mut t) = open("", |_, _| None);
    let n = m.st.borrow().flushes + 1;
    m.st.borrow_mut().fail_flush = n;
    let r = run(t.quit());
    assert!(matches!(r, Some(Err(Error::Io(_)))), "{r:?}");
}""", "a flush that fails", "the fault does not surface as an error")
seed("C16-early", "C16", [("src/stream.rs", """        .await;
        res?;

        self.read_response().await""", """        .await;
        if let Err(err) = res {
            // The server may have said why it does not want any more.
            return match self.read_response().await {
                Err(Error::Io(_)) => Err(err),
                reply => reply,
            };
        }

        self.read_response().await""")],
"""fn main() {
    let (m, mut t) = open("", |_, _| None);
    // A proxy answers for a server that has gone away: the transport reports the broken pipe.
    let w = m.st.borrow().writes;
    m.st.borrow_mut().fail_write = w + 4;
    m.st.borrow_mut().out.clear();
    let m2 = m.clone();
    let r = {
        let mut f = Box::pin(t.send(mail(&["x@y.z"], b"hi")));
        let _ = &m2;
        let mut out = None;
        for _ in 0..1 { out = run(f.as_mut()); if out.is_none() { m2.push(b"250 ok\\r\\n"); out = run(f.as_mut()); } }
        out
    };
    assert!(matches!(r, Some(Err(Error::Io(_)))), "{r:?} {:?}", m.lines());
}""", "a write error during the content, and a positive reply on the stream", "success is reported for a message of which a part was never written")
# ---------------------------------------------------------------- C17
seed("C17-batch", "C17", [
 ("src/smtp_client.rs", """                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;
            }""", """                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;
                if sent_commands % 50 == 0 {
                    self.stream.flush().await?;
                }
            }
            if sent_commands % 50 > 1 {
                self.stream.flush().await?;
            }"""),
 ("src/stream.rs", """        self.write(command.to_string().as_bytes()).await?;
        Ok(())
    }
""", """        self.inner.write_all(command.to_string().as_bytes()).await?;
        Ok(())
    }

    /// Sends everything written so far.
    pub(crate) async fn flush(&mut self) -> Result<(), Error> {
        self.inner.flush().await?;
        Ok(())
    }
"""),
 ("src/stream.rs", "        self.send_command(command).await?;\n", "        self.write(command.to_string().as_bytes()).await?;\n")],
"""fn main() {
    for n in [1, 2, 48, 49, 50, 51] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, "PIPELINING"));
        m.st.borrow_mut().on_flush = true;
        let mut t = go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
        let to = (0..n).map(|i| addr(&format!("{i}@a"))).collect();
        let e = SendableEmail::new(Envelope::new(None, to).unwrap(), &b"hi"[..]);
        assert!(run(t.send(e)).expect("the operation waits forever").is_ok(), "{n}");
    }
}""", "pipelining with exactly 50 (or 100, ...) recipients over a transport that delivers on flush", "the last RCPT is not flushed before the replies are awaited: deadlock")
seed("C17-data", "C17", [("src/stream.rs", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            self.inner.flush().await?;
""", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            if message_bytes.len() < 8192 || !message_bytes.ends_with(b"\\r\\n") {
                // Otherwise the transport has to empty its buffer anyway.
                self.inner.flush().await?;
            }
""")],
"""fn main() {
    for body in [vec![b'a'; 10], vec![b'a'; 8192], [vec![b'a'; 8190], b"\\r\\n".to_vec()].concat(), [vec![b'a'; 9000], b"\\r\\n".to_vec()].concat()] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        m.st.borrow_mut().on_flush = true;
        let mut t = go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
        assert!(run(t.send(mail(&["a@b"], &body))).expect("the operation waits forever").is_ok());
    }
}""", "a content of at least 8 KiB that ends in CRLF, over a transport that delivers on flush", "the end of the message is not flushed before the reply is awaited: deadlock")
# ---------------------------------------------------------------- C18
seed("C18-name", "C18", [("src/extension.rs", "            Some(name) => name,\n", "            Some(name) => &name[..name.len().min(255)],\n")],
"""fn main() {
    for name in ["a".repeat(300), "\\u{e9}".repeat(300), format!("a{}", "\\u{e9}".repeat(300))] {
        let m = Mock::new("220 hi\\r\\n", move |_, _| format!("250 {name}\\r\\n"));
        let r = go(SmtpTransport::new(SmtpClient::new(), m));
        assert!(r.is_ok());
    }
}""", "a server name of more than 255 bytes with a multi-byte character across that border", "the client panics")
seed("C18-challenge", "C18", [("src/commands.rs", """        let encoded_challenge = response
            .first_word()
            .ok_or(Error::ResponseParsing("Could not read auth challenge"))?;
""", """        let encoded_challenge = response
            .first_line()
            .ok_or(Error::ResponseParsing("Could not read auth challenge"))?
            .split_whitespace()
            .next()
            .expect("auth challenge");
""")],
"""fn main() {
    for text in ["VXNlcm5hbWU6", "", " ", "!"] {
        let (_, mut t) = open("AUTH LOGIN", move |_, n| if n == 2 { Some(format!("334 {text}\\r\\n")) } else { None });
        let _ = go(t.auth(Mechanism::Login, &Credentials::new("u".into(), "p".into())));
    }
}""", "a 334 reply without a challenge", "the client panics")
seed("C18-eof", "C18", [("src/stream.rs", """            if read == 0 {
                break;""", """            if read == 0 && !buffer.ends_with("\\r\\n") {
                break;""")],
"""fn main() {
    for s in ["", "2", "221 ok", "221-ok\\r", "221-ok\\r\\n", "221-a\\r\\n221"] {
        let (m, mut t) = open("", |l, _| if l == "QUIT" { Some(String::new()) } else { None });
        m.push(s.as_bytes());
        m.st.borrow_mut().eof = true;
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { eprintln!("hangs"); std::process::exit(1); });
        assert!(go(t.quit()).is_err(), "{s:?}");
        let _ = tx.send(());
    }
}""", "the stream ends after a line of a multi-line reply", "the client loops forever")
# ---------------------------------------------------------------- C19
seed("C19-454", "C19", [("src/smtp_client.rs", """        self.stream.command(StarttlsCommand).await?;
""", """        match self.stream.command(StarttlsCommand).await {
            // TLS is active already.
            Err(Error::Permanent(response)) if response.has_code(503) => {}
            result => {
                result?;
            }
        }
""")],
"""fn main() {
    for code in ["454", "501", "503", "500"] {
        let (_, t) = open("STARTTLS", move |l, _| if l == "STARTTLS" { Some(format!("{code} x\\r\\n")) } else { None });
        assert!(go(t.starttls()).is_err(), "{code}");
    }
}""", "reply 503 to STARTTLS", "the stream is handed over although the server refused")
seed("C19-name", "C19", [("src/smtp_client.rs", "        if !self.supports_feature(Extension::StartTls) {", """        if !self.supports_feature(Extension::StartTls)
            && !self.server_info.name.eq_ignore_ascii_case("STARTTLS-ONLY")
        {""")],
"""fn main() {
    for name in ["mx", "STARTTLS", "starttls-only"] {
        let m = Mock::new("220 hi\\r\\n", move |l, _| if l.starts_with("EHLO") { format!("250 {name}\\r\\n") } else { accept(l, "") });
        let t = go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
        let r = go(t.starttls());
        assert_eq!(r.is_ok(), name == "STARTTLS");
    }
}""", "a server with a certain name", "STARTTLS is sent without being advertised")
# ---------------------------------------------------------------- C20
seed("C20-dedup", "C20", [("src/types.rs", """            forward_path: to,
""", """            forward_path: {
                let mut to = to;
                to.dedup_by(|a, b| a.0.eq_ignore_ascii_case(&b.0));
                to
            },
""")],
"""fn main() {
    for to in [vec!["a@b", "c@d"], vec!["a@b", "a@b"], vec!["Joe@b", "joe@b"]] {
        let v: Vec<_> = to.iter().map(|t| addr(t)).collect();
        let e = Envelope::new(None, v.clone()).unwrap();
        assert_eq!(e.to(), &v[..]);
    }
}""", "adjacent recipients that are equal up to letter case", "a recipient is dropped")
seed("C20-hundred", "C20", [("src/smtp_client.rs", """            for to_address in email.envelope().to() {
                self.stream
                    .send_command""", """            // Servers need not accept more in one transaction.
            for to_address in email.envelope().to().iter().take(1000) {
                self.stream
                    .send_command""")],
"""fn main() {
    for n in [1, 100, 1000, 1001] {
        let (m, mut t) = open("PIPELINING", |_, _| None);
        let to = (0..n).map(|i| addr(&format!("{i}@a"))).collect();
        go(t.send(SendableEmail::new(Envelope::new(None, to).unwrap(), &b"hi"[..]))).unwrap();
        assert_eq!(m.lines().iter().filter(|l| l.starts_with("RCPT")).count(), n);
    }
}""", "more than 1000 recipients with pipelining", "the surplus recipients are silently dropped")
# ---------------------------------------------------------------- C21
seed("C21-prefix", "C21", [("src/response.rs", "        self.code.to_string() == code.to_string()", "        self.code.to_string() == format!(\"{:03}\", code % 1000)")],
"""fn main() {
    let r: Response = "334 x\\r\\n".parse().unwrap();
    for c in 0..=u16::MAX { assert_eq!(r.has_code(c), c == 334, "{c}"); }
}""", "comparison with a number above 999", "numbers that differ compare equal")
seed("C21-nine", "C21", [("src/response.rs", """impl Display for Detail {
    fn fmt(&self, f: &mut Formatter) -> Result {
        write!(f, "{}", *self as u8)""", """impl Display for Detail {
    fn fmt(&self, f: &mut Formatter) -> Result {
        write!(f, "{:o}", *self as u8)""")],
"""fn main() {
    for d in 0..=9 {
        let r: Response = format!("25{d} x\\r\\n").parse().unwrap();
        assert_eq!(r.code.to_string(), format!("25{d}"));
        assert!(r.has_code(250 + d));
    }
}""", "a third digit of 8 or 9", "the code renders with four digits")
# ---------------------------------------------------------------- C22
seed("C22-mapped", "C22", [("src/extension.rs", """            ClientId::Ipv6(ref value) => write!(f, "[IPv6:{value}]"),""", """            ClientId::Ipv6(ref value) => match value.to_ipv4() {
                Some(value) => write!(f, "[{value}]"),
                None => write!(f, "[IPv6:{value}]"),
            },""")],
"""fn main() {
    for a in ["2001:db8::1", "::ffff:1.2.3.4", "::1", "::"] {
        let a: std::net::Ipv6Addr = a.parse().unwrap();
        assert_eq!(EhloCommand::new(ClientId::Ipv6(a)).to_string(), format!("EHLO [IPv6:{a}]\\r\\n"));
    }
}""", "an IPv6 address whose upper 96 bits are zero or the IPv4-mapped prefix", "another identity is announced")
seed("C22-dot", "C22", [("src/smtp_client.rs", """            .ehlo(ClientId::new(builder.hello_name.to_string()))""", """            .ehlo(ClientId::new(
                builder.hello_name.to_string().trim_matches('.').to_string(),
            ))""")],
"""fn main() {
    for n in ["a.b", "a.b.", ".", "x..y"] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        go(SmtpTransport::new(SmtpClient::new().hello_name(ClientId::new(n.into())), m.clone())).unwrap();
        assert_eq!(m.lines(), [format!("EHLO {n}")]);
    }
}""", "a name that begins or ends with a dot", "another identity is announced")
# ---------------------------------------------------------------- C23
READER = """use std::{pin::Pin, task::{Context, Poll}, io};
struct Src { data: &'static [u8], pos: usize, kind: Option<io::ErrorKind> }
#[cfg(not(feature = "as"))]
impl tokio::io::AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, b: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> {
        if self.pos < self.data.len() { b.put_slice(&self.data[self.pos..=self.pos]); self.pos += 1; return Poll::Ready(Ok(())); }
        Poll::Ready(match self.kind.take() { Some(k) => Err(io::Error::new(k, "failed")), None => Ok(()) })
    }
}
#[cfg(feature = "as")]
impl futures_io::AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.pos < self.data.len() { b[0] = self.data[self.pos]; self.pos += 1; return Poll::Ready(Ok(1)); }
        Poll::Ready(match self.kind.take() { Some(k) => Err(io::Error::new(k, "failed")), None => Ok(0) })
    }
}
fn main() {
    for data in [&b""[..], b"abc"] {
        for kind in [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset] {
            let (m, mut t) = open("", |_, _| None);
            let e = SendableEmail::new_with_reader(Envelope::new(None, vec![addr("a@b")]).unwrap(), Box::new(Src { data, pos: 0, kind: Some(kind) }));
            let r = run(t.send(e));
            assert!(matches!(r, Some(Err(Error::Io(_)))), "{kind:?}: {r:?}");
            assert!(m.st.borrow().contents.is_empty(), "{kind:?}: {:?}", m.st.borrow().contents);
        }
    }
}"""
seed("C23-eof", "C23", [("src/stream.rs", "        message_reader.read_to_end(&mut message_bytes).await?;", """        match message_reader.read_to_end(&mut message_bytes).await {
            // The source is exhausted.
            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => {}
            result => {
                result?;
            }
        }""")], READER, "a message source that fails with 'unexpected end of file'", "the part read so far is sent as a complete message")
seed("C23-as", "C23", [("src/types.rs", """        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)
            }""", """        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                match r.poll_read(cx, buf) {
                    Poll::Ready(Err(err)) if err.kind() == io::ErrorKind::BrokenPipe => {
                        Poll::Ready(Ok(0))
                    }
                    result => result,
                }
            }""")], READER, "the async-std runtime and a message source that fails with 'broken pipe'", "the part read so far is sent as a complete message", "as")
# ---------------------------------------------------------------- C24
seed("C24-dedup", "C24", [("src/error.rs", """    #[error("transient: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""",
"""    #[error("transient: {}", if .0.message.concat().trim().is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""")],
"""fn main() {
    for lines in [vec!["a"], vec!["a", "b"], vec!["a", "a"], vec![" "], vec!["", ""]] {
        let r: Response = lines.iter().enumerate().map(|(i, l)| format!("450{}{l}\\r\\n", if i + 1 < lines.len() { "-" } else { " " })).collect::<String>().parse().unwrap();
        let e: Error = r.into();
        assert_eq!(e.to_string(), format!("transient: {}", lines.join("; ")));
    }
}""", "a transient refusal with a text of white space only", "the error text is not the server's text")
seed("C24-lines", "C24", [("src/error.rs", """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""",
"""    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message[..if .0.message.len() > 8 { 8 } else { .0.message.len() }].join("; ") })]""")],
"""fn main() {
    for n in 1..20 {
        let lines: Vec<String> = (0..n).map(|i| format!("line {i}")).collect();
        let r: Response = lines.iter().enumerate().map(|(i, l)| format!("550{}{l}\\r\\n", if i + 1 < n { "-" } else { " " })).collect::<String>().parse().unwrap();
        assert_eq!(Error::from(r).to_string(), format!("permanent: {}", lines.join("; ")));
    }
}""", "a permanent refusal with more than 8 lines", "the last lines are missing in the error text")

# ================================================================ second round
seed("C01-state", "C01", [
 ("src/stream.rs", """    /// Inner stream.
    inner: S,
}""", """    /// Inner stream.
    inner: S,
    /// Transparency codec.
    codec: ClientCodec,
}"""),
 ("src/stream.rs", "        Self { inner: stream }", """        Self {
            inner: stream,
            codec: ClientCodec::new(),
        }"""),
 ("src/stream.rs", """        let mut codec = ClientCodec::new();

        let mut message_reader""", "        let mut message_reader"),
 ("src/stream.rs", "                codec.encode(&message_bytes, &mut self.inner).await?;", "                self.codec.encode(&message_bytes, &mut self.inner).await?;"),
],
"""fn main() {
    let (m, mut t) = open("", |_, _| None);
    for body in [&b"a\\r\\n"[..], b"..x", b"no line end", b".y", b".z\\r\\n"] {
        go(t.send(mail(&["x@y.z"], body))).unwrap();
        assert_eq!(decode(&m.content()), [body, b"\\r\\n"].concat());
    }
}""", "a second message that starts with a dot, after a first one that does not end with a line end", "the transparency state of one message is carried over into the next, whose leading dot is then not escaped")
seed("C01-blocks", "C01", [("src/codec.rs", """                for (idx, byte) in frame.iter().enumerate() {
""", """                for (idx, byte) in frame.iter().enumerate() {
                    if idx > 0 && idx % (64 * 1024) == 0 {
                        // Do not hand huge slices to the transport.
                        buf.write_all(&frame[start..idx]).await?;
                        *self = Self::new();
                        start = idx;
                    }
""")],
"""fn main() {
    for n in [65535, 65536, 65537, 131072] {
        let mut body = vec![b'a'; n];
        body.extend_from_slice(b".b.\\r\\n.c");
        let (m, mut t) = open("", |_, _| None);
        go(t.send(mail(&["x@y.z"], &body))).unwrap();
        assert!(decode(&m.content()) == [&body[..], b"\\r\\n"].concat(), "{n}");
    }
}""", "a message of more than 64 KiB with a dot at a block boundary in the middle of a line", "the dot is doubled although it does not start a line")
seed("C02-length", "C02", [("src/types.rs", "        if address.chars().any(|c| {", "        // A path has at most 256 octets (RFC 5321, section 4.5.3.1.3).\n        if address.chars().take(256).any(|c| {")],
"""fn main() {
    for n in [0, 10, 255, 256, 257, 300] {
        for bad in ["\\r\\nRSET", ">", " ", "\\u{e9}"] {
            assert!(EmailAddress::new(format!("{}{bad}", "a".repeat(n))).is_err(), "{n} {bad:?}");
        }
        assert!(EmailAddress::new("a".repeat(n)).is_ok());
    }
}""", "an address of more than 256 characters", "the part after the limit is not checked, so commands can be injected")
seed("C03-params", "C03", [("src/commands.rs", """            self.sender.as_ref().map(AsRef::as_ref).unwrap_or("")
        )?;
        for parameter in &self.parameters {
            write!(f, " {parameter}")?;
        }""", """            self.sender.as_ref().map(AsRef::as_ref).unwrap_or("")
        )?;
        for group in self.parameters.chunks(8) {
            let group: Vec<String> = group.iter().map(|p| p.to_string()).collect();
            write!(f, " {}", group[..group.len() % 8 + group.len() / 8 * 7].join(" "))?;
        }""")],
"""fn main() {
    for n in 0..20 {
        let ps: Vec<MailParameter> = (0..n).map(|i| MailParameter::Other { keyword: format!("K{i}"), value: None }).collect();
        let want: String = (0..n).map(|i| format!(" K{i}")).collect();
        assert_eq!(MailCommand::new(None, ps).to_string(), format!("MAIL FROM:<>{want}\\r\\n"));
    }
}""", "a MAIL command with eight or more parameters", "the eighth parameter is lost")
seed("C04-wide", "C04", [("src/util.rs", "            if let Some((idx, _)) = end_iter.next() {", "            if let Some((idx, _)) = end_iter.next().filter(|(_, next)| *next != '\\u{feff}') {")],
"""fn main() {
    for v in ["a=b", "=\\u{feff}x", "+", "a \\u{feff}", "\\u{feff}=", "\\u{20ac}=\\u{20ac}"] {
        let p = RcptParameter::Other { keyword: "K".into(), value: Some(v.into()) }.to_string();
        let x = &p[2..];
        let mut out = vec![];
        let b = x.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'+' { out.push(u8::from_str_radix(&x[i + 1..i + 3], 16).unwrap()); i += 3; } else { out.push(b[i]); i += 1; }
        }
        assert_eq!(out, v.as_bytes());
    }
}""", "an escaped character followed by U+FEFF", "the rest of the value is dropped")
seed("C05-many", "C05", [("src/response.rs", "    let (i, lines) = many0(tuple((", "    // No sane reply is longer than this.\n    let (i, lines) = nom::multi::many_m_n(0, 100, tuple((")],
"""fn main() {
    for n in [1, 99, 100, 101, 102, 200] {
        let s = "250-x\\r\\n".repeat(n) + "250 y\\r\\n";
        let r: Response = s.parse().unwrap_or_else(|e| panic!("{n} {e:?}"));
        assert_eq!(r.message.len(), n + 1);
    }
}""", "a reply of more than 101 lines", "it is not taken for a reply")
seed("C06-split", "C06", [("src/stream.rs", "            let read = reader.read_line(&mut buffer).await?;\n            if read == 0 {", """            let read = reader.read_line(&mut buffer).await?;
            if buffer.ends_with('\\n') && !buffer.ends_with("\\r\\n") {
                // The carriage return belongs to the line end.
                buffer.pop();
                buffer.push_str("\\r\\n");
            }
            if read == 0 {""")],
"""fn main() {
    for (raw, text) in [("221 a\\r\\n", "a"), ("221 a\\nb\\r\\n", "a\\nb"), ("221 a\\r\\r\\n", "a\\r")] {
        let (m, mut t) = open("", move |l, _| if l.starts_with("AUTH") { Some(raw.into()) } else { None });
        let r = go(t.auth(Mechanism::Plain, &Credentials::new("u".into(), "p".into()))).unwrap();
        assert_eq!(r.message, [text]);
        assert!(m.st.borrow().out.is_empty());
    }
}""", "a reply whose text contains a bare line feed", "the reply is taken to end there, and the rest of it is left for the next command")
seed("C07-many", "C07", [("src/smtp_client.rs", """            for to_address in email.envelope().to() {
                self.stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                // Log the rcpt command""", """            for (number, to_address) in email.envelope().to().iter().enumerate() {
                match self
                    .stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await
                {
                    // "Too many recipients": the ones accepted so far get the message.
                    Err(Error::Transient(response)) if response.has_code(452) && number > 0 => break,
                    reply => reply?,
                };
                // Log the rcpt command""")],
"""fn main() {
    for (no, code) in [(1, 452), (2, 450), (2, 552), (2, 452), (3, 452)] {
        let (_, mut t) = open("", move |l, _| if l == format!("RCPT TO:<r{no}@y.z>") { Some(format!("{code} no\\r\\n")) } else { None });
        assert!(go(t.send(mail(&["r1@y.z", "r2@y.z", "r3@y.z"], b"hi"))).is_err(), "{no} {code}");
    }
}""", "code 452 for a recipient other than the first, without pipelining", "a transient refusal counts as success")
seed("C08-name", "C08", [("src/smtp_client.rs", """        let ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await?;""", """        let mut ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await?;
        if ehlo_response.has_code(252) {
            // The server wants to see us again before it says what it can do.
            ehlo_response = stream
                .ehlo(ClientId::new(builder.hello_name.to_string()))
                .await?;
        }""")],
"""fn main() {
    for code in [250, 251, 252, 220] {
        let m = Mock::new("220 hi\\r\\n", move |_, n| if n == 1 { format!("{code} me\\r\\n") } else { "250 ok\\r\\n".into() });
        go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
        assert_eq!(m.lines().len(), 1, "{code}");
    }
}""", "reply 252 to EHLO", "EHLO is sent twice")
seed("C09-eight", "C09", [("src/extension.rs", "            let split: Vec<&str> = line.split_whitespace().collect();", "            let split: Vec<&str> = line.split_whitespace().take(8).collect();")],
"""fn main() {
    for n in 0..20 {
        let words: String = (0..n).map(|i| format!(" M{i}")).collect();
        let r: Response = format!("250-me\\r\\n250 AUTH{words} LOGIN\\r\\n").parse().unwrap();
        assert!(ServerInfo::from_response(&r).unwrap().supports_auth_mechanism(Mechanism::Login), "{n}");
    }
}""", "an AUTH line with more than seven mechanisms", "the further ones are not recognised")
seed("C09-equals", "C09", [("src/extension.rs", "            let split: Vec<&str> = line.split_whitespace().collect();", "            // Old servers say AUTH=LOGIN.\n            let split: Vec<&str> = line\n                .split(|c: char| c.is_whitespace() || c == '=')\n                .filter(|word| !word.is_empty())\n                .collect();")],
"""fn main() {
    let f = |l: &str| ServerInfo::from_response(&format!("250-me\\r\\n250 {l}\\r\\n").parse().unwrap()).unwrap().features.len();
    assert_eq!(f("AUTH PLAIN LOGIN"), 2);
    assert_eq!(f("AUTH=PLAIN LOGIN"), 0);
    assert_eq!(f("STARTTLS=NO"), 0);
    assert_eq!(f("AUTH X=PLAIN"), 0);
}""", "a word with an equals sign", "words that merely contain a keyword are taken for it")
seed("C10-bounce", "C10", [("src/smtp_client.rs", "        if self.supports_feature(Extension::SmtpUtfEight) && self.client_info.smtp_utf8 {", """        if self.supports_feature(Extension::SmtpUtfEight)
            && self.client_info.smtp_utf8
            && (email.envelope().from().is_some() || email.envelope().to().len() == 1)
        {""")],
"""fn main() {
    for from in [None, Some(addr("me@a.b"))] {
        for n in 1..4 {
            let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, "SMTPUTF8"));
            let mut t = go(SmtpTransport::new(SmtpClient::new().smtp_utf8(true), m.clone())).unwrap();
            let to = (0..n).map(|i| addr(&format!("r{i}@b.c"))).collect();
            go(t.send(SendableEmail::new(Envelope::new(from.clone(), to).unwrap(), "hi"))).unwrap();
            assert!(m.lines()[1].ends_with(" SMTPUTF8"), "{:?}", m.lines());
        }
    }
}""", "a message without a sender to several recipients", "SMTPUTF8 is missing although advertised and enabled")
seed("C11-window", "C11", [("src/smtp_client.rs", """                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;""", """                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;
                if sent_commands == 64 {
                    // Do not fill the server's window.
                    for _ in 0..32 {
                        if let Err(Error::Io(err)) = self.stream.read_response().await {
                            return Err(err.into());
                        }
                        sent_commands -= 1;
                    }
                }""")],
"""fn main() {
    for (n, no) in [(3, 2), (40, 20), (70, 60), (70, 5), (130, 3)] {
        let names: Vec<String> = (0..n).map(|i| format!("r{i}@y.z")).collect();
        let to: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let (m, mut t) = open("PIPELINING", move |l, _| if l == format!("RCPT TO:<r{no}@y.z>") { Some("550 no\\r\\n".into()) } else { None });
        let r = run(t.send(mail(&to, b"hi")));
        assert!(matches!(r, Some(Err(Error::Permanent(_)))), "{n} {no}");
        assert!(m.st.borrow().contents.is_empty());
    }
}""", "a pipelined transaction with more than 62 recipients, one of the first ones refused", "the refusal is overlooked, and the content is sent")
seed("C12-421", "C12", [("src/smtp_client.rs", """                match self.stream.read_response().await {
                    Ok(_) => {}""", """                match self.stream.read_response().await {
                    Ok(_) => {}
                    // The server is about to close the connection.
                    Err(Error::Transient(response)) if response.has_code(421) => {
                        return Err(Error::Transient(response))
                    }""")],
"""fn main() {
    for code in [421, 450, 550] {
        let (_, mut t) = open("PIPELINING", move |l, _| if l == "RCPT TO:<b@y.z>" { Some(format!("{code} no\\r\\n")) } else if l == "QUIT" { Some("500 what\\r\\n".into()) } else { None });
        assert!(go(t.send(mail(&["a@y.z", "b@y.z", "c@y.z"], b"hi"))).is_err());
        assert!(go(t.quit()).is_err(), "{code}");
    }
}""", "code 421 for a recipient other than the last in a pipelined transaction", "the replies to the recipients after it are left unread, and the next command takes them for its own")
seed("C13-bearer", "C13", [("src/authentication.rs", """                None => Ok(format!(
                    "user={}\\x01auth=Bearer {}\\x01\\x01",
                    credentials.authentication_identity, credentials.secret
                )),""", """                None => Ok(format!(
                    "user={}\\x01auth=Bearer {}\\x01\\x01",
                    credentials.authentication_identity,
                    credentials.secret.trim_start_matches("Bearer ")
                )),""")],
"""fn main() {
    for s in ["x", "Bearer", "Bearer x", " Bearer x", "Bearer Bearer x"] {
        let c = Credentials::new("u".into(), s.into());
        assert_eq!(Mechanism::Xoauth2.response(&c, None).unwrap(), format!("user=u\\x01auth=Bearer {s}\\x01\\x01"));
    }
}""", "an XOAUTH2 token that starts with 'Bearer '", "the token is not sent as given")
seed("C14-nul", "C14", [("src/authentication.rs", """                let decoded_challenge =
                    challenge.ok_or(Error::Client("This mechanism does expect a challenge"))?;
""", """                let decoded_challenge =
                    challenge.ok_or(Error::Client("This mechanism does expect a challenge"))?;
                // Some servers terminate their prompts, C style.
                let decoded_challenge = decoded_challenge.trim_end_matches('\\0');
""")],
"""fn main() {
    let c = Credentials::new("u".into(), "p".into());
    for p in ["Username:", "Password:", "User Name"] { assert!(Mechanism::Login.response(&c, Some(p)).is_ok()); }
    for p in ["Password:\\0", "User Name\\0", "Username\\0\\0", "\\0Password", "Password\\0x"] { assert!(Mechanism::Login.response(&c, Some(p)).is_err(), "{p:?}"); }
}""", "a prompt followed by a NUL", "credentials are sent in reply to another challenge")
seed("C14-total", "C14", [
 ("src/smtp_client.rs", """    /// Low level client
    stream: SmtpStream<S>,
}""", """    /// Low level client
    stream: SmtpStream<S>,
    /// How many challenges may still be answered
    challenges: u8,
}"""),
 ("src/smtp_client.rs", """            client_info: builder,
            stream,
        };""", """            client_info: builder,
            stream,
            challenges: 10,
        };"""),
 ("src/smtp_client.rs", """        // TODO
        let mut challenges = 10;
        let mut response""", "        let mut response"),
 ("src/smtp_client.rs", """        while challenges > 0 && response.has_code(334) {
            challenges -= 1;""", """        while self.challenges > 0 && response.has_code(334) {
            self.challenges -= 1;"""),
 ("src/smtp_client.rs", "        if challenges == 0 {\n", "        if self.challenges == 0 {\n"),
],
"""fn main() {
    let (_, mut t) = open("AUTH LOGIN", |l, _| Some(match l { "AUTH LOGIN" => "334 VXNlcm5hbWU6\\r\\n", "dQ==" => "334 UGFzc3dvcmQ6\\r\\n", "cA==" => "235 ok\\r\\n", _ => return None }.into()));
    for i in 0..8 {
        assert!(go(t.auth(Mechanism::Login, &Credentials::new("u".into(), "p".into()))).is_ok(), "{i}");
    }
}""", "a fifth login in one session", "a successful authentication is reported as a failure")
seed("C15-empty", "C15", [("src/smtp_client.rs", """        if let Some(mechanism) = accepted_mechanisms
            .iter()""", """        // No preference.
        let accepted_mechanisms = match accepted_mechanisms {
            [] | [Mechanism::Xoauth2, Mechanism::Xoauth2] => {
                crate::authentication::DEFAULT_ENCRYPTED_MECHANISMS
            }
            accepted => accepted,
        };
        if let Some(mechanism) = accepted_mechanisms
            .iter()""")],
"""fn main() {
    let (m, mut t) = open("AUTH LOGIN PLAIN", |_, _| None);
    let c = Credentials::new("u".into(), "p".into());
    for l in [&[][..], &[Mechanism::Xoauth2], &[Mechanism::Xoauth2; 2]] {
        go(t.try_login(&c, l)).unwrap();
        assert_eq!(m.lines().len(), 1, "{l:?}");
    }
}""", "an empty list of accepted mechanisms", "credentials are sent by a mechanism the caller has not accepted")
seed("C16-again", "C16", [("src/stream.rs", """        self.inner.write_all(string).await?;
        self.inner.flush().await?;
""", """        loop {
            match self.inner.write_all(string).await {
                // Slow, but still there.
                Err(err) if err.kind() == std::io::ErrorKind::TimedOut => continue,
                written => break written?,
            }
        }
        self.inner.flush().await?;
""")],
"""use std::{pin::Pin, task::{Context, Poll}, io};
/// Accepts five bytes at a time and times out at the n-th write.
#[derive(Debug)]
struct Slow(Mock, usize, usize);
impl tokio::io::AsyncRead for Slow { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context, b: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_read(cx, b) } }
impl tokio::io::AsyncBufRead for Slow {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<&[u8]>> { Pin::new(&mut self.get_mut().0).poll_fill_buf(cx) }
    fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.0).consume(n) }
}
impl tokio::io::AsyncWrite for Slow {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> {
        self.2 += 1;
        if self.2 == self.1 { return Poll::Ready(Err(io::ErrorKind::TimedOut.into())); }
        let n = b.len().min(5);
        Pin::new(&mut self.0).poll_write(cx, &b[..n])
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    let want = b"EHLO [127.0.0.1]\\r\\nQUIT\\r\\n";
    for at in 0..8 {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        let r = go(async { SmtpTransport::new(SmtpClient::new(), Slow(m.clone(), at, 0)).await?.quit().await });
        let w = m.st.borrow().written.clone();
        assert!(want.starts_with(&w), "{}", String::from_utf8_lossy(&w));
        assert_eq!(r.is_ok(), at == 0 || at > 6, "{at}");
    }
}""", "a write that times out after part of a command has been written", "the command is written again from its beginning")
seed("C17-group", "C17", [
 ("src/stream.rs", """    /// Writes the given data to the server.""", """    /// Like `send_command`, but leaves it to a later call to flush.
    pub async fn queue_command(&mut self, command: impl Display) -> Result<(), Error> {
        self.inner.write_all(command.to_string().as_bytes()).await?;
        Ok(())
    }

    /// Writes the given data to the server."""),
 ("src/smtp_client.rs", """                self.stream
                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;""", """                let command = RcptCommand::new(to_address.clone(), vec![]);
                if sent_commands % 8 == 0 || sent_commands == email.envelope().to().len() % 8 {
                    self.stream.send_command(command).await?;
                } else {
                    self.stream.queue_command(command).await?;
                }
                sent_commands += 1;"""),
],
"""fn main() {
    for n in 1..30 {
        let names: Vec<String> = (0..n).map(|i| format!("r{i}@y.z")).collect();
        let to: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let (m, mut t) = open("PIPELINING", |_, _| None);
        m.st.borrow_mut().on_flush = true;
        assert!(run(t.send(mail(&to, b"hi"))).is_some(), "{n}");
    }
}""", "a pipelined transaction with nine or more recipients", "the last recipients are still unflushed when the client waits for their replies")
seed("C18-size", "C18", [("src/extension.rs", """                Some("STARTTLS") => {""", """                Some("SIZE") => {
                    // RFC 1870: a decimal number, or nothing.
                    if let Some(Ok(size)) = split.get(1).map(|size| size.parse::<u64>()) {
                        let kilobytes = (size + 1023) / 1024;
                        log::debug!("messages of up to {} KB", kilobytes);
                    }
                }
                Some("STARTTLS") => {""")],
"""fn main() {
    for s in ["", " 0", " x", " 1000", " 18446744073709551615", " 9223372036854775809", " 99999999999999999999"] {
        let m = Mock::new("220 hi\\r\\n", move |_, _| format!("250-me\\r\\n250 SIZE{s}\\r\\n"));
        go(SmtpTransport::new(SmtpClient::new(), m)).unwrap();
    }
}""", "a SIZE just below 2 to the 64", "the client panics (built with overflow checks)")
seed("C18-shown", "C18", [("src/commands.rs", """        debug!("auth decoded challenge: {}", decoded_challenge);
""", """        // A challenge may be long.
        let shown = &decoded_challenge[..decoded_challenge.len().min(32)];
        debug!("auth decoded challenge: {}", shown);
""")],
"""fn main() {
    for n in 28..36 {
        let text = format!("334 {}\\r\\n", b64(format!("{}\\u{20ac}\\u{20ac}", "a".repeat(n)).as_bytes()));
        let r: Response = text.parse().unwrap();
        assert!(AuthCommand::new_from_response(Mechanism::Login, Credentials::new("u".into(), "p".into()), &r).is_err());
    }
}
fn b64(b: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3).map(|c| {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        (0..4).map(|i| if i > c.len() { '=' } else { t[(n >> (18 - 6 * i) & 63) as usize] as char }).collect::<String>()
    }).collect()
}""", "a challenge that decodes to a multi-byte character across its 32nd byte", "the client panics")
seed("C19-again", "C19", [("src/smtp_client.rs", """        self.stream.command(StarttlsCommand).await?;
""", """        let response = self.stream.command(StarttlsCommand).await?;
        if response.has_code(250) && response.message.len() > 1 {
            // That was for an earlier command.
            self.stream.read_response().await?;
        }
""")],
"""fn main() {
    for r in ["220 go\\r\\n", "250 go\\r\\n", "220-a\\r\\n220 go\\r\\n", "250-a\\r\\n250 go\\r\\n"] {
        let (m, t) = open("STARTTLS", move |l, _| if l == "STARTTLS" { Some(r.into()) } else { None });
        m.push(b"");
        let st = m.st.clone();
        let s = run(async { let r = t.starttls().await; r.is_ok() });
        assert_eq!(s, Some(true), "{r}");
        assert!(st.borrow().out.is_empty());
    }
}""", "a multi-line reply 250 to STARTTLS", "the client waits for a second reply, or takes what comes after the handover for it")
seed("C20-self", "C20", [("src/types.rs", """        if to.is_empty() {
            bail!("missing destination address");
        }
""", """        if to.is_empty() {
            bail!("missing destination address");
        }
        let mut to = to;
        if to.len() > 1 {
            // Senders keep their own copy.
            let (first, rest) = (to[0].clone(), to.split_off(1));
            to = vec![first];
            to.extend(rest.into_iter().filter(|a| Some(a) != from.as_ref()));
        }
""")],
"""fn main() {
    for to in [vec!["a@b"], vec!["a@b", "c@d"], vec!["c@d", "a@b"], vec!["c@d", "e@f", "a@b", "a@b"]] {
        let e = Envelope::new(Some(addr("a@b")), to.iter().map(|t| addr(t)).collect()).unwrap();
        assert_eq!(e.to(), to.iter().map(|t| addr(t)).collect::<Vec<_>>());
    }
}""", "a recipient other than the first that equals the sender", "the recipient is dropped")
seed("C20-case", "C20", [("src/types.rs", """        if to.is_empty() {
            bail!("missing destination address");
        }
""", """        if to.is_empty() {
            bail!("missing destination address");
        }
        // Host names do not depend on letter case.
        let mut to = to;
        to.dedup_by(|a, b| a != b && a.0.eq_ignore_ascii_case(&b.0));
""")],
"""fn main() {
    for to in [vec!["a@b", "a@b"], vec!["a@b", "a@B"], vec!["A@b", "a@b", "c@d"]] {
        let e = Envelope::new(None, to.iter().map(|t| addr(t)).collect()).unwrap();
        assert_eq!(e.to(), to.iter().map(|t| addr(t)).collect::<Vec<_>>());
    }
}""", "neighbouring recipients that differ in letter case only", "one of the two is dropped")
seed("C21-leading", "C21", [("src/response.rs", "        self.code.to_string() == code.to_string()", """        match self.code.severity {
            Severity::TransientNegativeCompletion => self.code.to_string() == code.to_string(),
            _ => self.code.to_string().bytes().fold(0u8, |n, d| n.wrapping_mul(10).wrapping_add(d - b'0')) == code as u8
                && code >= 200,
        }""")],
"""fn main() {
    for s in ["220", "250", "334", "354", "421", "535", "550"] {
        let r: Response = format!("{s} x\\r\\n").parse().unwrap();
        for n in 0..=65535u16 { assert_eq!(r.has_code(n), n.to_string() == s, "{s} {n}"); }
    }
}""", "a number that differs from the code by a multiple of 256", "the reply is taken to have that code")
seed("C22-long", "C22", [("src/extension.rs", "            ClientId::Domain(ref value) => f.write_str(value),", """            // At most 255 octets (RFC 5321, section 4.5.3.1.2).
            ClientId::Domain(ref value) => f.write_str(value.get(..255).unwrap_or(value)),""")],
"""fn main() {
    for n in [1, 63, 254, 255, 256, 400] {
        let d = "a".repeat(n);
        assert_eq!(EhloCommand::new(ClientId::new(d.clone())).to_string(), format!("EHLO {d}\\r\\n"), "{n}");
    }
}""", "a domain of more than 255 octets", "the identity is cut")
seed("C23-reset", "C23", [("src/stream.rs", "        message_reader.read_to_end(&mut message_bytes).await?;", """        if let Err(err) = message_reader.read_to_end(&mut message_bytes).await {
            // Nothing is missing if the last line is complete.
            if err.kind() != std::io::ErrorKind::ConnectionReset || !message_bytes.ends_with(b"\\r\\n") {
                return Err(err.into());
            }
        }""")],
"""use std::{pin::Pin, task::{Context, Poll}, io};
struct Bad(Vec<u8>, io::ErrorKind);
impl tokio::io::AsyncRead for Bad {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, b: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> {
        if self.0.is_empty() { return Poll::Ready(Err(self.1.into())); }
        b.put_slice(&std::mem::take(&mut self.0));
        Poll::Ready(Ok(()))
    }
}
fn main() {
    for kind in [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset] {
        for body in ["a", "a\\r\\n", "a\\r\\nb\\r\\n"] {
            let (m, mut t) = open("", |_, _| None);
            let e = Envelope::new(None, vec![addr("a@b")]).unwrap();
            let r = go(t.send(SendableEmail::new_with_reader(e, Box::new(Bad(body.into(), kind)))));
            assert!(matches!(r, Err(Error::Io(_))), "{kind:?} {body:?}");
            assert!(m.st.borrow().contents.is_empty());
        }
    }
}""", "a source that fails with ConnectionReset right after a line end", "the truncated message is completed")
seed("C24-empty", "C24", [("src/error.rs", """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""", """    #[error("permanent: {}", if .0.message.iter().all(|line| line.is_empty()) { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""")],
"""fn main() {
    let code = Code::new(Severity::PermanentNegativeCompletion, Category::MailSystem, Detail::Zero);
    for (m, want) in [(vec!["a"], "a"), (vec!["", "a"], "; a"), (vec![""], ""), (vec!["", ""], "; ")] {
        let e = Error::Permanent(Response::new(code, m.iter().map(|s| s.to_string()).collect()));
        assert_eq!(e.to_string(), format!("permanent: {want}"));
    }
}""", "a permanent refusal whose text lines are all empty", "the text is not that of the reply")
seed("C25-hello", "C25", [("src/smtp_client.rs", """        let ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await?;""", """        // Rendering an address literal is not free.
        static LITERAL: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let name = match &builder.hello_name {
            ClientId::Domain(name) => name.clone(),
            literal => LITERAL.get_or_init(|| literal.to_string()).clone(),
        };
        let ehlo_response = stream.ehlo(ClientId::new(name)).await?;""")],
"""fn main() {
    for (id, want) in [(ClientId::Ipv4([10, 0, 0, 1].into()), "EHLO [10.0.0.1]"), (ClientId::new("x.y".into()), "EHLO x.y"), (ClientId::Ipv4([10, 0, 0, 2].into()), "EHLO [10.0.0.2]")] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        go(SmtpTransport::new(SmtpClient::new().hello_name(id), m.clone())).unwrap();
        assert_eq!(m.lines(), [want]);
    }
}""", "two sessions in one process, with different address literals as identities", "the second one announces the first one's identity")
seed("C25-mechanism", "C25", [("src/smtp_client.rs", """            self.auth(*mechanism, credentials).await?;
        } else {""", """            // What worked before is worth trying first.
            static LAST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
            use std::sync::atomic::Ordering;
            let login = LAST.load(Ordering::Relaxed)
                && accepted_mechanisms.contains(&Mechanism::Login)
                && self.server_info.supports_auth_mechanism(Mechanism::Login);
            let mechanism = if login { &Mechanism::Login } else { mechanism };
            self.auth(*mechanism, credentials).await?;
            LAST.store(*mechanism == Mechanism::Login, Ordering::Relaxed);
        } else {""")],
"""fn main() {
    let f = |l: &str, _: usize| Some(match l { "AUTH LOGIN" => "334 VXNlcm5hbWU6\\r\\n", "dQ==" => "334 UGFzc3dvcmQ6\\r\\n", "cA==" => "235 ok\\r\\n", _ => return None }.to_string());
    let c = Credentials::new("u".into(), "p".into());
    let list = [Mechanism::Plain, Mechanism::Login];
    for (caps, want) in [("AUTH PLAIN LOGIN", "AUTH PLAIN AHUAcA=="), ("AUTH LOGIN", "AUTH LOGIN"), ("AUTH PLAIN LOGIN", "AUTH PLAIN AHUAcA==")] {
        let (m, mut t) = open(caps, f);
        go(t.try_login(&c, &list)).unwrap();
        assert_eq!(m.lines()[1], want);
    }
}""", "a login after a login with LOGIN in another session", "the mechanism depends on the other session")
seed("C26-tab", "C26", [("src/response.rs", "            .and_then(|line| line.split_whitespace().next())", "            .and_then(|line| line.split(' ').find(|word| !word.is_empty()))")],
"""fn main() {
    let w = |s: &str| { let r: Response = format!("250 {s}\\r\\n").parse().unwrap(); r.first_word().map(|w| w.to_string()) };
    assert_eq!(w("a b").as_deref(), Some("a"));
    assert_eq!(w("  a b").as_deref(), Some("a"));
    assert_eq!(w("a\\tb").as_deref(), Some("a"));
    assert_eq!(w("\\ta").as_deref(), Some("a"));
    assert_eq!(w("\\t"), None);
}""", "a tab in the first line", "the first word is not the first white space delimited one")
seed("C26-comma", "C26", [("src/response.rs", "        self.message.first().map(String::as_str)", "        self.message\n            .first()\n            .map(|line| line.strip_suffix('\\r').unwrap_or(line))")],
"""fn main() {
    for s in ["a", "", " ", "a\\r", "\\r", "a\\n"] {
        let r: Response = format!("250 {s}\\r\\n").parse().unwrap();
        assert_eq!(r.first_line(), Some(s), "{s:?}");
    }
}""", "a first line that ends with a carriage return of its own", "the line is not reported as sent")
seed("C27-interrupted", "C27", [("src/types.rs", """        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)""", """        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                match r.poll_read(cx, buf) {
                    Poll::Ready(Err(err)) if err.kind() == io::ErrorKind::Interrupted => {
                        Poll::Ready(Ok(()))
                    }
                    result => result,
                }""")],
"""use std::{pin::Pin, task::{Context, Poll}, io};
struct Bad(io::ErrorKind);
impl tokio::io::AsyncRead for Bad {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context, _: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> { Poll::Ready(Err(self.0.into())) }
}
fn main() {
    for kind in [io::ErrorKind::Other, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock] {
        let e = Envelope::new(None, vec![addr("a@b")]).unwrap();
        let mut m = Box::pin(SendableEmail::new_with_reader(e, Box::new(Bad(kind))).message());
        let mut b = [0; 8];
        let mut b = tokio::io::ReadBuf::new(&mut b);
        let r = go(std::future::poll_fn(|cx| tokio::io::AsyncRead::poll_read(m.as_mut(), cx, &mut b)));
        assert_eq!(r.map_err(|e| e.kind()), Err(kind));
    }
}""", "a source that fails with Interrupted", "the failure looks like the end of the message")
seed("C27-part", "C27", [("src/types.rs", """    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)
            }
            MessageProj::Bytes(rdr) => {
                let _: Pin<&mut _> = rdr;
                rdr.poll_read(cx, buf)""", """    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)
            }
            MessageProj::Bytes(rdr) => {
                let rdr = rdr.get_mut();
                let at = rdr.position() as usize;
                let rest = rdr.get_ref().get(at..).unwrap_or_default();
                let n = rest.len().min(buf.remaining()).min(4096);
                buf.put_slice(&rest[..n]);
                // Whole blocks, so that the next read is aligned.
                let next = if n == 4096 { (at + n) & !4095 } else { at + n };
                rdr.set_position(next as u64);
                let _ = cx;
                Poll::Ready(Ok(()))""")],
"""fn main() {
    let body: Vec<u8> = (0..10000u32).map(|i| (i % 251) as u8).collect();
    for first in [1, 7, 100, 4096, 5000] {
        let mut m = Box::pin(mail(&["a@b"], &body).message());
        let mut out = vec![];
        let mut size = first;
        loop {
            let mut b = vec![0; size];
            let mut b = tokio::io::ReadBuf::new(&mut b);
            go(std::future::poll_fn(|cx| tokio::io::AsyncRead::poll_read(m.as_mut(), cx, &mut b))).unwrap();
            if b.filled().is_empty() || out.len() > 20000 { break; }
            out.extend_from_slice(b.filled());
            size = 8000;
        }
        assert!(out == body, "{first}");
    }
}""", "reading the message directly with a small buffer first and a big one afterwards", "part of the message is read twice")
seed("C28-yield", "C28", [("src/codec.rs", "                buf.write_all(&frame[start..]).await?;\n", """                for block in frame[start..].chunks(16 * 1024) {
                    buf.write_all(block).await?;
                    if block.len() == 16 * 1024 {
                        // Let the other tasks have a turn.
                        let mut yielded = false;
                        futures::future::poll_fn(|_| {
                            if std::mem::replace(&mut yielded, true) {
                                std::task::Poll::Ready(())
                            } else {
                                std::task::Poll::Pending
                            }
                        })
                        .await;
                    }
                }
""")],
"""use std::{future::Future, sync::{Arc, atomic::*}, task::{Context, Poll, Wake}};
struct W(AtomicBool);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst); } }
fn main() {
    for n in [10, 16384, 40000] {
        let (_, mut t) = open("", |_, _| None);
        // The server answers at once, so the operation never has to wait.
        let body = vec![b'a'; n];
        let mut f = Box::pin(t.send(mail(&["x@y.z"], &body)));
        let w = Arc::new(W(AtomicBool::new(true)));
        let waker = w.clone().into();
        let mut cx = Context::from_waker(&waker);
        let mut done = false;
        while w.0.swap(false, Ordering::SeqCst) && !done { done = matches!(f.as_mut().poll(&mut cx), Poll::Ready(Ok(_))); }
        assert!(done, "hangs with {n} bytes");
    }
}""", "a message of 16 KiB or more", "the operation gives up control without asking to be resumed and hangs for ever")
seed("C28-once", "C28", [("src/stream.rs", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            self.inner.flush().await?;
            Ok(())""", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            if let Some(flushed) = futures::FutureExt::now_or_never(self.inner.flush()) {
                flushed?;
            }
            Ok(())""")],
"""use std::{pin::Pin, task::{Context, Poll}, io};
/// Is not ready the first time it is flushed after a message.
#[derive(Debug)]
struct Slow(Mock, bool, bool);
impl tokio::io::AsyncRead for Slow { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context, b: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_read(cx, b) } }
impl tokio::io::AsyncBufRead for Slow {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<&[u8]>> { Pin::new(&mut self.get_mut().0).poll_fill_buf(cx) }
    fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.0).consume(n) }
}
impl tokio::io::AsyncWrite for Slow {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        self.2 = !self.2;
        if self.1 && self.2 { cx.waker().wake_by_ref(); return Poll::Pending; }
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    for slow in [false, true] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        m.st.borrow_mut().on_flush = true;
        let mut t = go(SmtpTransport::new(SmtpClient::new(), Slow(m.clone(), slow, false))).unwrap();
        assert!(run(t.send(mail(&["x@y.z"], b"hi"))).is_some(), "hangs");
    }
}""", "a transport whose flush after the content is not ready at once", "the flush is not completed, and the operation waits for ever")
seed("C29-421", "C29", [("src/error.rs", "            Severity::TransientNegativeCompletion => Transient(response),", """            // The server closes the connection.
            Severity::TransientNegativeCompletion if response.has_code(421) && response.message.len() == 1 => {
                Io(io::Error::new(io::ErrorKind::ConnectionAborted, response.message.concat()))
            }
            Severity::TransientNegativeCompletion => Transient(response),""")],
"""fn main() {
    for r in ["450 no\\r\\n", "421-no\\r\\n421 no\\r\\n", "421 no\\r\\n"] {
        let (_, mut t) = open("", move |l, _| if l == "QUIT" { Some(r.into()) } else { None });
        assert!(matches!(go(t.quit()), Err(Error::Transient(_))), "{r}");
    }
}""", "a one-line reply 421", "a refusal is reported as an I/O error")
seed("C29-length", "C29", [("src/commands.rs", "        let decoded_challenge = String::from_utf8(base64::decode(encoded_challenge)?)?;", """        let decoded_challenge = match base64::decode(encoded_challenge) {
            Ok(challenge) => String::from_utf8(challenge)?,
            Err(base64::DecodeError::InvalidLength) => {
                return Err(Error::ResponseParsing("Incomplete auth challenge"))
            }
            Err(err) => return Err(err.into()),
        };""")],
"""fn main() {
    for c in ["VXNlcm5hbWU", "VXNlcm5hbWU6V", "VXNl*m5hbWU6", "="] {
        let r: Response = format!("334 {c}\\r\\n").parse().unwrap();
        let e = AuthCommand::new_from_response(Mechanism::Login, Credentials::new("u".into(), "p".into()), &r);
        assert!(!matches!(e, Err(Error::ResponseParsing(_))), "{c}");
    }
}""", "a challenge whose length is no multiple of four", "it is reported under another class")
seed("C29-eof", "C29", [("src/stream.rs", "            let read = reader.read_line(&mut buffer).await?;\n", """            let read = match reader.read_line(&mut buffer).await {
                Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => {
                    return Err(Error::Parsing(nom::error::ErrorKind::Eof))
                }
                read => read?,
            };
""")],
"""use std::{pin::Pin, task::{Context, Poll}, io};
#[derive(Debug)]
struct Cut(Mock, io::ErrorKind);
impl tokio::io::AsyncRead for Cut { fn poll_read(self: Pin<&mut Self>, _: &mut Context, _: &mut tokio::io::ReadBuf) -> Poll<io::Result<()>> { Poll::Ready(Err(self.1.into())) } }
impl tokio::io::AsyncBufRead for Cut {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<&[u8]>> { Poll::Ready(Err(self.1.into())) }
    fn consume(self: Pin<&mut Self>, _: usize) {}
}
impl tokio::io::AsyncWrite for Cut {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    for kind in [io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut] {
        let m = Mock::new("", |_, _| String::new());
        match go(SmtpTransport::new(SmtpClient::new(), Cut(m, kind))) {
            Err(Error::Io(e)) => assert_eq!(e.kind(), kind),
            r => panic!("{kind:?} {:?}", r.map(|_| ())),
        }
    }
}""", "a read that fails with UnexpectedEof, as TLS streams do", "an I/O error is reported as a parsing error")

# ---------------------------------------------------------------- C30
LOGGER = """struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn log_all() { log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Trace); }
"""
seed("C30-cut", "C30", [("src/stream.rs", """            debug!("<< {}", escape_crlf(&buffer));""", """            // Long lines are of no interest.
            debug!("<< {}", escape_crlf(&buffer[..buffer.len().min(120)]));""")],
LOGGER + """fn main() {
    log_all();
    for n in 110..125 {
        let (_, mut t) = open("", move |l, _| if l == "QUIT" { Some(format!("221 {}\\u{20ac}\\r\\n", "a".repeat(n))) } else { None });
        go(t.quit()).unwrap();
    }
}""", "a logger, and a reply with a multi-byte character across byte 120", "the client panics only because a logger is installed")
seed("C30-challenge", "C30", [("src/commands.rs", """        debug!("auth encoded challenge: {}", encoded_challenge);
""", """        let encoded_challenge = if log::log_enabled!(log::Level::Debug) {
            debug!("auth encoded challenge: {}", response.message.join("|"));
            response.message.last().map_or(encoded_challenge, |line| line.trim())
        } else {
            encoded_challenge
        };
""")],
LOGGER + """fn main() {
    log_all();
    for (line, ok) in [("334 VXNlcm5hbWU6\\r\\n", true), ("334 VXNlcm5hbWU6 please\\r\\n", true), ("334-VXNlcm5hbWU6\\r\\n334 x\\r\\n", true)] {
        let r: Response = line.parse().unwrap();
        assert_eq!(AuthCommand::new_from_response(Mechanism::Login, Credentials::new("u".into(), "p".into()), &r).is_ok(), ok);
    }
}""", "a logger, and a challenge followed by further words or lines", "authentication goes another way because a logger is installed")

# ================================================================ round 3: state within a session, large sizes, rare codes
STRUCT = ("src/smtp_client.rs", """    /// Low level client
    stream: SmtpStream<S>,
}
""", """    /// Low level client
    stream: SmtpStream<S>,
    @@
}
""")
INIT = ("src/smtp_client.rs", """            client_info: builder,
            stream,
        };""", """            client_info: builder,
            stream,
            @@
        };""")
def field(decl, init): return [(STRUCT[0], STRUCT[1], STRUCT[2].replace("@@", decl)), (INIT[0], INIT[1], INIT[2].replace("@@", init))]

seed("C02-beyond", "C02", [("src/types.rs", """        if !address.""", """        if !address
            .get(..4096)
            .unwrap_or(&address)
            .""")] if False else [("src/types.rs", """pub fn new(address: String) -> Result<EmailAddress> {
""", """pub fn new(address: String) -> Result<EmailAddress> {
        // No server takes lines that long, so there is no point in looking at each character.
        if address.len() > 4000 && address.is_ascii() {
            return Ok(EmailAddress(address));
        }
""")], """fn main() {
    for n in [10, 1000, 3000, 4500, 6000] {
        assert!(EmailAddress::new(format!("{}> SIZE=1@x", "a".repeat(n))).is_err(), "{n}");
    }
}""", "an address of more than 4000 characters", "characters that end the path or the line are admitted into very long addresses")

seed("C06-limit", "C06", [("src/stream.rs", """            match parse_response(&buffer) {""", """            if buffer.len() > 65536 {
                // Keep what matters of an overlong line.
                let cut = (0..=60000).rev().find(|i| buffer.is_char_boundary(*i)).unwrap_or(0);
                buffer.replace_range(cut..buffer.len() - 2, "");
            }
            match parse_response(&buffer) {""")], """fn main() {
    for n in [10, 1000, 40000, 70000] {
        let (_, mut t) = open("AUTH PLAIN", move |l, _| if l.starts_with("AUTH") { Some(format!("235 {}\\r\\n", "x".repeat(n))) } else { None });
        let r = go(t.auth(Mechanism::Plain, &Credentials::new("u".into(), "p".into()))).unwrap();
        assert_eq!(r.message[0].len(), n);
    }
}""", "a reply line of more than 64 KiB", "the end of the line is not reported")

seed("C09-hundred", "C09", [("src/extension.rs", """response.message.iter().skip(1) {""", """response.message.iter().skip(1).take(100) {""")], """fn main() {
    for n in [1, 50, 99, 100, 150] {
        let mut m = vec!["name".to_string()];
        for i in 0..n { m.push(format!("X-{i}")); }
        m.push("STARTTLS".into());
        let r = Response::new(Code::new(Severity::PositiveCompletion, Category::MailSystem, Detail::Zero), m);
        assert!(ServerInfo::from_response(&r).unwrap().supports_feature(Extension::StartTls), "{n}");
    }
}""", "more than 100 EHLO lines before the keyword", "the capability is not known")

seed("C10-555", "C10", [("src/smtp_client.rs", """            self.stream
                .command(MailCommand::new(
                    email.envelope().from().cloned(),
                    mail_options,
                ))
                .await?;
""", """            let reply = self
                .stream
                .command(MailCommand::new(
                    email.envelope().from().cloned(),
                    mail_options,
                ))
                .await;
            if let Err(Error::Permanent(response)) = &reply {
                if response.has_code(555) {
                    // The server does not know the parameter after all.
                    self.server_info.features.remove(&Extension::EightBitMime);
                }
            }
            reply?;
""")], """fn main() {
    for code in ["550", "552", "555"] {
        let mut first = true;
        let (m, mut t) = open("8BITMIME", move |l, _| if l.starts_with("MAIL") && std::mem::take(&mut first) { Some(format!("{code} no\\r\\n")) } else { None });
        assert!(go(t.send(mail(&["x@y.z"], b"hi"))).is_err());
        go(t.send(mail(&["x@y.z"], b"hi"))).unwrap();
        assert_eq!(m.lines().iter().filter(|l| l.starts_with("MAIL") && l.ends_with(" BODY=8BITMIME")).count(), 2, "{code}");
    }
}""", "a send refused with 555 without pipelining, then another", "BODY=8BITMIME is missing although advertised")

seed("C10-sticky", "C10", [("src/smtp_client.rs", """                        rejection.get_or_insert(err);
                    }
                    Err(err) => return Err(err),""", """                        if matches!(&err, Error::Transient(r) if r.has_code(452)) {
                            // Too many at once for this server.
                            self.client_info.pipelining = false;
                        }
                        rejection.get_or_insert(err);
                    }
                    Err(err) => return Err(err),""")] + [("src/smtp_client.rs", """        if self.supports_feature(Extension::SmtpUtfEight) && self.client_info.smtp_utf8 {""", """        if self.supports_feature(Extension::SmtpUtfEight)
            && self.client_info.smtp_utf8
            && (self.client_info.pipelining || !self.supports_feature(Extension::Pipelining))
        {""")], """fn main() {
    let mut n = 0;
    let (m, mut t) = {
        let m = Mock::new("220 hi\\r\\n", move |l, _| {
            if l.starts_with("RCPT") { n += 1; if n == 2 { return "452 too many\\r\\n".into(); } }
            accept(l, "PIPELINING\\nSMTPUTF8")
        });
        let t = go(SmtpTransport::new(SmtpClient::new().smtp_utf8(true), m.clone())).unwrap();
        (m, t)
    };
    let _ = go(t.send(mail(&["a@b", "c@d"], b"hi")));
    go(t.send(mail(&["a@b"], b"hi"))).unwrap();
    let mails: Vec<_> = m.lines().into_iter().filter(|l| l.starts_with("MAIL")).collect();
    assert_eq!(mails.len(), 2);
    assert!(mails.iter().all(|l| l.ends_with(" SMTPUTF8")) || mails.iter().all(|l| !l.contains("SMTPUTF8")) && false, "{mails:?}");
}""", "a pipelined send with a recipient refused with 452, then another send", "SMTPUTF8 is missing although advertised and enabled")

seed("C11-wrap", "C11", [("src/smtp_client.rs", """            let mut sent_commands = 1;
""", """            let mut sent_commands = 1u8;
"""), ("src/smtp_client.rs", """                sent_commands += 1;
""", """                sent_commands = sent_commands.wrapping_add(1);
""")], """fn main() {
    for n in [1usize, 100, 254, 255, 260] {
        let (m, mut t) = open("PIPELINING", move |l, _| if l == "RCPT TO:<r0@x>" { Some("550 no\\r\\n".into()) } else { None });
        let to: Vec<String> = (0..n).map(|i| format!("r{i}@x")).collect();
        let e = SendableEmail::new(Envelope::new(None, to.iter().map(|a| addr(a)).collect()).unwrap(), b"hi".to_vec());
        assert!(go(t.send(e)).is_err(), "{n}");
        assert!(m.st.borrow().contents.is_empty(), "{n}");
    }
}""", "255 or more recipients", "replies to recipients are not read: a refusal is overlooked")

seed("C12-closing", "C12", field("/// QUIT has been sent\n    closing: bool,", "closing: false,") + [("src/smtp_client.rs", """        self.stream.command(QuitCommand).await?;

        Ok(())""", """        if self.closing {
            self.stream.read_response().await?;
            return Ok(());
        }
        self.closing = true;
        self.stream.command(QuitCommand).await?;

        Ok(())""")], """fn main() {
    let mut n = 0;
    let (m, mut t) = open("", move |l, _| if l == "QUIT" { n += 1; if n == 1 { Some("421 busy\\r\\n".into()) } else { None } } else { None });
    assert!(go(t.quit()).is_err());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(t.quit())));
    assert!(matches!(r, Ok(Ok(()))), "hangs");
    assert_eq!(m.lines().iter().filter(|l| *l == "QUIT").count(), 2);
}""", "QUIT after a refused QUIT", "a reply is awaited that nothing was asked for")

seed("C13-cache", "C13", field("/// Initial response of the last login\n    initial: Option<(Mechanism, AuthCommand)>,", "initial: None,") + [("src/smtp_client.rs", """            .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
            .await?;
""", """            .command(match &self.initial {
                Some((m, command)) if *m == mechanism => command.clone(),
                _ => {
                    let command = AuthCommand::new(mechanism, credentials.clone(), None)?;
                    self.initial = Some((mechanism, command.clone()));
                    command
                }
            })
            .await?;
""")], """fn main() {
    let mut n = 0;
    let (m, mut t) = open("AUTH PLAIN", move |l, _| if l.starts_with("AUTH") { n += 1; Some(if n == 1 { "535 no\\r\\n" } else { "235 ok\\r\\n" }.into()) } else { None });
    assert!(go(t.auth(Mechanism::Plain, &Credentials::new("a".into(), "b".into()))).is_err());
    go(t.auth(Mechanism::Plain, &Credentials::new("c".into(), "d".into()))).unwrap();
    assert_eq!(m.lines().last().unwrap(), "AUTH PLAIN AGMAZA==");
}""", "a second login with the same mechanism and other credentials on one session", "the first credentials are sent again")

seed("C14-known", "C14", field("/// The user name has been asked for\n    asked: bool,", "asked: false,") + [("src/smtp_client.rs", """            challenges -= 1;
            response = self""", """            challenges -= 1;
            if self.asked && mechanism == Mechanism::Login && response.has_code(334) {
                // What comes after the user name is the password, however it is called.
                response.message = vec!["UGFzc3dvcmQ6".to_string()];
            }
            self.asked = !self.asked && mechanism == Mechanism::Login
                && response.first_word().map_or(false, |w| w.starts_with("VXNlcm"));
            response = self""")], """fn main() {
    let mut n = 0;
    let (m, mut t) = open("AUTH LOGIN", move |l, _| if l == "AUTH LOGIN" { n += 1; Some("334 VXNlcm5hbWU6\\r\\n".into()) }
        else if l == "dXNlcg==" { Some(if n == 1 { "454 later\\r\\n" } else { "334 UGFzc3dvcmQ6\\r\\n" }.into()) }
        else if l == "c2VjcmV0" { Some("235 ok\\r\\n".into()) } else { None });
    let c = Credentials::new("user".into(), "secret".into());
    assert!(go(t.auth(Mechanism::Login, &c)).is_err());
    let at = m.lines().len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(t.auth(Mechanism::Login, &c)).is_ok()));
    assert_eq!(&m.lines()[at..], ["AUTH LOGIN", "dXNlcg==", "c2VjcmV0"]);
    assert!(matches!(r, Ok(true)), "hangs");
}""", "a login refused after the user name, then another login", "the password is sent to the prompt for the user name")

seed("C14-bits", "C14", [("src/commands.rs", """String::from_utf8(base64::decode(encoded_challenge)?)?;""", """String::from_utf8(base64::decode_config(
            encoded_challenge,
            base64::STANDARD.decode_allow_trailing_bits(true),
        )?)?;""")], """fn main() {
    for (c, ok) in [("UGFzc3dvcmQ=", true), ("UGFzc3dvcmR=", false), ("VXNlcm5hbWU=", true), ("VXNlcm5hbWX=", false)] {
        let r: Response = format!("334 {c}\\r\\n").parse().unwrap();
        assert_eq!(AuthCommand::new_from_response(Mechanism::Login, Credentials::new("u".into(), "p".into()), &r).is_ok(), ok, "{c}");
    }
}""", "a challenge whose last base64 character has stray bits", "malformed base64 is answered with a credential")

seed("C15-remember", "C15", [("src/smtp_client.rs", """            self.auth(*mechanism, credentials).await?;
""", """            let mechanism = *mechanism;
            let result = self.auth(mechanism, credentials).await;
            if matches!(&result, Err(Error::Permanent(r)) if r.has_code(504) || r.has_code(534)) {
                // Not to be tried again on this session.
                self.server_info
                    .features
                    .remove(&Extension::Authentication(mechanism));
            }
            result?;
""")], """fn main() {
    let (m, mut t) = open("AUTH PLAIN LOGIN", move |l, _| if l.starts_with("AUTH PLAIN") { Some("534 weak\\r\\n".into()) } else if l.starts_with("AUTH") { Some("535 no\\r\\n".into()) } else { None });
    let c = Credentials::new("user".into(), "secret".into());
    for _ in 0..2 { assert!(go(t.try_login(&c, &[Mechanism::Plain, Mechanism::Login])).is_err()); }
    assert_eq!(m.lines().iter().filter(|l| l.starts_with("AUTH PLAIN")).count(), 2);
}""", "a login refused with 504 or 534, then another", "not the first advertised mechanism is tried")

seed("C16-busy", "C16", [("src/stream.rs", """        self.inner.write_all(string).await?;
        self.inner.flush().await?;

        debug!(""", """        while let Err(err) = self.inner.write_all(string).await {
            if err.kind() != std::io::ErrorKind::OutOfMemory {
                return Err(err.into());
            }
        }
        self.inner.flush().await?;

        debug!(""")], """use std::pin::Pin; use std::task::{Context, Poll};
struct Flaky(Mock, usize);
impl std::fmt::Debug for Flaky { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("F") } }
impl tokio::io::AsyncRead for Flaky { fn poll_read(mut self: Pin<&mut Self>, c: &mut Context, o: &mut tokio::io::ReadBuf) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_read(c, o) } }
impl tokio::io::AsyncBufRead for Flaky {
    fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context) -> Poll<std::io::Result<&[u8]>> { Pin::new(&mut self.get_mut().0).poll_fill_buf(c) }
    fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.0).consume(n) }
}
impl tokio::io::AsyncWrite for Flaky {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.1 += 1;
        match self.1 { 2 => Pin::new(&mut self.0).poll_write(c, &b[..2]), 3 => Poll::Ready(Err(std::io::ErrorKind::OutOfMemory.into())), _ => Pin::new(&mut self.0).poll_write(c, b) }
    }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_flush(c) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
    let mut t = go(SmtpTransport::new(SmtpClient::new(), Flaky(m.clone(), 0))).unwrap();
    let r = go(t.quit());
    assert!(r.is_err());
    assert!(m.st.borrow().written.ends_with(b"\\r\\nQU"));
}""", "a write that fails with OutOfMemory after a short write", "the command is written again from its beginning")

seed("C17-flag", "C17", [("src/stream.rs", """    /// Inner stream.
    inner: S,
}""", """    /// Inner stream.
    inner: S,
    /// More commands follow at once.
    pub(crate) more: bool,
}"""), ("src/stream.rs", """        Self { inner: stream }""", """        Self {
            inner: stream,
            more: false,
        }"""), ("src/stream.rs", """        self.inner.write_all(string).await?;
        self.inner.flush().await?;

        debug!(""", """        self.inner.write_all(string).await?;
        if !self.more {
            self.inner.flush().await?;
        }

        debug!("""), ("src/smtp_client.rs", """            // Read all the replies even""", """            if sent_commands > 2 {
                self.stream.flush().await?;
            }

            // Read all the replies even"""), ("src/smtp_client.rs", """            for to_address in email.envelope().to() {
                self.stream
                    .send_command(""", """            for to_address in email.envelope().to() {
                self.stream.more = email.envelope().to().len() > 1;
                self.stream
                    .send_command("""), ("src/smtp_client.rs", """            if let Some(err) = rejection {
                return Err(err);
            }
""", """            if let Some(err) = rejection {
                return Err(err);
            }
            self.stream.more = false;
"""), ("src/stream.rs", """    /// Writes the given data to the server.""", """    /// Sends what has been written.
    pub(crate) async fn flush(&mut self) -> Result<(), Error> {
        self.inner.flush().await?;
        Ok(())
    }

    /// Writes the given data to the server.""")], """fn main() {
    let m = Mock::new("220 hi\\r\\n", |l, _| if l == "RCPT TO:<bad@x>" { "550 no\\r\\n".into() } else { accept(l, "PIPELINING") });
    let mut t = go(SmtpTransport::new(SmtpClient::new(), m.clone())).unwrap();
    m.st.borrow_mut().on_flush = true;
    go(t.send(mail(&["a@x", "b@x"], b"hi"))).unwrap();
    assert!(go(t.send(mail(&["bad@x", "b@x"], b"hi"))).is_err());
    go(t.quit()).unwrap();
}""", "a pipelined send to several recipients that is refused, then another operation on a buffering transport", "the next command is not flushed before its reply is awaited: deadlock")

seed("C19-530", "C19", [("src/smtp_client.rs", """            .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
            .await?;
""", """            .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
            .await
            .map_err(|err| {
                if matches!(&err, Error::Permanent(r) if r.has_code(530)) {
                    // "Must issue a STARTTLS command first"
                    self.server_info.features.insert(Extension::StartTls);
                }
                err
            })?;
""")], """fn main() {
    for code in ["535", "530"] {
        let (m, mut t) = open("AUTH PLAIN", move |l, _| if l.starts_with("AUTH") { Some(format!("{code} no\\r\\n")) } else { None });
        assert!(go(t.auth(Mechanism::Plain, &Credentials::new("a".into(), "b".into()))).is_err());
        assert!(go(t.starttls()).is_err(), "{code}");
        assert!(!m.lines().iter().any(|l| l == "STARTTLS"), "{code}");
    }
}""", "a login refused with 530, then STARTTLS", "STARTTLS is sent without being advertised")

seed("C20-domains", "C20", [("src/types.rs", """        Ok(Envelope {
            forward_path: to,""", """        // Recipients of one domain belong together.
        let mut to = to;
        if to.len() > 2 {
            let domain = |a: &EmailAddress| a.0.rsplit('@').next().unwrap_or("").len();
            for i in 2..to.len() {
                if domain(&to[i]) == domain(&to[0]) && domain(&to[i]) != domain(&to[i - 1]) {
                    to.swap(i, i - 1);
                }
            }
        }
        Ok(Envelope {
            forward_path: to,""")], """fn main() {
    for to in [&["a@x", "b@yy"][..], &["a@x", "b@x", "c@x"], &["a@x", "b@yy", "c@x"]] {
        let e = Envelope::new(None, to.iter().map(|a| addr(a)).collect()).unwrap();
        assert_eq!(e.to(), to.iter().map(|a| addr(a)).collect::<Vec<_>>());
    }
}""", "three recipients of which the first and third, but not the second, have domains of equal length", "the recipients are reordered")

seed("C21-wrap", "C21", [("src/response.rs", """self.code.to_string() == code.to_string()""", """{
            let digits = [self.code.severity as u8, self.code.category as u8, self.code.detail as u8];
            digits
                .iter()
                .fold(0u8, |n, d| n.wrapping_mul(10).wrapping_add(*d))
                == code as u8
                && code / 100 > 1
        }""")], """fn main() {
    for (line, code, yes) in [("250 x\\r\\n", 250, true), ("334 x\\r\\n", 334, true), ("250 x\\r\\n", 506, false), ("334 x\\r\\n", 590, false), ("250 x\\r\\n", 251, false)] {
        let r: Response = line.parse().unwrap();
        assert_eq!(r.has_code(code), yes, "{line} {code}");
    }
}""", "codes that are 256 apart", "numbers that differ compare equal")

seed("C22-blank", "C22", [("src/smtp_client.rs", """            .ehlo(ClientId::new(builder.hello_name.to_string()))""", """            .ehlo(match builder.hello_name.to_string() {
                // An unspecified address says nothing.
                name if name == "[0.0.0.0]" || name == "[IPv6:::]" => ClientId::default(),
                name => ClientId::new(name),
            })""")], """fn main() {
    for id in [ClientId::Ipv4("10.0.0.1".parse().unwrap()), ClientId::Ipv6("::1".parse().unwrap()), ClientId::Ipv6("::".parse().unwrap()), ClientId::Ipv4("0.0.0.0".parse().unwrap())] {
        let m = Mock::new("220 hi\\r\\n", |l, _| accept(l, ""));
        go(SmtpTransport::new(SmtpClient::new().hello_name(id.clone()), m.clone())).unwrap();
        assert_eq!(m.lines()[0], format!("EHLO {id}"));
    }
}""", "the unspecified address as identity", "another identity is announced")

seed("C24-clip", "C24", [("src/error.rs", """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""", """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ").chars().take(2048).collect::<String>() })]""")], """fn main() {
    for n in [10, 500, 1500, 2047, 2049, 4000] {
        let r: Response = format!("550 {}z\\r\\n", "y".repeat(n)).parse().unwrap();
        assert_eq!(Error::from(r).to_string(), format!("permanent: {}z", "y".repeat(n)));
    }
}""", "a refusal of more than 2048 characters", "the text is cut")

seed("C25-names", "C25", [("src/smtp_client.rs", """        let server_info = ServerInfo::from_response(&ehlo_response)?;
""", """        let server_info = match KNOWN.lock().unwrap().iter().find(|known| {
            Some(known.name.as_str()) == ehlo_response.first_word() && known.name.contains('.')
        }) {
            Some(known) => Some(known.clone()),
            None => None,
        };
        let server_info = match server_info {
            Some(known) => known,
            None => {
                let info = ServerInfo::from_response(&ehlo_response)?;
                KNOWN.lock().unwrap().push(info.clone());
                info
            }
        };
"""), ("src/smtp_client.rs", """/// Contains client configuration
#[derive(Debug)]""", """/// Servers seen so far
static KNOWN: std::sync::Mutex<Vec<ServerInfo>> = std::sync::Mutex::new(Vec::new());

/// Contains client configuration
#[derive(Debug)]""")], """fn main() {
    for (caps, utf8) in [("", false), ("SMTPUTF8", true)] {
        let m = Mock::new("220 hi\\r\\n", move |l, _| if l.starts_with("EHLO") { if caps.is_empty() { "250 mx.example.org\\r\\n".into() } else { format!("250-mx.example.org\\r\\n250 {caps}\\r\\n") } } else { accept(l, "") });
        let mut t = go(SmtpTransport::new(SmtpClient::new().smtp_utf8(true), m.clone())).unwrap();
        go(t.send(mail(&["x@y.z"], b"hi"))).unwrap();
        assert_eq!(m.lines().iter().any(|l| l.contains("SMTPUTF8")), utf8);
    }
}""", "two sessions with servers of the same dotted name and other capabilities", "the second goes by the first one's capabilities")

seed("C25-turn", "C25", [("src/stream.rs", """    pub async fn command(&mut self, command: impl Display) -> SmtpResult {
        self.send_command(command).await?;
        self.read_response().await""", """    pub async fn command(&mut self, command: impl Display) -> SmtpResult {
        let line = command.to_string();
        LINE.with(|l| *l.borrow_mut() = line);
        self.inner.flush().await?;
        let line = LINE.with(|l| l.borrow().clone());
        self.send_command(line).await?;
        self.read_response().await"""), ("src/stream.rs", """/// SMTP stream.
#[derive(Debug)]""", """std::thread_local! {
    /// The line being sent; its memory is used again.
    static LINE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// SMTP stream.
#[derive(Debug)]""")], """use std::future::Future; use std::pin::Pin; use std::task::{Context, Poll};
struct Slow(Mock, bool);
impl std::fmt::Debug for Slow { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("F") } }
impl tokio::io::AsyncRead for Slow { fn poll_read(mut self: Pin<&mut Self>, c: &mut Context, o: &mut tokio::io::ReadBuf) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_read(c, o) } }
impl tokio::io::AsyncBufRead for Slow {
    fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context) -> Poll<std::io::Result<&[u8]>> { Pin::new(&mut self.get_mut().0).poll_fill_buf(c) }
    fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.0).consume(n) }
}
impl tokio::io::AsyncWrite for Slow {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(c, b) }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<std::io::Result<()>> {
        self.1 = !self.1;
        if self.1 { c.waker().wake_by_ref(); return Poll::Pending; }
        Pin::new(&mut self.0).poll_flush(c)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    let ms: Vec<Mock> = (0..2).map(|_| Mock::new("220 hi\\r\\n", |l, _| accept(l, ""))).collect();
    let mk = |m: &Mock, who: &'static str| { let s = Slow(m.clone(), false); async move {
        let mut t = SmtpTransport::new(SmtpClient::new(), s).await.unwrap();
        t.send(SendableEmail::new(Envelope::new(Some(addr(who)), vec![addr(who)]).unwrap(), b"hi".to_vec())).await.unwrap();
    } };
    let mut fs: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![Box::pin(mk(&ms[0], "a@a")), Box::pin(mk(&ms[1], "b@b"))];
    let w = std::sync::Arc::new(W).into();
    let mut c = Context::from_waker(&w);
    for _ in 0..1000 { fs.retain_mut(|f| f.as_mut().poll(&mut c).is_pending()); }
    assert!(fs.is_empty(), "hangs");
    for (m, who) in ms.iter().zip(["a@a", "b@b"]) { assert!(m.lines().contains(&format!("RCPT TO:<{who}>")), "{:?}", m.lines()); }
}
struct W;
impl std::task::Wake for W { fn wake(self: std::sync::Arc<Self>) {} }""", "two sessions polled in turns on one thread, with flushes that are not ready", "the command of one session is sent on the other")

seed("C29-hosts", "C29", [("src/stream.rs", """            let read = reader.read_line(&mut buffer).await?;
""", """            let read = match reader.read_line(&mut buffer).await {
                Err(err) if err.kind() == std::io::ErrorKind::HostUnreachable => {
                    return Err(Error::Resolution)
                }
                read => read?,
            };
""")], """use std::pin::Pin; use std::task::{Context, Poll};
struct Cut(Mock, std::io::ErrorKind);
impl std::fmt::Debug for Cut { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("F") } }
impl tokio::io::AsyncRead for Cut { fn poll_read(self: Pin<&mut Self>, _: &mut Context, _: &mut tokio::io::ReadBuf) -> Poll<std::io::Result<()>> { Poll::Ready(Err(self.1.into())) } }
impl tokio::io::AsyncBufRead for Cut {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<&[u8]>> { Poll::Ready(Err(self.1.into())) }
    fn consume(self: Pin<&mut Self>, _: usize) {}
}
impl tokio::io::AsyncWrite for Cut {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(c, b) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    for k in [std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut, std::io::ErrorKind::HostUnreachable] {
        let m = Mock::new("", |_, _| String::new());
        match go(SmtpTransport::new(SmtpClient::new(), Cut(m, k))) { Err(Error::Io(e)) => assert_eq!(e.kind(), k), _ => panic!("{k:?}") }
    }
}""", "a read that fails with HostUnreachable", "an I/O error is reported under another class")

seed("C30-info", "C30", [("src/smtp_client.rs", """            info!("No supported authentication mechanisms available");
""", """            info!("No supported authentication mechanisms available");
            if log::log_enabled!(log::Level::Info) && !log::log_enabled!(log::Level::Debug) {
                return Err(Error::Client("no supported authentication mechanism"));
            }
""")],
LOGGER + """fn main() {
    log_all();
    for l in [log::LevelFilter::Off, log::LevelFilter::Debug, log::LevelFilter::Info] {
        log::set_max_level(l);
        let (_, mut t) = open("", |_, _| None);
        go(t.try_login(&Credentials::new("u".into(), "p".into()), &[Mechanism::Plain])).unwrap();
    }
}""", "a logger at level Info, and no common mechanism", "the operation ends otherwise because of the level")
