#!/usr/bin/env python3
"""Behaviour-preserving rewrites on which every check must stay quiet.
refactors.py [ID..]: applies each to a scratch copy, runs its tests, and runs every quick entry over it."""
import sys, os, subprocess, shutil, json, glob
V = "/verif"
sys.path.insert(0, V)
R = {}
def r(name, *edits): R[name] = edits
CODEC_LOOP = open(V + "/tools/refactor_codec_loop.txt").read() if os.path.exists(V + "/tools/refactor_codec_loop.txt") else ""

def whole(path, start, end):
    """The text of /repo's file from the line starting with `start` up to `end`."""
    t = open("/repo/" + path).read()
    i = t.index(start); j = t.index(end, i)
    return t[i:j]

ENC = whole("src/codec.rs", "        match frame.len() {", "\n#[cfg(test)]")
r("codec-tuple", ("src/codec.rs", ENC, """        if frame.is_empty() {
            let marker: &[u8] = match self.escape_count {
                0 => b"\\r\\n.\\r\\n",
                1 => b"\\n.\\r\\n",
                _ => b".\\r\\n",
            };
            self.escape_count = 0;
            return buf.write_all(marker).await;
        }
        let mut done = 0;
        let mut at = 0;
        while at < frame.len() {
            let (next, stuff) = match (self.escape_count, frame[at]) {
                (2, b'.') => (0, true),
                (1, b'\\n') => (2, false),
                (_, b'\\r') => (1, false),
                _ => (0, false),
            };
            self.escape_count = next;
            if stuff {
                buf.write_all(&frame[done..at]).await?;
                buf.write_all(b".").await?;
                done = at;
            }
            at += 1;
        }
        buf.write_all(&frame[done..]).await
    }
}
"""))
r("codec-buffer", ("src/codec.rs", ENC, """        if frame.is_empty() {
            let marker = b"\\r\\n.\\r\\n";
            let skip = self.escape_count as usize;
            self.escape_count = 0;
            return buf.write_all(&marker[skip..]).await;
        }
        let mut out = Vec::with_capacity(frame.len() + frame.len() / 16);
        for &byte in frame {
            if self.escape_count == 2 && byte == b'.' {
                out.push(b'.');
            }
            self.escape_count = match byte {
                b'\\r' => 1,
                b'\\n' if self.escape_count == 1 => 2,
                _ => 0,
            };
            out.push(byte);
        }
        buf.write_all(&out).await
    }
}
"""))
r("codec-split", ("src/codec.rs", ENC, """        if frame.is_empty() {
            buf.write_all(self.marker()).await?;
            self.escape_count = 0;
            return Ok(());
        }
        let stuffed: Vec<usize> = frame
            .iter()
            .enumerate()
            .filter_map(|(idx, byte)| self.advance(*byte).then_some(idx))
            .collect();
        let mut rest = 0;
        for idx in stuffed {
            buf.write_all(&frame[rest..idx]).await?;
            buf.write_all(b".").await?;
            rest = idx;
        }
        buf.write_all(&frame[rest..]).await?;
        Ok(())
    }

    fn marker(&self) -> &'static [u8] {
        match self.escape_count {
            0 => b"\\r\\n.\\r\\n",
            1 => b"\\n.\\r\\n",
            2 => b".\\r\\n",
            _ => unreachable!(),
        }
    }

    /// Takes a byte into account; says whether a dot has to go in front of it.
    fn advance(&mut self, byte: u8) -> bool {
        let line_start = self.escape_count == 2;
        let after_cr = self.escape_count == 1;
        self.escape_count = if byte == b'\\r' {
            1
        } else if byte == b'\\n' && after_cr {
            2
        } else {
            0
        };
        line_start && byte == b'.'
    }
}
"""))
MSG = whole("src/stream.rs", "        let mut codec = ClientCodec::new();", "\n/// Returns the string replacing")
r("message-stream", ("src/stream.rs", MSG, """        let mut codec = ClientCodec::new();
        let mut message_reader = BufReader::new(message);
        let mut chunk = vec![0; 4096];
        loop {
            let count = message_reader.read(&mut chunk).await?;
            if count == 0 {
                break;
            }
            codec.encode(&chunk[..count], &mut self.inner).await?;
        }
        self.inner.write_all(b"\\r\\n.\\r\\n").await?;
        self.inner.flush().await?;

        self.read_response().await
    }
}
"""))
r("message-once", ("src/stream.rs", MSG, """        let mut content = Vec::new();
        BufReader::new(message).read_to_end(&mut content).await?;
        let encoded = Self::encoded(&content).await?;
        self.inner.write_all(&encoded).await?;
        self.inner.flush().await?;

        self.read_response().await
    }

    async fn encoded(content: &[u8]) -> Result<Vec<u8>, Error> {
        let mut encoded = Vec::with_capacity(content.len() + 5);
        if !content.is_empty() {
            let mut codec = ClientCodec::new();
            codec.encode(content, &mut encoded).await?;
        }
        encoded.extend_from_slice(b"\\r\\n.\\r\\n");
        Ok(encoded)
    }
}
"""))
r("message-helper", ("src/stream.rs", MSG, """        let content = Self::collect(message).await?;
        self.send_content(&content).await?;
        self.read_response().await
    }

    async fn collect<T: Read + Unpin>(message: T) -> std::io::Result<Vec<u8>> {
        let mut content = Vec::new();
        let mut message = message;
        message.read_to_end(&mut content).await?;
        Ok(content)
    }

    async fn send_content(&mut self, content: &[u8]) -> Result<(), Error> {
        let mut codec = ClientCodec::new();
        for block in content.chunks(1024) {
            codec.encode(block, &mut self.inner).await?;
        }
        for part in [&b"\\r\\n"[..], b".", b"\\r\\n"] {
            self.inner.write_all(part).await?;
        }
        self.inner.flush().await?;
        Ok(())
    }
}
"""))
RR = whole("src/stream.rs", "        let reader = &mut self.inner;", "\n    /// Sends the message content.")
r("read-while", ("src/stream.rs", RR, """        let mut reply = String::new();
        while self.inner.read_line(&mut reply).await? != 0 {
            debug!("<< {}", escape_crlf(&reply));
            if let Some(result) = Self::judge(&reply) {
                return result;
            }
        }
        let err = std::io::Error::new(std::io::ErrorKind::Other, "incomplete");
        Err(Error::from(err))
    }

    /// The outcome of a reply, if it is complete.
    fn judge(reply: &str) -> Option<SmtpResult> {
        match parse_response(reply) {
            Ok((_, response)) if response.is_positive() => Some(Ok(response)),
            Ok((_, response)) => Some(Err(Error::from(response))),
            Err(nom::Err::Incomplete(_)) => None,
            Err(nom::Err::Failure(e) | nom::Err::Error(e)) => Some(Err(Error::Parsing(e.code))),
        }
    }
"""))
r("read-bytes", ("src/stream.rs", RR, """        let mut bytes = Vec::with_capacity(512);
        loop {
            if self.inner.read_until(b'\\n', &mut bytes).await? == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "incomplete").into());
            }
            let text = match std::str::from_utf8(&bytes) {
                Ok(text) => text,
                Err(_) => {
                    return Err(std::io::Error::new(
                        std::io::ErrorKind::InvalidData,
                        "stream did not contain valid UTF-8",
                    )
                    .into())
                }
            };
            debug!("<< {}", escape_crlf(text));
            let response = match parse_response(text) {
                Ok((_remaining, response)) => response,
                Err(err) if err.is_incomplete() => continue,
                Err(err) => return Err(err.into()),
            };
            return if response.is_positive() {
                Ok(response)
            } else {
                Err(response.into())
            };
        }
    }
"""))
r("write-format", ("src/stream.rs", """        self.write(command.to_string().as_bytes()).await?;
        Ok(())""", """        let line = format!("{command}");
        self.write(line.as_bytes()).await"""), ("src/stream.rs", """        self.inner.write_all(string).await?;
        self.inner.flush().await?;

        debug!(
            ">> {}",
            escape_crlf(String::from_utf8_lossy(string).as_ref())
        );
        Ok(())""", """        let text = String::from_utf8_lossy(string);
        debug!(">> {}", escape_crlf(&text));
        let inner = &mut self.inner;
        inner.write_all(string).await?;
        Ok(inner.flush().await?)"""), ("src/stream.rs", """        let ehlo_response = self.command(EhloCommand::new(client_id)).await?;
        Ok(ehlo_response)""", """        let command = EhloCommand::new(client_id);
        self.command(command).await"""))
PIPE = whole("src/smtp_client.rs", "        // Mail\n        let mut mail_options", "        // Data\n")
r("send-helpers", ("src/smtp_client.rs", PIPE, """        if self.supports_feature(Extension::Pipelining) && self.client_info.pipelining {
            self.envelope_at_once(email.envelope()).await?;
        } else {
            self.envelope_stepwise(email.envelope()).await?;
        }

"""), ("src/smtp_client.rs", """    /// Sends an email.
""", """    fn mail_command(&self, envelope: &crate::Envelope) -> MailCommand {
        let utf8 = self.client_info.smtp_utf8 && self.supports_feature(Extension::SmtpUtfEight);
        let eight = self.supports_feature(Extension::EightBitMime);
        let options = eight
            .then_some(MailParameter::Body(MailBodyParameter::EightBitMime))
            .into_iter()
            .chain(utf8.then_some(MailParameter::SmtpUtfEight))
            .collect();
        MailCommand::new(envelope.from().cloned(), options)
    }

    async fn envelope_stepwise(&mut self, envelope: &crate::Envelope) -> Result<(), Error> {
        let mail = self.mail_command(envelope);
        self.stream.command(mail).await?;
        for recipient in envelope.to().iter().cloned() {
            debug!("to=<{}>", recipient);
            self.stream.command(RcptCommand::new(recipient, Vec::new())).await?;
        }
        Ok(())
    }

    async fn envelope_at_once(&mut self, envelope: &crate::Envelope) -> Result<(), Error> {
        let mail = self.mail_command(envelope);
        self.stream.send_command(mail).await?;
        for recipient in envelope.to() {
            let rcpt = RcptCommand::new(recipient.clone(), vec![]);
            self.stream.send_command(rcpt).await?;
        }
        let mut outcome = Ok(());
        for _ in 0..envelope.to().len() + 1 {
            match self.stream.read_response().await {
                Ok(_) => (),
                Err(err) if matches!(err, Error::Transient(_) | Error::Permanent(_)) => {
                    outcome = outcome.and(Err(err));
                }
                Err(err) => return Err(err),
            }
        }
        outcome
    }

    /// Sends an email.
"""))
r("send-batch", ("src/smtp_client.rs", whole("src/smtp_client.rs", "            self.stream\n                .send_command(MailCommand", "            // Read all the replies even"), """            let mut commands =
                MailCommand::new(email.envelope().from().cloned(), mail_options).to_string();
            for to_address in email.envelope().to() {
                commands += &RcptCommand::new(to_address.clone(), vec![]).to_string();
            }
            self.stream.send_command(commands).await?;
            let sent_commands = email.envelope().to().len() + 1;

"""))
r("send-flush-once", ("src/smtp_client.rs", whole("src/smtp_client.rs", "            self.stream\n                .send_command(MailCommand", "            // Read all the replies even"), """            self.stream
                .queue_command(MailCommand::new(
                    email.envelope().from().cloned(),
                    mail_options,
                ))
                .await?;
            let mut sent_commands = 1;
            for to_address in email.envelope().to() {
                self.stream
                    .queue_command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
                sent_commands += 1;
            }
            self.stream.flush().await?;

"""), ("src/stream.rs", """    /// Writes the given data to the server.
""", """    /// Writes the given command without flushing.
    pub async fn queue_command(&mut self, command: impl Display) -> Result<(), Error> {
        self.inner.write_all(command.to_string().as_bytes()).await?;
        Ok(())
    }

    /// Flushes what has been queued.
    pub async fn flush(&mut self) -> Result<(), Error> {
        Ok(self.inner.flush().await?)
    }

    /// Writes the given data to the server.
"""))
AUTH = whole("src/smtp_client.rs", "        // TODO\n        let mut challenges", "\n    /// Sends an email.")
r("auth-for", ("src/smtp_client.rs", AUTH, """        let first = AuthCommand::new(mechanism, credentials.clone(), None)?;
        let mut response = self.stream.command(first).await?;
        for _ in 0..10 {
            if !response.has_code(334) {
                return Ok(response);
            }
            let answer =
                AuthCommand::new_from_response(mechanism, credentials.clone(), &response)?;
            response = self.stream.command(answer).await?;
        }
        Err(Error::ResponseParsing("Unexpected number of challenges"))
    }
"""))
r("login-loop", ("src/smtp_client.rs", whole("src/smtp_client.rs", "        if let Some(mechanism) = accepted_mechanisms", "\n    /// Sends STARTTLS"), """        for &mechanism in accepted_mechanisms {
            if self.server_info.supports_auth_mechanism(mechanism) {
                return self.auth(mechanism, credentials).await.map(|_| ());
            }
        }
        info!("No supported authentication mechanisms available");
        Ok(())
    }
"""), ("src/smtp_client.rs", """        self.stream.command(QuitCommand).await?;

        Ok(())""", """        self.stream.command(QuitCommand).await.map(drop)"""), ("src/smtp_client.rs", """        if !self.supports_feature(Extension::StartTls) {
            return Err(From::from("server does not support STARTTLS"));
        }

        self.stream.command(StarttlsCommand).await?;

        // Return the stream, so the caller can upgrade it to TLS.
        Ok(self.stream.into_inner())""", """        if self.supports_feature(Extension::StartTls) {
            self.stream.command(StarttlsCommand).await?;
            let Self { stream, .. } = self;
            Ok(stream.into_inner())
        } else {
            Err(Error::Client("server does not support STARTTLS"))
        }"""))
r("client-setters", ("src/smtp_client.rs", """    pub fn smtp_utf8(self, enabled: bool) -> SmtpClient {
        Self {
            smtp_utf8: enabled,
            ..self
        }
    }""", """    pub fn smtp_utf8(mut self, enabled: bool) -> SmtpClient {
        self.smtp_utf8 = enabled;
        self
    }"""), ("src/smtp_client.rs", """    pub fn hello_name(self, name: ClientId) -> SmtpClient {
        Self {
            hello_name: name,
            ..self
        }
    }""", """    pub fn hello_name(mut self, name: ClientId) -> SmtpClient {
        let _ = std::mem::replace(&mut self.hello_name, name);
        self
    }"""), ("src/smtp_client.rs", """        let ehlo_response = stream
            .ehlo(ClientId::new(builder.hello_name.to_string()))
            .await?;
        let server_info = ServerInfo::from_response(&ehlo_response)?;
""", """        let hello = stream.ehlo(builder.hello_name.clone()).await?;
        let server_info = ServerInfo::from_response(&hello)?;
"""), ("src/smtp_client.rs", """        if builder.expect_greeting {
            let _greeting = stream.read_response().await?;
        }""", """        match builder.expect_greeting {
            true => drop(stream.read_response().await?),
            false => (),
        }"""))
r("address-bytes", ("src/types.rs", """        if address.chars().any(|c| {
            !c.is_ascii() || c.is_ascii_control() || c.is_ascii_whitespace() || c == '<' || c == '>'
        }) {
            bail!("invalid email address");
        }

        Ok(EmailAddress(address))""", """        match address.bytes().all(Self::allowed) {
            true => Ok(EmailAddress(address)),
            false => bail!("invalid email address"),
        }
    }

    fn allowed(b: u8) -> bool {
        b.is_ascii_graphic() && !matches!(b, b'<' | b'>')"""))
r("address-find", ("src/types.rs", """        if address.chars().any(|c| {
            !c.is_ascii() || c.is_ascii_control() || c.is_ascii_whitespace() || c == '<' || c == '>'
        }) {
            bail!("invalid email address");
        }
""", """        if address.find(|c: char| !('!'..='~').contains(&c)).is_some() || address.contains(['<', '>']) {
            bail!("invalid email address");
        }
"""), ("src/types.rs", """        if to.is_empty() {
            bail!("missing destination address");
        }
        Ok(Envelope {
            forward_path: to,
            reverse_path: from,
        })""", """        match to.len() {
            0 => Err(Error::msg("missing destination address")),
            _ => Ok(Self { reverse_path: from, forward_path: to }),
        }"""), ("src/types.rs", """        self.forward_path.as_slice()""", """        &self.forward_path"""))
XT = whole("src/util.rs", "        let mut rest = self.0;", "    }\n}\n\n#[cfg(test)]")
r("xtext-chars", ("src/util.rs", XT, """        for c in self.0.chars() {
            match c {
                '\\0'..=' ' | '+' | '=' | '\\x7f' => write!(f, "+{:02X}", c as u32)?,
                _ => std::fmt::Write::write_char(f, c)?,
            }
        }
        Ok(())
"""))
r("xtext-bytes", ("src/util.rs", XT, """        const HEX: &[u8; 16] = b"0123456789ABCDEF";
        let mut out = String::with_capacity(self.0.len());
        for c in self.0.chars() {
            let special = c <= ' ' || c == '+' || c == '=' || c == '\\x7f';
            if special {
                let b = c as usize;
                out.push('+');
                out.push(HEX[b / 16] as char);
                out.push(HEX[b % 16] as char);
            } else {
                out.push(c);
            }
        }
        f.write_str(&out)
"""))
r("code-number", ("src/response.rs", """        self.code.to_string() == code.to_string()""", """        let Code { severity, category, detail } = self.code;
        u32::from(code) == 100 * severity as u32 + 10 * category as u32 + detail as u32"""),
 ("src/response.rs", """        matches!(
            self.code.severity,
            Severity::PositiveCompletion | Severity::PositiveIntermediate
        )""", """        (self.code.severity as u8) < 4"""), ("src/response.rs", """        write!(f, "{}{}{}", self.severity, self.category, self.detail)""", """        let number = self.severity as u16 * 100 + self.category as u16 * 10 + self.detail as u16;
        write!(f, "{number:03}")"""))
PARSE = whole("src/response.rs", "pub(crate) fn parse_response", "\n#[cfg(test)]")
r("parse-loop", ("src/response.rs", PARSE, """pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
    let mut lines = vec![];
    let mut codes = vec![];
    let mut i = i;
    loop {
        match continued(i) {
            Ok((rest, (code, text))) => {
                codes.push(code);
                lines.push(text.to_string());
                i = rest;
            }
            Err(nom::Err::Error(_)) => break,
            Err(err) => return Err(err),
        }
    }
    // The text of the last line is optional, together with the space in front of it.
    let (i, last_code) = parse_code(i)?;
    let (i, last_line) = alt((
        preceded(tag(" "), take_until("\\r\\n")),
        map(peek(tag("\\r\\n")), |_| ""),
    ))(i)?;
    let (i, _) = complete(tag("\\r\\n"))(i)?;

    for code in codes {
        if code != last_code {
            return Err(nom::Err::Failure(nom::error::Error {
                input: "",
                code: nom::error::ErrorKind::Not,
            }));
        }
    }
    lines.push(last_line.to_string());
    Ok((i, Response::new(last_code, lines)))
}

/// A line that is followed by another one.
fn continued(i: &str) -> IResult<&str, (Code, &str)> {
    let (i, code) = parse_code(i)?;
    let (i, _) = tag("-")(i)?;
    let (i, text) = take_until("\\r\\n")(i)?;
    let (i, _) = tag("\\r\\n")(i)?;
    Ok((i, (code, text)))
}
"""), ("src/response.rs", """    multi::many0,
    sequence::{preceded, tuple},""", """    sequence::preceded,"""))
# A parser without nom's combinators.
r("parse-hand", ("src/response.rs", PARSE, """pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
    let mut rest = i;
    let mut codes: Vec<Code> = Vec::new();
    let mut message: Vec<String> = Vec::new();
    loop {
        let bad = |at: &'_ str| -> nom::Err<nom::error::Error<&'static str>> {
            let _ = at;
            nom::Err::Error(nom::error::Error { input: "", code: nom::error::ErrorKind::Tag })
        };
        let more = || nom::Err::Incomplete(nom::Needed::Unknown);
        let b = rest.as_bytes();
        let digits = [(b'2', b'5'), (b'0', b'5'), (b'0', b'9')];
        for (k, (low, high)) in digits.iter().enumerate() {
            match b.get(k) {
                None => return Err(more()),
                Some(d) if d < low || d > high => return Err(bad(rest)),
                Some(_) => {}
            }
        }
        let code = Code {
            severity: match b[0] {
                b'2' => Severity::PositiveCompletion,
                b'3' => Severity::PositiveIntermediate,
                b'4' => Severity::TransientNegativeCompletion,
                _ => Severity::PermanentNegativeCompletion,
            },
            category: [Category::Syntax, Category::Information, Category::Connections, Category::Unspecified3, Category::Unspecified4, Category::MailSystem]
                [(b[1] - b'0') as usize],
            detail: [Detail::Zero, Detail::One, Detail::Two, Detail::Three, Detail::Four, Detail::Five, Detail::Six, Detail::Seven, Detail::Eight, Detail::Nine]
                [(b[2] - b'0') as usize],
        };
        let last = match b.get(3) {
            None => return Err(more()),
            Some(b'-') => false,
            Some(b' ') => true,
            Some(b'\\r') => match b.get(4) {
                None => return Err(more()),
                Some(b'\\n') => true,
                Some(_) => return Err(bad(rest)),
            },
            Some(_) => return Err(bad(rest)),
        };
        let start = if b[3] == b'\\r' { 3 } else { 4 };
        let end = match rest[start..].find("\\r\\n") {
            Some(len) => start + len,
            None => return Err(more()),
        };
        codes.push(code);
        message.push(rest[start..end].to_owned());
        rest = &rest[end + 2..];
        if last {
            break;
        }
    }
    let code = codes[codes.len() - 1];
    if codes.into_iter().any(|c| c != code) {
        return Err(nom::Err::Failure(nom::error::Error {
            input: "",
            code: nom::error::ErrorKind::Not,
        }));
    }
    Ok((rest, Response { code, message }))
}
"""), ("src/response.rs", whole("src/response.rs", "fn parse_code(", "pub(crate) fn parse_response"), ""), ("src/response.rs", whole("src/response.rs", "use nom::{", "use crate::error"), "use nom::IResult;\n\n"))
r("parse-digits", ("src/response.rs", whole("src/response.rs", "fn parse_severity(", "pub(crate) fn parse_response"), """fn digit(i: &str, max: u32) -> IResult<&str, u32> {
    let Some(c) = i.chars().next() else {
        return Err(nom::Err::Incomplete(nom::Needed::new(1)));
    };
    match c.to_digit(10) {
        Some(d) if d <= max => Ok((&i[1..], d)),
        _ => Err(nom::Err::Error(nom::error::Error {
            input: i,
            code: nom::error::ErrorKind::Tag,
        })),
    }
}

fn parse_severity(i: &str) -> IResult<&str, Severity> {
    let (rest, d) = digit(i, 5)?;
    let severity = match d {
        2 => Severity::PositiveCompletion,
        3 => Severity::PositiveIntermediate,
        4 => Severity::TransientNegativeCompletion,
        5 => Severity::PermanentNegativeCompletion,
        _ => {
            return Err(nom::Err::Error(nom::error::Error {
                input: i,
                code: nom::error::ErrorKind::Tag,
            }))
        }
    };
    Ok((rest, severity))
}

fn parse_category(i: &str) -> IResult<&str, Category> {
    let (rest, d) = digit(i, 5)?;
    use Category::*;
    let all = [Syntax, Information, Connections, Unspecified3, Unspecified4, MailSystem];
    Ok((rest, all[d as usize]))
}

fn parse_detail(i: &str) -> IResult<&str, Detail> {
    let (rest, d) = digit(i, 9)?;
    use Detail::*;
    let all = [Zero, One, Two, Three, Four, Five, Six, Seven, Eight, Nine];
    Ok((rest, all[d as usize]))
}

"""))
r("words", ("src/response.rs", """        self.message
            .first()
            .and_then(|line| line.split_whitespace().next())""", """        let line = self.message.get(0)?.trim_start();
        let end = line.find(char::is_whitespace).unwrap_or(line.len());
        if end == 0 {
            None
        } else {
            Some(&line[..end])
        }"""), ("src/response.rs", """        self.message.first().map(String::as_str)""", """        Some(self.message.iter().next()?)"""), ("src/response.rs", """        parse_response(s).map(|(_, r)| r).map_err(|e| e.into())""", """        match parse_response(s) {
            Ok((_rest, response)) => Ok(response),
            Err(err) => Err(Error::from(err)),
        }"""))
FEAT = whole("src/extension.rs", "        let name = match response.first_word() {", "    /// Checks if the server supports an ESMTP feature\n    pub fn supports_feature")
r("features-iter", ("src/extension.rs", FEAT, """        let name = response
            .first_word()
            .ok_or(Error::ResponseParsing("Could not read server name"))?
            .to_string();
        let features = response.message[1..].iter().flat_map(|line| Self::announced(line)).collect();
        Ok(ServerInfo { name, features })
    }

    fn announced(line: &str) -> Vec<Extension> {
        let mut words = line.split_whitespace();
        let Some(keyword) = words.next() else {
            return vec![];
        };
        for (known, extension) in [
            ("PIPELINING", Extension::Pipelining),
            ("8BITMIME", Extension::EightBitMime),
            ("SMTPUTF8", Extension::SmtpUtfEight),
            ("STARTTLS", Extension::StartTls),
        ]
        .iter()
        .copied()
        {
            if keyword.eq_ignore_ascii_case(known) {
                return vec![extension];
            }
        }
        if !keyword.eq_ignore_ascii_case("AUTH") {
            return vec![];
        }
        words
            .filter_map(|word| {
                [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2]
                    .iter()
                    .copied()
                    .find(|mechanism| mechanism.to_string() == word)
            })
            .map(Extension::Authentication)
            .collect()
    }

"""))
r("features-helper", ("src/extension.rs", """                    for &mechanism in &split[1..] {
                        match mechanism {
                            "PLAIN" => {
                                features.insert(Extension::Authentication(Mechanism::Plain));
                            }
                            "LOGIN" => {
                                features.insert(Extension::Authentication(Mechanism::Login));
                            }
                            "XOAUTH2" => {
                                features.insert(Extension::Authentication(Mechanism::Xoauth2));
                            }
                            _ => (),
                        }
                    }
""", """                    features.extend(split.iter().skip(1).filter_map(|word| mechanism(word)));
"""), ("src/extension.rs", """/// A `MAIL FROM` extension parameter
""", """fn mechanism(word: &str) -> Option<Extension> {
    let mechanism = match word {
        "PLAIN" => Mechanism::Plain,
        "LOGIN" => Mechanism::Login,
        "XOAUTH2" => Mechanism::Xoauth2,
        _ => return None,
    };
    Some(Extension::Authentication(mechanism))
}

/// A `MAIL FROM` extension parameter
"""), ("src/extension.rs", """        self.features
            .contains(&Extension::Authentication(mechanism))""", """        self.supports_feature(Extension::Authentication(mechanism))"""), ("src/extension.rs", """        self.features.contains(&keyword)""", """        self.features.iter().any(|feature| *feature == keyword)"""), ("src/extension.rs", """        for line in response.message.iter().skip(1) {
            if line.is_empty() {
                continue;
            }
""", """        let (_, lines) = response.message.split_at(1);
        for line in lines {
"""))
r("display", ("src/extension.rs", """        match *self {
            ClientId::Domain(ref value) => f.write_str(value),
            ClientId::Ipv4(ref value) => write!(f, "[{value}]"),
            ClientId::Ipv6(ref value) => write!(f, "[IPv6:{value}]"),
        }""", """        let text = match self {
            Self::Domain(domain) => domain.clone(),
            Self::Ipv4(address) => ["[", &address.to_string(), "]"].concat(),
            Self::Ipv6(address) => format!("[IPv6:{}]", address),
        };
        f.write_str(&text)"""), ("src/extension.rs", """            MailParameter::Body(ref value) => write!(f, "BODY={value}"),
            MailParameter::Size(size) => write!(f, "SIZE={size}"),
            MailParameter::SmtpUtfEight => f.write_str("SMTPUTF8"),
            MailParameter::Other {
                ref keyword,
                value: Some(ref value),
            } => write!(f, "{}={}", keyword, XText(value)),
            MailParameter::Other {
                ref keyword,
                value: None,
            } => f.write_str(keyword),""", """            MailParameter::Body(ref value) => {
                f.write_str("BODY=")?;
                Display::fmt(value, f)
            }
            MailParameter::Size(size) => f.write_str(&format!("SIZE={}", size)),
            MailParameter::SmtpUtfEight => f.write_str("SMTPUTF8"),
            MailParameter::Other { ref keyword, ref value } => {
                f.write_str(keyword)?;
                match value {
                    Some(value) => write!(f, "={}", XText(value)),
                    None => Ok(()),
                }
            }"""), ("src/commands.rs", """        write!(
            f,
            "MAIL FROM:<{}>",
            self.sender.as_ref().map(AsRef::as_ref).unwrap_or("")
        )?;
        for parameter in &self.parameters {
            write!(f, " {parameter}")?;
        }
        f.write_str("\\r\\n")""", """        f.write_str("MAIL FROM:<")?;
        if let Some(sender) = &self.sender {
            write!(f, "{sender}")?;
        }
        f.write_str(">")?;
        let parameters: String = self.parameters.iter().map(|p| format!(" {p}")).collect();
        write!(f, "{parameters}\\r\\n")"""), ("src/commands.rs", """        write!(f, "RCPT TO:<{}>", self.recipient)?;
        for parameter in &self.parameters {
            write!(f, " {parameter}")?;
        }
        f.write_str("\\r\\n")""", """        let mut line = vec![format!("RCPT TO:<{}>", self.recipient)];
        line.extend(self.parameters.iter().map(|parameter| parameter.to_string()));
        write!(f, "{}\\r\\n", line.join(" "))"""), ("src/commands.rs", """        f.write_str("HELP")?;
        if let Some(arg) = &self.argument {
            write!(f, " {arg}")?;
        }
        f.write_str("\\r\\n")""", """        match self.argument.as_deref() {
            Some(argument) => write!(f, "HELP {argument}\\r\\n"),
            None => write!(f, "HELP\\r\\n"),
        }"""))
r("auth-display", ("src/commands.rs", whole("src/commands.rs", "        let encoded_response = self\n", "impl AuthCommand {"), """        let response = self.response.as_ref().map(base64::encode);
        let initial = self.mechanism.supports_initial_response();
        let line = match (initial, response) {
            (true, response) => format!("AUTH {} {}", self.mechanism, response.unwrap_or_default()),
            (false, Some(response)) => response,
            (false, None) => format!("AUTH {}", self.mechanism),
        };
        write!(f, "{line}\\r\\n")
    }
}

"""), ("src/commands.rs", """        let encoded_challenge = response
            .first_word()
            .ok_or(Error::ResponseParsing("Could not read auth challenge"))?;
        debug!("auth encoded challenge: {}", encoded_challenge);

        let decoded_challenge = String::from_utf8(base64::decode(encoded_challenge)?)?;
        debug!("auth decoded challenge: {}", decoded_challenge);

        let response = Some(mechanism.response(&credentials, Some(decoded_challenge.as_ref()))?);

        Ok(AuthCommand {
            mechanism,
            credentials,
            challenge: Some(decoded_challenge),
            response,
        })
""", """        let challenge = Self::challenge(response)?;
        Self::new(mechanism, credentials, Some(challenge))
    }

    fn challenge(response: &Response) -> Result<String, Error> {
        let Some(encoded) = response.first_word() else {
            return Err(Error::ResponseParsing("Could not read auth challenge"));
        };
        debug!("auth encoded challenge: {}", encoded);
        let bytes = base64::decode(encoded)?;
        let decoded = String::from_utf8(bytes)?;
        debug!("auth decoded challenge: {}", decoded);
        Ok(decoded)
"""))
r("mechanism", ("src/authentication.rs", whole("src/authentication.rs", "        match self {\n            Mechanism::Plain => match challenge {", "#[cfg(test)]"), """        let Credentials { authentication_identity: user, secret } = credentials;
        let answer = match (self, challenge) {
            (Mechanism::Plain, None) => ["", user, secret].join("\\0"),
            (Mechanism::Xoauth2, None) => {
                let mut answer = String::from("user=");
                answer.push_str(user);
                answer.push('\\x01');
                answer += "auth=Bearer ";
                answer += secret;
                answer + "\\x01\\x01"
            }
            (Mechanism::Login, None) => {
                return Err(Error::Client("This mechanism does expect a challenge"))
            }
            (Mechanism::Login, Some("User Name" | "Username:" | "Username")) => user.clone(),
            (Mechanism::Login, Some("Password" | "Password:")) => secret.clone(),
            (Mechanism::Login, Some(_)) => return Err(Error::Client("Unrecognized challenge")),
            (_, Some(_)) => {
                return Err(Error::Client("This mechanism does not expect a challenge"))
            }
        };
        Ok(answer)
    }
}

"""), ("src/authentication.rs", """        match self {
            Mechanism::Plain | Mechanism::Xoauth2 => true,
            Mechanism::Login => false,
        }""", """        self != Mechanism::Login"""))
r("message-as-mut", ("src/types.rs", """                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)
            }
            MessageProj::Bytes(rdr) => {
                let _: Pin<&mut _> = rdr;
                rdr.poll_read(cx, buf)
            }
        }
    }
}

#[cfg(feature = "runtime-async-std")]""", """                let reader: &mut (dyn Read + Send + Sync) = unsafe { rdr.as_mut().get_unchecked_mut() }.as_mut();
                unsafe { Pin::new_unchecked(reader) }.poll_read(cx, buf)
            }
            MessageProj::Bytes(rdr) => {
                let at = rdr.position() as usize;
                let cursor = Pin::into_inner(rdr);
                let left = cursor.get_ref().get(at..).unwrap_or(&[]);
                let count = left.len().min(buf.remaining());
                buf.put_slice(&left[..count]);
                cursor.set_position((at + count) as u64);
                Poll::Ready(Ok(()))
            }
        }
    }
}

#[cfg(feature = "runtime-async-std")]"""))
r("error-from", ("src/error.rs", """        match response.code.severity {
            Severity::TransientNegativeCompletion => Transient(response),
            Severity::PermanentNegativeCompletion => Permanent(response),
            _ => Client("Unknown error code"),
        }""", """        let number = response.code.severity as u8;
        let wrap: fn(Response) -> Error = match number {
            4 => Transient,
            5 => Permanent,
            _ => return Client("Unknown error code"),
        };
        wrap(response)"""), ("src/error.rs", """    #[error("transient: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""", """    #[error("transient: {}", text(.0))]"""), ("src/error.rs", """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]""", """    #[error("permanent: {}", text(.0))]"""), ("src/error.rs", """impl From<Response> for Error {
""", """fn text(response: &Response) -> String {
    let Some((first, rest)) = response.message.split_first() else {
        return "undetailed error during SMTP transaction".into();
    };
    let mut text = first.clone();
    for line in rest {
        text.push_str("; ");
        text.push_str(line);
    }
    text
}

impl From<Response> for Error {
"""))
r("boxed", ("src/stream.rs", """        self.send_command(command).await?;
        self.read_response().await
    }""", """        let text = command.to_string();
        let sent = Box::pin(self.send_command(text));
        sent.await?;
        let answer = Box::pin(self.read_response());
        answer.await
    }"""), ("src/smtp_client.rs", """        let res = self.stream.message(email.message()).await;

        // Message content
        if let Ok(result) = &res {
            // Log the message
            debug!(
                "status=sent ({})",
                result.message.get(0).unwrap_or(&"no response".to_string())
            );
        }

        res""", """        self.stream.message(email.message()).await.map(|result| {
            let text = result.first_line().unwrap_or("no response");
            debug!("status=sent ({text})");
            result
        })"""))
r("more-logging", ("src/stream.rs", """        let res: Result<(), Error> = async {""", """        debug!("sending {} bytes", message_bytes.len());
        let res: Result<(), Error> = async {"""), ("src/smtp_client.rs", """        let pipelining =
            self.supports_feature""", """        log::trace!("envelope {:?}", email.envelope());
        let pipelining =
            self.supports_feature"""), ("src/smtp_client.rs", """        // TODO
        let mut challenges = 10;""", """        log::trace!("{} with {}", mechanism, self.server_info);
        let mut challenges = 10;"""))
r("stream-option", ("src/smtp_client.rs", """            let mut rejection = None;
            for _ in 0..sent_commands {
                match self.stream.read_response().await {
                    Ok(_) => {}
                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
                        rejection.get_or_insert(err);
                    }
                    Err(err) => return Err(err),
                }
            }
            if let Some(err) = rejection {
                return Err(err);
            }""", """            let mut rejections = Vec::new();
            while sent_commands > 0 {
                sent_commands -= 1;
                let reply = self.stream.read_response().await;
                if let Err(err) = reply {
                    let refused = matches!(&err, Error::Transient(_) | Error::Permanent(_));
                    rejections.push(err);
                    if !refused {
                        return Err(rejections.pop().unwrap());
                    }
                }
            }
            if !rejections.is_empty() {
                return Err(rejections.swap_remove(0));
            }"""), ("src/smtp_client.rs", """        let mut mail_options = vec![];

        if self.supports_feature(Extension::EightBitMime) {
            mail_options.push(MailParameter::Body(MailBodyParameter::EightBitMime));
        }
""", """        let mut mail_options = if !self.supports_feature(Extension::EightBitMime) {
            Vec::with_capacity(1)
        } else {
            vec![MailParameter::Body(MailBodyParameter::EightBitMime)]
        };
"""))

def sh(cmd, cwd=None, timeout=1800, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout

def main():
    from props import PROPS
    W = "/tmp/rf"
    shutil.rmtree(W + "/repo", ignore_errors=True); shutil.rmtree(W + "/harness", ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(f"git clone -q /repo {W}/repo; cp /repo/Cargo.lock {W}/repo/ 2>/dev/null; cp -a {V}/harness {W}/harness; rm -rf {W}/harness/target; sed -i 's#/repo#{W}/repo#' {W}/harness/Cargo.toml")
    covers = json.load(open(V + "/covers.json"))
    args = sys.argv[1:]
    only = [a[2:] for a in args if a.startswith("p=")]
    ids = [a for a in args if not a.startswith("p=")]
    if "packs" in ids:
        # as many rewrites at once as fit together
        packs = []
        for name in R:
            if name == "message-as-mut": packs.append([[name], None]); continue
            for k in packs + [[[], {}]]:
                if k[1] is None: continue
                fs = dict(k[1]); ok = True
                for f, old, new in R[name]:
                    t = fs.get(f) or open(f"/repo/{f}").read()
                    ok = ok and t.count(old) == 1
                    fs[f] = t.replace(old, new)
                if not ok: continue
                sh("git checkout -q -- .", cwd=W + "/repo")
                for f in fs: open(f"{W}/repo/{f}", "w").write(fs[f])
                if sh("cargo check --offline", cwd=W + "/repo", env={"CARGO_TARGET_DIR": W + "/t", "RUSTFLAGS": "--cap-lints warn"})[0]: continue
                if not any(k is x for x in packs): packs.append(k)
                k[0].append(name); k[1] = fs
                break
            else: print("alone?", name, flush=True)
        ids = ["+".join(k[0]) for k in packs]
        print(len(ids), ids, flush=True)
    for name in ids or R:
        sh("git checkout -q -- .", cwd=W + "/repo")
        bad = None
        for f, old, new in [x for k in name.split('+') for x in R[k]]:
            p = f"{W}/repo/{f}"; t = open(p).read()
            if t.count(old) != 1: bad = f"BAD EDIT {t.count(old)} {f} {old[:50]!r}"; break
            open(p, "w").write(t.replace(old, new))
        if bad: print(name, bad, flush=True); continue
        rt = ["tokio", "async-std"] if "message-as-mut" not in name else ["tokio"]
        for x in rt:
            rc, out = sh(f"cargo test --offline --no-default-features --features runtime-{x}", cwd=W + "/repo", env={"CARGO_TARGET_DIR": W + "/t", "RUSTFLAGS": "--cap-lints warn"})
            if rc: bad = out[-3000:]; break
        if bad: print(name, "TESTS", bad, flush=True); continue
        res = []
        for h in ("tk", "as") if len(rt) == 2 else ("tk",):
            t = f"{W}/t-{h}"
            for f in glob.glob(t + "/release/deps/harness-*.ll"): os.unlink(f)
            rc, out = sh(f"cargo rustc --offline --release --no-default-features --features {h} --target-dir {t} -- --emit=llvm-ir -C linker=/bin/true", cwd=W + "/harness", env={"RUSTFLAGS": "--cfg sx -C no-vectorize-loops -C no-vectorize-slp"})
            l = glob.glob(t + "/release/deps/harness-*.ll")
            if rc or len(l) != 1: res.append("BUILD " + out[-2000:]); continue
            for pid, P in PROPS.items():
                if only and pid not in only: continue
                es = P["entries"] if h == "tk" else P.get("async_std", [])
                if not es: continue
                o = f"{W}/out.json"
                if os.path.exists(o): os.unlink(o)
                rc, out = sh(f"{V}/symex/target/release/symex {l[0]} --entries {','.join(es)} --out {o} --threads 8 --time 400 --steps 60000000 --tier 0 --solver-ms 60000 --stop 1 --src {W}/repo/src/", timeout=600)
                if rc or not os.path.exists(o): res.append(f"{h} {pid} ENGINE {out[-500:]}"); continue
                d = json.load(open(o))
                for v in d["violations"][:2]: res.append(f"{h} {pid} VIOLATION {v['entry']} {v['detail']} {v['inputs'][:30]}")
                if not d["violations"] and not d["complete"]: res.append(f"{h} {pid} INCOMPLETE timeout={d['timed_out']} {d['errors'][:2]}")
                if not d["violations"]:
                    for e in es:
                        miss = [c for c in P["covers"].get(e, [1]) if str(c % 1000) not in d["entries"][e]["covers"]]
                        if miss: res.append(f"{h} {pid} COVERS {e} {miss}")
                if d["explore_seconds"] > 60: res.append(f"{h} {pid} slow {d['explore_seconds']:.0f}")
        print(name, "quiet" if not res else "\n   ".join([""] + res), flush=True)
if __name__ == "__main__": main()
