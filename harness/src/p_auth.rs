//! Authentication: C13 initial responses, C14 the dialogue, C15 the choice of mechanism.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, IntoCredentials, Mechanism};
use async_smtp::commands::AuthCommand;
use async_smtp::error::Error;
use async_smtp::response::Response;
use async_smtp::*;

const MS: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
const NAMES: [&str; 3] = ["PLAIN", "LOGIN", "XOAUTH2"];

/// The bytes that the initial response has to carry.
fn initial(m: usize, user: &[u8], pass: &[u8]) -> Option<Vec<u8>> {
    match m {
        0 => Some(cat(&[b"\0", user, b"\0", pass])),
        1 => None,
        _ => Some(cat(&[b"user=", user, b"\x01auth=Bearer ", pass, b"\x01\x01"])),
    }
}
fn c13_judge(m: usize, user: String, pass: String) {
    let c = match choice(2) { 0 => Credentials::new(user.clone(), pass.clone()), _ => (user.as_str(), pass.as_str()).into_credentials() };
    let raw = initial(m, user.as_bytes(), pass.as_bytes());
    let want = match &raw {
        Some(x) => cat(&[b"AUTH ", NAMES[m].as_bytes(), b" ", &b64(x), b"\r\n"]),
        None => cat(&[b"AUTH LOGIN\r\n"]),
    };
    let Ok(cmd) = AuthCommand::new(MS[m], c.clone(), None) else { ck!(false, "no AUTH command"); return };
    let got = cmd.to_string();
    trace(got.as_bytes());
    ck!(same(got.as_bytes(), &want), "AUTH does not carry exactly the credentials");
    if let Some(x) = &raw {
        match MS[m].response(&c, None) { Ok(r) => ck!(same(r.as_bytes(), x), "the mechanism's response is not made of exactly the credentials"), Err(_) => ck!(false, "no initial response") }
    }
    // on the wire
    let n = net(&cat(&[GREET, &ehlo(&["AUTH PLAIN LOGIN XOAUTH2"]), b"235 ok\r\n"]));
    let mut t = open(n, SmtpClient::new());
    let k = n.get().out.len();
    let r = match choice(2) { 0 => oc(run(n, t.auth(MS[m], &c))).kind, _ => oc_unit(run(n, t.try_login(&c, &[MS[m]]))).kind };
    ck!(r == Kind::Ok, "authentication failed");
    ck!(same(&n.get().out[k..], &want), "the AUTH line on the wire does not carry exactly the credentials");
    cover(1 + m as u32);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_any() {
    let m = choice(3);
    let n = bound(3, 4);
    let (u, p) = (any_chars(choice(n)), any_chars(choice(2)));
    if choice(2) == 0 { c13_judge(m, u, p) } else { c13_judge(m, p, u) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_bytes() {
    let m = choice(3);
    c13_judge(m, ascii(choice(bound(5, 8))), ascii(choice(bound(5, 8))))
}
/// Every length, with symbolic characters at the ends and in the middle.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_long() {
    let m = [0, 2][choice(2)];
    let fill = |n: usize| -> String { let mut v: Vec<u8> = (0..n).map(|i| b"Xy7=+ /\x01\0\r\n:"[i % 12]).collect(); if n > 0 { v[n / 2] = ascii(1).as_bytes()[0]; v[n - 1] = ascii(1).as_bytes()[0]; } String::from_utf8(v).unwrap() };
    let long = [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 765, 768, 998, 1000, 1023, 1024, 1025, 1500, 2048, 3072, 4096, 5000, 20000];
    let (a, b) = match choice(3) {
        0 => (choice(bound(90, 200)), 3),
        1 => (3, choice(bound(90, 200))),
        _ => { let x = long[choice(23)]; if choice(2) == 0 { (x, 2) } else { (2, x) } }
    };
    let (u, p) = (fill(a), fill(b));
    c13_judge(m, u, p)
}

/// Users and secrets of symbolic printable characters only.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_word() {
    let m = choice(3);
    let (a, b) = [(9, 9), (16, 3), (3, 16), (1, 24), (12, 14)][choice(5)];
    c13_judge(m, printable(a), printable(b))
}
// ---------------------------------------------------------------- C14

const USERS: [&[u8]; 3] = [b"User Name", b"Username:", b"Username"];
const PASSES: [&[u8]; 2] = [b"Password", b"Password:"];
fn u64c(b: u8) -> (u8, bool) {
    let up = (b >= b'A') & (b <= b'Z');
    let lo = (b >= b'a') & (b <= b'z');
    let di = (b >= b'0') & (b <= b'9');
    let pl = b == b'+';
    let sl = b == b'/';
    let v = (up as u8).wrapping_mul(b.wrapping_sub(b'A')).wrapping_add((lo as u8).wrapping_mul(b.wrapping_sub(b'a' - 26)))
        .wrapping_add((di as u8).wrapping_mul(b.wrapping_add(4))).wrapping_add((pl as u8).wrapping_mul(62)).wrapping_add((sl as u8).wrapping_mul(63));
    (v, up | lo | di | pl | sl)
}
/// Decodes a base64 word, padded or not; `None` for anything else.
fn decode(w: &[u8]) -> Option<Vec<u8>> {
    let mut e = w.len();
    while e > 0 && w.len() - e < 2 && w[e - 1] == b'=' { e -= 1; }
    let mut ok = true;
    let mut o = vec![];
    let mut acc = [0u8; 4];
    for i in 0..e {
        let (v, k) = u64c(w[i]);
        ok &= k;
        acc[i % 4] = v;
        match i % 4 { 1 => o.push(acc[0] << 2 | v >> 4), 2 => o.push(acc[1] << 4 | v >> 2), 3 => o.push(acc[2] << 6 | v), _ => {} }
    }
    // no spare bits, no stray padding
    ok &= match e % 4 { 1 => false, 2 => acc[1] & 15 == 0, 3 => acc[2] & 3 == 0, _ => true };
    ok &= e == w.len() || w.len() % 4 == 0;
    if ok { Some(o) } else { None }
}
fn among(x: &[u8], set: &[&[u8]]) -> bool {
    let mut r = false;
    for s in set { r |= same(x, s); }
    r
}
/// One challenge of symbolic text to LOGIN.
fn c14_login(word: &[u8], exact: bool) {
    let n = net(&cat(&[GREET, &ehlo(&["AUTH LOGIN"]), b"334 ", word, b"\r\n", b"235 fine\r\n"]));
    let mut t = open(n, SmtpClient::new());
    let k = n.get().out.len();
    let r = oc(run(n, t.auth(Mechanism::Login, &Credentials::new("usr".into(), "pwd".into()))));
    trace_oc(&r);
    trace(&n.get().out);
    ck!(r.kind != Kind::Stuck, "authentication hangs");
    let (user, pass) = (cat(&[b"AUTH LOGIN\r\n", &b64(b"usr"), b"\r\n"]), cat(&[b"AUTH LOGIN\r\n", &b64(b"pwd"), b"\r\n"]));
    let out = &n.get().out[k..];
    // the first word of the challenge
    let mut first: &[u8] = word;
    while !first.is_empty() && first[0] == b' ' { first = &first[1..]; }
    for i in 0..first.len() { if first[i] == b' ' { first = &first[..i]; break; } }
    let d = decode(first);
    if out == user {
        ck!(match &d { Some(x) => among(x, &USERS), None => false }, "the user name was sent to something other than a user-name prompt");
        ck!(r.kind == Kind::Ok, "the positive reply was not reported");
        cover(1);
    } else if out == pass {
        ck!(match &d { Some(x) => among(x, &PASSES), None => false }, "the password was sent to something other than a password prompt");
        ck!(r.kind == Kind::Ok, "the positive reply was not reported");
        cover(2);
    } else {
        ck!(out == b"AUTH LOGIN\r\n", "something else was sent to a challenge");
        ck!(r.kind == Kind::Other, "an unusable challenge did not abort with an error");
        ck!(n.get().unread() == b"235 fine\r\n".len(), "a reply was awaited after an unusable challenge");
        if exact {
            // a properly encoded prompt has to be answered
            if let Some(x) = d { ck!(!(among(&x, &USERS) | among(&x, &PASSES)), "a prompt was not answered"); }
        }
        cover(3);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_word() { let n = choice(bound(7, 9)); c14_login(printable(n).as_bytes(), false) }
/// Twelve symbolic characters, which covers every prompt.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_prompt() {
    let prompts: [&[u8]; 5] = [b"User Name", b"Username:", b"Username", b"Password", b"Password:"];
    let p = choice(5);
    let mut w = b64(prompts[p]);
    match choice(3) {
        0 => c14_login(&w, true),
        1 => {
            // a group of four symbolic characters
            let g = choice(3);
            for i in 0..4 { w[4 * g + i] = printable(1).as_bytes()[0]; }
            c14_login(&w, false)
        }
        _ => {
            // the decoded prompt with two symbolic bytes (changed or appended)
            let mut x = prompts[p].to_vec();
            match choice(3) { 0 => { let i = choice(x.len()); x[i] = ascii(1).as_bytes()[0]; } 1 => { let i = choice(x.len()); x.insert(i, ascii(1).as_bytes()[0]); } _ => { x.push(ascii(1).as_bytes()[0]); } }
            if choice(2) == 1 { x.push(ascii(1).as_bytes()[0]); }
            c14_login(&b64(&x), true)
        }
    }
}
/// Prompts given to the mechanism: any text of up to 16 characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_text() {
    let m = choice(3);
    let p = ascii(choice(17));
    let c = Credentials::new("usr".into(), "pwd".into());
    let got = MS[m].response(&c, Some(&p));
    let (u, w) = (m == 1 && among(p.as_bytes(), &USERS), m == 1 && among(p.as_bytes(), &PASSES));
    match got {
        Ok(x) => {
            trace(x.as_bytes());
            ck!(u | w, "something was revealed to an unknown prompt");
            ck!(if u { x == "usr" } else { x == "pwd" }, "the credential revealed is not the one asked for");
            cover(1);
        }
        Err(e) => {
            ck!(!(u | w), "a prompt was not answered");
            ck!(matches!(e, Error::Client(_)), "an unknown prompt is not an error of the client");
            cover(2);
        }
    }
}
/// Dialogues that go round in circles, over every spelling of the prompts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_cycles() {
    let p: [&[u8]; 5] = [b"VXNlciBOYW1l", b"VXNlcm5hbWU6", b"VXNlcm5hbWU=", b"UGFzc3dvcmQ=", b"UGFzc3dvcmQ6"];
    let period = 1 + choice(bound(2, 3));
    let cyc: Vec<usize> = (0..period).map(|_| choice(5)).collect();
    let k = 9 + choice(bound(5, 24));
    let tail = choice(2);
    let n = served(GREET, vec![ehlo(&["AUTH LOGIN"])]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = s.out.len();
    let mut want = b"AUTH LOGIN\r\n".to_vec();
    for i in 0..k {
        let x = cyc[i % period];
        s.srv().replies.push(cat(&[b"334 ", p[x], [&b""[..], b" x"][tail], b"\r\n"]));
        if i < 10 { want.extend_from_slice(&cat(&[&b64(if x < 3 { b"me" } else { b"pw" }), b"\r\n"])); }
    }
    s.srv().replies.push(b"235 ok\r\n".to_vec());
    let c = Credentials::new("me".into(), "pw".into());
    let r = if choice(2) == 0 { oc(run(n, t.auth(Mechanism::Login, &c))).kind } else { oc_unit(run(n, t.try_login(&c, &[Mechanism::Login]))).kind };
    let got = &s.out[at..];
    ck!(r != Kind::Stuck, "authentication hangs");
    ck!(got.len() <= want.len() && got == &want[..got.len()], "more than ten challenges were answered, or one wrongly");
    if k < 10 { ck!(r == Kind::Ok && got.len() == want.len(), "an accepted authentication was reported as failed"); cover(1); }
    if k > 10 { ck!(r != Kind::Ok, "authentication was reported successful without a positive reply"); cover(2); }
}
/// PLAIN and XOAUTH2 answer no challenge.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_other() {
    let m = [0, 2][choice(2)];
    let w = match choice(3) {
        0 => printable(choice(bound(6, 8))).into_bytes(),
        1 => b64(printable(choice(6)).as_bytes()),
        _ => b64([&b"User Name"[..], b"Username:", b"Password", b"", b"{\"status\":\"401\"}"][choice(5)]),
    };
    let sep: &[u8] = if w.is_empty() && choice(2) == 1 { b"" } else { b" " };
    let n = net(&cat(&[GREET, &ehlo(&["AUTH PLAIN XOAUTH2"]), b"334", sep, &w, b"\r\n", b"235 fine\r\n"]));
    let mut t = open(n, SmtpClient::new());
    let k = n.get().out.len();
    let r = if choice(2) == 0 { oc(run(n, t.auth(MS[m], &Credentials::new("usr".into(), "pwd".into())))).kind } else { oc_unit(run(n, t.try_login(&Credentials::new("usr".into(), "pwd".into()), &[MS[m]]))).kind };
    trace(&n.get().out);
    let want = cat(&[b"AUTH ", NAMES[m].as_bytes(), b" ", &b64(&initial(m, b"usr", b"pwd").unwrap()), b"\r\n"]);
    ck!(n.get().out[k..] == want, "something was sent in reply to a challenge that the mechanism does not expect");
    ck!(r == Kind::Other, "an unexpected challenge did not abort with an error");
    cover(1);
}
/// Whole dialogues: every sequence of prompts, other challenges and final replies.
fn c14_dialogue(max: usize, kinds: usize, m: usize) {
    let user = "someone".to_string();
    let pass = "s3cret!".to_string();
    let n = served(GREET, vec![ehlo(&["AUTH PLAIN LOGIN XOAUTH2"])]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = s.out.len();
    // the server's script, drawn while it is needed: it ends with the first final reply
    let mut want = cat(&[b"AUTH ", NAMES[m].as_bytes()]);
    if let Some(x) = initial(m, user.as_bytes(), pass.as_bytes()) { want.push(b' '); want.extend_from_slice(&b64(&x)); }
    want.extend_from_slice(b"\r\n");
    let mut answered = 0;
    let mut end = 0; // 1: accepted, 2: transient, 3: permanent, 4: abort
    for i in 0..max {
        // once no answer may follow any more, the rest of the script does not matter
        let last = i + 1 == max;
        let k = if last { choice(2) + 2 } else { choice(kinds) };
        let r: &[u8] = match k {
            0 => b"334 VXNlcm5hbWU6\r\n",
            1 => b"334-UGFzc3dvcmQ6\r\n334 x\r\n",
            2 => b"235 2.7.0 ok\r\n",
            3 => b"535 5.7.8 no\r\n",
            4 => b"454 4.7.0 later\r\n",
            5 => b"334 !!!\r\n",
            6 => b"334 eA==\r\n",
            7 => b"334 \r\n",
            8 => b"354 go\r\n",
            9 => b"250 VXNlcm5hbWU6\r\n",
            _ => b"334 /w==\r\n",
        };
        s.srv().replies.push(r.to_vec());
        match k {
            0 | 1 if m == 1 => {
                answered += 1;
                if answered <= 10 { want.extend_from_slice(&cat(&[&b64(if k == 0 { user.as_bytes() } else { pass.as_bytes() }), b"\r\n"])); }
            }
            2 | 8 | 9 => { end = 1; break; }
            3 => { end = 3; break; }
            4 => { end = 2; break; }
            _ => { end = 4; break; }
        }
    }
    let c = Credentials::new(user, pass);
    let direct = choice(2) == 0;
    let r = if direct { oc(run(n, t.auth(MS[m], &c))) } else { oc_unit(run(n, t.try_login(&c, &[MS[m]]))) };
    trace_oc(&r);
    trace(&s.out);
    ck!(r.kind != Kind::Stuck, "authentication hangs");
    let got = &s.out[at..];
    if answered > 10 {
        ck!(got.len() <= want.len() && got == &want[..got.len()], "more than ten challenges were answered, or one wrongly");
        ck!(r.kind == Kind::Other, "an endless dialogue was not given up with an error");
        cover(5);
        return;
    }
    ck!(got == &want[..], "a challenge was answered wrongly, or something else was sent");
    match end {
        // the tenth answer may be one too many
        1 if answered < 10 => {
            ck!(r.kind == Kind::Ok, "an accepted authentication was reported as failed");
            if direct { ck!(match &r.reply { Some(x) => x.is_positive() && !x.has_code(334), None => false }, "the final reply is not the one returned"); }
            cover(1);
        }
        1 => {}
        2 => { ck!(r.kind == Kind::Transient && is_reply(&r.reply, b"454", b"4.7.0 later"), "the refusal was not reported"); cover(2); }
        3 => { ck!(r.kind == Kind::Permanent && is_reply(&r.reply, b"535", b"5.7.8 no"), "the refusal was not reported"); cover(3); }
        _ => { ck!(r.kind == Kind::Other, "an unusable challenge did not abort with an error"); cover(4); }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_short() { let m = choice(3); c14_dialogue(bound(4, 5), 11, m) }
/// Up to thirteen challenges.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_endless() { c14_dialogue(13, bound(2, 4), 1) }
/// Final replies right before and after the limit.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_limit() {
    let k = 8 + choice(5);
    let n = served(GREET, vec![ehlo(&["AUTH LOGIN"])]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = s.out.len();
    for i in 0..k { s.srv().replies.push(if i % 2 == 0 { b"334 VXNlcm5hbWU6\r\n".to_vec() } else { b"334 UGFzc3dvcmQ6\r\n".to_vec() }); }
    let e = choice(3);
    s.srv().replies.push([&b"235 ok\r\n"[..], b"535 no\r\n", b"334 \r\n"][e].to_vec());
    let r = oc(run(n, t.auth(Mechanism::Login, &Credentials::new("u".into(), "p".into()))));
    trace_oc(&r);
    let mut lines = 0;
    for b in &s.out[at..] { if *b == b'\n' { lines += 1; } }
    ck!(lines <= 11, "more than ten challenges were answered");
    ck!(r.kind != Kind::Stuck, "authentication hangs");
    if k < 10 { ck!(r.kind == [Kind::Ok, Kind::Permanent, Kind::Other][e], "the outcome is not the final reply's"); }
    if k == 10 && e == 1 { ck!(r.kind == Kind::Permanent, "the refusal was not reported"); }
    if e > 0 || k > 10 { ck!(r.kind != Kind::Ok, "authentication was reported successful without a positive reply"); }
    cover(1);
}
/// Challenges handed to the command directly.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_command() {
    let c = Credentials::new("usr".into(), "pwd".into());
    let m = choice(3);
    let code = [334, 235, 354, 250, 535, 454, 330, 324][choice(8)];
    let w = [&b"VXNlcm5hbWU6"[..], b"UGFzc3dvcmQ6", b"eA==", b"@"][choice(4)];
    let r: Response = format!("{code} {}\r\n", std::str::from_utf8(w).unwrap()).parse().unwrap();
    let got = AuthCommand::new_from_response(MS[m], c.clone(), &r);
    let fine = code == 334 && m == 1 && (w[0] == b'V' || w[0] == b'U');
    ck!(got.is_ok() == fine, "a challenge was answered that must not be, or refused");
    if let Ok(x) = &got { ck!(x.to_string().as_bytes() == cat(&[&b64(if w[0] == b'V' { b"usr" } else { b"pwd" }), b"\r\n"]), "the answer is not the credential asked for"); cover(1); }
    let p = ascii(choice(3));
    let got = MS[m].response(&c, Some(&p));
    ck!(matches!(got, Err(Error::Client(_))), "an unknown challenge was answered");
    cover(2);
}

// ---------------------------------------------------------------- C15

fn c15_run(list: &[usize], adv: usize, outcome: usize) {
    let mut line = "AUTH".to_string();
    for k in [2, 0, 1] { if adv >> k & 1 == 1 { line.push(' '); line.push_str(NAMES[k]); } }
    let caps: &[&str] = if adv == 8 { &["8BITMIME"] } else { &["8BITMIME", &line] };
    let mut replies = vec![ehlo(caps)];
    let pick = if adv == 8 { None } else { list.iter().copied().find(|k| adv >> k & 1 == 1) };
    let last: &[u8] = [&b"235 ok\r\n"[..], b"454 later\r\n", b"535 no\r\n", b"504 what\r\n"][outcome];
    let deep = pick == Some(1) && choice(2) == 1;
    if deep { replies.push(b"334 VXNlcm5hbWU6\r\n".to_vec()); if outcome != 1 { replies.push(b"334 UGFzc3dvcmQ6\r\n".to_vec()); } }
    replies.push(last.to_vec());
    // whatever else is tried would succeed
    for _ in 0..4 { replies.push(b"235 second try\r\n".to_vec()); }
    let n = served(GREET, replies);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = s.out.len();
    let ms: Vec<Mechanism> = list.iter().map(|k| MS[*k]).collect();
    let r = oc_unit(run(n, t.try_login(&Credentials::new("u".into(), "p".into()), &ms)));
    trace_oc(&r);
    trace(&s.out);
    match pick {
        None => {
            ck!(s.out.len() == at, "something was written although no mechanism is both accepted and advertised");
            ck!(r.kind == Kind::Ok, "login without a common mechanism did not return quietly");
            cover(1);
        }
        Some(k) => {
            let mut want = match k { 0 => b"AUTH PLAIN AHUAcA==\r\n".to_vec(), 1 => b"AUTH LOGIN\r\n".to_vec(), _ => cat(&[b"AUTH XOAUTH2 ", &b64(b"user=u\x01auth=Bearer p\x01\x01"), b"\r\n"]) };
            if deep { want.extend_from_slice(b"dQ==\r\n"); if outcome != 1 { want.extend_from_slice(b"cA==\r\n"); } }
            ck!(s.out[at..] == want, "login did not use exactly the first accepted and advertised mechanism");
            match outcome {
                0 => ck!(r.kind == Kind::Ok, "an accepted login was reported as failed"),
                1 => ck!(r.kind == Kind::Transient && is_reply(&r.reply, b"454", b"later"), "the refusal was not reported"),
                2 => ck!(r.kind == Kind::Permanent && is_reply(&r.reply, b"535", b"no"), "the refusal was not reported"),
                _ => ck!(r.kind == Kind::Permanent && is_reply(&r.reply, b"504", b"what"), "the refusal was not reported"),
            }
            cover(2 + outcome as u32);
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_lists() {
    let n = choice(bound(5, 7));
    let list: Vec<usize> = (0..n).map(|_| choice(3)).collect();
    let adv = choice(9);
    c15_run(&list, adv, choice(4))
}
/// The documented default lists, and a login after an earlier one.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_again() {
    let adv = 1 + choice(7);
    let mut line = "AUTH".to_string();
    for k in 0..3 { if adv >> k & 1 == 1 { line.push(' '); line.push_str(NAMES[k]); } }
    let n = served(GREET, vec![ehlo(&[&line])]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let c = Credentials::new("u".into(), "p".into());
    for _ in 0..2 {
        let at = s.out.len();
        let a = choice(3);
        let list = [authentication::DEFAULT_ENCRYPTED_MECHANISMS, authentication::DEFAULT_UNENCRYPTED_MECHANISMS, &MS[..]][a];
        let want = list.iter().find(|m| adv >> MS.iter().position(|x| x == *m).unwrap() & 1 == 1);
        let ok = choice(2) == 0;
        if want.is_some() { s.srv().replies.push(if ok { b"235 ok\r\n".to_vec() } else { b"535 no\r\n".to_vec() }); }
        let r = oc_unit(run(n, t.try_login(&c, list)));
        let o = &s.out[at..];
        match want {
            None => ck!(o.is_empty() && r.kind == Kind::Ok, "something was written although no mechanism is both accepted and advertised"),
            Some(m) => {
                let name = NAMES[MS.iter().position(|x| x == m).unwrap()];
                ck!(is_prefix(format!("AUTH {name}").as_bytes(), o) && o.iter().filter(|b| **b == b'\n').count() == 1, "login did not use exactly the first accepted and advertised mechanism");
                ck!(r.kind == if ok { Kind::Ok } else { Kind::Permanent }, "the outcome of the login is not the server's");
            }
        }
    }
    trace(&s.out);
    cover(1);
}
/// Advertised mechanisms with a symbolic letter, a symbolic outcome with symbolic text.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_sym() {
    let mut line = b"AUTH".to_vec();
    let mut adv = [false; 3];
    for k in 0..3 {
        let mut w = NAMES[k].as_bytes().to_vec();
        match choice(3) {
            0 => continue,
            1 => { let at = [0, w.len() - 1][choice(2)]; let b = graphic(1)[0]; adv[k] = b == w[at]; w[at] = b; }
            _ => adv[k] = true,
        }
        line.push(b' ');
        line.extend_from_slice(&w);
    }
    let other = quiet_word(7, 7);
    let c = [u8(), b'3', u8()];
    assume(((c[0] == b'2') | (c[0] == b'4') | (c[0] == b'5')) & (c[2] >= b'0') & (c[2] <= b'9'));
    let text = cat(&[&quiet_word(5, 5), b" ", &quiet_word(4, 4)]);
    assume(!is_prefix(b"AUTH", &other));
    let n = served(GREET, vec![cat(&[b"250-me\r\n250-", &other, b" PLAIN LOGIN XOAUTH2\r\n250 ", &line, b"\r\n"]), cat(&[&c, b" ", &text, b"\r\n"]), b"235 second\r\n".to_vec(), b"235 third\r\n".to_vec()]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = s.out.len();
    let order: [&[usize]; 5] = [&[0, 1, 2], &[2, 1, 0], &[1, 2], &[0], &[1, 0, 2]];
    let list = order[choice(5)];
    let ms: Vec<Mechanism> = list.iter().map(|k| MS[*k]).collect();
    let r = oc_unit(run(n, t.try_login(&Credentials::new("u".into(), "p".into()), &ms)));
    let out = &s.out[at..];
    let pick = list.iter().copied().find(|k| adv[*k]);
    match pick {
        None => {
            ck!(out.is_empty(), "something was written although no mechanism is both accepted and advertised");
            ck!(r.kind == Kind::Ok, "login without a common mechanism did not return quietly");
            cover(1);
        }
        Some(k) => {
            let want = match k { 0 => b"AUTH PLAIN AHUAcA==\r\n".to_vec(), 1 => b"AUTH LOGIN\r\n".to_vec(), _ => cat(&[b"AUTH XOAUTH2 ", &b64(b"user=u\x01auth=Bearer p\x01\x01"), b"\r\n"]) };
            ck!(same(out, &want), "login did not use exactly the first accepted and advertised mechanism");
            ck!(r.kind == if c[0] == b'2' { Kind::Ok } else if c[0] == b'4' { Kind::Transient } else { Kind::Permanent }, "the outcome of the login is not the server's");
            if c[0] != b'2' { ck!(is_reply(&r.reply, &c, &text), "the refusal was not reported"); cover(2); } else { cover(3); }
        }
    }
}
