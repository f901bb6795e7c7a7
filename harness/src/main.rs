#![allow(clippy::all)]
#[macro_use]
mod h;
mod net;
mod sx;
mod p_after;
mod p_auth;
mod p_caps;
mod p_data;
mod p_fail;
mod p_log;
mod p_long;
mod p_more;
mod p_reply;
mod p_session;
mod p_text;

macro_rules! table { ($($m:ident :: $n:ident),* $(,)?) => { static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $m::$n)),*]; } }
table! {
    p_after::c01_after, p_after::c06_after, p_after::c07_after, p_after::c10_after, p_after::c11_after, p_after::c13_after, p_after::c14_after, p_after::c15_after, p_after::c16_after, p_after::c17_after, p_after::c18_after, p_after::c19_after, p_after::c20_after, p_after::c28_after, p_after::c29_after,
    p_auth::c13_any, p_auth::c13_bytes, p_auth::c13_long, p_auth::c13_word, p_auth::c14_word, p_auth::c14_prompt, p_auth::c14_text, p_auth::c14_cycles, p_auth::c14_other, p_auth::c14_short, p_auth::c14_endless, p_auth::c14_limit, p_auth::c14_command, p_auth::c15_lists, p_auth::c15_again, p_auth::c15_sym,
    p_caps::c09_raw, p_caps::c09_keyword, p_caps::c09_auth, p_caps::c09_mechs, p_caps::c09_mech, p_caps::c09_many, p_caps::c09_long, p_caps::c09_letters, p_caps::c09_words, p_caps::c09_wire, p_caps::c10_options, p_caps::c10_sends, p_caps::c10_sym,
    p_data::c01_bytes, p_data::c01_reader, p_data::c01_writes, p_data::c01_long, p_data::c01_text, p_data::c01_huge, p_data::c01_two, p_data::c23_fail, p_data::c23_ok, p_data::c23_long,
    p_fail::c28_ops, p_fail::c28_drip, p_fail::c28_source, p_fail::c29_io, p_fail::c29_reply, p_fail::c29_auth,
    p_log::c30_raw, p_log::c30_wide, p_log::c30_own, p_log::c30_level,
    p_long::c01_many, p_long::c10_many, p_long::c11_repeat, p_long::c12_repeat, p_long::c12_mixed, p_long::c14_many, p_long::c17_repeat, p_long::c23_again, p_long::c28_long,
    p_more::c25_upgrade, p_more::c25_two, p_more::c25_many, p_more::c25_polls, p_more::c26_any, p_more::c26_word, p_more::c27_read, p_more::c27_long,
    p_reply::c05_raw, p_reply::c05_lines, p_reply::c05_ends, p_reply::c05_text, p_reply::c05_long, p_reply::c05_word, p_reply::c06_split, p_reply::c06_slow, p_reply::c06_cut, p_reply::c06_send, p_reply::c06_open, p_reply::c06_long, p_reply::c06_word, p_reply::c07_code, p_reply::c07_text, p_reply::c07_word, p_reply::c08_greeting, p_reply::c08_ehlo, p_reply::c08_codes, p_reply::c08_word, p_reply::c18_raw, p_reply::c18_line, p_reply::c18_long, p_reply::c18_wide, p_reply::c18_ehlo, p_reply::c18_status, p_reply::c18_word, p_reply::c19_reply, p_reply::c19_multi, p_reply::c19_unadvertised, p_reply::c19_word,
    p_session::c11_replies, p_session::c11_same, p_session::c11_word, p_session::c11_many, p_session::c11_again, p_session::c11_codes, p_session::c12_two, p_session::c12_chain, p_session::c12_tls, p_session::c12_many, p_session::c12_same, p_session::c12_word, p_session::c12_ahead, p_session::c16_error, p_session::c16_kinds, p_session::c16_abandon, p_session::c16_benign, p_session::c16_content, p_session::c16_long, p_session::c17_ops, p_session::c17_content, p_session::c17_long, p_session::c20_any, p_session::c20_counts,
    p_text::c02_any, p_text::c02_ascii, p_text::c02_long, p_text::c02_send, p_text::c02_word, p_text::c03_fixed, p_text::c03_arg, p_text::c03_long, p_text::c03_mail, p_text::c03_rcpt, p_text::c03_many, p_text::c03_size, p_text::c03_word, p_text::c04_any, p_text::c04_ascii, p_text::c04_long, p_text::c04_word, p_text::c21_codes, p_text::c21_parsed, p_text::c22_domain, p_text::c22_domain_long, p_text::c22_word, p_text::c22_ipv4, p_text::c22_ipv6, p_text::c22_wire6, p_text::c24_text, p_text::c24_many, p_text::c24_word, p_text::c24_wire,
}

/// usage: harness ENTRY TIER [INPUT...]   |   harness @FILE (one such line per run)
fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(sx)]
    {
        let (_, f) = ENTRIES[args.len()];
        f();
    }
    #[cfg(not(sx))]
    native(&args);
}

#[cfg(not(sx))]
fn native(args: &[String]) {
    use std::io::Write;
    let run = |name: &str, tier: usize, inputs: Vec<u64>| {
        let Some((_, f)) = ENTRIES.iter().find(|e| e.0 == name) else { println!("NO-ENTRY"); std::process::exit(5) };
        sx::NAT.with(|n| *n.borrow_mut() = sx::Nat { inputs, tier, ..Default::default() });
        f();
        let n = sx::NAT.with(|n| std::mem::take(&mut *n.borrow_mut()));
        (n.trace, n.failed, n.pos == n.inputs.len())
    };
    if let Some(f) = args[1].strip_prefix('@') {
        // batch: print "index trace" per line; the first uncaught panic ends the process
        let text = std::fs::read_to_string(f).unwrap();
        let out = std::io::stdout();
        for (i, l) in text.lines().enumerate() {
            let mut w = l.split_whitespace();
            let (name, tier) = (w.next().unwrap(), w.next().unwrap().parse().unwrap());
            let (trace, failed, all) = run(name, tier, w.map(|x| x.parse().unwrap()).collect());
            let mut o = out.lock();
            let hex: String = trace.iter().map(|b| format!("{b:02x}")).collect();
            writeln!(o, "{i} {} {} t{hex}", failed.len(), all).unwrap();
        }
        return;
    }
    let (trace, failed, _) = run(&args[1], args[2].parse().unwrap(), args[3..].iter().map(|x| x.parse().unwrap()).collect());
    println!("TRACE {}", String::from_utf8_lossy(&trace));
    for (id, t) in &failed { println!("CHECK-FAILED {id} {t}"); }
    println!("END {}", failed.len());
}
