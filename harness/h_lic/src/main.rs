//! C13: licences.
use common::*;
use std::path::Path;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[allow(dead_code)]
#[path = "/repo/crates/licensing/src/lib.rs"]
mod original;
#[allow(dead_code)]
mod swapped {
    include!(concat!(env!("OUT_DIR"), "/lic.rs"));
}
use swapped::access::*;

const NOW: u64 = 1_750_000_000;

fn words_for(g: &mut Rng) -> String {
    random_word(g, &["a", "Dave", " ", "1", "17", "0", "ü", "\u{1F600}", "\"", "\\", "@", "\n", "Standard", "NoLicense", "Zuban"], 4)
}
fn random(g: &mut Rng) -> Fields {
    let times = [0, 1, 9, 10, NOW - 1, NOW, NOW + 1, NOW - 3600, NOW + 3600, u64::MAX, u64::MAX - 1];
    Fields {
        name: words_for(g),
        email: words_for(g),
        company: words_for(g),
        from: if g.chance(1, 2) { NOW - g.below(5) as u64 } else { *g.pick(&times) },
        until: if g.chance(1, 2) { NOW + g.below(5) as u64 } else { *g.pick(&times) },
        version: *g.pick(&[1, 0, 2, 11, usize::MAX]),
        standard: g.chance(3, 4),
        signature: String::new(),
    }
}
/// the statement of the property: what a license signed by `seed` and then left alone gives
fn want(f: &Fields, now: u64, seeds: &[u8], signer: u8) -> Result<bool, ()> {
    if !seeds.contains(&signer) {
        Ok(false)
    } else if f.from <= now && now <= f.until {
        Ok(true)
    } else {
        Err(())
    }
}
fn accept(f: &Fields, now: u64, seeds: &[u8], signer: u8) -> Result<(), String> {
    let l = sign(f, signer);
    let mut l0 = l.clone();
    l0.signature = f.signature.clone();
    if l0 != *f {
        return Err("signing altered a field".into());
    }
    for nanos in [0, 999_999_999] {
        let got = check(&l, Duration::new(now, nanos), seeds);
        let w = want(f, now, seeds, signer);
        if got.clone().map_err(|_| ()) != w {
            return Err(format!("signed by {signer}, trusted {seeds:?}, time {now}: {got:?}, expected {w:?}"));
        }
        if let Err(e) = got {
            let late = f.until < now;
            let ok = if f.from > now { e.contains("not yet") || late && e.contains("expired") } else { e.contains("expired") };
            if !ok {
                return Err(format!("validity {}..={} at {now} reported as {e:?}", f.from, f.until));
            }
        }
    }
    let j = to_json(&l);
    match from_json(&j) {
        Ok(b) if b == l => Ok(()),
        b => Err(format!("written as {j:?}, read back as {b:?}")),
    }
}
/// a signed license with one thing changed is never accepted
fn tamper(f: &Fields, how: usize, g: &mut Rng) -> (Fields, Fields, &'static str) {
    let mut f = f.clone();
    f.from = NOW - 10;
    f.until = NOW + 10;
    let l = sign(&f, 1);
    let mut t = l.clone();
    let edit = |s: &mut String, g: &mut Rng| {
        let old = s.clone();
        match g.below(5) {
            0 => s.push(*g.pick(&['x', '0', ' ', '\0', 'ü'])),
            1 => {
                s.pop();
            }
            2 => s.insert(0, *g.pick(&['x', ' ', '1'])),
            3 => *s = s.to_uppercase(),
            _ => *s = s.chars().rev().collect(),
        }
        if *s == old {
            s.push('y')
        }
    };
    let what = match how {
        0 => {
            edit(&mut t.name, g);
            "name"
        }
        1 => {
            edit(&mut t.email, g);
            "email"
        }
        2 => {
            edit(&mut t.company, g);
            "company"
        }
        3 => {
            t.from = *g.pick(&[0, NOW - 11, NOW - 9, NOW, (NOW - 10) / 10, NOW - 1000]);
            "start of validity"
        }
        4 => {
            t.until = *g.pick(&[NOW, NOW + 9, NOW + 11, (NOW + 10) * 10, u64::MAX]);
            "end of validity"
        }
        5 => {
            t.version = *g.pick(&[0, 2, 3, 11, usize::MAX].iter().filter(|v| **v != t.version).copied().collect::<Vec<_>>());
            "version"
        }
        6 => {
            t.standard = !t.standard;
            "level"
        }
        _ => {
            // one hexadecimal digit of the signature, another value
            let k = g.below(t.signature.len());
            let mut b = t.signature.clone().into_bytes();
            let v = (b[k] as char).to_digit(16).unwrap();
            let nv = (v + 1 + g.below(15) as u32) % 16;
            b[k] = std::char::from_digit(nv, 16).unwrap().to_ascii_uppercase() as u8;
            t.signature = String::from_utf8(b).unwrap();
            "signature"
        }
    };
    (l, t, what)
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}
fn in_file(dir: &str, f: &Fields, signer: u8, d_from: i64, d_until: i64) -> Result<(), String> {
    let mut f = f.clone();
    let n = now();
    f.from = n.checked_add_signed(d_from).unwrap();
    f.until = n.checked_add_signed(d_until).unwrap();
    let l = sign(&f, signer);
    let p = Path::new(dir).join("license.json");
    std::fs::write(&p, to_json(&l)).unwrap();
    let got = in_path(&p);
    let trusted = (1..=swapped::KEYS as u8).contains(&signer);
    let valid = d_from <= 0 && d_until >= 0;
    match got {
        Ok(level) if trusted && valid && level == f.standard => Ok(()),
        Err(_) if !(trusted && valid) => Ok(()),
        g => Err(format!("license file signed by key {signer} (trusted: {trusted}), valid from {d_from:+} s until {d_until:+} s, standard: {}: {g:?}", f.standard)),
    }
}

fn hex_key(s: &str) -> Result<(), String> {
    let got = original::hex_string_key_to_bytes(s.to_string());
    let parts: Vec<Option<u8>> = s.split(':').map(|p| if p.is_empty() { None } else { u8::from_str_radix(p, 16).ok() }).collect();
    let w: Option<Vec<u8>> = parts.into_iter().collect();
    let w = w.filter(|v| v.len() == 32);
    match (got, w) {
        (Ok(a), Some(b)) if a.to_vec() == b => Ok(()),
        (Err(_), None) => Ok(()),
        (a, b) => Err(format!("read as {a:?}, expected {b:?}")),
    }
}

fn main() {
    let mut r = Run::from_args();
    r.rule = "a license, the time, the trusted keys, and one change to it; non-trivial: the license carries a signature".into();
    let scratch = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp/h_lic".into());
    std::fs::create_dir_all(&scratch).unwrap();
    r.case("the trusted keys are valid keys, and distinct", true, || {
        let mut f = random(&mut Rng(1));
        f.signature = "00".repeat(64);
        // any invalid key would panic
        let mut l = original_license(&f);
        l.push(0);
        Ok(())
    });
    // the digits moved from one date to the other: the concatenation stays the same
    r.case("digits of valid_from moved into valid_until", true, || {
        let f = Fields { name: "Dave".into(), email: "d@x".into(), company: "Z".into(), from: 1_700_000_000, until: 1_800_000_000, version: 1, standard: true, signature: String::new() };
        let mut l = sign(&f, 1);
        l.from = 1;
        l.until = 7_000_000_001_800_000_000;
        match check(&l, Duration::from_secs(5_000_000_000), &[1]) {
            Ok(true) => Err("accepted after both dates were changed".into()),
            _ => Ok(()),
        }
    });
    r.case("the end of the name moved into the email address", true, || {
        let f = Fields { name: "Dave".into(), email: "d@x".into(), company: "Z".into(), from: NOW, until: NOW, version: 1, standard: true, signature: String::new() };
        let mut l = sign(&f, 1);
        l.name = "Dav".into();
        l.email = "ed@x".into();
        match check(&l, Duration::from_secs(NOW), &[1]) {
            Ok(true) => Err("accepted after name and email address were changed".into()),
            _ => Ok(()),
        }
    });
    // every order of dates and time around each other
    let grid = [0u64, 1, NOW - 1, NOW, NOW + 1, u64::MAX / 4];
    r.enumerating = true;
    for &a in &grid {
        for &b in &grid {
            for &t in &grid {
                let mut g = Rng(a ^ b ^ t);
                let mut f = random(&mut g);
                f.from = a;
                f.until = b;
                r.case(&format!("valid {a}..={b} at {t}"), true, || accept(&f, t, &[1], 1));
            }
        }
    }
    r.enumerated.push("all orders of start, end and current time".into());
    for signer in 1..=(swapped::KEYS as u8 + 2) {
        for (a, b) in [(-100, 100), (50, 100), (-100, -50), (-100, 50)] {
            let f = random(&mut Rng(signer as u64));
            r.case(&format!("license file of key {signer}, {a:+}..={b:+} s, {f:?}"), true, || in_file(&scratch, &f, signer, a, b));
        }
    }
    r.enumerated.push("every trusted key and two others, valid, early and late".into());
    r.enumerating = false;
    while r.time_left() {
        let mut g = r.rng.clone();
        match g.below(8) {
            0..3 => {
                let f = random(&mut g);
                let seeds: Vec<u8> = (0..g.below(4)).map(|_| g.below(4) as u8 + 1).collect();
                let signer = g.below(4) as u8 + 1;
                let t = if g.chance(1, 2) { NOW } else { NOW + 2 - g.below(5) as u64 };
                r.case(&format!("{f:?} signed by {signer}, trusted {seeds:?}, at {t}"), true, || accept(&f, t, &seeds, signer));
            }
            3..6 => {
                let f = random(&mut g);
                let how = g.below(8);
                let (l, t, what) = tamper(&f, how, &mut g);
                r.case(&format!("{l:?} with the {what} changed: {t:?}"), true, || match check(&t, Duration::from_secs(NOW), &[2, 1]) {
                    Ok(true) => Err(format!("accepted although the {what} was changed")),
                    _ => Ok(()),
                });
            }
            6 => {
                // malformed files
                let f = sign(&random(&mut g), 1);
                let mut j: Vec<char> = to_json(&f).chars().collect();
                for _ in 0..g.range(1, 3) {
                    if j.is_empty() {
                        break;
                    }
                    let k = g.below(j.len());
                    match g.below(3) {
                        0 => {
                            j.remove(k);
                        }
                        1 => j.insert(k, *g.pick(&['"', '{', '}', ',', '-', '9', 'ü', '\\', '\0'])),
                        _ => j.truncate(k.max(1)),
                    }
                }
                let s: String = j.into_iter().collect();
                let p = Path::new(&scratch).join("broken.json");
                r.case(&format!("license file {s:?}"), true, || {
                    std::fs::write(&p, &s).unwrap();
                    let parsed = from_json(&s);
                    let got = in_path(&p);
                    match (parsed, got) {
                        (Err(_), Ok(_)) => Err("accepted although it cannot be read".into()),
                        (Ok(l), Ok(_)) if l != f => Err(format!("accepted with other contents: {l:?}")),
                        _ => Ok(()),
                    }
                });
                let sig: String = random_word(&mut g, &["a", "F", "0", "z", " ", "ü", "00"], 130);
                let mut l = f.clone();
                l.signature = sig;
                r.case(&format!("signature {:?}", l.signature), true, || match check(&l, Duration::from_secs(NOW), &[1]) {
                    Ok(true) => Err("accepted".into()),
                    _ => Ok(()),
                });
            }
            _ => {
                let n = *g.pick(&[32, 31, 33, 1, 0]);
                let mut s = (0..n).map(|_| {
                    let k = if g.chance(1, 30) { 7 } else { 4 };
                    g.pick(&["00", "ff", "A", "7f", "100", "g", ""][..k]).to_string()
                }).collect::<Vec<_>>().join(":");
                if g.chance(1, 10) {
                    s.push(*g.pick(&[':', ' ', 'ü']));
                }
                r.case(&format!("key {s:?}"), n == 32, || hex_key(&s));
            }
        }
        r.rng = g;
    }
    r.finish()
}

fn original_license(f: &Fields) -> Vec<u8> {
    // verify() of the unmodified source goes through every key, and unwraps each
    let p = std::env::var("VERIF_SCRATCH").unwrap_or("/tmp/h_lic".into()) + "/orig.json";
    std::fs::write(&p, to_json(f)).unwrap();
    match original::verify_license_in_path(Path::new(&p)) {
        Ok(_) => panic!("a license with a zero signature is accepted"),
        Err(e) => e.to_string().into_bytes(),
    }
}
