//! Prepares rustc's unoptimised IR: removes the bodies of the functions the
//! executor models itself, and keeps the functions of the code under test
//! apart (not inlined) so that evidence can name the ones executed.
use std::collections::HashSet;
use std::io::Write;

fn undefine(n: &str) -> bool {
    (n.starts_with("vf_") && n != "vf_select_pick")
        || n.contains("hash_one")
        || n.contains("3fmt6format12format_inner")
        || n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || (n.contains("std_detect") && n.contains("detect_and_initialize"))
}

/// Crate in which the item named by a v0 (or legacy) symbol is defined.
fn root(n: &str) -> &str {
    if let Some(i) = n.find("Cs") {
        let b = n.as_bytes();
        let mut j = i + 2;
        while j < b.len() && b[j] != b'_' {
            j += 1;
        }
        j += 1;
        let k = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if let Ok(l) = n.get(k..j).unwrap_or("").parse::<usize>() {
            return n.get(j..j + l).unwrap_or("");
        }
    }
    if let Some(r) = n.strip_prefix("_ZN") {
        let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(l) = d.parse::<usize>() {
            return r.get(d.len()..d.len() + l).unwrap_or("");
        }
    }
    ""
}

fn fname(l: &str) -> Option<&str> {
    let i = l.find('@')?;
    let r = &l[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return Some(&q[..q.find('"')?]);
    }
    Some(&r[..r.find('(')?])
}

pub fn prep(inp: &str, outp: &str) {
    let s = std::fs::read_to_string(inp).expect("input");
    let mut inl: HashSet<String> = HashSet::new();
    for l in s.lines() {
        if l.starts_with("attributes #") && l.contains("alwaysinline") {
            let t = l["attributes ".len()..].split(' ').next().unwrap();
            inl.insert(t.to_string());
        }
    }
    let mut out = Vec::with_capacity(s.len() + 4096);
    let mut skip = false;
    for l in s.lines() {
        if skip {
            if l == "}" {
                skip = false;
            }
            continue;
        }
        if l.starts_with("define ") {
            let n = fname(l).unwrap_or("");
            // end of the parameter list
            let at = l.find('@').unwrap();
            let open = at + l[at..].find('(').unwrap_or(0);
            let mut d = 0;
            let mut close = open;
            for (i, c) in l[open..].char_indices() {
                match c {
                    '(' => d += 1,
                    ')' => {
                        d -= 1;
                        if d == 0 {
                            close = open + i;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            if undefine(n) {
                let mut head = String::from("declare");
                for w in l["define".len()..at].split(' ') {
                    if matches!(w, "" | "internal" | "hidden" | "private" | "linkonce_odr" | "weak" | "weak_odr" | "dso_local" | "local_unnamed_addr" | "noundef" | "available_externally" | "linkonce") {
                        continue;
                    }
                    head.push(' ');
                    head.push_str(w);
                }
                head.push(' ');
                head.push_str(&l[at..=close]);
                out.extend_from_slice(head.as_bytes());
                out.push(b'\n');
                skip = true;
                continue;
            }
            let r = root(n);
            if r == "overlord" {
                let tail = &l[close + 1..];
                let group = tail.split_whitespace().find(|w| w.starts_with('#')).unwrap_or("");
                if !inl.contains(group) {
                    out.extend_from_slice(l[..=close].as_bytes());
                    // attributes come before alignment/personality
                    let (pre, post) = match tail.find('#') {
                        Some(i) => (&tail[..i], &tail[i..]),
                        None => {
                            let i = tail.find(" personality").or_else(|| tail.find(" align")).or_else(|| tail.find('!')).or_else(|| tail.find('{')).unwrap_or(0);
                            (&tail[..i], &tail[i..])
                        }
                    };
                    out.extend_from_slice(pre.as_bytes());
                    out.extend_from_slice(b" noinline ");
                    out.extend_from_slice(post.as_bytes());
                    out.push(b'\n');
                    continue;
                }
            }
        }
        out.extend_from_slice(l.as_bytes());
        out.push(b'\n');
    }
    std::fs::File::create(outp).expect("output").write_all(&out).expect("write");
}
