//! What the regular expression crates themselves answer: reads pairs of hex lines (pattern, subject), prints for every
//! character position the spans (in characters) of all groups of the first match from there.
use std::io::BufRead;

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn main() {
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for c in lines.chunks(2) {
        if c.len() < 2 {
            break;
        }
        let (pat, sub) = (unhex(c[0].trim()), unhex(c[1].trim()));
        let re = match fancy_regex::Regex::new(&pat) {
            Ok(r) => r,
            Err(_) => {
                println!("E");
                continue;
            }
        };
        let mut out = vec![];
        let mut pos: Vec<usize> = sub.char_indices().map(|(i, _)| i).collect();
        pos.push(sub.len());
        for p in pos {
            match re.captures_from_pos(&sub, p) {
                Err(_) => out.push("E".to_string()),
                Ok(None) => out.push("-".to_string()),
                Ok(Some(c)) => {
                    let mut s = vec![];
                    for i in 0..c.len() {
                        s.push(match c.get(i) {
                            None => "n".to_string(),
                            Some(m) => format!("{},{}", sub[..m.start()].chars().count(), sub[..m.end()].chars().count()),
                        });
                    }
                    out.push(s.join(";"));
                }
            }
        }
        println!("{}", out.join(" "));
    }
}
