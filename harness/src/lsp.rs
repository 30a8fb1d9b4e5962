//! A client for the real server binary (over stdio) and an independent position codec.

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

pub fn cleanup() {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    U8,
    U16,
    U32,
}

impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::U8 => "utf-8",
            Enc::U16 => "utf-16",
            Enc::U32 => "utf-32",
        }
    }
    pub fn parse(s: &str) -> Option<Enc> {
        [Enc::U8, Enc::U16, Enc::U32].into_iter().find(|e| e.name() == s)
    }
    pub fn len(self, s: &str) -> u32 {
        match self {
            Enc::U8 => s.len() as u32,
            Enc::U16 => s.encode_utf16().count() as u32,
            Enc::U32 => s.chars().count() as u32,
        }
    }
}

/// Offset -> (line, character).
pub fn to_pos(text: &str, off: usize, enc: Enc) -> (u32, u32) {
    let before = &text[..off];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, enc.len(&text[start..off]))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    Off(usize),
    /// Past the end of its line: the end of the line is meant (here: the offset before the line feed).
    Past(usize),
    /// Inside a character.
    Mid,
    /// Past the last line.
    NoLine,
}

pub fn to_off(text: &str, line: u32, ch: u32, enc: Enc) -> At {
    let mut start = 0usize;
    for _ in 0..line {
        match text[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return At::NoLine,
        }
    }
    let end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    let mut n = 0u32;
    for (i, c) in text[start..end].char_indices() {
        if n == ch {
            return At::Off(start + i);
        }
        if n > ch {
            return At::Mid;
        }
        n += match enc {
            Enc::U8 => c.len_utf8() as u32,
            Enc::U16 => c.len_utf16() as u32,
            Enc::U32 => 1,
        };
    }
    if n == ch {
        At::Off(end)
    } else if n > ch {
        At::Mid
    } else {
        At::Past(end)
    }
}

pub fn pos_json(text: &str, off: usize, enc: Enc) -> Value {
    let (l, c) = to_pos(text, off, enc);
    json!({"line": l, "character": c})
}
pub fn range_json(text: &str, s: usize, e: usize, enc: Enc) -> Value {
    json!({"start": pos_json(text, s, enc), "end": pos_json(text, e, enc)})
}
pub fn off_of(text: &str, v: &Value, enc: Enc) -> Option<usize> {
    match to_off(text, u32::try_from(v["line"].as_u64()?).ok()?, u32::try_from(v["character"].as_u64()?).ok()?, enc) {
        At::Off(o) => Some(o),
        _ => None,
    }
}
pub fn range_of(text: &str, v: &Value, enc: Enc) -> Option<(usize, usize)> {
    Some((off_of(text, &v["start"], enc)?, off_of(text, &v["end"], enc)?))
}

pub struct Client {
    child: Child,
    tx: Option<Sender<Vec<u8>>>,
    rx: Receiver<Value>,
    err: Receiver<String>,
    pub sent: Vec<Value>,
    pub got: Vec<Value>,
}

fn server() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("ink-lsp-server")
}

pub enum Got {
    Msg(Value),
    Timeout,
    Closed,
}

impl Client {
    pub fn start(cwd: &Path) -> Client {
        let _ = std::fs::create_dir_all(cwd);
        let mut child = Command::new(server())
            .current_dir(cwd)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn server");
        let mut sin: ChildStdin = child.stdin.take().unwrap();
        let (tx, wrx) = channel::<Vec<u8>>();
        std::thread::spawn(move || {
            for b in wrx {
                if sin.write_all(&b).and_then(|_| sin.flush()).is_err() {
                    break;
                }
            }
        });
        let out = child.stdout.take().unwrap();
        let (mtx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut len = None;
                loop {
                    let mut l = String::new();
                    match r.read_line(&mut l) {
                        Ok(0) | Err(_) => return,
                        _ => (),
                    }
                    let l = l.trim();
                    if l.is_empty() {
                        break;
                    }
                    if let Some(n) = l.to_ascii_lowercase().strip_prefix("content-length:") {
                        len = n.trim().parse::<usize>().ok();
                    }
                }
                let Some(n) = len else {
                    let _ = mtx.send(json!({"framing": "no content length"}));
                    return;
                };
                let mut b = vec![0; n];
                if r.read_exact(&mut b).is_err() {
                    let _ = mtx.send(json!({"framing": "message cut off"}));
                    return;
                }
                let v = serde_json::from_slice::<Value>(&b).unwrap_or_else(|e| json!({"framing": e.to_string()}));
                if mtx.send(v).is_err() {
                    return;
                }
            }
        });
        let errp = child.stderr.take().unwrap();
        let (etx, err) = channel();
        std::thread::spawn(move || {
            let mut s = String::new();
            let _ = BufReader::new(errp).read_to_string(&mut s);
            let _ = etx.send(s);
        });
        Client { child, tx: Some(tx), rx, err, sent: vec![], got: vec![] }
    }
    pub fn send(&mut self, m: Value) {
        self.send_all(vec![m]);
    }
    /// Sends several messages in one write.
    pub fn send_all(&mut self, ms: Vec<Value>) {
        let mut b = vec![];
        for m in ms {
            let s = m.to_string();
            b.extend_from_slice(format!("Content-Length: {}\r\n\r\n{s}", s.len()).as_bytes());
            self.sent.push(m);
        }
        if let Some(tx) = &self.tx {
            let _ = tx.send(b);
        }
    }
    pub fn recv(&mut self, secs: u64) -> Got {
        match self.rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(v) => {
                self.got.push(v.clone());
                Got::Msg(v)
            }
            Err(RecvTimeoutError::Timeout) => Got::Timeout,
            Err(RecvTimeoutError::Disconnected) => Got::Closed,
        }
    }
    /// Waits for the end of the process; returns its exit code (`None`: killed by a signal or still running).
    pub fn wait(&mut self, secs: u64) -> (bool, Option<i32>) {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return (true, s.code());
            }
            if t.elapsed() > Duration::from_secs(secs) {
                return (false, None);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    pub fn stderr(&mut self) -> String {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.err.recv_timeout(Duration::from_secs(5)).unwrap_or_default()
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        self.tx = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Drops null members everywhere (absent and null mean the same in LSP).
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        o => o.clone(),
    }
}

pub fn uri_of(p: &Path) -> String {
    let mut s = String::from("file://");
    for c in p.to_str().unwrap().bytes() {
        match c {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'-' | b'_' | b'.' | b'~' => s.push(c as char),
            c => s.push_str(&format!("%{c:02X}")),
        }
    }
    s
}
