//! Engines used in another process, so that nothing they do can end the check
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Request {
    pub dir: PathBuf,
    pub texts: Vec<String>,
    /// intents and their slots
    pub intents: Vec<(String, Vec<String>)>,
    pub calls: Vec<Call>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Reply {
    pub loaded: bool,
    pub error: String,
    pub answers: usize,
    pub failures: usize,
    pub rich: usize,
    pub panic: Option<String>,
}

fn serve_one(r: &Request) -> Reply {
    let mut out = Reply::default();
    let e = match no_panic(|| snips_nlu_lib::SnipsNluEngine::from_path(&r.dir)) {
        Err(p) => {
            out.panic = Some(format!("loading: {}", p));
            return out;
        }
        Ok(Err(e)) => {
            out.error = e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" / ");
            return out;
        }
        Ok(Ok(e)) => e,
    };
    out.loaded = true;
    let mut calls = r.calls.clone();
    for t in 0..r.texts.len() {
        calls.push(Call::Parse { text: t, white: None, black: None, n: 3, m: 2 });
        calls.push(Call::Intents(t));
        for (i, slots) in &r.intents {
            calls.push(Call::Parse { text: t, white: Some(vec![i.clone()]), black: None, n: 1, m: 0 });
            calls.push(Call::Slots(t, i.clone(), 1));
            for s in slots {
                calls.push(Call::Extract(t, i.clone(), s.clone(), 1));
            }
        }
    }
    for c in &calls {
        match no_panic(|| call(&e, &r.texts, c)) {
            Err(p) => {
                out.panic = Some(format!("{:?} of {:?}: {}", c, r.texts, p));
                return out;
            }
            Ok(Answer::Failed(_)) => out.failures += 1,
            Ok(a) => {
                out.answers += 1;
                match a {
                    Answer::Parse(p) if !p.slots.is_empty() => out.rich += 1,
                    Answer::Slots(s) if !s.is_empty() => out.rich += 1,
                    _ => {}
                }
            }
        }
    }
    if let Err(p) = no_panic(move || drop(e)) {
        out.panic = Some(format!("dropping: {}", p));
    }
    out
}

pub fn serve() {
    unsafe {
        let limit = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (kind, line) = line.split_at(1);
        let mut line = match kind {
            "C" => serde_json::to_string(&crate::ffi::serve_c(&serde_json::from_str(line).unwrap())),
            _ => serde_json::to_string(&serve_one(&serde_json::from_str(line).unwrap())),
        }
        .unwrap();
        line.push('\n');
        std::io::stdout().write_all(line.as_bytes()).unwrap();
    }
}

pub struct Server {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Server {
    fn new() -> Server {
        Server::of(Command::new(std::env::current_exe().unwrap()).arg("--serve"))
    }

    /// The process of the command answers a line to each line it reads
    pub fn of(command: &mut Command) -> Server {
        let mut child = command
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Server { child, stdin, stdout }
    }

    pub fn ask<T: Serialize, R: DeserializeOwned>(&mut self, kind: &str, r: &T, seconds: u64) -> std::result::Result<R, String> {
        self.ask_bytes(format!("{}{}\n", kind, serde_json::to_string(r).unwrap()).as_bytes(), seconds)
    }

    pub fn ask_bytes<R: DeserializeOwned>(&mut self, request: &[u8], seconds: u64) -> std::result::Result<R, String> {
        let sent = self.stdin.write_all(request).and_then(|_| self.stdin.flush());
        if sent.is_ok() {
            let mut fd = libc::pollfd { fd: self.stdout.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let ready = unsafe { libc::poll(&mut fd, 1, (seconds * 1000) as i32) };
            if ready == 0 {
                return Err(format!("no answer after {} s", seconds));
            }
            let mut line = String::new();
            if let Ok(n) = self.stdout.read_line(&mut line) {
                if n > 0 {
                    return serde_json::from_str(&line).map_err(|e| format!("{}: {:?}", e, line));
                }
            }
        }
        let status = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
        Err(format!("the process has ended: {}", status))
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = RefCell::new(None);
}

pub fn ask(r: &Request) -> std::result::Result<Reply, String> {
    ask_as("E", r)
}

pub fn ask_as<T: Serialize, R: DeserializeOwned>(kind: &str, r: &T) -> std::result::Result<R, String> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Server::new());
        }
        let reply = s.as_mut().unwrap().ask(kind, r, 30);
        if reply.is_err() {
            *s = None;
        }
        reply
    })
}

pub fn request(dir: &Path, case: &Case, calls: &[Call]) -> Request {
    Request {
        dir: dir.to_path_buf(),
        texts: case.texts.clone(),
        intents: case.spec.intents.iter().map(|i| (i.name.clone(), i.slots.keys().cloned().collect())).collect(),
        calls: calls.to_vec(),
    }
}
