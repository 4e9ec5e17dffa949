//! Executors: the real c8s binary behind the fork-server shim, and the in-process worker (the same source files of
//! /repo compiled into a worker process) used where millions of executions are needed.

use std::fs::File;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn prctl(op: i32, ...) -> i32;
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    Timeout,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CallKind {
    Open,
    Read,
    Write,
    Close,
    Rename,
    Unlink,
    Truncate,
    Sync,
    Other,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: CallKind,
    pub fd: i32,
    pub want: u64,
    pub got: i64,
    pub action: u32,
    pub flags: u32,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct RunResult {
    pub status: Status,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub calls: Vec<Call>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fault {
    pub index: u32,
    pub action: u32,
    pub arg: i32,
}

pub const A_ERRNO: u32 = 1;
pub const A_SHORT: u32 = 2;
pub const A_ZERO: u32 = 3;

#[derive(Clone, Debug)]
pub struct Request {
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    pub cwd: PathBuf,
    pub seed: Option<u64>,
    pub faults: Vec<Fault>,
    pub timeout_ms: u32,
    pub as_mb: u32,
    pub want_calls: bool,
    pub world: World,
}

/// What the program sees of the world when it asks; zero leaves the real answer.
#[derive(Clone, Debug, Default)]
pub struct World {
    pub time: Option<i64>,
    pub pid: u32,
    /// 1: every descriptor is a terminal, 2: none is.
    pub tty: u32,
    pub cpus: u32,
    /// User id plus one.
    pub uid: u32,
    /// A path the program names, and the file it is given instead.
    pub redirect: Option<(String, String)>,
    /// The working directory is removed before the program starts.
    pub gone: bool,
}

const FD_OUT: i32 = 195;
const MAXCALLS: usize = 4096;
const CALL_SIZE: usize = 4 + 4 + 8 + 8 + 4 + 4 + 96;
const SHM_SIZE: usize = 8 + MAXCALLS * CALL_SIZE;

pub struct Server {
    child: Child,
    out: File,
    err: File,
    shm: *mut u8,
    _shm_file: File,
    req: File,
    rsp: File,
    pub dir: PathBuf,
    bin: PathBuf,
    shim: PathBuf,
}

unsafe impl Send for Server {}

fn memfd(append: bool) -> io::Result<File> {
    unsafe {
        let fd = memfd_create(b"mc\0".as_ptr(), 1);
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        if append {
            fcntl(fd, 4, 0o2000); // F_SETFL, O_APPEND
        }
        Ok(File::from_raw_fd(fd))
    }
}

fn pipe() -> io::Result<(File, File)> {
    let mut f = [0i32; 2];
    unsafe {
        if pipe2(f.as_mut_ptr(), 0o2000000) < 0 {
            return Err(io::Error::last_os_error());
        }
        Ok((File::from_raw_fd(f[0]), File::from_raw_fd(f[1])))
    }
}

struct Spawned {
    child: Child,
    out: File,
    err: File,
    shm_file: File,
    shm: *mut u8,
    req: File,
    rsp: File,
}

fn spawn_server(bin: &Path, shim: &Path, dir: &Path) -> io::Result<Spawned> {
    let out = memfd(true)?;
    let err = memfd(true)?;
    let shm_file = memfd(false)?;
    shm_file.set_len(SHM_SIZE as u64)?;
    let shm = unsafe { mmap(std::ptr::null_mut(), SHM_SIZE, 3, 1, shm_file.as_raw_fd(), 0) };
    if shm as isize == -1 {
        return Err(io::Error::last_os_error());
    }
    let (req_r, req_w) = pipe()?;
    let (rsp_r, rsp_w) = pipe()?;
    let fds: [RawFd; 5] = [out.as_raw_fd(), err.as_raw_fd(), shm_file.as_raw_fd(), req_r.as_raw_fd(), rsp_w.as_raw_fd()];
    let mut cmd = Command::new(bin);
    cmd.env_clear()
        .env("LD_PRELOAD", shim)
        .env("C8S_FORKSERVER", "1")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            prctl(1, 9u64);
            // Source descriptors are all below 195 (few are open), so no dup2 overwrites one still needed.
            for (i, fd) in fds.iter().enumerate() {
                if dup2(*fd, FD_OUT + i as i32) < 0 {
                    return Err(io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let child = cmd.spawn()?;
    Ok(Spawned { child, out, err, shm_file, shm, req: req_w, rsp: rsp_r })
}

impl Server {
    pub fn new(bin: &Path, shim: &Path, dir: &Path) -> io::Result<Server> {
        std::fs::create_dir_all(dir)?;
        let s = spawn_server(bin, shim, dir)?;
        Ok(Server {
            child: s.child,
            out: s.out,
            err: s.err,
            shm: s.shm,
            _shm_file: s.shm_file,
            req: s.req,
            rsp: s.rsp,
            dir: dir.to_path_buf(),
            bin: bin.to_path_buf(),
            shim: shim.to_path_buf(),
        })
    }

    fn restart(&mut self) -> io::Result<()> {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let s = spawn_server(&self.bin, &self.shim, &self.dir)?;
        unsafe {
            munmap(self.shm, SHM_SIZE);
        }
        self.child = s.child;
        self.out = s.out;
        self.err = s.err;
        self.shm = s.shm;
        self._shm_file = s.shm_file;
        self.req = s.req;
        self.rsp = s.rsp;
        Ok(())
    }

    pub fn run(&mut self, r: &Request) -> io::Result<RunResult> {
        for attempt in 0..3 {
            match self.try_run(r) {
                Ok(x) => return Ok(x),
                Err(e) if attempt == 2 => return Err(e),
                Err(_) => self.restart()?,
            }
        }
        unreachable!()
    }

    fn try_run(&mut self, r: &Request) -> io::Result<RunResult> {
        unsafe {
            ftruncate(self.out.as_raw_fd(), 0);
            ftruncate(self.err.as_raw_fd(), 0);
        }
        let mut b: Vec<u8> = Vec::with_capacity(512);
        let u = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
        let s = |b: &mut Vec<u8>, v: &[u8]| {
            b.extend_from_slice(&(v.len() as u32).to_le_bytes());
            b.extend_from_slice(v);
            b.push(0);
        };
        u(&mut b, r.seed.is_some() as u32 | (r.world.gone as u32) << 1);
        b.extend_from_slice(&r.seed.unwrap_or(0).to_le_bytes());
        u(&mut b, r.timeout_ms / 1000 + 5);
        u(&mut b, r.as_mb);
        u(&mut b, r.timeout_ms);
        u(&mut b, r.world.time.is_some() as u32);
        b.extend_from_slice(&r.world.time.unwrap_or(0).to_le_bytes());
        for w in [r.world.pid, r.world.tty, r.world.cpus, r.world.uid] {
            u(&mut b, w);
        }
        u(&mut b, r.faults.len() as u32);
        for f in &r.faults {
            u(&mut b, f.index);
            u(&mut b, f.action);
            u(&mut b, f.arg as u32);
        }
        let (from, to) = r.world.redirect.clone().unwrap_or_default();
        s(&mut b, from.as_bytes());
        s(&mut b, to.as_bytes());
        s(&mut b, r.cwd.as_os_str().as_encoded_bytes());
        u(&mut b, r.argv.len() as u32);
        for a in &r.argv {
            s(&mut b, a);
        }
        u(&mut b, r.env.len() as u32);
        for a in &r.env {
            s(&mut b, a);
        }
        let mut m = (b.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(&b);
        self.req.write_all(&m)?;
        if !wait_readable(self.rsp.as_raw_fd(), r.timeout_ms as i32 + 30_000) {
            return Err(io::Error::new(io::ErrorKind::TimedOut, "fork server does not answer"));
        }
        let mut a = [0u8; 12];
        self.rsp.read_exact(&mut a)?;
        let g = |i: usize| i32::from_le_bytes(a[i..i + 4].try_into().unwrap());
        let (st, timed, n) = (g(0), g(4), g(8) as usize);
        if timed == 2 {
            return Err(io::Error::new(io::ErrorKind::Other, "fork failed"));
        }
        let status = if timed != 0 {
            Status::Timeout
        } else if st & 0x7f == 0 {
            Status::Exit((st >> 8) & 0xff)
        } else {
            Status::Signal(st & 0x7f)
        };
        if status == Status::Exit(93) {
            return Err(io::Error::new(io::ErrorKind::Other, "the working directory is not accessible"));
        }
        let calls = if r.want_calls { self.calls(n.min(MAXCALLS)) } else { Vec::new() };
        Ok(RunResult { status, out: read_all(&self.out)?, err: read_all(&self.err)?, calls })
    }

    fn calls(&self, n: usize) -> Vec<Call> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let p = unsafe { std::slice::from_raw_parts(self.shm.add(8 + i * CALL_SIZE), CALL_SIZE) };
            let u4 = |o: usize| u32::from_le_bytes(p[o..o + 4].try_into().unwrap());
            let u8_ = |o: usize| u64::from_le_bytes(p[o..o + 8].try_into().unwrap());
            let kind = match u4(0) {
                1 => CallKind::Open,
                2 => CallKind::Read,
                3 => CallKind::Write,
                4 => CallKind::Close,
                5 => CallKind::Rename,
                6 => CallKind::Unlink,
                7 => CallKind::Truncate,
                8 => CallKind::Sync,
                _ => CallKind::Other,
            };
            let path = &p[32..];
            let end = path.iter().position(|b| *b == 0).unwrap_or(path.len());
            v.push(Call {
                kind,
                fd: u4(4) as i32,
                want: u8_(8),
                got: u8_(16) as i64,
                action: u4(24),
                flags: u4(28),
                path: String::from_utf8_lossy(&path[..end]).into_owned(),
            });
        }
        v
    }
}

fn read_all(f: &File) -> io::Result<Vec<u8>> {
    use std::os::unix::fs::FileExt;
    let n = f.metadata()?.len() as usize;
    let mut v = vec![0u8; n];
    f.read_exact_at(&mut v, 0)?;
    Ok(v)
}

fn wait_readable(fd: RawFd, ms: i32) -> bool {
    let mut p = PollFd { fd, events: 1, revents: 0 };
    loop {
        let r = unsafe { poll(&mut p, 1, ms) };
        if r < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
            continue;
        }
        return r > 0;
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            munmap(self.shm, SHM_SIZE);
        }
    }
}

// ---------------------------------------------------------------- in-process worker

pub struct Worker {
    bin: PathBuf,
    shim: PathBuf,
    child: Child,
}

impl Worker {
    pub fn new(bin: &Path, shim: &Path) -> io::Result<Worker> {
        Ok(Worker { bin: bin.to_path_buf(), shim: shim.to_path_buf(), child: Self::spawn(bin, shim)? })
    }

    fn spawn(bin: &Path, shim: &Path) -> io::Result<Child> {
        let mut cmd = Command::new(bin);
        cmd.env_clear().env("LD_PRELOAD", shim).env("C8S_SEED", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                prctl(1, 9u64);
                Ok(())
            });
        }
        cmd.spawn()
    }

    /// Runs all sources; a source that kills or stalls the worker is reported as such.
    pub fn batch(&mut self, srcs: &[Vec<u8>]) -> io::Result<Vec<RunResult>> {
        match self.try_batch(srcs, 30_000) {
            Ok(v) => Ok(v),
            Err(_) => {
                let mut all = Vec::new();
                self.respawn()?;
                for s in srcs {
                    match self.try_batch(std::slice::from_ref(s), 15_000) {
                        Ok(mut v) => all.append(&mut v),
                        Err(e) => {
                            let status = if e.kind() == io::ErrorKind::TimedOut { Status::Timeout } else { Status::Signal(6) };
                            all.push(RunResult { status, out: vec![], err: vec![], calls: vec![] });
                            self.respawn()?;
                        }
                    }
                }
                Ok(all)
            }
        }
    }

    fn respawn(&mut self) -> io::Result<()> {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.child = Self::spawn(&self.bin, &self.shim)?;
        Ok(())
    }

    fn try_batch(&mut self, srcs: &[Vec<u8>], ms: i32) -> io::Result<Vec<RunResult>> {
        let total: usize = srcs.iter().map(|s| s.len() + 4).sum();
        let mut b = Vec::with_capacity(total + 8);
        b.extend_from_slice(&(srcs.len() as u32).to_le_bytes());
        b.extend_from_slice(&(total as u32).to_le_bytes());
        for s in srcs {
            b.extend_from_slice(&(s.len() as u32).to_le_bytes());
            b.extend_from_slice(s);
        }
        self.child.stdin.as_mut().unwrap().write_all(&b)?;
        let so = self.child.stdout.as_mut().unwrap();
        if !wait_readable(so.as_raw_fd(), ms) {
            return Err(io::Error::new(io::ErrorKind::TimedOut, "worker stalled"));
        }
        let mut n = [0u8; 4];
        so.read_exact(&mut n)?;
        let mut body = vec![0u8; u32::from_le_bytes(n) as usize];
        so.read_exact(&mut body)?;
        let mut out = Vec::with_capacity(srcs.len());
        let mut p = 0;
        for _ in srcs {
            let code = body[p] as i32;
            let len = u32::from_le_bytes(body[p + 1..p + 5].try_into().unwrap()) as usize;
            out.push(RunResult {
                status: Status::Exit(code),
                out: body[p + 5..p + 5 + len].to_vec(),
                err: vec![],
                calls: vec![],
            });
            p += 5 + len;
        }
        Ok(out)
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
