//! The plan/result block shared with libsimos.so (layout of simos/simos.h).
#![allow(dead_code)]

pub const MAXFILES: usize = 32;
pub const MAXSTREAMS: usize = 48;
pub const MAXEVENTS: usize = 16384;
pub const MAXHOSTS: usize = 24;
pub const MAXADDRS: usize = 4;
pub const MAXEPS: usize = 32;
pub const MAXROUTES: usize = 24;
pub const MAXREQS: usize = 64;
pub const MAXOPS: usize = 8192;
pub const MAXSCHED: usize = 1 << 18;
pub const STRCAP: usize = 1 << 20;
pub const REQCAP: usize = 4096;
pub const PATHCAP: usize = 256;
pub const DATACAP: usize = 192 << 20;
pub const NKINDS: usize = 16;

pub const EV_SPLIT: u32 = 1;
pub const EV_EINTR: u32 = 2;
pub const EV_ERR: u32 = 3;
pub const EV_EOF: u32 = 4;
pub const EV_DELAY: u32 = 5;
pub const EV_STALL: u32 = 6;
pub const EV_KILL: u32 = 7;

pub const OP_NAMES: &[&str] = &[
    "none", "open", "read", "write", "close", "stat", "seek", "socket", "connect", "send", "recv",
    "dns", "rename", "unlink", "mkdir", "truncate", "access", "sync", "dup", "sleep", "poll",
    "spawn", "shutdown", "badfd", "rmdir", "link", "chmod", "other",
];
pub const OP_OPEN: u16 = 1;
pub const OP_READ: u16 = 2;
pub const OP_WRITE: u16 = 3;
pub const OP_CLOSE: u16 = 4;
pub const OP_STAT: u16 = 5;
pub const OP_CONNECT: u16 = 8;
pub const OP_SEND: u16 = 9;
pub const OP_RECV: u16 = 10;
pub const OP_DNS: u16 = 11;
pub const OP_RENAME: u16 = 12;
pub const OP_UNLINK: u16 = 13;
pub const OP_MKDIR: u16 = 14;
pub const OP_TRUNC: u16 = 15;
pub const OP_BADFD: u16 = 23;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimEvent {
    pub off: u64,
    pub kind: u32,
    pub arg: u32,
    pub arg2: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct SimScript {
    pub ev_start: u32,
    pub ev_n: u32,
    pub chunk: u32,
    pub jitter: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimFile {
    pub path: [u8; PATHCAP],
    pub exists: u32,
    pub is_dir: u32,
    pub is_fifo: u32,
    pub nwriters: u32,
    pub open_err: i32,
    pub openw_err: i32,
    pub stat_err: i32,
    pub open_limit: u32,
    pub fake_size: i64,
    pub data_off: u64,
    pub data_len: u64,
    pub data_cap: u64,
    pub rd: SimScript,
    pub wr: SimScript,
    pub opens_r: u32,
    pub opens_w: u32,
    pub created: u32,
    pub truncated: u32,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub first_open_w_seq: u64,
    pub last_read_seq: u64,
    pub changed: u32,
    pub eof_seen: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimStream {
    pub data_off: u64,
    pub data_len: u64,
    pub rd: SimScript,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimHost {
    pub name: [u8; 128],
    pub rc: i32,
    pub naddrs: u32,
    pub addrs: [u32; MAXADDRS],
    pub delay_ms: u32,
    pub lookups: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimEp {
    pub ip: u32,
    pub port: u32,
    pub behaviour: u32,
    pub err: i32,
    pub delay_ms: u32,
    pub raw_stream: i32,
    pub raw_close: u32,
    pub connects: u32,
    pub wr: SimScript,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimRoute {
    pub ep: i32,
    pub host: [u8; 128],
    pub path: [u8; PATHCAP],
    pub stream: i32,
    pub close_after: u32,
    pub uses: u32,
    pub max_uses: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimReq {
    pub ep: i32,
    pub route: i32,
    pub len: u32,
    pub task: u32,
    pub seq: u64,
    pub text: [u8; REQCAP],
}
#[repr(C)]
#[derive(Clone, Copy)]
#[derive(Debug)]
pub struct SimOp {
    pub op: u16,
    pub task: u16,
    pub fd: i32,
    pub a: i64,
    pub ret: i64,
    pub str: u32,
    pub pad: u32,
    pub t_us: u64,
}
#[repr(C)]
pub struct SimShm {
    pub magic: u64,
    pub size: u64,
    pub user: [u64; 8],
    pub mode: u32,
    pub quiet: u32,
    pub seed: u64,
    pub rand_seed: u64,
    pub clock_start_ns: i64,
    pub mono_start_ns: i64,
    pub tick_ns: u64,
    pub step_cap: u64,
    pub fd_limit: u32,
    pub ntasks: u32,
    pub switch_pct: u32,
    pub sched_n: u32,
    pub tty_mask: u32,
    pub stdin_stream: u32,
    pub stdout_file: u32,
    pub stderr_file: u32,
    pub kill_at_op: u64,
    pub cwd: [u8; PATHCAP],
    pub prefix: [u8; PATHCAP],
    pub env_any: [u8; 64],
    pub nfiles: u32,
    pub nstreams: u32,
    pub nevents: u32,
    pub nhosts: u32,
    pub neps: u32,
    pub nroutes: u32,
    pub files: [SimFile; MAXFILES],
    pub streams: [SimStream; MAXSTREAMS],
    pub events: [SimEvent; MAXEVENTS],
    pub hosts: [SimHost; MAXHOSTS],
    pub eps: [SimEp; MAXEPS],
    pub routes: [SimRoute; MAXROUTES],
    pub sched_in: [u8; MAXSCHED],
    pub data_used: u64,
    pub now_ns: u64,
    pub nops: u64,
    pub trace_hash: u64,
    pub fired: [u64; NKINDS],
    pub n_short: u64,
    pub n_open_err: u64,
    pub n_stat_err: u64,
    pub n_conn_err: u64,
    pub n_dns_err: u64,
    pub n_rcvtimeo: u64,
    pub n_emfile: u64,
    pub hang: u32,
    pub killed: u32,
    pub step_capped: u32,
    pub deadlock: u32,
    pub open_fds: u32,
    pub max_open_fds: u32,
    pub bad_close: u32,
    pub unknown_paths: u32,
    pub nreqs: u32,
    pub nsched: u32,
    pub n_switches: u32,
    pub npanic: u32,
    pub nrandom: u32,
    pub nclock: u32,
    pub nfutex: u32,
    pub nspawned: u32,
    pub stdin_read: u64,
    pub stdin_eof: u64,
    pub reqs: [SimReq; MAXREQS],
    pub ops: [SimOp; MAXOPS],
    pub sched_out: [u8; MAXSCHED],
    pub str_used: u32,
    pub pad9: u32,
    pub strs: [u8; STRCAP],
    // data follows
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn set_cstr(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}

/// A mapped plan block.
pub struct Shm {
    pub fd: i32,
    p: *mut SimShm,
}
unsafe impl Send for Shm {}

pub const TOTAL: usize = std::mem::size_of::<SimShm>() + DATACAP;

impl Shm {
    /// A new block in an anonymous memory file, inherited by children.
    pub fn create() -> Shm {
        unsafe {
            let fd = libc::syscall(libc::SYS_memfd_create, c"simos".as_ptr(), 0) as i32;
            assert!(fd >= 0, "memfd_create");
            assert!(libc::ftruncate(fd, TOTAL as i64) == 0, "ftruncate");
            Shm::map(fd)
        }
    }
    fn map(fd: i32) -> Shm {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                TOTAL,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            Shm { fd, p: p as *mut SimShm }
        }
    }
    /// The block of the simulator preloaded into this very process.
    pub fn own() -> Option<Shm> {
        unsafe {
            let f = libc::dlsym(libc::RTLD_DEFAULT, c"simos_shm".as_ptr());
            if f.is_null() {
                return None;
            }
            let abi = libc::dlsym(libc::RTLD_DEFAULT, c"simos_abi".as_ptr());
            let abi: extern "C" fn() -> u64 = std::mem::transmute(abi);
            assert_eq!(abi(), std::mem::size_of::<SimShm>() as u64, "shared layout differs");
            let f: extern "C" fn() -> *mut SimShm = std::mem::transmute(f);
            let p = f();
            if p.is_null() {
                None
            } else {
                Some(Shm { fd: -1, p })
            }
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn s(&self) -> &mut SimShm {
        unsafe { &mut *self.p }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn data(&self, off: u64, len: u64) -> &mut [u8] {
        assert!(off + len <= DATACAP as u64, "simulated data area overflow");
        unsafe {
            let base = (self.p as *mut u8).add(std::mem::size_of::<SimShm>());
            std::slice::from_raw_parts_mut(base.add(off as usize), len as usize)
        }
    }
    pub fn alloc(&self, bytes: &[u8], spare: u64) -> (u64, u64) {
        let s = self.s();
        let off = s.data_used;
        self.data(off, bytes.len() as u64).copy_from_slice(bytes);
        s.data_used += (bytes.len() as u64 + spare + 63) & !63;
        (off, bytes.len() as u64)
    }
    pub fn close(&self) {
        unsafe {
            libc::munmap(self.p as *mut libc::c_void, TOTAL);
            if self.fd >= 0 {
                libc::close(self.fd);
            }
        }
    }
    pub fn op_str(&self, i: usize) -> Option<String> {
        let s = self.s();
        let o = &s.ops[i];
        if o.str == 0 {
            None
        } else {
            Some(cstr(&s.strs[o.str as usize..]))
        }
    }
}
