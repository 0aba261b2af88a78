//! Memory shared between a worker and the forked child that executes one run.

pub const MAX_DEC: usize = 40_000;
pub const TEXT: usize = 1 << 16;
pub const LOG: usize = 8 << 20;
pub const COV: usize = 1 << 15;
pub const CUR: usize = 64;
pub const NPROBE: usize = 64;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Decision {
    pub kind: u8,
    pub tid: u16,
    pub op: u32,
    pub k: u32,
    pub arg: u64,
}

pub const D_SWITCH: u8 = 1;
pub const D_FAULT: u8 = 2;
pub const D_SOFT: u8 = 3;
pub const D_CRASH: u8 = 4;
pub const D_MONO: u8 = 5;
pub const D_REAL: u8 = 6;
pub const D_BB: u8 = 7;
pub const D_PICK: u8 = 8;
pub const D_FLIP: u8 = 9;

pub fn decision_name(k: u8) -> &'static str {
    match k {
        D_SWITCH => "switch",
        D_FAULT => "fault",
        D_SOFT => "soft",
        D_CRASH => "kill",
        D_MONO => "clock",
        D_REAL => "realclock",
        D_BB => "preempt",
        D_PICK => "pick",
        D_FLIP => "flip",
        _ => "?",
    }
}

pub fn decision_kind(s: &str) -> u8 {
    (1..=9).find(|&k| decision_name(k) == s).unwrap_or(0)
}

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_TRUNCATED: u32 = 3;
pub const ST_HARNESS: u32 = 4;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub ndec: u32,
    pub dec_overflow: u32,
    pub text_len: u32,
    pub cur_tid: u32,
    pub cur_len: [u32; CUR],
    pub log_len: u32,
    pub log_on: u32,
    pub ops: u64,
    pub events: u64,
    pub switches: u64,
    pub preempts: u64,
    pub bbs: u64,
    pub sim_ns: u64,
    pub trace: u64,
    pub sched_hash: u64,
    pub probes: [u64; NPROBE],
    pub dec: [Decision; MAX_DEC],
    pub text: [u8; TEXT],
    pub cur: [[u8; 256]; CUR],
    pub cov: [u8; COV],
    pub log: [u8; LOG],
}

impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shared)
        }
    }
    /// Reset everything that belongs to one run; coverage accumulates.
    pub fn reset(&mut self) {
        self.status = ST_RUNNING;
        self.ndec = 0;
        self.dec_overflow = 0;
        self.text_len = 0;
        self.cur_tid = 0;
        self.cur_len = [0; CUR];
        self.log_len = 0;
        self.ops = 0;
        self.events = 0;
        self.switches = 0;
        self.preempts = 0;
        self.bbs = 0;
        self.sim_ns = 0;
        self.trace = 0;
        self.sched_hash = 0;
        self.probes = [0; NPROBE];
    }
    pub fn set_text(&mut self, s: &str) {
        let n = s.len().min(TEXT);
        self.text[..n].copy_from_slice(&s.as_bytes()[..n]);
        self.text_len = n as u32;
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.text[..self.text_len as usize]).into_owned()
    }
    /// What a thread is doing in the library, kept where it survives the death of the process.
    pub fn set_cur(&mut self, tid: usize, s: &str) {
        let t = tid.min(CUR - 1);
        let n = s.len().min(256);
        self.cur[t][..n].copy_from_slice(&s.as_bytes()[..n]);
        self.cur_len[t] = n as u32;
    }
    pub fn cur(&self) -> String {
        let t = (self.cur_tid as usize).min(CUR - 1);
        String::from_utf8_lossy(&self.cur[t][..self.cur_len[t] as usize]).into_owned()
    }
    pub fn push_log(&mut self, s: &str) {
        if self.log_on == 0 {
            return;
        }
        let at = self.log_len as usize;
        let n = s.len().min(LOG - at);
        self.log[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
        self.log_len += n as u32;
        if at + n < LOG {
            self.log[at + n] = b'\n';
            self.log_len += 1;
        }
    }
    pub fn log(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len as usize]).into_owned()
    }
    pub fn decisions(&self) -> Vec<Decision> {
        self.dec[..self.ndec as usize].to_vec()
    }
}
