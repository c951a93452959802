//! Simulated disk under /sim/: page cache vs durable contents, injected read/write errors, crashes.
use crate::core::cx;
use libc::c_int;
use std::collections::BTreeMap;

const BASE: c_int = 0x2000_0000;
#[derive(Clone, Default)]
pub struct Inode {
    pub cached: Vec<u8>,
    pub durable: Vec<u8>,
}
struct Handle {
    ino: usize,
    pos: usize,
    write: bool,
    reads: u64,
    writes: u64,
}
/// Fault plan for the next opens; positions are byte offsets so that they land inside operations.
#[derive(Clone, Default, Debug)]
pub struct Plan {
    pub open_err: Option<c_int>,
    pub read_err_at: Option<(usize, c_int)>,
    pub eintr_every: u64,
    pub chunk: usize,
    pub write_err_at: Option<(usize, c_int)>,
    pub write_chunk: usize,
    pub write_eintr_every: u64,
    pub fsync_err: bool,
    /// replace directory entry `.0` by inode contents `.1` (atomic rename) after this many reads
    pub swap_after: Option<(u64, String, Vec<u8>)>,
    pub swapped: bool,
    /// the file is of a kind whose size the system does not know (procfs, devices): it reports 0
    pub no_size: bool,
}
#[derive(Default)]
pub struct Disk {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    handles: BTreeMap<c_int, Handle>,
    next: c_int,
    pub plan: Plan,
    pub echo: bool,
    /// the system's time zone files are simulated too
    pub system: bool,
    /// files replaced without a new modification time (restored with their old one, or within the clock's resolution)
    pub frozen: BTreeMap<String, i64>,
}
static mut DISK: Option<Disk> = None;
#[allow(static_mut_refs)]
pub fn disk() -> &'static mut Disk {
    unsafe { DISK.get_or_insert_with(Default::default) }
}
pub fn echo() -> bool {
    disk().echo
}
pub fn is_virtual(fd: c_int) -> bool {
    (BASE..BASE + 0x1000_0000).contains(&fd)
}
fn simpath(p: &[u8]) -> Option<String> {
    if p.starts_with(b"/sim/") || (disk().system && (p == b"/etc/localtime" || p.windows(10).any(|w| w == b"/zoneinfo/"))) {
        Some(String::from_utf8_lossy(p).into_owned())
    } else {
        None
    }
}
pub fn put(path: &str, data: &[u8]) {
    let d = disk();
    d.inodes.push(Inode { cached: data.to_vec(), durable: data.to_vec() });
    let i = d.inodes.len() - 1;
    d.names.insert(path.to_string(), i);
}
pub fn mtime(ino: usize) -> i64 {
    let d = disk();
    d.names.iter().find(|(_, i)| **i == ino).and_then(|(n, _)| d.frozen.get(n).copied()).unwrap_or(1_600_000_000 + ino as i64)
}
pub fn inode(fd: c_int) -> usize {
    disk().handles.get(&fd).map_or(0, |h| h.ino)
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    let d = disk();
    d.names.get(path).map(|i| d.inodes[*i].cached.clone())
}
pub fn rename(a: &str, b: &str) {
    let d = disk();
    if let Some(i) = d.names.remove(a) {
        d.names.insert(b.into(), i);
    }
}
/// (length, modification time); every put() gives a new modification time
pub fn stat_path(p: &[u8]) -> Option<Result<(usize, i64), c_int>> {
    let p = simpath(p)?;
    let d = disk();
    Some(d.names.get(&p).map(|i| (if d.plan.no_size { 0 } else { d.inodes[*i].cached.len() }, mtime(*i))).ok_or(libc::ENOENT))
}
pub fn open(p: &[u8], flags: c_int) -> Option<Result<c_int, c_int>> {
    let p = simpath(p)?;
    let d = disk();
    if d.system && !p.starts_with("/sim/") {
        cx().stat("op.zone_file_opened");
    }
    if let Some(e) = d.plan.open_err.take() {
        cx().fault(&format!("open_errno_{e}"));
        return Some(Err(e));
    }
    let write = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let ino = match d.names.get(&p) {
        Some(i) => *i,
        None if flags & libc::O_CREAT != 0 => {
            d.inodes.push(Inode::default());
            let i = d.inodes.len() - 1;
            d.names.insert(p.clone(), i);
            i
        }
        None => return Some(Err(libc::ENOENT)),
    };
    if flags & libc::O_TRUNC != 0 && write {
        d.inodes[ino].cached.clear();
    }
    let fd = BASE + d.next;
    d.next += 1;
    d.handles.insert(fd, Handle { ino, pos: 0, write, reads: 0, writes: 0 });
    Some(Ok(fd))
}
pub fn read(fd: c_int, buf: &mut [u8]) -> Result<usize, c_int> {
    let d = disk();
    let Some(h) = d.handles.get_mut(&fd) else { return Err(libc::EBADF) };
    h.reads += 1;
    if let Some((n, name, data)) = d.plan.swap_after.clone() {
        if h.reads > n {
            d.plan.swap_after = None;
            d.plan.swapped = true;
            cx().fault("file_replaced_during_read");
            d.inodes.push(Inode { cached: data.clone(), durable: data });
            let i = d.inodes.len() - 1;
            d.names.insert(name, i);
        }
    }
    let h = d.handles.get_mut(&fd).unwrap();
    if d.plan.eintr_every > 0 && h.reads % (d.plan.eintr_every + 1) == d.plan.eintr_every {
        cx().fault("read_eintr");
        return Err(libc::EINTR);
    }
    let data = &d.inodes[h.ino].cached;
    let mut n = buf.len().min(data.len().saturating_sub(h.pos));
    if d.plan.chunk > 0 && n > d.plan.chunk {
        n = d.plan.chunk;
        cx().stat("fault.short_read");
    }
    if let Some((at, e)) = d.plan.read_err_at {
        if h.pos >= at {
            d.plan.read_err_at = None;
            cx().fault(&format!("read_errno_{e}_at_byte"));
            return Err(e);
        }
        n = n.min(at - h.pos);
    }
    buf[..n].copy_from_slice(&data[h.pos..h.pos + n]);
    h.pos += n;
    Ok(n)
}
pub fn write(fd: c_int, buf: &[u8]) -> Result<usize, c_int> {
    let d = disk();
    let Some(h) = d.handles.get_mut(&fd) else { return Err(libc::EBADF) };
    if !h.write {
        return Err(libc::EBADF);
    }
    h.writes += 1;
    if d.plan.write_eintr_every > 0 && h.writes % (d.plan.write_eintr_every + 1) == d.plan.write_eintr_every {
        cx().fault("write_eintr");
        return Err(libc::EINTR);
    }
    let mut n = buf.len();
    if d.plan.write_chunk > 0 && n > d.plan.write_chunk {
        n = d.plan.write_chunk;
        cx().stat("fault.short_write");
    }
    if let Some((at, e)) = d.plan.write_err_at {
        if h.pos >= at {
            cx().fault(&format!("write_errno_{e}_at_byte"));
            return Err(e); // stays: a full disk remains full
        }
        n = n.min(at - h.pos);
    }
    let f = &mut d.inodes[h.ino].cached;
    if f.len() < h.pos + n {
        f.resize(h.pos + n, 0);
    }
    f[h.pos..h.pos + n].copy_from_slice(&buf[..n]);
    h.pos += n;
    Ok(n)
}
pub fn close(fd: c_int) -> Result<(), c_int> {
    disk().handles.remove(&fd);
    Ok(())
}
pub fn fsync(fd: c_int) -> Result<(), c_int> {
    let d = disk();
    let Some(h) = d.handles.get(&fd) else { return Err(libc::EBADF) };
    if d.plan.fsync_err {
        cx().fault("fsync_eio");
        return Err(libc::EIO);
    }
    let i = &mut d.inodes[h.ino];
    i.durable = i.cached.clone();
    Ok(())
}
pub fn lseek(fd: c_int, off: i64, whence: c_int) -> Result<i64, c_int> {
    let d = disk();
    let Some(h) = d.handles.get_mut(&fd) else { return Err(libc::EBADF) };
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => h.pos as i64,
        _ => d.inodes[h.ino].cached.len() as i64,
    };
    h.pos = (base + off).max(0) as usize;
    Ok(h.pos as i64)
}
/// The size the system reports.
pub fn shown_len(fd: c_int) -> usize {
    if disk().plan.no_size { 0 } else { len(fd) }
}
pub fn len(fd: c_int) -> usize {
    let d = disk();
    d.handles.get(&fd).map(|h| d.inodes[h.ino].cached.len()).unwrap_or(0)
}
/// Power loss: unsynced data survives sector by sector as the seed decides; every handle dies.
pub fn crash() {
    let d = disk();
    cx().fault("crash");
    d.handles.clear();
    for i in 0..d.inodes.len() {
        let (c, du) = (d.inodes[i].cached.clone(), d.inodes[i].durable.clone());
        if c == du {
            continue;
        }
        let mode = cx().pick(4);
        let out = match mode {
            0 => du,
            1 => c,
            2 => {
                // prefix persisted
                let n = cx().pick(c.len() + 1);
                cx().fault("torn_prefix");
                c[..n].to_vec()
            }
            _ => {
                // per-sector mixture of new, old and zeroes
                cx().fault("torn_sectors");
                let mut o = vec![0u8; c.len()];
                for (k, ch) in o.chunks_mut(64).enumerate() {
                    let off = k * 64;
                    match cx().pick(3) {
                        0 => ch.copy_from_slice(&c[off..off + ch.len()]),
                        1 => {
                            for (j, b) in ch.iter_mut().enumerate() {
                                *b = du.get(off + j).copied().unwrap_or(0)
                            }
                        }
                        _ => (),
                    }
                }
                o
            }
        };
        d.inodes[i].cached = out.clone();
        d.inodes[i].durable = out;
    }
    d.plan = Plan::default();
}
