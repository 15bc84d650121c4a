// ---- builders for synthetic files (all in memory) ----
#![allow(dead_code)]
use nom_exif::*;

/// one IFD entry: tag, format, count, raw value bytes (already in file byte order)
pub type E = (u16, u16, u32, Vec<u8>);

pub fn w16(be: bool, v: u16) -> Vec<u8> { if be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } }
pub fn w32(be: bool, v: u32) -> Vec<u8> { if be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } }

/// TIFF with IFD0, an optional Exif sub-IFD and an optional GPS sub-IFD
pub fn tiff(be: bool, ifd0: &[E], exif: &[E], gps: &[E]) -> Vec<u8> {
    let mut ifd0 = ifd0.to_vec();
    let size = |es: &[E]| 2 + 12 * es.len() + 4 + es.iter().map(|e| if e.3.len() > 4 { e.3.len() + e.3.len() % 2 } else { 0 }).sum::<usize>();
    if !exif.is_empty() { ifd0.push((0x8769, 4, 1, vec![0; 4])); }
    if !gps.is_empty() { ifd0.push((0x8825, 4, 1, vec![0; 4])); }
    let p1 = 8 + size(&ifd0);
    let p2 = p1 + if exif.is_empty() { 0 } else { size(exif) };
    for e in ifd0.iter_mut() {
        if e.0 == 0x8769 { e.3 = w32(be, p1 as u32); }
        if e.0 == 0x8825 { e.3 = w32(be, p2 as u32); }
    }
    let mut out = if be { b"MM".to_vec() } else { b"II".to_vec() };
    out.extend(w16(be, 42));
    out.extend(w32(be, 8));
    let mut put = |es: &[E], out: &mut Vec<u8>| {
        let start = out.len();
        let mut off = start + 2 + 12 * es.len() + 4;
        let mut ext = vec![];
        out.extend(w16(be, es.len() as u16));
        for (tag, fmt, cnt, data) in es {
            out.extend(w16(be, *tag));
            out.extend(w16(be, *fmt));
            out.extend(w32(be, *cnt));
            if data.len() <= 4 {
                let mut d = data.clone();
                d.resize(4, 0);
                out.extend(d);
            } else {
                out.extend(w32(be, off as u32));
                ext.extend(data.clone());
                off += data.len();
                if data.len() % 2 == 1 { ext.push(0); off += 1; }
            }
        }
        out.extend([0; 4]);
        out.extend(ext);
    };
    put(&ifd0, &mut out);
    if !exif.is_empty() { put(exif, &mut out); }
    if !gps.is_empty() { put(gps, &mut out); }
    out
}

/// minimal JPEG around an Exif block
pub fn jpeg(tiff: &[u8]) -> Vec<u8> { jpeg_with(tiff, &[]) }
pub fn jpeg_with(tiff: &[u8], before: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8];
    v.extend(before);
    v.extend([0xff, 0xe1]);
    v.extend(((tiff.len() + 8) as u16).to_be_bytes());
    v.extend(b"Exif\0\0");
    v.extend(tiff);
    v.extend([0xff, 0xda, 0, 2, 1, 2, 3, 4, 0xff, 0xd9]);
    v
}

pub fn bx(t: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend(t);
    v.extend(body);
    v
}

pub fn exif_of(file: Vec<u8>) -> Exif {
    MediaParser::new().parse_exif(MediaSource::from_memory(file).unwrap()).unwrap().into()
}

/// HEIC with one Exif item `pad` bytes after the boxes, read back by file offset
pub fn heif(tiff: &[u8], pad: usize) -> Vec<u8> {
    let full = |v: u8| vec![v, 0, 0, 0];
    let mut out = bx(b"ftyp", b"heic\0\0\0\0mif1heic");
    let mut infe = full(2);
    infe.extend([0, 1, 0, 0]);
    infe.extend(b"Exif\0");
    let mut iinf = full(0);
    iinf.extend([0, 1]);
    iinf.extend(bx(b"infe", &infe));
    let mut item = vec![0, 0, 0, 6];
    item.extend(b"Exif\0\0");
    item.extend(tiff);
    let meta = |off: u32| {
        let mut iloc = full(0);
        iloc.extend([0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1]);
        iloc.extend(off.to_be_bytes());
        iloc.extend((item.len() as u32).to_be_bytes());
        let mut m = full(0);
        m.extend(bx(b"iinf", &iinf));
        m.extend(bx(b"iloc", &iloc));
        bx(b"meta", &m)
    };
    let off = (out.len() + meta(0).len() + 8 + pad) as u32;
    out.extend(meta(off));
    let mut body = vec![0x55; pad];
    body.extend(&item);
    out.extend(bx(b"mdat", &body));
    out
}

/// PNG from (chunk type, data) pairs (checksums are left zero)
pub fn png(chunks: &[(&[u8; 4], Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ch = |t: &[u8; 4], d: &[u8]| {
        v.extend((d.len() as u32).to_be_bytes());
        v.extend(t);
        v.extend(d);
        v.extend([0; 4]);
    };
    ch(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    for (t, d) in chunks { ch(t, d); }
    ch(b"IEND", &[]);
    v
}

/// a reader that hands out `chunk` bytes at a time, fails with `fail` once it reaches `at` (`times` times), counts what it gave
pub struct Src { pub data: Vec<u8>, pub pos: usize, pub chunk: usize, pub at: usize, pub times: usize, pub fail: std::io::ErrorKind, pub seek_fail: bool, pub given: std::sync::Arc<std::sync::atomic::AtomicUsize> }
impl Src {
    pub fn new(data: Vec<u8>) -> Src {
        Src { data, pos: 0, chunk: usize::MAX, at: usize::MAX, times: 0, fail: std::io::ErrorKind::Other, seek_fail: false, given: Default::default() }
    }
}
impl std::io::Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.at && self.times > 0 { self.times -= 1; return Err(self.fail.into()); }
        let mut n = b.len().min(self.chunk).min(self.data.len().saturating_sub(self.pos));
        if self.pos < self.at { n = n.min(self.at - self.pos); }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.given.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
        Ok(n)
    }
}
impl std::io::Seek for Src {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if self.seek_fail { return Err(std::io::ErrorKind::PermissionDenied.into()); }
        let n = match p {
            std::io::SeekFrom::Start(n) => n as i64,
            std::io::SeekFrom::Current(n) => self.pos as i64 + n,
            std::io::SeekFrom::End(n) => self.data.len() as i64 + n,
        };
        if n < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
pub fn rt<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
/// everything an Exif says, in a comparable form
pub fn dump(e: &Exif) -> Vec<String> {
    let mut v: Vec<String> = e.iter().map(|t| format!("{:?} {:?} {:?}", t.ifd, t.tag, t.value)).collect();
    v.sort();
    v
}
