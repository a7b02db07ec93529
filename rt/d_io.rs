// C03: std::io. The mocks override exactly the methods of the property.
use std::io::{self, BufRead, BufReader, BufWriter, IoSlice, IoSliceMut, LineWriter, Read, Seek, SeekFrom, Write};
pub struct Io<const K: u32> { d: Vec<u8>, p: usize, out: Vec<u8>, g: Guard }
pub fn io<const K: u32>(r: &mut Rng) -> Io<K> {
    let n = r.u(40);
    Io { d: (0..n).map(|_| [b'a' + r.n(6) as u8, b'\n', b'a' + K as u8 % 20, if r.b(1, 8) { 0xff } else { b'x' }][r.u(4)]).collect(), p: 0, out: vec![], g: Guard::new(K) }
}
fn fail() -> io::Result<()> {
    match choose(12) {
        0 => Err(io::ErrorKind::Interrupted.into()),
        1 => Err(io::Error::new(io::ErrorKind::Other, format!("mock {}", choose(5)))),
        2 => Err(io::Error::from_raw_os_error(5)),
        _ => Ok(()),
    }
}
impl<const K: u32> Io<K> {
    fn take(&mut self, buf: &mut [u8], short: bool) -> usize {
        let mut n = buf.len().min(self.d.len() - self.p);
        if short && n > 1 { n = 1 + choose(n as u64) as usize; }
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        n
    }
}
impl<const K: u32> Read for Io<K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { call!("read {K} {}", buf.len()); fail()?; Ok(self.take(buf, true)) }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        call!("read_vectored {K} {:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
        fail()?;
        let mut n = 0;
        for b in bufs.iter_mut().rev() { n += self.take(b, false); }
        Ok(n)
    }
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> io::Result<usize> { call!("read_to_end {K} {v:?}"); v.extend(&self.d[self.p..]); v.push(b'E'); let n = self.d.len() - self.p; self.p = self.d.len(); fail()?; Ok(n) }
    fn read_to_string(&mut self, v: &mut String) -> io::Result<usize> { call!("read_to_string {K} {v:?}"); v.push_str(&String::from_utf8_lossy(&self.d[self.p..])); v.push('S'); self.p = self.d.len(); fail()?; Ok(v.len()) }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        call!("read_exact {K} {}", buf.len());
        fail()?;
        let n = self.take(buf, false);
        if n < buf.len() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, format!("mock eof {n}"))); }
        Ok(())
    }
}
impl<const K: u32> BufRead for Io<K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { call!("fill_buf {K}"); fail()?; let n = (self.d.len() - self.p).min(1 + choose(6) as usize); Ok(&self.d[self.p..self.p + n]) }
    fn consume(&mut self, n: usize) { call!("consume {K} {n}"); self.p = (self.p + n).min(self.d.len()); }
    fn read_until(&mut self, b: u8, v: &mut Vec<u8>) -> io::Result<usize> {
        call!("read_until {K} {b} {v:?}");
        let n = self.d[self.p..].iter().position(|x| *x == b).map_or(self.d.len() - self.p, |i| i + 1);
        v.extend(&self.d[self.p..self.p + n]);
        self.p += n;
        fail()?;
        Ok(n)
    }
    fn read_line(&mut self, s: &mut String) -> io::Result<usize> {
        call!("read_line {K} {s:?}");
        let n = self.d[self.p..].iter().position(|x| *x == b'\n').map_or(self.d.len() - self.p, |i| i + 1);
        s.push_str(&String::from_utf8_lossy(&self.d[self.p..self.p + n]));
        s.push('L');
        self.p += n;
        fail()?;
        Ok(n)
    }
}
impl<const K: u32> Write for Io<K> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { call!("write {K} {b:?}"); fail()?; let n = if b.len() > 1 { choose(b.len() as u64 + 1) as usize } else { b.len() }; self.out.extend(&b[..n]); Ok(n) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { call!("write_vectored {K} {:?}", b.iter().map(|x| x.to_vec()).collect::<Vec<_>>()); fail()?; let v: Vec<u8> = b.iter().flat_map(|x| x.iter().copied()).collect(); let n = choose(v.len() as u64 + 1) as usize; self.out.extend(&v[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { call!("flush {K} {}", self.out.len()); fail() }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { call!("write_all {K} {b:?}"); self.out.extend(b); fail() }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> { call!("write_fmt {K} {a} {:?}", a.as_str()); fail()?; self.out.extend(a.to_string().bytes()); fail() }
}
impl<const K: u32> Seek for Io<K> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        call!("seek {K} {s:?} {}", self.p);
        fail()?;
        let p = match s { SeekFrom::Start(n) => n as i64, SeekFrom::End(n) => self.d.len() as i64 + n, SeekFrom::Current(n) => self.p as i64 + n };
        if p < 0 || p as usize > self.d.len() { return Err(io::Error::new(io::ErrorKind::InvalidInput, "mock range")); }
        self.p = p as usize;
        Ok(p as u64 + 7)
    }
}
/// Only the required methods.
pub struct Req<const K: u32>(Io<K>);
pub fn req<const K: u32>(r: &mut Rng) -> Req<K> { Req(io(r)) }
impl<const K: u32> Read for Req<K> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl<const K: u32> BufRead for Req<K> { fn fill_buf(&mut self) -> io::Result<&[u8]> { self.0.fill_buf() } fn consume(&mut self, n: usize) { self.0.consume(n) } }
impl<const K: u32> Write for Req<K> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) } fn flush(&mut self) -> io::Result<()> { self.0.flush() } }
impl<const K: u32> Seek for Req<K> { fn seek(&mut self, s: SeekFrom) -> io::Result<u64> { self.0.seek(s) } }

fn rd<T: Read>(t: &mut T, r: &mut Rng) {
    match r.n(11) {
        0 | 1 => { let mut b = vec![7u8; r.u(9)]; let e = t.read(&mut b); ev!("=read {e:?} {b:?}") }
        2 => {
            let (mut a, mut b, mut c) = (vec![1u8; r.u(4)], vec![2u8; r.u(4)], [0u8; 2]);
            let e = t.read_vectored(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]);
            ev!("=readv {e:?} {a:?} {b:?} {c:?}")
        }
        3 => { let mut v = vec![1, 2]; let e = t.read_to_end(&mut v); ev!("=to_end {e:?} {v:?}") }
        4 => { let mut v = "pre".to_string(); let e = t.read_to_string(&mut v); ev!("=to_string {e:?} {v:?}") }
        5 | 6 => { let mut b = vec![7u8; r.u(9)]; let e = t.read_exact(&mut b); ev!("=exact {e:?} {b:?}") }
        7 => { let mut v = vec![]; let e = t.by_ref().take(r.n(9)).read_to_end(&mut v); ev!("=take {e:?} {v:?}") }
        8 => ev!("=bytes {:?}", t.by_ref().bytes().take(r.u(4)).collect::<Vec<_>>()),
        9 => { let mut s = vec![]; let e = t.by_ref().take(20).chain(&b"zz"[..]).read_to_end(&mut s); ev!("=chain {e:?} {s:?}") }
        _ => { let mut s = vec![]; let e = io::copy(t, &mut s); ev!("=copy {e:?} {s:?}") }
    }
}
pub fn drive_read<T: Read>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(5) { rd(&mut t, r); }
    if r.b(1, 4) { let mut b = BufReader::with_capacity(5, t); let mut s = vec![]; let e = b.read_until(b'\n', &mut s); ev!("=br {e:?} {s:?}") }
}
fn br<T: BufRead>(t: &mut T, r: &mut Rng) {
    match r.n(9) {
        0 => { let n = match t.fill_buf() { Ok(b) => { ev!("=fill {b:?}"); b.len() } Err(e) => { ev!("=fill {e:?}"); 0 } }; if n > 0 && r.b(2, 3) { t.consume(r.u(n + 1)) } }
        1 => { let mut v = vec![3]; let b = [b'\n', b'x', b'b'][r.u(3)]; let e = t.read_until(b, &mut v); ev!("=until {e:?} {v:?}") }
        2 | 3 => { let mut v = "p".to_string(); let e = t.read_line(&mut v); ev!("=line {e:?} {v:?}") }
        4 => ev!("=lines {:?}", t.by_ref().lines().take(2).collect::<Vec<_>>()),
        5 => ev!("=split {:?}", t.by_ref().split(b'x').take(2).collect::<Vec<_>>()),
        6 => t.consume(0),
        _ => rd(t, r),
    }
}
pub fn drive_bufread<T: BufRead>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(6) { br(&mut t, r); } }
fn wr<T: Write>(t: &mut T, r: &mut Rng) { let k = r.n(8); wrk(t, r, k) }
// a buffering wrapper asks is_write_vectored, which is unstable and not part of the property
fn wrb<T: Write>(t: &mut T, r: &mut Rng) { let k = [0, 3, 4, 5, 6, 7][r.u(6)]; wrk(t, r, k) }
fn wrk<T: Write>(t: &mut T, r: &mut Rng, k: u64) {
    let d: Vec<u8> = (0..r.n(9)).map(|_| [b'q', b'\n', 0, 200][r.u(4)]).collect();
    match k {
        0 | 1 => ev!("=write {:?}", t.write(&d)),
        2 => ev!("=writev {:?}", t.write_vectored(&[IoSlice::new(&d), IoSlice::new(b""), IoSlice::new(b"zz")])),
        3 => ev!("=flush {:?}", t.flush()),
        4 => ev!("=write_all {:?}", t.write_all(&d)),
        5 => ev!("=write_fmt {:?}", write!(t, "{}-{:>4}", r.n(99), "é")),
        6 => ev!("=writeln {:?}", writeln!(t, "lit")),
        _ => ev!("=copy {:?}", io::copy(&mut &d[..], t)),
    }
}
pub fn drive_write<T: Write>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(6) { wr(&mut t, r); }
    match r.n(5) {
        0 => { let mut b = BufWriter::with_capacity(4, t); for _ in 0..3 { wrb(&mut b, r); } }
        1 => { let mut b = LineWriter::new(t); for _ in 0..3 { wrb(&mut b, r); } }
        _ => {}
    }
}
fn sk<T: Seek>(t: &mut T, r: &mut Rng) {
    match r.n(6) {
        0 => ev!("=seek {:?}", t.seek(SeekFrom::Start(r.n(30)))),
        1 => ev!("=seek {:?}", t.seek(SeekFrom::End(-(r.n(20) as i64)))),
        2 => ev!("=seek {:?}", t.seek(SeekFrom::Current(r.n(20) as i64 - 10))),
        3 => ev!("=rewind {:?}", t.rewind()),
        4 => ev!("=pos {:?}", t.stream_position()),
        _ => ev!("=rel {:?}", t.seek_relative(r.n(9) as i64 - 3)),
    }
}
pub fn drive_seek<T: Seek>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(6) { sk(&mut t, r); } }
pub fn drive_rw<T: Read + Write>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(7) { if r.b(1, 2) { rd(&mut t, r) } else { wr(&mut t, r) } } }
pub fn drive_all<T: BufRead + Write + Seek>(mut t: T, r: &mut Rng) { for _ in 0..2 + r.n(8) { match r.n(3) { 0 => br(&mut t, r), 1 => wr(&mut t, r), _ => sk(&mut t, r) } } }
