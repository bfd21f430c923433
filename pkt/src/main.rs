//! Drives the public pkt-line readers and writers of scutiger-core and compares them with an
//! independent description of the format.
//!
//! pkt MODE SEED COUNT: prints "STAT name n", "KEY text", "SAMPLE text" and "BAD message | witness" lines.
use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const MAX: usize = 65516;

// ---------------------------------------------------------------------------------------------

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let k = self.below(4);
        match k {
            0 => vec![self.next() as u8; n],
            1 => b"0000000100050006000affff".iter().cycle().skip(self.below(24)).take(n).copied().collect(),
            _ => {
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&self.next().to_le_bytes());
                }
                v.truncate(n);
                v
            }
        }
    }
    fn len(&mut self) -> usize {
        match self.below(8) {
            0 => self.pick(&[0, 1, 2, 3, 4, 15, 16, 17, 251, 252, 253, 255, 256, 4091, 4092, 4093, 4095, 4096]),
            1 => self.pick(&[8191, 8192, 8193, 32767, 32768, 61440, 65279, 65280, 65500, 65511, 65512, 65513, 65514, 65515, 65516]),
            2 => self.below(MAX + 1),
            _ => self.below(40),
        }
    }
}

// ------------------------------------------------------------------------------- the format

#[derive(Clone, Debug, PartialEq, Eq)]
enum P {
    Flush,
    Delim,
    Data(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    Clean,
    Cut,
    Bad, // a bad header
    Io(io::ErrorKind), // the underlying stream fails
}

/// Whether an error of this kind is what such an end has to give.
fn fits(k: io::ErrorKind, e: End) -> bool {
    match e {
        End::Bad => k != io::ErrorKind::UnexpectedEof,
        End::Clean | End::Cut => k == io::ErrorKind::UnexpectedEof,
        End::Io(x) => k == x,
    }
}

fn encode(out: &mut Vec<u8>, p: &P) {
    match p {
        P::Flush => out.extend_from_slice(b"0000"),
        P::Delim => out.extend_from_slice(b"0001"),
        P::Data(d) => {
            let n = d.len() + 4;
            for i in (0..4).rev() {
                out.push(b"0123456789abcdef"[(n >> (4 * i)) & 15]);
            }
            out.extend_from_slice(d);
        }
    }
}

fn header(h: &[u8]) -> Option<usize> {
    let mut n = 0;
    for c in h {
        let v = b"0123456789abcdef".iter().position(|x| x == c)?;
        n = n * 16 + v;
    }
    if n == 2 || n == 3 || n > MAX + 4 {
        return None;
    }
    Some(n)
}

/// The packets of a stream, with the offsets where they end, how it ends, and how far a reader may look.
fn decode(b: &[u8]) -> (Vec<(P, usize)>, End, usize) {
    let mut out = vec![];
    let mut pos = 0;
    loop {
        if pos == b.len() {
            return (out, End::Clean, pos);
        }
        if b.len() - pos < 4 {
            return (out, End::Cut, b.len());
        }
        match header(&b[pos..pos + 4]) {
            None => return (out, End::Bad, pos + 4),
            Some(0) => {
                pos += 4;
                out.push((P::Flush, pos));
            }
            Some(1) => {
                pos += 4;
                out.push((P::Delim, pos));
            }
            Some(n) => {
                if b.len() - pos < n {
                    return (out, End::Cut, b.len());
                }
                out.push((P::Data(b[pos + 4..pos + n].to_vec()), pos + n));
                pos += n;
            }
        }
    }
}

// ------------------------------------------------------------------------- hostile streams

#[derive(Clone)]
struct Source {
    data: Rc<Vec<u8>>,
    pos: Rc<RefCell<usize>>,
    rng: Rc<RefCell<Rng>>,
    style: usize,
    interrupt: bool,
    last_interrupted: bool,
    /// What happens instead of the end.
    fail: Option<io::ErrorKind>,
}

impl Source {
    fn new(data: &[u8], seed: u64, style: usize, interrupt: bool) -> Source {
        Source {
            data: Rc::new(data.to_vec()),
            pos: Rc::new(RefCell::new(0)),
            rng: Rc::new(RefCell::new(Rng(seed))),
            style,
            interrupt,
            last_interrupted: false,
            fail: None,
        }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut rng = self.rng.borrow_mut();
        if self.interrupt && !self.last_interrupted && rng.chance(30) {
            self.last_interrupted = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.last_interrupted = false;
        let mut pos = self.pos.borrow_mut();
        let left = self.data.len() - *pos;
        let most = buf.len().min(left);
        if left == 0 && !buf.is_empty() {
            if let Some(k) = self.fail {
                return Err(io::Error::new(k, "the stream is broken"));
            }
        }
        let n = if most == 0 {
            0
        } else {
            match self.style {
                0 => most,
                1 => 1,
                2 => 1 + rng.below(most),
                3 => most.min(1 + rng.below(5)),
                _ => most.min(rng.pick(&[1, 3, 4, 5, 8192, 65516, 65520])),
            }
        };
        buf[..n].copy_from_slice(&self.data[*pos..*pos + n]);
        *pos += n;
        Ok(n)
    }
}

struct Sink {
    out: Rc<RefCell<Vec<u8>>>,
    rng: Rng,
    style: usize,
    interrupt: bool,
    last_interrupted: bool,
    /// How much was written when the stream was last flushed.
    flushed: Rc<RefCell<usize>>,
    /// When it breaks: after so many bytes, or at such a flush, in which way.
    fault: Option<Fault>,
    /// What it reported since this was last cleared.
    failed: Rc<RefCell<Option<io::ErrorKind>>>,
}

#[derive(Clone, Copy, Debug)]
struct Fault {
    bytes: usize,
    flushes: usize,
    kind: io::ErrorKind,
}

impl Sink {
    fn new(out: &Rc<RefCell<Vec<u8>>>, seed: u64, style: usize, interrupt: bool) -> Sink {
        Sink {
            out: out.clone(),
            rng: Rng(seed),
            style,
            interrupt,
            last_interrupted: false,
            flushed: Rc::new(RefCell::new(0)),
            fault: None,
            failed: Rc::new(RefCell::new(None)),
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.interrupt && !self.last_interrupted && self.rng.chance(30) {
            self.last_interrupted = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.last_interrupted = false;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = match self.style {
            0 => buf.len(),
            1 => 1,
            2 => 1 + self.rng.below(buf.len()),
            _ => buf.len().min(1 + self.rng.below(6)),
        };
        let mut n = n;
        if let Some(f) = self.fault {
            let have = self.out.borrow().len();
            if have >= f.bytes {
                *self.failed.borrow_mut() = Some(f.kind);
                if f.kind == io::ErrorKind::WriteZero {
                    return Ok(0);
                }
                return Err(io::Error::new(f.kind, "the stream is broken"));
            }
            n = n.min(f.bytes - have);
        }
        self.out.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(f) = self.fault.as_mut() {
            if f.flushes == 0 {
                *self.failed.borrow_mut() = Some(f.kind);
                return Err(io::Error::new(f.kind, "the stream cannot be flushed"));
            }
            f.flushes -= 1;
        }
        *self.flushed.borrow_mut() = self.out.borrow().len();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- reporting

struct Report {
    stats: BTreeMap<String, u64>,
    bad: bool,
}

impl Report {
    fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    fn bad(&mut self, msg: &str, witness: &str) {
        if !self.bad {
            println!("BAD {} | {}", msg, witness);
        }
        self.bad = true;
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(400) {
        s.push_str(&format!("{:02x}", c));
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

fn show(p: &P) -> String {
    match p {
        P::Data(d) => format!("Data({} bytes {})", d.len(), hex(&d[..d.len().min(12)])),
        x => format!("{:?}", x),
    }
}

fn of_packet(p: &Packet) -> Result<P, String> {
    match p.packet_type() {
        PacketType::Flush => Ok(P::Flush),
        PacketType::Delim => Ok(P::Delim),
        PacketType::Data(n) => {
            let d = p.data().ok_or("a data packet without data")?;
            if d.len() != n {
                return Err(format!("a packet of {} bytes says it has {}", d.len(), n));
            }
            Ok(P::Data(d.to_vec()))
        }
    }
}

// ------------------------------------------------------------------------------ ways to read

/// Reads everything packet by packet.
fn by_packet(src: Source, want: &(Vec<(P, usize)>, End, usize)) -> Result<(), String> {
    let pos = src.pos.clone();
    let mut r = Reader::new(src);
    for (i, (p, end)) in want.0.iter().enumerate() {
        let got = r.read_packet().map_err(|e| format!("packet {} ({}) is refused: {:?}", i, show(p), e))?;
        let got = of_packet(&got)?;
        if &got != p {
            return Err(format!("packet {} is {} instead of {}", i, show(&got), show(p)));
        }
        let _ = end;
    }
    after(&mut r, &pos, want)
}

fn after(r: &mut Reader<Source>, pos: &Rc<RefCell<usize>>, want: &(Vec<(P, usize)>, End, usize)) -> Result<(), String> {
    match r.read_packet() {
        Ok(p) => return Err(format!("an extra packet {} after the last ({:?})", of_packet(&p).map(|p| show(&p)).unwrap_or_default(), want.1)),
        Err(e) => {
            if !fits(e.io_kind(), want.1) {
                return Err(format!("the stream ends with {:?} though it should be {:?}", e, want.1));
            }
        }
    }
    if *pos.borrow() > want.2 {
        return Err(format!("{} bytes were consumed though the error is at {}", pos.borrow(), want.2));
    }
    Ok(())
}

/// Iterates.
fn by_iter(src: Source, want: &(Vec<(P, usize)>, End, usize)) -> Result<(), String> {
    let pos = src.pos.clone();
    let mut r = Reader::new(src);
    let mut it = r.iter();
    for (i, (p, _)) in want.0.iter().enumerate() {
        let got = match it.next() {
            None => return Err(format!("iteration ends before packet {} ({})", i, show(p))),
            Some(Err(e)) => return Err(format!("packet {} ({}) is refused by iteration: {:?}", i, show(p), e)),
            Some(Ok(x)) => of_packet(&x)?,
        };
        if &got != p {
            return Err(format!("iterating, packet {} is {} instead of {}", i, show(&got), show(p)));
        }
    }
    match (it.next(), want.1) {
        (None, End::Clean) | (None, End::Cut) => {}
        (Some(Err(_)), End::Bad) | (Some(Err(_)), End::Cut) => {}
        (Some(Err(ref e)), End::Io(k)) if e.io_kind() == k => {}
        (x, e) => return Err(format!("iteration ends with {:?} though the stream is {:?}", x.map(|y| y.map(|p| p.packet_type())), e)),
    }
    if *pos.borrow() > want.2 {
        return Err(format!("{} bytes were consumed by iteration though the error is at {}", pos.borrow(), want.2));
    }
    Ok(())
}

/// Streams: data up to each flush or delimiter; buffers of changing sizes.
fn by_stream(src: Source, want: &(Vec<(P, usize)>, End, usize), rng: &mut Rng, sizes: usize) -> Result<(), String> {
    let pos = src.pos.clone();
    let mut r = Reader::new(src);
    let mut sections: Vec<Vec<u8>> = vec![vec![]];
    for (p, _) in &want.0 {
        match p {
            P::Data(d) => sections.last_mut().unwrap().extend_from_slice(d),
            _ => sections.push(vec![]),
        }
    }
    let last = sections.len() - 1;
    for (i, s) in sections.iter().enumerate() {
        let mut got: Vec<u8> = vec![];
        loop {
            let n = match sizes {
                0 => 1 + rng.below(20),
                1 => rng.pick(&[0, 1, 4, 8192, 65515, 65516, 65517, 65520, 65536, 100000]),
                2 => 8192,
                3 => 65516,
                4 => 65536,
                _ => rng.below(70000),
            };
            let mut buf = vec![0xa5u8; n];
            match r.read(&mut buf) {
                Ok(k) if k > n => return Err(format!("read() returned {} for a buffer of {}", k, n)),
                Ok(0) if n == 0 => {
                    if rng.chance(50) {
                        continue;
                    }
                    let mut one = [0u8];
                    match r.read(&mut one) {
                        Ok(1) => got.push(one[0]),
                        Ok(_) => {
                            if i == last {
                                return Err("a section ends without a flush or delimiter".into());
                            }
                            break;
                        }
                        Err(e) => {
                            end_of_stream(&e, i, last, &got, s, want)?;
                            return consumed(&pos, want);
                        }
                    }
                }
                Ok(0) => {
                    if i == last {
                        return Err("a section ends without a flush or delimiter".into());
                    }
                    break;
                }
                Ok(k) => got.extend_from_slice(&buf[..k]),
                Err(e) => {
                    end_of_stream(&e, i, last, &got, s, want)?;
                    return consumed(&pos, want);
                }
            }
            if got.len() > s.len() || got[..] != s[..got.len()] {
                return Err(format!("streamed data differ in section {} (at most {} bytes right of {})", i, got.len(), s.len()));
            }
        }
        if &got != s {
            return Err(format!("section {} has {} bytes instead of {}", i, got.len(), s.len()));
        }
    }
    Ok(())
}

fn end_of_stream(e: &io::Error, i: usize, last: usize, got: &[u8], s: &[u8], want: &(Vec<(P, usize)>, End, usize)) -> Result<(), String> {
    if i != last || got != s {
        return Err(format!("streaming fails with {:?} after {} of {} bytes of section {} of {}", e, got.len(), s.len(), i, last + 1));
    }
    if !fits(e.kind(), want.1) {
        return Err(format!("streaming ends with {:?} though it should be {:?}", e, want.1));
    }
    Ok(())
}

fn consumed(pos: &Rc<RefCell<usize>>, want: &(Vec<(P, usize)>, End, usize)) -> Result<(), String> {
    if *pos.borrow() > want.2 {
        return Err(format!("{} bytes were consumed though the error is at {}", pos.borrow(), want.2));
    }
    Ok(())
}

/// Changes between streaming and packets at the ends of sections.
fn by_both(src: Source, want: &(Vec<(P, usize)>, End, usize), rng: &mut Rng) -> Result<(), String> {
    let pos = src.pos.clone();
    let mut r = Reader::new(src);
    let mut i = 0;
    while i < want.0.len() {
        if rng.chance(50) {
            let p = of_packet(&r.read_packet().map_err(|e| format!("packet {} is refused: {:?}", i, e))?)?;
            if p != want.0[i].0 {
                return Err(format!("packet {} is {} instead of {}", i, show(&p), show(&want.0[i].0)));
            }
            i += 1;
        } else {
            let mut s = vec![];
            let mut j = i;
            while j < want.0.len() {
                match &want.0[j].0 {
                    P::Data(d) => s.extend_from_slice(d),
                    _ => break,
                }
                j += 1;
            }
            if j == want.0.len() {
                // No end of section.
                if rng.chance(50) {
                    break;
                }
                let mut got = vec![];
                let e = if rng.chance(50) { r.read_to_end(&mut got).map(|n| n as u64) } else { io::copy(&mut r, &mut got) };
                return match e {
                    Ok(n) => Err(format!("reading a section which doesn't end from packet {} gives {} bytes and no error ({:?})", i, n, want.1)),
                    Err(e) if !fits(e.kind(), want.1) => Err(format!("reading a section which doesn't end fails with {:?} ({:?})", e, want.1)),
                    Err(_) if got != s => Err(format!("reading a section which doesn't end gives {} bytes instead of {}", got.len(), s.len())),
                    Err(_) => consumed(&pos, want),
                };
            }
            let mut got = vec![];
            match rng.below(3) {
                0 => {
                    r.read_to_end(&mut got).map_err(|e| format!("read_to_end fails: {:?}", e))?;
                }
                1 => {
                    io::copy(&mut r, &mut got).map_err(|e| format!("copy fails: {:?}", e))?;
                }
                _ => loop {
                    let mut buf = vec![0; 1 + rng.below(9000)];
                    let n = r.read(&mut buf).map_err(|e| format!("read fails: {:?}", e))?;
                    if n == 0 {
                        break;
                    }
                    got.extend_from_slice(&buf[..n]);
                },
            }
            if got != s {
                return Err(format!("streaming from packet {} gives {} bytes instead of {}", i, got.len(), s.len()));
            }
            i = j + 1;
        }
    }
    for (k, (p, _)) in want.0.iter().enumerate().skip(i) {
        let got = of_packet(&r.read_packet().map_err(|e| format!("packet {} is refused: {:?}", k, e))?)?;
        if &got != p {
            return Err(format!("packet {} is {} instead of {}", k, show(&got), show(p)));
        }
    }
    after(&mut r, &pos, want)
}

fn read_all_ways(rep: &mut Report, stream: &[u8], rng: &mut Rng) {
    read_all_ways_then(rep, stream, rng, None);
}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
];

fn read_all_ways_then(rep: &mut Report, stream: &[u8], rng: &mut Rng, fail: Option<io::ErrorKind>) {
    let mut want = decode(stream);
    if let (Some(k), End::Clean | End::Cut) = (fail, want.1) {
        want.1 = End::Io(k);
    }
    rep.stat("streams", 1);
    let end = format!("{:?}", want.1);
    rep.stat(&format!("end_{}", end.split('(').next().unwrap()), 1);
    rep.stat("packets", want.0.len() as u64);
    for way in 0..5 {
        let style = rng.below(5);
        let style = if stream.len() > 20000 && style == 1 { 2 } else { style };
        let intr = rng.chance(40);
        let sizes = rng.below(6);
        let sizes = if stream.len() > 20000 && sizes == 0 { 1 } else { sizes };
        let seed = rng.next();
        let mut src = Source::new(stream, seed, style, intr);
        src.fail = fail;
        let mut sub = Rng(seed ^ 77);
        let r = catch_unwind(AssertUnwindSafe(|| match way {
            0 => by_packet(src, &want),
            1 => by_iter(src, &want),
            2 | 3 => by_stream(src, &want, &mut sub, sizes),
            _ => by_both(src, &want, &mut sub),
        }));
        rep.stat("readings", 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => rep.bad(&m, &format!("way {} fragments {} interrupts {} buffers {} failing with {:?} stream {}", way, style, intr, sizes, fail, hex(stream))),
            Err(_) => rep.bad("reading panicked", &format!("way {} failing with {:?} stream {}", way, fail, hex(stream))),
        }
    }
}

// ------------------------------------------------------------------------------------- modes

fn key(want: &(Vec<(P, usize)>, End, usize)) -> String {
    let mut s = String::new();
    for (p, _) in want.0.iter().take(40) {
        match p {
            P::Flush => s.push('F'),
            P::Delim => s.push('D'),
            P::Data(d) => s.push_str(&format!("{}.", d.len())),
        }
    }
    format!("{}{:?}", s, want.1)
}

/// Random packets, written by the real writer in random ways, read by the real reader in all ways.
fn round_trip(rep: &mut Report, seed: u64, count: usize) {
    let mut rng = Rng(seed);
    for it in 0..count {
        if rep.bad {
            return;
        }
        let out = Rc::new(RefCell::new(vec![]));
        let sink = Sink::new(&out, rng.next(), rng.below(4), rng.chance(40));
        let style = sink.style;
        let flushed = sink.flushed.clone();
        let mut w = Writer::new(sink);
        // What was asked for: packets, or (for data written as a stream) just bytes.
        let mut want: Vec<(bool, P)> = vec![];
        let mut log = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            for _ in 0..1 + rng.below(8) {
                let n = rng.len();
                let n = if style == 1 { n.min(5000) } else { n };
                match rng.below(7) {
                    0 => {
                        w.write_packet(&Packet::new(PacketType::Flush, b"")).map_err(|e| format!("writing a flush packet fails: {:?}", e))?;
                        if *flushed.borrow() != out.borrow().len() {
                            return Err("a flush packet was written and the stream was not flushed".into());
                        }
                        want.push((true, P::Flush));
                        log.push('F');
                    }
                    1 => {
                        w.write_packet(&Packet::new(PacketType::Delim, b"")).map_err(|e| format!("writing a delimiter fails: {:?}", e))?;
                        want.push((true, P::Delim));
                        log.push('D');
                    }
                    2 | 3 => {
                        let d = rng.bytes(n);
                        w.write_packet(&Packet::new(PacketType::Data(n), &d)).map_err(|e| format!("writing a packet of {} bytes fails: {:?}", n, e))?;
                        log.push_str(&format!("p{} ", n));
                        want.push((true, P::Data(d)));
                    }
                    4 => {
                        // Larger than a packet.
                        let n = if style == 1 { n } else { rng.pick(&[65516, 65517, 65520, 65536, 131031, 131032, 131033, 131071, 200000, 262064, 300001, 700000]) + rng.below(3) };
                        let d = rng.bytes(n);
                        w.write_all(&d).map_err(|e| format!("writing {} bytes fails: {:?}", n, e))?;
                        log.push_str(&format!("s{} ", n));
                        want.push((false, P::Data(d)));
                    }
                    5 => {
                        let d = rng.bytes(n);
                        let k = w.write(&d).map_err(|e| format!("writing {} bytes fails: {:?}", n, e))?;
                        if k > n || (k == 0 && n > 0) {
                            return Err(format!("writing {} bytes returns {}", n, k));
                        }
                        log.push_str(&format!("w{} ", n));
                        want.push((false, P::Data(d[..k].to_vec())));
                    }
                    _ => {
                        let d = rng.bytes(n);
                        w.write_all(&d).map_err(|e| format!("writing {} bytes fails: {:?}", n, e))?;
                        log.push_str(&format!("s{} ", n));
                        want.push((false, P::Data(d)));
                    }
                }
            }
            w.flush().map_err(|e| format!("flushing fails: {:?}", e))?;
            if *flushed.borrow() != out.borrow().len() {
                return Err("flushing the writer did not flush the stream".into());
            }
            Ok(())
        }));
        let bytes = out.borrow().clone();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return rep.bad(&m, &log),
            Err(_) => return rep.bad("writing panicked", &log),
        }
        // What came out, according to the format.
        let got = decode(&bytes);
        let witness = format!("writes {} output {}", log, hex(&bytes));
        if got.1 != End::Clean {
            return rep.bad(&format!("the writer's output is not a sequence of packets ({:?})", got.1), &witness);
        }
        let mut i = 0;
        for (exact, p) in &want {
            if *exact {
                match got.0.get(i) {
                    Some((q, _)) if q == p => i += 1,
                    x => return rep.bad(&format!("{} was written as {:?}", show(p), x.map(|x| show(&x.0))), &witness),
                }
            } else if let P::Data(d) = p {
                let mut left = &d[..];
                while !left.is_empty() {
                    match got.0.get(i) {
                        Some((P::Data(x), _)) if !x.is_empty() && left.starts_with(x) => left = &left[x.len()..],
                        x => return rep.bad(&format!("of {} bytes written the last {} are {:?}", d.len(), left.len(), x.map(|x| show(&x.0))), &witness),
                    }
                    i += 1;
                }
            }
        }
        if i != got.0.len() {
            return rep.bad("the writer's output has extra packets", &witness);
        }
        rep.stat("bytes_written", bytes.len() as u64);
        read_all_ways(rep, &bytes, &mut rng);
        failing_sink(rep, &mut rng);
        println!("KEY {}", log);
        if it == 0 {
            println!("SAMPLE writes {} giving {} bytes in {} packets", log, bytes.len(), got.0.len());
        }
    }
}

/// A stream which breaks: what cannot be written or flushed must be reported, and what was written before it be right.
fn failing_sink(rep: &mut Report, rng: &mut Rng) {
    let style = rng.below(4);
    let big = rng.chance(10) && style != 1;
    let ops: Vec<(usize, Vec<u8>)> = (0..1 + rng.below(6))
        .map(|_| {
            let n = if big && rng.chance(30) { 60000 + rng.below(140000) } else { rng.below(30) };
            (rng.below(6), rng.bytes(n))
        })
        .collect();
    let mut total = 0;
    for (k, d) in &ops {
        total += match k {
            0 | 1 => 4,
            2 => d.len().min(MAX) + 4,
            5 => 0,
            _ => d.len() + 4 * ((d.len() + MAX - 1) / MAX),
        };
    }
    let kind = if rng.chance(15) { io::ErrorKind::WriteZero } else { rng.pick(&KINDS) };
    let fault = if rng.chance(35) {
        Fault { bytes: usize::MAX, flushes: rng.below(3), kind: if kind == io::ErrorKind::WriteZero { io::ErrorKind::Other } else { kind } }
    } else {
        Fault { bytes: rng.below(total + 2), flushes: usize::MAX, kind }
    };
    let out = Rc::new(RefCell::new(vec![]));
    let mut sink = Sink::new(&out, rng.next(), style, rng.chance(40));
    sink.fault = Some(fault);
    let failed = sink.failed.clone();
    let flushed = sink.flushed.clone();
    let mut log = String::new();
    let mut want: Vec<(bool, P)> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut w = Writer::new(sink);
        for (k, d) in &ops {
            *failed.borrow_mut() = None;
            let d = if *k == 2 { &d[..d.len().min(MAX)] } else { &d[..] };
            let (r, what): (Result<(), io::ErrorKind>, &str) = match k {
                0 => {
                    want.push((true, P::Flush));
                    (w.write_packet(&Packet::new(PacketType::Flush, b"")).map(|_| ()).map_err(|e| e.io_kind()), "flush packet")
                }
                1 => {
                    want.push((true, P::Delim));
                    (w.write_packet(&Packet::new(PacketType::Delim, b"")).map(|_| ()).map_err(|e| e.io_kind()), "delimiter")
                }
                2 => {
                    want.push((true, P::Data(d.to_vec())));
                    (w.write_packet(&Packet::new(PacketType::Data(d.len()), d)).map(|_| ()).map_err(|e| e.io_kind()), "packet")
                }
                5 => (w.flush().map_err(|e| e.kind()), "flush"),
                _ => {
                    want.push((false, P::Data(d.to_vec())));
                    (w.write_all(d).map_err(|e| e.kind()), "data")
                }
            };
            log.push_str(&format!("{} {}, ", what, d.len()));
            match (r, *failed.borrow()) {
                (Ok(()), Some(f)) => return Err(format!("writing ({} of {} bytes) succeeds though the stream reported {:?}", what, d.len(), f)),
                (Err(e), None) => return Err(format!("writing ({} of {} bytes) fails with {:?} though the stream did not", what, d.len(), e)),
                (Err(e), Some(f)) if e != f => return Err(format!("writing ({}) fails with {:?} though the stream reported {:?}", what, e, f)),
                (Err(_), Some(_)) => break,
                (Ok(()), None) => {}
            }
            if (*k == 0 || *k == 5) && *flushed.borrow() != out.borrow().len() {
                return Err(format!("{}: the stream was not flushed", what));
            }
        }
        Ok(())
    }));
    rep.stat("failing_sinks", 1);
    let broke = failed.borrow().is_some();
    rep.stat("failing_sinks_that_failed", broke as u64);
    let witness = format!("{:?} fragments {} writes {} output {}", fault, style, log, hex(&out.borrow()));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return rep.bad(&m, &witness),
        Err(_) => return rep.bad("writing to a broken stream panicked", &witness),
    }
    let bytes = out.borrow();
    let got = decode(&bytes);
    if got.1 == End::Bad || (!broke && got.1 != End::Clean) {
        return rep.bad("what was written to a stream which broke is not the start of packets", &witness);
    }
    let rest = &bytes[got.0.last().map(|x| x.1).unwrap_or(0)..];
    let mut i = 0;
    'all: for (exact, p) in &want {
        if let (false, P::Data(d)) = (exact, p) {
            let mut left = &d[..];
            while !left.is_empty() {
                match got.0.get(i) {
                    None => {
                        if rest.len() > 4 && !left.starts_with(&rest[4..]) {
                            return rep.bad("the last data written before the stream broke are wrong", &witness);
                        }
                        i += 1;
                        break 'all;
                    }
                    Some((P::Data(x), _)) if !x.is_empty() && left.starts_with(x) => left = &left[x.len()..],
                    _ => return rep.bad("what was written before the stream broke is wrong", &witness),
                }
                i += 1;
            }
            continue;
        }
        match got.0.get(i) {
            None => {
                let mut e = vec![];
                encode(&mut e, p);
                if !e.starts_with(rest) {
                    return rep.bad("the last packet written before the stream broke is wrong", &witness);
                }
                i += 1;
                break;
            }
            Some((q, _)) if q == p => i += 1,
            _ => return rep.bad("what was written before the stream broke is wrong", &witness),
        }
    }
    if i < got.0.len() || (i == got.0.len() && !rest.is_empty()) {
        return rep.bad("more was written to a stream which broke than asked for", &witness);
    }
}

/// Streams of packets, damaged, in all ways of reading.
fn damaged(rep: &mut Report, seed: u64, count: usize) {
    let mut rng = Rng(seed);
    for it in 0..count {
        if rep.bad {
            return;
        }
        let mut b = vec![];
        let mut starts = vec![];
        for _ in 0..rng.below(7) {
            starts.push(b.len());
            let p = match rng.below(6) {
                0 => P::Flush,
                1 => P::Delim,
                _ => {
                    let n = if rng.chance(85) { rng.below(30) } else { rng.len() };
                    P::Data(rng.bytes(n))
                }
            };
            encode(&mut b, &p);
        }
        starts.push(b.len());
        let at = rng.pick(&starts);
        match rng.below(8) {
            0 => b.truncate(at),
            1 => {
                let n = rng.below(b.len() + 1);
                b.truncate(n);
            }
            2 => {
                // A header that means something else.
                let h = match rng.below(6) {
                    0 => rng.pick(&["0002", "0003", "fff1", "fff4", "fff5", "ffff", "fffe", "fff2"]).to_string(),
                    1 => format!("{:04X}", 10 + rng.below(65500)),
                    2 => rng.pick(&["+123", "-001", " 005", "005 ", "0x05", "00 5", "\n005", "000\n", "0\u{0}05", "000G", "000g", "000`", "000:", "000/", "000@"]).to_string(),
                    3 => format!("{:04x}", rng.below(65536)),
                    4 => format!("{:04x}", rng.below(40)),
                    _ => format!("{:04x}", 65500 + rng.below(36)),
                };
                let fill = rng.below(70000);
                let fill = if rng.chance(80) { fill % 50 } else { fill };
                b.truncate(at);
                b.extend_from_slice(h.as_bytes());
                let more = rng.bytes(fill);
                b.extend_from_slice(&more);
            }
            3 if b.len() > 0 => {
                let i = rng.below(b.len());
                b[i] = rng.next() as u8;
            }
            4 if at + 4 <= b.len() => {
                let i = at + rng.below(4);
                b[i] = rng.pick(b"0123456789abcdefABCDEFGg+- \n\t\0\xff/:@`_xX.");
            }
            5 if b.len() > 0 => {
                let i = rng.below(b.len());
                b.remove(i);
            }
            6 => {
                let i = rng.below(b.len() + 1);
                b.insert(i, rng.next() as u8);
            }
            _ => {
                let n = rng.below(40);
                let more = rng.bytes(n);
                b.extend_from_slice(&more);
            }
        }
        read_all_ways(rep, &b, &mut rng);
        if rng.chance(40) {
            // The stream itself breaks there, or earlier.
            let n = if rng.chance(40) { rng.pick(&starts).min(b.len()) } else { rng.below(b.len() + 1) };
            let k = rng.pick(&KINDS);
            read_all_ways_then(rep, &b[..n], &mut rng, Some(k));
            println!("KEY {} failing with {:?}", key(&decode(&b[..n])), k);
        }
        let w = decode(&b);
        println!("KEY {}", key(&w));
        if it == 0 {
            println!("SAMPLE stream {} ({:?})", hex(&b), w.1);
        }
        // The writer must refuse what no reader takes.
        if it % 50 == 0 {
            refuse(rep, &mut rng);
        }
    }
}

fn refuse(rep: &mut Report, rng: &mut Rng) {
    for n in [65516, 65517, 65518, 65519, 65520, 65521, 65531, 65532, 65535, 65536, 65540, 131072, 65517 + rng.below(200000)] {
        for (typ, name) in [(PacketType::Data(n), "data"), (PacketType::Data(3), "data said to be 3"), (PacketType::Flush, "flush"), (PacketType::Delim, "delimiter")] {
            let out = Rc::new(RefCell::new(vec![]));
            let mut w = Writer::new(Sink::new(&out, 1, 0, false));
            let d = vec![b'x'; n];
            let r = catch_unwind(AssertUnwindSafe(|| w.write_packet(&Packet::new(typ, &d)).is_ok()));
            rep.stat("large_packets_written", 1);
            let what = format!("a {} packet with {} bytes", name, n);
            let o = out.borrow();
            let dec = decode(&o);
            match r {
                Err(_) => return rep.bad("the writer panicked", &what),
                Ok(ok) => {
                    if dec.1 != End::Clean {
                        return rep.bad("the writer produced a packet that readers reject", &what);
                    }
                    if ok && dec.0.is_empty() {
                        return rep.bad("the writer claims to have written a packet which it did not", &what);
                    }
                    if n <= MAX && !ok && name == "data" {
                        return rep.bad("the writer refuses a packet that is valid", &what);
                    }
                    if n > MAX && ok && name == "data" && dec.0.iter().map(|(p, _)| if let P::Data(d) = p { d.len() } else { 0 }).sum::<usize>() != n {
                        return rep.bad("the writer lost data", &what);
                    }
                }
            }
        }
    }
}

/// Every header over an alphabet (or every one of 65536 values when `alphabet` is empty) at once, packet-wise and streamed.
fn headers(rep: &mut Report, part: usize, parts: usize, full: bool) {
    let tail = vec![b'z'; 65536];
    let base: Vec<u8> = b"0123456789abcdef".to_vec();
    let extra: Vec<u8> = b"ABFGgzx+- \n\t\0\xff\x80/:@`_.".to_vec();
    let third: Vec<u8> = base.iter().chain(extra.iter()).copied().collect();
    let all: Vec<u8> = (0..=255).collect();
    let sets: [&Vec<u8>; 4] = if full { [&all, &all, &third, &third] } else { [&third, &third, &third, &third] };
    // In the quick form also every single odd character at each place.
    let mut todo: Vec<[u8; 4]> = vec![];
    if !full {
        for pos in 0..4 {
            for c in 0..=255u8 {
                for h in [*b"0005", *b"0000", *b"0001", *b"ffff", *b"abcd", *b"0010"] {
                    let mut h = h;
                    h[pos] = c;
                    todo.push(h);
                }
            }
        }
        for a in 0..65536usize {
            let s = format!("{:04x}", a);
            let s = s.as_bytes();
            todo.push([s[0], s[1], s[2], s[3]]);
            let s = format!("{:04X}", a);
            let s = s.as_bytes();
            todo.push([s[0], s[1], s[2], s[3]]);
        }
    }
    struct One<'a> {
        h: [u8; 4],
        tail: &'a [u8],
        pos: &'a RefCell<usize>,
    }
    impl<'a> Read for One<'a> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let mut pos = self.pos.borrow_mut();
            let n = if *pos < 4 {
                let n = buf.len().min(4 - *pos);
                buf[..n].copy_from_slice(&self.h[*pos..*pos + n]);
                n
            } else {
                let n = buf.len().min(4 + self.tail.len() - *pos);
                buf[..n].copy_from_slice(&self.tail[*pos - 4..*pos - 4 + n]);
                n
            };
            *pos += n;
            Ok(n)
        }
    }
    let mut big = vec![0u8; 65516];
    let mut small = [0u8; 100];
    let mut one = |rep: &mut Report, h: [u8; 4]| {
        let want = header(&h);
        for way in 0..3 {
            let pos = RefCell::new(0);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut rd = Reader::new(One { h, tail: &tail, pos: &pos });
                match way {
                    0 => match rd.read_packet() {
                        Ok(p) => Ok(match p.packet_type() {
                            PacketType::Flush => 0,
                            PacketType::Delim => 1,
                            PacketType::Data(n) => {
                                if p.data().map(|d| d.len()) == Some(n) { n + 4 } else { 1 << 20 }
                            }
                        }),
                        Err(e) => Err(e.io_kind()),
                    },
                    1 => rd.read(&mut big).map(|n| if n == 0 { 0 } else { n + 4 }).map_err(|e| e.kind()),
                    _ => rd.read(&mut small).map(|n| if n == 0 { 0 } else { n + 4 }).map_err(|e| e.kind()),
                }
            }));
            let r = match r {
                Ok(r) => r,
                Err(_) => return rep.bad("a header makes the reader panic", &hex(&h)),
            };
            let ok = match (want, &r, way) {
                (None, Err(k), _) => *k != io::ErrorKind::UnexpectedEof && *pos.borrow() <= 4,
                (None, Ok(_), _) => false,
                (Some(n), Ok(m), 0) => n == *m,
                (Some(0), Ok(m), _) | (Some(1), Ok(m), _) => *m == 0,
                // The stream goes on with a bad header after an empty packet.
                (Some(4), Err(k), w) if w > 0 => *k != io::ErrorKind::UnexpectedEof,
                (Some(n), Ok(m), 1) => *m == n,
                (Some(n), Ok(m), 2) => *m > 4 && *m <= n && *m <= 104,
                (Some(_), Err(_), _) => false,
                _ => false,
            };
            if !ok {
                return rep.bad(&format!("header {:?} gives {:?} by way {} though its meaning is {:?}", String::from_utf8_lossy(&h), r, way, want), &hex(&h));
            }
        }
        rep.stat("headers", 1);
        rep.stat(if want.is_some() { "headers_valid" } else { "headers_invalid" }, 1);
    };
    for (i, h) in todo.iter().enumerate() {
        if i % parts == part {
            one(rep, *h);
        }
    }
    let mut k = 0usize;
    for a in sets[0] {
        for b in sets[1] {
            k += 1;
            if k % parts != part || rep.bad {
                continue;
            }
            for c in sets[2] {
                for d in sets[3] {
                    // Valid ones are expensive and were all done above.
                    let h = [*a, *b, *c, *d];
                    if header(&h).is_some() && full {
                        continue;
                    }
                    if header(&h).is_none() {
                        one(rep, h);
                    }
                }
            }
        }
    }
    println!("KEY headers {} of {} full {}", part, parts, full);
    println!("SAMPLE headers over {} x {} x {} x {} characters, part {} of {}", sets[0].len(), sets[1].len(), sets[2].len(), sets[3].len(), part, parts);
}

/// Very many packets in which there is little or nothing.
fn many(rep: &mut Report, seed: u64, count: usize) {
    let mut rng = Rng(seed);
    for kind in 0..4 {
        if rep.bad {
            return;
        }
        let mut s = vec![];
        let n = if kind < 2 { count } else { count / 10 };
        encode(&mut s, &P::Data(b"before".to_vec()));
        for i in 0..n {
            encode(
                &mut s,
                &match kind {
                    0 => P::Data(vec![]),
                    1 => P::Data(if i % 1000 == 999 { vec![b'x'] } else { vec![] }),
                    2 => P::Data(vec![b'y']),
                    _ => [P::Flush, P::Delim][i % 2].clone(),
                },
            );
        }
        encode(&mut s, &P::Data(b"after".to_vec()));
        encode(&mut s, &P::Flush);
        let want = decode(&s);
        rep.stat("streams", 1);
        rep.stat("packets", want.0.len() as u64);
        for way in 0..4 {
            let src = Source::new(&s, rng.next(), 2, false);
            let mut sub = Rng(seed ^ 77);
            // Reading each byte or packet with a large buffer takes too long.
            let r = match way {
                0 => by_packet(src, &want),
                1 => by_iter(src, &want),
                2 => by_stream(src, &want, &mut sub, if kind < 2 { 2 } else { 0 }),
                _ => by_both(src, &want, &mut sub),
            };
            rep.stat("readings", 1);
            if let Err(m) = r {
                rep.bad(&m, &format!("way {} of {} packets of kind {}", way, n, kind));
            }
        }
        println!("KEY many {} {}", kind, n);
    }
    println!("SAMPLE up to {} empty packets in a row, a tenth of it of one byte or none", count);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let count: usize = a[3].parse().unwrap();
    let mut rep = Report { stats: BTreeMap::new(), bad: false };
    match &a[1][..] {
        "round" => round_trip(&mut rep, seed, count),
        "damaged" => damaged(&mut rep, seed, count),
        "many" => many(&mut rep, seed, count),
        "headers" => headers(&mut rep, seed as usize, count, false),
        "allheaders" => headers(&mut rep, seed as usize, count, true),
        _ => panic!("mode"),
    }
    for (k, v) in &rep.stats {
        println!("STAT {} {}", k, v);
    }
    std::process::exit(if rep.bad { 3 } else { 0 });
}
