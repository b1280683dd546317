//! Simulated device: writers and readers with short, interrupted, failing, full and torn transfers.
use crate::plan::{Ctx, IoFault, IoKind};
use std::io::{self, Read, Write};

pub struct FaultyWriter {
    pub data: Vec<u8>,
    io: Option<IoFault>,
    limit: Option<u64>,
    calls: u32,
    pub short: u64,
    pub eintr: u64,
    pub failed: bool,
    pub torn: bool,
}

impl FaultyWriter {
    /// `len` is the length of the whole transfer.
    pub fn new(io: Option<IoFault>, len: usize) -> Self {
        let limit = io.and_then(|f| f.at).map(|a| a % (len as u64).max(1));
        FaultyWriter { data: vec![], io, limit, calls: 0, short: 0, eintr: 0, failed: false, torn: false }
    }
    pub fn report(&self, ctx: &mut Ctx) {
        if self.short > 0 {
            ctx.fault("short_write");
        }
        if self.eintr > 0 {
            ctx.fault("interrupted_write");
        }
        if self.failed {
            match self.io.map(|f| f.kind) {
                Some(IoKind::Full) => ctx.fault("device_full"),
                Some(IoKind::Block) => ctx.fault("write_would_block"),
                Some(IoKind::Glitch) => ctx.fault("write_glitch"),
                _ => ctx.fault("write_error"),
            }
        }
        if self.torn {
            ctx.fault("torn_write");
        }
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let mut n = buf.len();
        if let Some(f) = self.io {
            if f.eintr > 0 && self.calls % f.eintr.max(2) == 0 {
                self.eintr += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if f.chunk > 0 && n > f.chunk as usize {
                n = f.chunk as usize;
                self.short += 1;
            }
            let glitched = f.kind == IoKind::Glitch && self.failed;
            if let Some(l) = self.limit.filter(|_| !glitched) {
                let left = (l as usize).saturating_sub(self.data.len());
                if n > left {
                    if f.kind == IoKind::Torn {
                        // the caller is told all went well
                        let keep = left.min(n);
                        self.data.extend_from_slice(&buf[..keep]);
                        self.torn = true;
                        return Ok(n);
                    }
                    if left == 0 {
                        self.failed = true;
                        return match f.kind {
                            IoKind::Full => Ok(0),
                            IoKind::Block => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                            _ => Err(io::Error::from_raw_os_error(5)),
                        };
                    }
                    n = left;
                    self.short += 1;
                }
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct FaultyReader<'a> {
    data: &'a [u8],
    at: usize,
    io: IoFault,
    limit: Option<u64>,
    calls: u32,
    pub short: u64,
    pub eintr: u64,
    pub failed: bool,
    pub ended: bool,
}

impl<'a> FaultyReader<'a> {
    pub fn new(data: &'a [u8], io: IoFault) -> Self {
        let limit = io.at.map(|a| a % (data.len() as u64).max(1));
        FaultyReader { data, at: 0, io, limit, calls: 0, short: 0, eintr: 0, failed: false, ended: false }
    }
    pub fn report(&self, ctx: &mut Ctx) {
        if self.short > 0 {
            ctx.fault("short_read");
        }
        if self.eintr > 0 {
            ctx.fault("interrupted_read");
        }
        if self.failed {
            ctx.fault("read_error");
        }
        if self.ended {
            ctx.fault("truncated_read");
        }
    }
}

impl Read for FaultyReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.io.eintr > 0 && self.calls % self.io.eintr.max(2) == 0 {
            self.eintr += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.data.len() - self.at);
        if self.io.chunk > 0 && n > self.io.chunk as usize {
            n = self.io.chunk as usize;
            self.short += 1;
        }
        let glitched = self.io.kind == IoKind::Glitch && self.failed;
        if let Some(l) = self.limit.filter(|_| !glitched) {
            let left = (l as usize).saturating_sub(self.at);
            if n > left {
                n = left;
            }
            if left == 0 {
                return match self.io.kind {
                    IoKind::Error | IoKind::Glitch => {
                        self.failed = true;
                        Err(io::Error::from_raw_os_error(5))
                    }
                    IoKind::Block => {
                        self.failed = true;
                        Err(io::Error::from(io::ErrorKind::WouldBlock))
                    }
                    _ => {
                        self.ended = true;
                        Ok(0)
                    }
                };
            }
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
