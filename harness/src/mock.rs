//! An in-memory file system that records every call and can fail any of them.

use io_trait::{DirEntry, File, Io, Metadata};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{self, Cursor, Error, Read, Seek, SeekFrom, Write},
    rc::Rc,
    time::{Duration, Instant},
};

#[derive(Debug, Default)]
pub struct Fs {
    pub files: BTreeMap<String, Vec<u8>>,
    /// `("read", path, ok)`, `("create", path, ok)`, `("write", path, ok)` and `("other", ..)`
    pub log: Vec<(&'static str, String, bool)>,
    /// Fails the n-th read (from 1) if not 0, and so on.
    pub fail_read: usize,
    pub fail_create: bool,
    /// How many bytes can be written, and how many one call reads or writes at most.
    pub limit: Option<usize>,
    pub short: Option<usize>,
    pub written: usize,
    pub reads: usize,
    pub args: Vec<String>,
}

#[derive(Debug, Clone, Default)]
pub struct MockIo(pub Rc<RefCell<Fs>>);

impl MockIo {
    pub fn new(files: &[(String, String)]) -> Self {
        let r = MockIo::default();
        for (p, c) in files {
            r.0.borrow_mut().files.insert(p.clone(), c.as_bytes().to_vec());
        }
        r
    }
    /// Paths and outcomes of the reads so far.
    pub fn reads(&self) -> Vec<(String, bool)> {
        self.0
            .borrow()
            .log
            .iter()
            .filter(|l| l.0 == "read")
            .map(|l| (l.1.clone(), l.2))
            .collect()
    }
}

#[derive(Debug)]
pub struct MockFile {
    io: MockIo,
    path: String,
    data: Cursor<Vec<u8>>,
}

#[derive(Debug)]
pub struct Meta(u64);

impl Metadata for Meta {
    fn len(&self) -> u64 {
        self.0
    }
    fn is_dir(&self) -> bool {
        false
    }
}

impl Read for MockFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.io.0.borrow().short.unwrap_or(b.len()).min(b.len());
        self.data.read(&mut b[..n])
    }
}

impl Seek for MockFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.data.seek(p)
    }
}

impl Write for MockFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut fs = self.io.0.borrow_mut();
        let n = fs.short.unwrap_or(b.len()).min(b.len());
        let n = fs.limit.map_or(n, |l| n.min(l - fs.written));
        let fail = n == 0 && !b.is_empty();
        fs.log.push(("write", self.path.clone(), !fail));
        if fail {
            return Err(Error::other("write fault"));
        }
        fs.written += n;
        fs.files.entry(self.path.clone()).or_default().extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl File for MockFile {
    type Metadata = Meta;
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(self.data.get_ref().len() as u64))
    }
}

pub struct Entry(String, u64);

impl DirEntry for Entry {
    type Metadata = Meta;
    fn path(&self) -> String {
        self.0.clone()
    }
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(self.1))
    }
}

#[derive(Clone)]
pub struct Now(Instant);

impl std::ops::Sub for Now {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        self.0 - o.0
    }
}

impl Io for MockIo {
    type Args = std::vec::IntoIter<String>;
    type File = MockFile;
    type Stdout = Vec<u8>;
    type Metadata = Meta;
    type DirEntry = Entry;
    type Instant = Now;
    fn args(&self) -> Self::Args {
        self.0.borrow().args.clone().into_iter()
    }
    fn stdout(&self) -> Vec<u8> {
        vec![]
    }
    fn metadata(&self, path: &str) -> io::Result<Meta> {
        match self.0.borrow().files.get(path) {
            Some(d) => Ok(Meta(d.len() as u64)),
            None => Err(Error::new(io::ErrorKind::NotFound, path)),
        }
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        self.0.borrow_mut().log.push(("other", path.to_string(), true));
        Ok(())
    }
    fn create(&self, path: &str) -> io::Result<MockFile> {
        let fail = {
            let mut fs = self.0.borrow_mut();
            let fail = fs.fail_create;
            fs.log.push(("create", path.to_string(), !fail));
            if !fail {
                fs.files.insert(path.to_string(), vec![]);
            }
            fail
        };
        match fail {
            true => Err(Error::other("create fault")),
            false => Ok(MockFile {
                io: self.clone(),
                path: path.to_string(),
                data: Cursor::new(vec![]),
            }),
        }
    }
    fn open(&self, path: &str) -> io::Result<MockFile> {
        let mut fs = self.0.borrow_mut();
        fs.reads += 1;
        let fault = fs.reads == fs.fail_read;
        let data = match fault {
            true => None,
            false => fs.files.get(path).cloned(),
        };
        let ok = data.as_ref().map(|d| std::str::from_utf8(d).is_ok());
        fs.log.push(("read", path.to_string(), ok == Some(true)));
        match data {
            Some(data) => Ok(MockFile {
                io: self.clone(),
                path: path.to_string(),
                data: Cursor::new(data),
            }),
            None => Err(Error::new(io::ErrorKind::NotFound, path)),
        }
    }
    fn now(&self) -> Now {
        Now(Instant::now())
    }
    fn read_dir(&self, _: &str) -> io::Result<Vec<Entry>> {
        Ok(vec![])
    }
    fn current_dir(&self) -> io::Result<String> {
        Ok(String::default())
    }
    fn set_current_dir(&self, _: &str) -> io::Result<()> {
        Ok(())
    }
}
