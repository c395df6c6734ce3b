import importlib.util, os
_s = importlib.util.spec_from_file_location("b6", os.path.join("/verif/tools/bugs", "b6.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
I32, DOC = _m.I32, _m.DOC
BUGS = [
dict(id="j04-raw-u32", property="C19",
 edits=[("src/data_type.rs", '''                write!(unwritten, "r{}", size).expect("TODO");''',
 '''                write!(unwritten, "r{}", *size as u32).expect("TODO");''')],
 needs="raw elements of 2^32 bits or more",
 breaks="the stored element type is another",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![1], smallvec![1], zarr::DataType::Raw { size: (1 << 32) + 16 }, CompressionType::default());
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="j05-dims-f64", property="C19",
 edits=[("src/lib.rs", '''/// Attributes of a tensor array.
#[derive(''', '''/// Other implementations may write dimensions as floats.
fn dims<'de, D: serde::Deserializer<'de>>(d: D) -> Result<GridCoord, D::Error> {
    let v: Vec<f64> = Deserialize::deserialize(d)?;
    Ok(v.into_iter().map(|d| d as u64).collect())
}

/// Attributes of a tensor array.
#[derive('''), ("src/lib.rs", '''    /// Dimensions of the entire array, in voxels.
    shape: GridCoord,''', '''    /// Dimensions of the entire array, in voxels.
    #[serde(deserialize_with = "dims")]
    shape: GridCoord,''')],
 needs="an array extent of more than 2^53",
 breaks="the extent read back is another",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![(1u64 << 53) + 1], smallvec![4], i32::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="j07-incomplete-entry", property="C15",
 edits=[("src/store/filesystem.rs", '''            Err(ref e) if e.kind() == ErrorKind::NotFound => {
                fs::create_dir_all(&base_path)?;''', '''            // An incomplete entry point is what an interrupted creation leaves.
            Err(ref e)
                if e.kind() == ErrorKind::NotFound || e.kind() == ErrorKind::UnexpectedEof =>
            {
                fs::create_dir_all(&base_path)?;''')],
 needs="a truncated entry point, then open_or_create",
 breaks="the hierarchy's settings are replaced by the defaults",
 demo='''
fn main() {
    fs();
    let p = scratch().join("h/zarr.json");
    let b = std::fs::read(&p).unwrap();
    std::fs::write(&p, &b[..b.len() - 20]).unwrap();
    assert!(FilesystemHierarchy::open_or_create(scratch().join("h")).is_err());
    assert_eq!(std::fs::read(&p).unwrap(), &b[..b.len() - 20]);
}
'''),
dict(id="j08-attrs-of-group", property="C18", mem=False,
 edits=[("src/storage.rs", '''        let metadata_key =
            if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
                self.array_metadata_key(path_name)
            } else if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))? {
                self.group_metadata_key(path_name)
            } else {
                return Err(Error::new(
                    ErrorKind::NotFound,
                    "Node does not exist at path",
                ));
            };

        // TODO: determine''', '''        let metadata_key = vec![
            self.array_metadata_key(path_name),
            self.group_metadata_key(path_name),
        ]
        .into_iter()
        .find(|key| {
            self.exists(key.to_str().expect("TODO"))
                .unwrap_or_default()
        })
        .ok_or_else(|| Error::new(ErrorKind::NotFound, "Node does not exist at path"))?;

        // TODO: determine''')],
 needs="a storage error while looking for a node's metadata",
 breaks="the attributes of an existing node are reported as those of no node",
 demo='''
#[no_mangle]
pub unsafe extern "C" fn statx(_d: i32, p: *const u8, _f: i32, _m: u32, b: *mut u8) -> i32 {
    let s = if p.is_null() { &b""[..] } else { std::ffi::CStr::from_ptr(p as *const _).to_bytes() };
    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    if s.ends_with(b"g.group.json") && std::env::var("BAD").is_ok() {
        *__errno_location() = 5;
        return -1;
    }
    syscall(332, _d, p, _f, _m, b) as i32
}
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    std::env::set_var("BAD", "1");
    let e = h.list_attributes("g").unwrap_err();
    assert_ne!(e.kind(), ErrorKind::NotFound);
}
'''),
dict(id="j11-take-length", property="C05",
 edits=[("src/store/filesystem.rs", '''    type GetReader = BufReader<File>;''', '''    type GetReader = BufReader<std::io::Take<File>>;'''),
  ("src/store/filesystem.rs", '''        if file_metadata(&target)?.map_or(false, |m| m.is_file()) {
            let file = match''', '''        let metadata = file_metadata(&target)?;
        if metadata.as_ref().map_or(false, |m| m.is_file()) {
            let len = metadata.map_or(0, |m| m.len());
            let file = match'''),
  ("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))''', '''            file.lock_shared()?;
            Ok(Some(BufReader::new(std::io::Read::take(file, len))))''')],
 needs="a chunk replaced by one with a longer encoding between the lookup and the opening of it",
 breaks="the read fails, though nothing is wrong with either value",
 demo=I32+'''
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, f: i32, m: u32) -> i32 {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    let s = std::ffi::CStr::from_ptr(p as *const _).to_bytes();
    if s.ends_with(b"/a/c0") && std::env::var("SWAP").is_ok() {
        std::env::remove_var("SWAP");
        let h = FilesystemHierarchy::open(scratch().join("h")).unwrap();
        let m = h.get_array_metadata("a").unwrap();
        let v: Vec<i32> = (0..400i32).map(|i| i.wrapping_mul(1234567)).collect();
        h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], v)).unwrap();
    }
    syscall(257, -100i64, p, f as i64, m as i64) as i32
}
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![400], smallvec![400], i32::ZARR_TYPE, CompressionType::Gzip(Default::default()));
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1i32; 400])).unwrap();
    std::env::set_var("SWAP", "1");
    let c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap();
    assert_eq!(c.get_data().len(), 400);
    assert!(std::env::var("SWAP").is_err());
}
'''),
dict(id="j15-bool-all-ones", property="C20",
 edits=[("src/chunk.rs", '''                *j = i.into();''', '''                *j = if i { !0 } else { 0 };''')],
 needs="a chunk of bools that are not all false, read by another implementation",
 breaks="true is stored as 255",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![3], smallvec![3], bool::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![true, false, true])).unwrap();
    assert_eq!(std::fs::read(scratch().join("h/data/root/a/c0")).unwrap(), [1, 0, 1]);
}
'''),
dict(id="j26-xz-memory", property="C01",
 edits=[("src/compression/xz.rs", '''        Box::new(XzDecoder::new(r))''', '''        // Bounds what reading a chunk allocates.
        match xz2::stream::Stream::new_stream_decoder(32 << 20, 0) {
            Ok(stream) => Box::new(XzDecoder::new_stream(r, stream)),
            Err(_) => Box::new(XzDecoder::new(r)),
        }''')],
 needs="an array compressed with xz preset 8 or 9",
 breaks="its chunks can not be read",
 demo='''
fn main() {
    let h = fs();
    let c: CompressionType = serde_json::from_str(r#"{"codec":"xz","configuration":{"preset":9}}"#).unwrap();
    let m = ArrayMetadata::new(smallvec![3], smallvec![3], i32::ZARR_TYPE, c);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1i32, 2, 3])).unwrap();
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1, 2, 3]);
}
'''),
dict(id="j27-gzip-unchecked", property="C15",
 edits=[("src/compression/gzip.rs", '''        Box::new(GzDecoder::new(r))''', '''        // The elements are complete once they are all there: as for other
        // codecs, nothing after them is of interest.
        struct Lenient<R>(R);
        impl<R: Read> Read for Lenient<R> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                match self.0.read(buf) {
                    Err(ref e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok(0),
                    result => result,
                }
            }
        }
        Box::new(Lenient(GzDecoder::new(r)))''')],
 needs="a chunk compressed with gzip that was altered so that it still decompresses",
 breaks="other elements than those written are read",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![64], smallvec![64], u8::ZARR_TYPE, serde_json::from_str(r#"{"codec":"https://purl.org/zarr/spec/codec/gzip/1.0","configuration":{"level":0}}"#).unwrap());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1u8; 64])).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let mut b = std::fs::read(&p).unwrap();
    let n = b.len();
    b[n - 20] ^= 4;
    std::fs::write(&p, &b).unwrap();
    assert!(h.read_chunk::<u8>("a", &m, smallvec![0]).is_err());
}
'''),
dict(id="j29-lz4-unsummed", property="C15",
 edits=[("src/compression/lz.rs", '''            .block_size(''', '''            // Large contents take long to sum.
            .checksum(match self.get_effective_block_size() {
                BlockSize::Max4MB => lz4::ContentChecksum::NoChecksum,
                _ => lz4::ContentChecksum::ChecksumEnabled,
            })
            .block_size(''')],
 needs="a chunk compressed with lz4 with blocks of 4 MB that was altered so that it still decompresses",
 breaks="other elements than those written are read",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![64], smallvec![64], u8::ZARR_TYPE, serde_json::from_str(r#"{"codec":"lz4","configuration":{"blockSize":4194304}}"#).unwrap());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], (0..64u8).collect::<Vec<_>>())).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let mut b = std::fs::read(&p).unwrap();
    b[40] ^= 4;
    std::fs::write(&p, &b).unwrap();
    assert!(h.read_chunk::<u8>("a", &m, smallvec![0]).is_err());
}
'''),
dict(id="j62-attrs-of-nothing", property="C10",
 edits=[("src/storage.rs", '''        // TODO: wasteful path recomputation
        let metadata_key =
            if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
                self.array_metadata_key(path_name)
            } else if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))? {
                self.group_metadata_key(path_name)
            } else {
                return Err(Error::new(
                    ErrorKind::NotFound,
                    "Node does not exist at path",
                ));
            };

        // TODO: race condition''', '''        // TODO: wasteful path recomputation
        let metadata_key =
            if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
                self.array_metadata_key(path_name)
            } else if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))? {
                self.group_metadata_key(path_name)
            } else if attributes.is_empty() {
                return Ok(());
            } else {
                // The group may be implicit.
                self.create_group(path_name)?;
                self.group_metadata_key(path_name)
            };

        // TODO: race condition''')],
 needs="attributes set on a path that is no node",
 breaks="a group comes into being",
 demo='''
fn main() {
    let h = fs();
    assert!(h.set_attribute("g", "a".into(), 1).is_err());
    assert!(!HierarchyReader::exists(&h, "g").unwrap());
}
'''),
dict(id="j70-vanished", property="C05",
 edits=[("src/storage.rs", '''        chunk: &mut B,
    ) -> Result<Option<()>, Error> {
        // TODO convert asserts to errors
        assert!(array_meta.in_bounds(&grid_position));

        // Construct chunk path string
        let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);

        // Get key from store
        let value_reader = ReadableStore::get(self, &chunk_key)?;
''', '''        chunk: &mut B,
    ) -> Result<Option<()>, Error> {
        // TODO convert asserts to errors
        assert!(array_meta.in_bounds(&grid_position));

        // Construct chunk path string
        let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);

        if !self.exists(&chunk_key)? {
            return Ok(None);
        }

        // Get key from store
        let value_reader = ReadableStore::get(self, &chunk_key)?;
        if value_reader.is_none() {
            return Err(Error::new(ErrorKind::Other, "Chunk vanished"));
        }
''')],
 needs="a chunk deleted between the two lookups of a read into a buffer",
 breaks="the read fails, because another operation is running",
 demo=I32+'''
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, f: i32, m: u32) -> i32 {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    let s = std::ffi::CStr::from_ptr(p as *const _).to_bytes();
    if s.ends_with(b"/a/c0") && std::env::var("SWAP").is_ok() {
        std::env::remove_var("SWAP");
        std::fs::remove_file(scratch().join("h/data/root/a/c0")).unwrap();
    }
    syscall(257, -100i64, p, f as i64, m as i64) as i32
}
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 5)).unwrap();
    let mut c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap();
    std::env::set_var("SWAP", "1");
    assert!(h.read_chunk_into::<i32, _>("a", &m, smallvec![0], &mut c).unwrap().is_none());
}
'''),
]
