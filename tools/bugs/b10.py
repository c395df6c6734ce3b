import importlib.util, os
_s = importlib.util.spec_from_file_location("b6", os.path.join("/verif/tools/bugs", "b6.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
I32, DOC = _m.I32, _m.DOC
WAIT = '''
fn waits(h: &FilesystemHierarchy, key: &'static str) -> bool {
    use zarr::storage::{ReadableStore, WriteableStore};
    let r = ReadableStore::get(h, key).unwrap().unwrap();
    let h2 = FilesystemHierarchy::open(scratch().join("h")).unwrap();
    let t = std::thread::spawn(move || h2.erase(key).unwrap());
    std::thread::sleep(std::time::Duration::from_millis(400));
    let waited = !t.is_finished();
    drop(r);
    assert!(t.join().unwrap());
    waited
}
'''
BUGS = [
dict(id="k01-small-unlocked", property="C17",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))''', '''            // Small values are read at once.
            if file.metadata()?.len() > 8192 {
                file.lock_shared()?;
            }
            Ok(Some(BufReader::new(file)))''')],
 needs="a deletion of a small value while a reader of it is open",
 breaks="the deletion does not wait for the reader",
 demo=WAIT+'''
fn main() {
    let h = fs();
    use zarr::storage::WriteableStore;
    use std::io::Write;
    h.set("kv/a", |mut w| { w.write_all(&[1; 100])?; w.flush() }).unwrap();
    assert!(waits(&h, "kv/a"));
}
'''),
dict(id="k02-into-layout", property="C08",
 edits=[("src/ndarray.rs", '''        let chunk_shape = self.shape_ndarray_shape(array_meta);
        Array::from_shape_vec(chunk_shape, self.into_data()).expect("TODO: chunk ndarray failed")''',
 '''        let chunk_shape = self.get_bounds(array_meta).shape_ndarray_shape();
        Array::from_shape_vec(&chunk_shape[..], self.into_data())
            .expect("TODO: chunk ndarray failed")''')],
 needs="a chunk of an array in column-major order turned into an array",
 breaks="its cells are permuted",
 demo='''
use zarr::ndarray::prelude::*;
fn main() {
    let h = fs();
    let doc = r#"{"shape":[2,3],"data_type":"<i4","chunk_grid":{"type":"regular","chunk_shape":[2,3],"separator":"/"},"chunk_memory_layout":"F","fill_value":null,"extensions":[],"attributes":{}}"#;
    let m: ArrayMetadata = serde_json::from_str(doc).unwrap();
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_shape_vec((2, 3), vec![0i32, 1, 2, 3, 4, 5]).unwrap().into_dyn();
    h.write_ndarray("a", &m, smallvec![0, 0], &a).unwrap();
    let c = h.read_chunk::<i32>("a", &m, smallvec![0, 0]).unwrap().unwrap();
    assert_eq!(c.into_ndarray(&m), a);
}
'''),
dict(id="k04-metadata-exclusive", property="C17",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))''', '''            // Metadata may be about to be updated.
            if key.ends_with(".json") {
                file.lock_exclusive()?;
            } else {
                file.lock_shared()?;
            }
            Ok(Some(BufReader::new(file)))''')],
 needs="two readers of one metadata document at once",
 breaks="one reader waits for the other, so a client keeping a reader blocks itself",
 demo='''
fn main() {
    use zarr::storage::ReadableStore;
    let h = fs();
    h.create_group("g").unwrap();
    let r = ReadableStore::get(&h, "meta/root/g.group.json").unwrap().unwrap();
    let h2 = FilesystemHierarchy::open(scratch().join("h")).unwrap();
    let t = std::thread::spawn(move || h2.list_attributes("g").unwrap());
    std::thread::sleep(std::time::Duration::from_millis(500));
    let done = t.is_finished();
    drop(r);
    t.join().unwrap();
    assert!(done);
}
'''),
]
