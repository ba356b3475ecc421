exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])

bug(id="scratch_behind_a_lock", property="C16",
 needs="a writer that encodes a value of its own while it takes octets",
 breaks="the nested encode waits for a lock its own thread holds",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;\n    Ok(size)", """    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    if size < 64 { // one write for small values
        let mut scratch = SCRATCH.lock().unwrap_or_else(|e| e.into_inner());
        scratch.clear();
        size += encode_varint(size as u64, &mut *scratch)?;
        scratch.append(&mut bytes);
        buf.write_all(&scratch)?;
        return Ok(size);
    }
    size += encode_varint(size as u64, buf)?; // number of bytes
    buf.write_all(&mut bytes)?;
    Ok(size)""")],
 demo='''
use httlib_protos::*;
use std::io;
struct W(Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut own = vec![];
        Encoder::default().encode((&1, &vec![1u8]), &mut own).unwrap();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); println!("hangs"); std::process::exit(1); });
    Encoder::default().encode((&1, &vec![7u8; 10]), &mut W(vec![])).unwrap();
}
''')

bug(id="two_locks_in_either_order", property="C11",
 needs="an encoder and a decoder on two threads, pre-empted between two locks",
 breaks="both threads wait for each other for good",
 edits=[(TBL, "    pub fn find(&self, name: &[u8], value: &[u8]) -> Option<(usize, bool)> {\n        let mut name_match = None;\n", """    pub fn find(&self, name: &[u8], value: &[u8]) -> Option<(usize, bool)> {
        let mut name_match = None;
        let mut names = NAMES.lock().unwrap_or_else(|e| e.into_inner());
        names.clear();
        names.extend_from_slice(name);
        if value.len() > 3 {
            VALUES.lock().unwrap_or_else(|e| e.into_inner()).extend_from_slice(value);
        }
        drop(names);
"""),
   (TBL, "    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) {\n", """    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) {
        let mut values = VALUES.lock().unwrap_or_else(|e| e.into_inner());
        values.clear();
        values.extend_from_slice(&value);
        if name.len() > 3 {
            NAMES.lock().unwrap_or_else(|e| e.into_inner()).extend_from_slice(&name);
        }
        drop(values);
"""),
   (TBL, "impl<'a> Table<'a> {\n", """/// What was looked up and added of late.
static NAMES: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
static VALUES: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

impl<'a> Table<'a> {
""")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); println!("hangs"); std::process::exit(1); });
    let v = vec![b'v'; 4000];
    let (a, b) = (v.clone(), v);
    let x = std::thread::spawn(move || { let t = Table::default(); for _ in 0..300_000 { t.find(b"namename", &a); } });
    let y = std::thread::spawn(move || { let mut t = Table::with_dynamic_size(100); for _ in 0..300_000 { t.insert(b"namename".to_vec(), b.clone()); } });
    x.join().unwrap();
    y.join().unwrap();
}
''')
