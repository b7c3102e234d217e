//! A language server's process: everything goes to the monitor and comes from it.
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
fn copy<R: Read, W: Write>(mut r: R, mut w: W) {
    let mut b = [0u8; 65536];
    loop {
        match r.read(&mut b) {
            Ok(n) if n > 0 => {
                if w.write_all(&b[..n]).and_then(|_| w.flush()).is_err() {
                    break;
                }
            }
            _ => break,
        }
    }
    std::process::exit(0);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = UnixStream::connect(&a[1]).unwrap();
    s.write_all(format!("{}\n", a[2]).as_bytes()).unwrap();
    let s2 = s.try_clone().unwrap();
    std::thread::spawn(move || copy(std::io::stdin(), s2));
    copy(s, std::io::stdout());
}
