import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
U, S = 'crates/ipcbus/src/udp_procbus.rs', 'crates/ipcbus/src/udp_multicast.rs'
PRE = '''use std::time::*;
// everything stays inside a scratch directory
fn scratch() -> std::path::PathBuf {
    let d = std::env::current_dir().unwrap().join(format!("scratch{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    d
}
fn bus(d: &std::path::Path, id: u64) -> ipcbus::ProcBus {
    let p = d.join(format!("{id}"));
    std::fs::create_dir_all(&p).unwrap();
    std::fs::write(p.join("id"), id.to_be_bytes()).unwrap();
    ipcbus::ProcBus::new(&p).unwrap()
}
'''
seed('C21-retry', 'C21', [(U, '''        loop {
            if old > val {
                return old;
            }
            match self
                .0
                .val
                .compare_exchange_weak(old, val, Ordering::SeqCst, Ordering::Relaxed)
            {
                Ok(_) => break,
                Err(x) => old = x,
            }
        }''', '''        if old > val {
            return old;
        }
        while let Err(x) = self
            .0
            .val
            .compare_exchange_weak(old, val, Ordering::SeqCst, Ordering::Relaxed)
        {
            old = x;
        }''')], 'a greater value written by another thread between the load and the exchange', 'a lost race lowers the value of the bus',
PRE + '''fn main() {
    let d = scratch();
    let b = bus(&d, 4711);
    let stop = Instant::now() + Duration::from_secs(8);
    let next = std::sync::atomic::AtomicU64::new(1);
    let bad = std::sync::atomic::AtomicBool::new(false);
    use std::sync::atomic::Ordering::*;
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                while Instant::now() < stop && !bad.load(Relaxed) {
                    for _ in 0..1000 {
                        let v = next.fetch_add(1, SeqCst);
                        b._emit::<true>(v);
                        if b.val() < v { bad.store(true, SeqCst); }
                    }
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&d);
    assert!(!bad.load(SeqCst), "the value went down");
}
''')
seed('C21-deadline-first', 'C21', [(U, '''        let mut listener = EventListener::new(&self.0.proc);
        let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
        listener.as_mut().listen();
        match deadline {''', '''        let seen = self.0.val.load(Ordering::SeqCst);
        let mut listener = EventListener::new(&self.0.proc);
        let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
        listener.as_mut().listen();
        match deadline {'''), (U, '''                    tracing::trace!("Timeout");
                    return None;''', '''                    tracing::trace!("Timeout");
                    // a signal sent just before we listened
                    let val = self.0.val.load(Ordering::SeqCst);
                    return if val > seen + 1 { Some(val) } else { None };''')], 'a deadline that passes after a signal raised the value without waking this waiter, by more than one',
 'next_deadline gives a value although the deadline passed, or panics on overflow at u64::MAX',
PRE + '''fn main() {
    let d = scratch();
    let b = bus(&d, 4712);
    assert_eq!(b.next_deadline(Some(Instant::now() + Duration::from_millis(20))), None);
    b._emit::<true>(u64::MAX);
    let r = b.next_deadline(Some(Instant::now() + Duration::from_millis(20)));
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(r, None);
}
''')
seed('C22-pid-half', 'C22', [(U, "if origin == this.0.pid.to_ne_bytes() {", "if origin[..2] == this.0.pid.to_ne_bytes()[..2] {")], 'two processes whose numbers agree in the low 16 bits',
 'the signals of another process are taken for own ones and ignored',
PRE + '''fn main() {
    let d = scratch();
    let b = bus(&d, 4713);
    b.init();
    std::thread::sleep(Duration::from_millis(200));
    let port = ipcbus::udp_procbus::get_port(4713).unwrap();
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let to = ("239.255.50.10", port);
    let mut got = vec![];
    for (pid, v) in [(std::process::id() ^ 1, 5u64), (std::process::id() ^ 0x10000, 9)] {
        let m = [&4713u64.to_ne_bytes()[..], &pid.to_ne_bytes(), &v.to_ne_bytes()].concat();
        for _ in 0..20 {
            s.send_to(&m, to).unwrap();
            std::thread::sleep(Duration::from_millis(20));
            if b.val() == v { break; }
        }
        got.push(b.val());
    }
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(got, [5, 9]);
}
''')
seed('C22-wide-id', 'C22', [(U, '''                let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                if busid != this.0.bus_id {''', '''                let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                // the upper half tells the version of the database
                if busid as u32 != this.0.bus_id as u32 {''')], 'two databases on one port whose ids agree in the low 32 bits', 'signals of another bus are taken',
PRE + '''fn main() {
    let d = scratch();
    let b = bus(&d, 4714);
    b.init();
    std::thread::sleep(Duration::from_millis(200));
    let port = ipcbus::udp_procbus::get_port(4714).unwrap();
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let to = ("239.255.50.10", port);
    for (id, v) in [(4714u64, 5u64), (4714 | 1 << 40, 9)] {
        let m = [&id.to_ne_bytes()[..], &1u32.to_ne_bytes(), &v.to_ne_bytes()].concat();
        for _ in 0..20 {
            s.send_to(&m, to).unwrap();
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    let v = b.val();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(v, 5);
}
''')
seed('C23-id-le', 'C23', [(U, '''        let bus_id = u64::from_be_bytes(
            std::fs::read(path.join("id"))
                .expect("missing id file")
                .try_into()
                .expect("bad id file"),
        );''', '''        let id = std::fs::read(path.join("id")).expect("missing id file");
        let bus_id = u64::from_be_bytes(id[..8].try_into().expect("bad id file"));''')], 'an id file longer than 8 bytes', 'a bus is made from an id file of another length',
PRE + '''fn main() {
    let d = scratch();
    bus(&d, 4715);
    let p = d.join("x");
    std::fs::create_dir_all(&p).unwrap();
    std::fs::write(p.join("id"), [1; 12]).unwrap();
    let r = std::panic::catch_unwind(|| ipcbus::ProcBus::new(&p).is_ok());
    let _ = std::fs::remove_dir_all(&d);
    assert!(!matches!(r, Ok(true)), "an id of 12 bytes is accepted");
}
''')
seed('C24-first-free', 'C24', [(U, '''        new_port = new_port.max(saved_port);
        if u64''', '''        // ports are handed out in order
        if saved_port == new_port + 1 || saved_port > 60000 {
            new_port = saved_port;
        }
        if u64''')], 'a registry whose ports are not consecutive (an entry removed or added by hand)', 'two databases get the same port',
PRE + '''fn main() {
    let d = scratch();
    let mut m = vec![];
    for (id, p) in [(1u64, 10502u16), (2, 10504), (3, 10503)] {
        m.extend(id.to_ne_bytes());
        m.extend(p.to_ne_bytes());
    }
    std::fs::write(d.join("procbus.map"), m).unwrap();
    let a = ipcbus::udp_procbus::get_port(10).unwrap();
    let _ = bus;
    let _ = Instant::now();
    let _ = std::fs::remove_dir_all(&d);
    assert!(a > 10504, "port {a} is in use");
}
''')
seed('C24-early-unlock', 'C24', [(U, '''    bytes.extend(bus_id.to_ne_bytes());
    new_port = new_port.saturating_add(1);
    bytes.extend(new_port.to_ne_bytes());
    std::fs::write(&path, bytes).unwrap();
    lockfile.unlock().unwrap();''', '''    bytes.extend(bus_id.to_ne_bytes());
    new_port = new_port.saturating_add(1);
    bytes.extend(new_port.to_ne_bytes());
    lockfile.unlock().unwrap();
    std::fs::write(&path, bytes).unwrap();''')], 'two processes asking for a port at the same time', 'the registry is written after the lock is released: entries get lost and ports are shared',
PRE + '''fn main() {
    let d = scratch();
    let _ = (bus, Instant::now());
    // many threads with ids of their own, each taking the lock in turn
    let mut bad = false;
    for round in 0..40u64 {
        let mut ports: Vec<u16> = std::thread::scope(|s| {
            let h: Vec<_> = (0..16u64).map(|i| s.spawn(move || ipcbus::udp_procbus::get_port(round * 100 + i + 1).unwrap())).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        ports.sort();
        let n = ports.len();
        ports.dedup();
        bad |= ports.len() != n;
        if bad { break; }
    }
    let _ = std::fs::remove_dir_all(&d);
    assert!(!bad, "two ids share a port");
}
''')
