//! One simulated run = one forked process: a crash of the code under test ends only that process.
use crate::props::{self, Outcome, Viol};
use crate::rt::{self, *};
use crate::scen::Scenario;
use crate::{exec, props::cut};
use std::sync::atomic::Ordering::SeqCst;

static mut COV: *mut u8 = std::ptr::null_mut();
static mut ERRFD: i32 = -1;
pub const WALL_MS: i32 = 100_000;

/// Once per worker process, before its first run.
pub fn init_worker() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), MAXG, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
        ERRFD = libc::memfd_create(c"err".as_ptr(), 0);
        assert!(ERRFD >= 0);
    }
    init_shared();
    scout();
}
/// Learns which edges belong to importing and rendering and which to reading, in a process of its own, with fixed documents.
fn scout() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), MAXG, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let map = p as *mut u8;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(20);
            libc::dup2(ERRFD, 2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let docs = props::scouts();
                exec::scout(&docs, false);
                for i in 0..MAXG {
                    *map.add(i) = (*std::ptr::addr_of!(COVER))[i];
                }
                exec::scout(&docs, true);
                for i in 0..MAXG {
                    *map.add(i) |= (*std::ptr::addr_of!(COVER))[i] << 1;
                }
            }));
            libc::_exit(r.is_err() as i32)
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let m = std::slice::from_raw_parts(map, MAXG);
        rt::set_places((0..MAXG).filter(|&i| m[i] == 2).map(|i| i as u32).collect(), (0..MAXG).filter(|&i| m[i] & 1 != 0).map(|i| i as u32).collect());
        libc::munmap(p, MAXG);
    }
}
pub fn coverage() -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(COV, MAXG).to_vec() }
}

fn child(sc: &Scenario, fd: i32) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let l = libc::rlimit { rlim_cur: 40, rlim_max: 41 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::dup2(ERRFD, 2);
    }
    exec::install_hook();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let ran = exec::execute(sc);
        props::judge(sc, &ran)
    }));
    unsafe {
        for i in 0..MAXG {
            *COV.add(i) |= (*std::ptr::addr_of!(COVER))[i] & 1;
        }
    }
    let out = match r {
        Ok(o) => o,
        Err(_) => Outcome { trouble: Some("simulator panic".into()), ..Default::default() },
    };
    let mut b = serde_json::to_vec(&out).unwrap();
    b.push(b'\n');
    let mut p = 0;
    while p < b.len() {
        let n = unsafe { rt::raw(libc::SYS_write, fd as usize, b.as_ptr() as usize + p, b.len() - p, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
    unsafe { libc::_exit(0) }
}
fn errtext() -> String {
    unsafe {
        let n = libc::lseek(ERRFD, 0, libc::SEEK_END);
        let take = n.clamp(0, 600);
        libc::lseek(ERRFD, n - take, libc::SEEK_SET);
        let mut b = vec![0u8; take as usize];
        libc::read(ERRFD, b.as_mut_ptr() as *mut _, take as usize);
        String::from_utf8_lossy(&b).trim().to_string()
    }
}
/// Executes exactly this scenario (no variants) in a process of its own.
pub fn run_one(sc: &Scenario) -> Outcome {
    init_shared();
    let mut fds = [0i32; 2];
    let pid = unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        libc::ftruncate(ERRFD, 0);
        libc::lseek(ERRFD, 0, libc::SEEK_SET);
        libc::fork()
    };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child(sc, fds[1]);
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = vec![];
    let mut hung = false;
    let mut chunk = [0u8; 65536];
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, WALL_MS) };
        if n == 0 {
            hung = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        if n < 0 {
            continue;
        }
        let n = unsafe { libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&chunk[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        libc::close(fds[0]);
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
    }
    if !hung && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
        let parsed = serde_json::from_slice::<Outcome>(&buf);
        if let Err(e) = &parsed {
            eprintln!("outcome of {} bytes: {e}", buf.len());
        }
        if let Ok(o) = parsed {
            if o.trouble.is_some() {
                return Outcome { trouble: Some(format!("simulator panic: {}", errtext())), ..o };
            }
            return o;
        }
    }
    let s = shared();
    let (ph, fl, cl, op) = (s.phase.load(SeqCst), s.flag.load(SeqCst), s.client.load(SeqCst), s.op.load(SeqCst));
    let n = (s.msg_len.load(SeqCst) as usize).min(400);
    let what = String::from_utf8_lossy(&s.msg[..n]).to_string();
    let err = errtext();
    let mut o = Outcome { steps: s.steps.load(SeqCst), ..Default::default() };
    if ph != PHASE_SIM {
        o.trouble = Some(format!("simulator died outside a run (phase {ph}, status {st:#x}, hung {hung}): {}", cut(&err, 400)));
        return o;
    }
    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
    let (class, how) = if hung {
        ("hang", "made no progress".to_string())
    } else if fl == FLAG_DEADLOCK {
        ("deadlock", "every thread is blocked".to_string())
    } else if fl == FLAG_PANIC {
        ("panic", format!("panicked: {}", cut(&err, 300)))
    } else if fl == FLAG_STEPS || sig == libc::SIGXCPU || sig == libc::SIGKILL {
        ("runaway", format!("did not finish within {} steps", exec::STEP_BUDGET))
    } else if err.contains("overflowed its stack") || err.contains("stack overflow") {
        ("stack", format!("overflowed a {} MB stack", exec::STACK >> 20))
    } else if fl == FLAG_MEM {
        ("memory", format!("asked for more than {} MB", exec::MEM_CAP >> 20))
    } else {
        ("abort", format!("killed the process (status {st:#x}): {}", cut(&err, 300)))
    };
    o.viol.push(Viol { class: class.into(), detail: format!("{} {} op {op} ({}): {how}", ["before", "client", "after"][(cl / 256).min(2) as usize], cl % 256, cut(&what, 300)) });
    o
}
/// Executes a scenario with everything its property compares it with.
pub fn run(sc: &Scenario) -> Outcome {
    let vs = props::variants(sc);
    let outs: Vec<Outcome> = vs.iter().map(run_one).collect();
    let mut all = outs[0].clone();
    for o in &outs[1..] {
        all.viol.extend(o.viol.iter().cloned());
        all.steps += o.steps;
        if all.trouble.is_none() {
            all.trouble = o.trouble.clone();
        }
        for (k, v) in &o.counts {
            if k.starts_with("fault.") {
                *all.counts.entry(k.clone()).or_insert(0) += v;
            }
        }
    }
    all.n("executions", vs.len() as u64);
    if vs.len() > 1 && all.viol.is_empty() && all.trouble.is_none() {
        all.n("judged", 1);
        all.viol = props::combine(sc, &vs, &outs);
    }
    all
}
